//! Digests and self-addressing documents.
use crate::spec::*;
use keride::cesr::*;
use keride::data::Value;
use symrt::*;

fn routes(d: &Diger, k: usize) -> Diger {
    match k {
        0 => d.clone(),
        1 => ok(Diger::new_with_raw(&d.raw(), Some(&d.code())), "raw"),
        2 => ok(Diger::new_with_qb64(&ok(d.qb64(), "qb64")), "qb64"),
        3 => ok(Diger::new_with_qb64b(&ok(d.qb64b(), "qb64b")), "qb64b"),
        _ => ok(Diger::new_with_qb2(&ok(d.qb2(), "qb2")), "qb2"),
    }
}

const FILL: &str = "############################################################################################################################";
/// what the digest of a document covers: label filled, size right, ignored fields left out
fn covered(doc: &Value, code: &str, label: &str, ident: &str, ignore: &[&str]) -> (Value, Value) {
    let mut full = with(doc, label, st(&FILL[..entry(code).4]));
    if full.to_map().unwrap().contains_key("v") {
        full = sized(&full, ident);
    }
    let mut part = full.clone();
    for l in ignore {
        part = without(&part, l);
    }
    (full, part)
}
/// a document with symbolic contents
struct Doc {
    doc: Value,
    ident: &'static str,
    label: String,
}
fn document(wide: bool) -> Doc {
    let ident = ["KERI", "ACDC"][choose("protocol", 2)];
    let label = ["d", "$id", "q"][param("label") as usize].to_string();
    let mut f: Vec<(String, Value)> = vec![];
    let (size, own) = if wide { [(0, ""), (0xabcdef, "#"), (1, "EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE")][choose("own digest", 3)] } else { (0, "") };
    if choose("versioned", 2) == 1 {
        f.push(("v".into(), st(&vers(ident, size))));
    }
    let first = choose("place", 2) == 1;
    if first {
        f.push((label.clone(), st(own)));
    }
    f.push(("x".into(), st(&b64str("x", 1 + choose("x length", if wide { 3 } else { 2 })))));
    if !first {
        f.push((label.clone(), st(own)));
    }
    f.push(("y".into(), obj(vec![("p", arr(vec![st(&b64str("p", 2)), Value::Null, Value::Boolean(true)])), ("n", Value::from(-12))])));
    Doc { doc: Value::Object(f.into_iter().collect()), ident, label }
}
fn warm() {
    let _ = common::deversify("KERI10JSON000000_");
    let _ = common::sizeify(&obj(vec![("v", st("KERI10JSON000000_"))]), None);
}

harnesses! {
    /// a digest verifies the data it was made from and no other
    fn h_diger() {
        let k = choose("code", 9);
        let n = choose("length", param("n") as usize + 1);
        let m = choose("other length", param("n") as usize + 1);
        let data = vec("data", n);
        let other = vec("other", m);
        let want = ideal(k, &data);
        let code = DIGESTS[k].0;
        let d = match k {
            0 if choose("code given", 2) == 0 => ok(Diger::new_with_ser(&data, None), "digest"),
            _ => ok(Diger::new_with_ser(&data, Some(code)), "digest"),
        };
        check(d.code() == code && same(&d.raw(), &want), "the code's digest of the data");
        let d = routes(&d, choose("route", 5));
        check(d.code() == code && same(&d.raw(), &want), "kept by its encodings");
        check(ok(d.verify(&data), "verify"), "verifies its data");
        reach("verified");
        if ok(d.verify(&other), "verify") {
            reach("same data");
            check(same(&data, &other), "verifies no other data");
        } else {
            reach("other data");
            check(!same(&data, &other), "verifies equal data");
        }
    }

    /// any raw as digest
    fn h_digraw() {
        let k = choose("code", 9);
        let code = DIGESTS[k].0;
        let raw = vec("raw", rawsize(entry(code)));
        let data = vec("data", choose("length", param("n") as usize + 1));
        let d = ok(Diger::new_with_raw(&raw, Some(code)), "digest");
        let want = ideal(k, &data);
        if ok(d.verify(&data), "verify") {
            reach("verified");
            check(same(&want, &raw), "verifies only its data");
        } else {
            reach("refused");
            check(!same(&want, &raw), "verifies its data");
        }
    }

    /// only digest codes make digests
    fn h_digcode() {
        let e = &MATTER[choose("code", MATTER.len())];
        let data = vec("data", 3);
        let is = DIGESTS.iter().any(|d| d.0 == e.0);
        match Diger::new_with_ser(&data, Some(e.0)) {
            Ok(d) => {
                reach("made");
                check(is && d.code() == e.0, "only digest codes");
            }
            Err(_) => {
                reach("refused");
                check(!is, "every digest code");
            }
        }
        match Saider::saidify(&obj(vec![("d", st("")), ("x", st("y"))]), Some(e.0), None, None, None) {
            Ok((s, _)) => check(is && s.code() == e.0, "only digest codes"),
            Err(_) => check(!is, "every digest code"),
        }
        let other = ["", "E ", "EE", "0", "Z", "4A"][choose("no code", 6)];
        check(Diger::new_with_ser(&data, Some(other)).is_err(), "unknown codes are refused");
        check(Saider::saidify(&obj(vec![("d", st(""))]), Some(other), None, None, None).is_err(), "unknown codes are refused");
    }

    /// comparing two digests
    fn h_compare() {
        let (a, b) = (choose("code", 9), choose("other code", 9));
        let data = vec("data", 2);
        let make = |k: usize, name: &str| {
            let code = DIGESTS[k].0;
            let raw = if choose(&format!("{name} is"), 2) == 0 { ideal(k, &data) } else { vec(name, rawsize(entry(code))) };
            (ok(Diger::new_with_raw(&raw, Some(code)), "digest"), same(&raw, &ideal(k, &data)))
        };
        let ((x, xv), (y, yv)) = (make(a, "one"), make(b, "other"));
        let r = match choose("how", 2) {
            0 => x.compare(&data, None, Some(&y)),
            _ => x.compare(&data, Some(&ok(y.qb64b(), "qb64b")), None),
        };
        let want = if a == b { same(&x.raw(), &y.raw()) } else { xv & yv };
        if ok(r, "compare") {
            reach("equal");
            check(want, "equal only when the same, or both digests of the data");
        } else {
            reach("different");
            check(!want, "the same, or both digests of the data");
        }
        check(x.compare(&data, None, None).is_err(), "nothing to compare with");
    }

    /// the digest of a document
    fn h_saidify() {
        warm();
        let any = param("code") == 99;
        let k = if any { choose("code", 9) } else { param("code") as usize };
        let code = DIGESTS[k].0;
        let Doc { doc, ident, label } = document(!any);
        let ignore: &[&str] = if any { &[] } else { [&[][..], &["y"], &["x", "z"]][choose("ignore", 3)] };
        let call = if any { 0 } else { choose("call", 3) };
        let given = if call < 2 { Some(code) } else { None };
        let (k, code) = if given.is_some() { (k, code) } else { (0, "E") };
        let (full, part) = covered(&doc, code, &label, ident, ignore);
        let want = ideal(k, &json(&part));
        let l = if label == "d" && call == 1 { None } else { Some(&label[..]) };
        let i = if ignore.is_empty() { None } else { Some(ignore) };
        let kind = [None, Some("JSON")][call % 2];
        let (s, d) = ok(Saider::saidify(&doc, given, kind, l, i), "digest of a document");
        check(s.code() == code && same(&s.raw(), &want), "digest of the document with its label filled");
        let q = fixed(code, &want);
        check(eqv(&d, &with(&full, &label, st(&q))), "only the label and size change");
        reach("digested");
        let back = ok(Saider::new_with_sad(&doc, l, kind, i, Some(code)), "digest of a document");
        check(back.code() == code && same(&back.raw(), &want), "the same digest");
        for (p, v) in [(Some(true), None), (None, Some(false))] {
            check(ok(s.verify(&d, p, v, kind, l, i), "verify"), "verifies what it was made from");
        }
        check(Saider::saidify(&without(&doc, &label), given, kind, l, i).is_err(), "the label has to be there");
        reach("verified");
    }

    /// a digested document, changed
    fn h_tamper() {
        warm();
        let k = param("code") as usize;
        let code = DIGESTS[k].0;
        let Doc { doc, ident, label } = document(false);
        let ignore: &[&str] = [&[][..], &["y"]][choose("ignore", 2)];
        let i = if ignore.is_empty() { None } else { Some(ignore) };
        let (s, d) = ok(Saider::saidify(&doc, Some(code), None, Some(&label), i), "digest of a document");
        let has = d.to_map().unwrap().contains_key("v");
        let xs = d["x"].to_string().unwrap();
        // what is changed, and does the digest cover it
        let (e, covers) = match choose("change", 10) {
            0 => {
                // any other text of up to four characters
                let t = ascii("text", choose("text length", 5));
                for c in t.as_bytes() {
                    assume(*c >= 32 && *c < 127 && *c != b'"' && *c != b'\\');
                }
                assume(!eq(&t, &xs));
                (with(&d, "x", st(&t)), true)
            }
            1 => {
                let t = b64str("text", 2);
                assume(!eq(&t, &d["y"]["p"][0].to_string().unwrap()));
                let mut d = d.clone();
                d["y"]["p"][0] = st(&t);
                (d, ignore.is_empty())
            }
            2 => (without(&d, "x"), true),
            3 => (with(&d, &b64str("new", 2), Value::Null), true),
            4 => {
                // another kind of value
                let v = [Value::from(-13), Value::from(12), st("-12"), arr(vec![Value::from(-12)])][choose("value", 4)].clone();
                let mut d = d.clone();
                d["y"]["n"] = v;
                (d, ignore.is_empty())
            }
            5 => {
                // another order
                let m: Vec<_> = d.to_map().unwrap().into_iter().collect();
                let n = m.len();
                let (p, q) = (n - 2, n - 3);
                let mut m = m;
                m.swap(p, q);
                assume(!(has && q == 0));
                (Value::Object(m.into_iter().collect()), true)
            }
            6 => {
                // another label
                let t = b64str("rename", 1);
                assume(t != "x" && t != "v" && t != "d" && t != "q" && t != "y");
                (Value::Object(d.to_map().unwrap().into_iter().map(|(k, v)| (if k == "x" { t.clone() } else { k }, v)).collect()), true)
            }
            7 => {
                // its own digest
                let t = d[&label[..]].to_string().unwrap();
                let u = b64str("digest", t.len() - choose("missing", 2));
                assume(!eq(&t, &u));
                let t = u;
                (with(&d, &label, st(&t)), true)
            }
            8 => {
                // the stated size or protocol
                assume(has);
                let v = d["v"].to_string().unwrap();
                let w = [vers(ident, 0x12345), v.replace(ident, if ident == "KERI" { "ACDC" } else { "KERI" }), v.replace("10JSON", "11JSON")][choose("version", 3)].clone();
                (with(&d, "v", st(&w)), true)
            }
            _ => (with(&d, "y", Value::Null), ignore.is_empty()),
        };
        reach("changed");
        let r = ok(s.verify(&e, Some(true), Some(true), None, Some(&label), i), "verify");
        if covers {
            check(!r, "no changed document verifies");
        } else if !has {
            // (with a version string the size covers what is ignored, too)
            check(r, "ignored fields do not matter");
        }
    }

    /// another digest does not verify
    fn h_saidother() {
        warm();
        let k = param("code") as usize;
        let code = DIGESTS[k].0;
        let Doc { doc, ident, label } = document(false);
        let (_, part) = covered(&doc, code, &label, ident, &[]);
        let want = ideal(k, &json(&part));
        let raw = vec("raw", want.len());
        let s = ok(Saider::new_with_raw(&raw, Some(code)), "digest");
        let (_, d) = ok(Saider::saidify(&doc, Some(code), None, Some(&label), None), "digest of a document");
        if ok(s.verify(&d, None, None, None, Some(&label), None), "verify") {
            reach("verified");
            check(same(&raw, &want), "only its digest verifies");
        } else {
            reach("refused");
            check(!same(&raw, &want), "its digest verifies");
        }
        // not a document
        for v in [Value::Null, st("x"), arr(vec![]), Value::from(1)] {
            check(matches!(s.verify(&v, None, None, None, None, None), Ok(false) | Err(_)), "no document");
            check(Saider::saidify(&v, Some(code), None, None, None).is_err(), "no document");
            check(Saider::new_with_sad(&v, None, None, None, Some(code)).is_err(), "no document");
        }
    }
}
