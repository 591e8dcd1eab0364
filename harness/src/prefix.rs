//! Identifier prefixes.
use crate::spec::*;
use keride::cesr::*;
use keride::data::Value;
use keride::prefexing::prefixer::Prefixer;
use symrt::*;

const KEYS: [(&str, bool); 6] = [("B", false), ("D", true), ("1AAA", false), ("1AAB", true), ("1AAI", false), ("1AAJ", true)];
const ILKS: [(&str, bool); 6] = [("icp", true), ("dip", true), ("vcp", true), ("rot", false), ("ixn", false), ("", false)];

fn dummy(code: &str) -> String {
    "#".repeat(entry(code).4)
}
/// one of the ways a field is empty, or filled
fn field(name: &str) -> (Option<Value>, bool) {
    match choose(name, 6) {
        0 => (None, false),
        1 => (Some(arr(vec![])), false),
        2 => (Some(st("")), false),
        3 => (Some(st(&b64str("text", 1))), true),
        4 => (Some(arr(vec![st("")])), true),
        _ => (Some(arr(vec![st(&b64str("text", 2)), st("x")])), true),
    }
}
/// the event, and what a digest prefix covers
fn event(code: &str) -> (Value, Value) {
    let ilk = ILKS[choose("ilk", 3)].0;
    let own = ["", "#", "EAAA"][choose("own", 3)];
    let mut f = vec![("v", st(&vers("KERI", 0))), ("t", st(ilk)), ("d", st(own)), ("i", st(own)), ("s", st(&b64str("s", 1)))];
    f.push(("k", arr(vec![st(&b64str("k", 3)), st(&b64str("l", 2))])));
    f.push(("n", arr(vec![st(&b64str("n", 2))])));
    f.push(("c", arr(vec![])));
    if choose("seals", 2) == 1 {
        f.push(("a", arr(vec![obj(vec![("i", st(&b64str("a", 1))), ("n", Value::Null)])])));
    }
    let v = obj(f);
    let c = sized(&with(&with(&v, "i", st(&dummy(code))), "d", st(&dummy(code))), "KERI");
    (v, c)
}

harnesses! {
    /// prefixes that are keys
    fn h_basic() {
        let c = KEYS[param("code") as usize];
        // either the keys or the other fields vary
        let fields = param("other") == 1;
        let (ilk, incepts) = ILKS[if fields { 0 } else { choose("ilk", 6) }];
        let keys = if fields { 1 } else { choose("keys", 3) };
        let kc = if fields || choose("key code", 2) == 0 { c.0 } else { KEYS[(param("code") as usize + 1) % 6].0 };
        let raw = vec("key", rawsize(entry(kc)));
        let key = fixed(kc, &raw);
        let next = field("n");
        let other = if fields { field("b") } else { (Some(arr(vec![])), false) };
        let seals = if fields { [(Some(arr(vec![])), false), (Some(arr(vec![obj(vec![])])), true), (Some(obj(vec![])), false), (Some(Value::Null), true)][choose("a", 4)].clone() } else { (None, false) };
        let from = choose("i", 3);
        let i = match from {
            0 => key.clone(),
            1 => String::new(),
            _ => fixed(c.0, &vec("i", rawsize(entry(c.0)))),
        };
        let mut f = vec![("v", st(&vers("KERI", 0))), ("t", st(ilk)), ("d", st("")), ("i", st(&i))];
        f.push(("k", arr((0..keys).map(|_| st(&key)).collect())));
        for (l, x) in [("n", &next.0), ("b", &other.0), ("a", &seals.0)] {
            if let Some(x) = x {
                f.push((l, x.clone()));
            }
        }
        let ked = obj(f);
        let (allows, may): (Option<&[&str]>, bool) = match if fields { 0 } else { choose("allowed", 4) } {
            0 => (None, true),
            1 => (Some(&[]), true),
            2 => (Some(&["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"]), true),
            _ => (Some(&["E", "F"]), false),
        };
        let can = may && incepts && keys == 1 && kc == c.0 && (c.1 || !(next.1 || other.1 || seals.1));
        match Prefixer::new_with_ked(&ked, allows, Some(c.0)) {
            Ok(p) => {
                reach("derived");
                check(can, "such an event has no such prefix");
                check(p.code() == c.0 && same(&p.raw(), &raw), "the prefix is the key");
            }
            Err(_) => {
                reach("refused");
                check(!can, "such an event has a prefix");
            }
        }
        if allows.is_none() && !i.is_empty() {
            // the code taken from the prefix in the event
            let transferable = if from == 0 { KEYS.iter().any(|x| x.0 == kc && x.1) } else { c.1 };
            let by_i = incepts && keys == 1 && (from == 0 || kc == c.0) && (transferable || !(next.1 || other.1 || seals.1));
            match Prefixer::new_with_ked(&ked, None, None) {
                Ok(p) => check(by_i && same(&p.raw(), &raw), "the prefix is the key"),
                Err(_) => check(!by_i, "such an event has a prefix"),
            }
        }
    }

    /// does an event have this key as prefix
    fn h_basicverify() {
        let c = KEYS[param("code") as usize];
        let (ilk, incepts) = ILKS[choose("ilk", 6)];
        let keys = choose("keys", 3);
        let kc = if choose("key code", 2) == 0 { c.0 } else { KEYS[(param("code") as usize + 1) % 6].0 };
        let raw = vec("key", rawsize(entry(kc)));
        let key = fixed(kc, &raw);
        let next = field("n");
        let pre = vec("prefix", rawsize(entry(c.0)));
        let p = ok(Prefixer::new_with_qb64(&fixed(c.0, &pre)), "a prefix");
        let i = match choose("i", 4) {
            0 => Some(fixed(c.0, &pre)),
            1 => Some(b64str("i", 44)),
            2 => Some(String::new()),
            _ => None,
        };
        let mut f = vec![("v", st(&vers("KERI", 0))), ("t", st(ilk)), ("d", st(""))];
        if let Some(i) = &i {
            f.push(("i", st(i)));
        }
        f.push(("k", arr((0..keys).map(|_| st(&key)).collect())));
        if let Some(x) = &next.0 {
            f.push(("n", x.clone()));
        }
        let ked = obj(f);
        let prefixed = [None, Some(false), Some(true)][choose("prefixed", 3)];
        let (have, want) = (key.as_bytes(), fixed(c.0, &pre));
        let holds = incepts && keys == 1 && (c.1 || !next.1);
        match p.verify(&ked, prefixed) {
            Ok(true) => {
                reach("verified");
                check(holds, "such an event has no such prefix");
                check(same(have, want.as_bytes()), "the prefix is the key");
                check(prefixed != Some(true) || matches!(&i, Some(i) if eq(i, &want)), "the event names its prefix");
            }
            Ok(false) | Err(_) => {
                reach("refused");
                check(!(holds && same(have, want.as_bytes()) && (prefixed != Some(true) || matches!(&i, Some(i) if eq(i, &want)))), "such an event has the prefix");
            }
        }
    }

    /// prefixes that are digests
    fn h_digest() {
        let k = param("code") as usize;
        let code = DIGESTS[k].0;
        let (ked, covered) = event(code);
        let want = ideal(k, &json(&covered));
        let p = ok(Prefixer::new_with_ked(&ked, [None, Some(&["E", code][..])][choose("allowed", 2)], Some(code)), "a prefix");
        check(p.code() == code && same(&p.raw(), &want), "the digest of the event");
        check(Prefixer::new_with_ked(&ked, Some(&["B"]), Some(code)).is_err(), "a code that is not allowed");
        let q = fixed(code, &want);
        let named = with(&ked, "i", st(&q));
        check(ok(p.verify(&ked, None), "verify") && ok(p.verify(&named, Some(false)), "verify"), "the event has its prefix");
        check(ok(p.verify(&named, Some(true)), "verify"), "the event has its prefix");
        check(!ok(p.verify(&ked, Some(true)), "verify"), "the event names its prefix");
        let both = with(&named, "d", st(&q));
        check(ok(p.verify(&both, Some(true)), "verify"), "the event has its prefix");
        // the code taken from the prefix in the event
        if choose("from", 2) == 0 {
            let r = ok(Prefixer::new_with_ked(&both, None, None), "a prefix");
            check(r.code() == code && same(&r.raw(), &want), "the digest of the event");
        }
        reach("derived");
        // any other prefix
        let raw = vec("raw", want.len());
        let o = ok(Prefixer::new_with_raw(&raw, Some(code)), "a prefix");
        check(ok(o.verify(&ked, None), "verify") == same(&raw, &want), "no other prefix");
        let i = b64str("i", q.len());
        check(ok(p.verify(&with(&ked, "i", st(&i)), Some(true)), "verify") == eq(&i, &q), "the event names its prefix");
    }

    /// an event that was changed
    fn h_change() {
        let k = param("code") as usize;
        let code = DIGESTS[k].0;
        let (ked, _) = event(code);
        let p = ok(Prefixer::new_with_ked(&ked, None, Some(code)), "a prefix");
        let q = ok(p.qb64(), "qb64");
        let ked = with(&ked, "i", st(&q));
        let e = match choose("change", 8) {
            0 => {
                let t = ascii("text", choose("text length", 4));
                for c in t.as_bytes() {
                    assume(*c >= 32 && *c < 127 && *c != b'"' && *c != b'\\');
                }
                assume(!eq(&t, &ked["s"].to_string().unwrap()));
                with(&ked, "s", st(&t))
            }
            1 => {
                let t = b64str("key", 3);
                assume(!eq(&t, &ked["k"][0].to_string().unwrap()));
                let mut e = ked.clone();
                e["k"][0] = st(&t);
                e
            }
            2 => {
                let mut e = ked.clone();
                e["k"] = arr(vec![e["k"][0].clone()]);
                e
            }
            3 => {
                let t = b64str("next", 2);
                assume(!eq(&t, &ked["n"][0].to_string().unwrap()));
                with(&ked, "n", arr(vec![st(&t)]))
            }
            4 => without(&ked, ["s", "k", "n", "c"][choose("which", 4)]),
            5 => with(&ked, &b64str("label", 2), Value::Null),
            6 => with(&ked, "c", arr(vec![st("EO")])),
            _ => {
                // another of the incepting kinds
                let t = ILKS[choose("other ilk", 3)].0;
                assume(st(t) != ked["t"]);
                with(&ked, "t", st(t))
            }
        };
        reach("changed");
        check(!matches!(p.verify(&e, [None, Some(true)][choose("prefixed", 2)]), Ok(true)), "no changed event has the prefix");
    }

    /// events no prefix can be derived from
    fn h_badevent() {
        let code = [Some("E"), Some("B"), Some("D"), None, Some("0D"), Some("A"), Some("0B"), Some(""), Some("ZZ")][choose("code", 9)];
        let key = fixed("D", &[7; 32]);
        let good = obj(vec![("v", st(&vers("KERI", 0))), ("t", st("icp")), ("d", st("")), ("i", st("")), ("k", arr(vec![st(&key)])), ("n", arr(vec![])), ("a", arr(vec![]))]);
        let bad = [Value::Null, Value::from(1), st("icp"), arr(vec![]), obj(vec![]), Value::Boolean(true)];
        // what the event is, and whether a key or a digest may be its prefix
        let (e, may_key, may_digest) = match choose("event", 7) {
            0 => (bad[choose("value", bad.len())].clone(), false, false),
            1 => {
                let k = choose("ilk", bad.len());
                (with(&good, "t", bad[k].clone()), k == 2, k == 2)
            }
            2 => (with(&good, "v", bad[choose("version", bad.len())].clone()), true, false),
            3 => (with(&good, "k", bad[choose("keys", bad.len())].clone()), false, true),
            4 => (with(&good, "k", arr(vec![bad[choose("key", bad.len())].clone()])), false, true),
            5 => {
                let k = choose("which", 4);
                (without(&good, ["v", "t", "k", "i"][k]), k == 0 || k == 3, k == 2 || k == 3)
            }
            _ => (with(&good, "k", arr(vec![st(&ascii("key text", 3))])), false, true),
        };
        let may = match code {
            Some("D") => may_key,
            Some("E") | Some("0D") => may_digest,
            _ => false,
        };
        match Prefixer::new_with_ked(&e, None, code) {
            Ok(_) => {
                reach("derived");
                check(may, "no prefix from such an event");
            }
            Err(_) => {
                reach("refused");
                check(!may, "a prefix from such an event");
            }
        }
        if code == Some("E") {
            let c = ["B", "D", "E", "0D"][choose("prefix", 4)];
            let p = ok(Prefixer::new_with_qb64(&fixed(c, &vec![7; rawsize(entry(c))])), "a prefix");
            let r = p.verify(&e, [None, Some(true)][choose("prefixed", 2)]);
            check(!matches!(r, Ok(true)) || c == "D" && may_key || c != "D" && c != "B" && may_digest, "no such prefix");
        }
    }
}
