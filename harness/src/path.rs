//! Paths.
use crate::spec::*;
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use symrt::*;

/// a list of up to k elements of 1..=l characters
fn elements(tag: &str, k: usize, l: usize) -> Vec<String> {
    let n = choose(&format!("{tag} count"), k + 1);
    (0..n).map(|i| b63str(&format!("{tag} {i}"), 1 + choose(&format!("{tag} {i} length"), l))).collect()
}
fn value(v: &[String]) -> Value {
    arr(v.iter().map(|x| st(x)).collect())
}
fn list_is(p: &Pather, want: &[String], how: &str) {
    let got = ok(ok(p.path(), "path").to_vec(), "path is a list");
    check(got.len() == want.len(), how);
    for i in 0..want.len() {
        check(eq(&ok(got[i].to_string(), "path element is a text"), &want[i]), how);
    }
}
fn joined(v: &[String]) -> String {
    "-".to_string() + &v.join("-")
}

fn walk<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    if path.is_empty() {
        return Some(v);
    }
    let e = path[0].as_bytes();
    let mut digits = true;
    for c in e {
        digits &= c.is_ascii_digit();
    }
    let index = || {
        let mut n = 0;
        for c in e {
            n = n * 10 + (*c - b'0') as u64;
            n = pick(n < 1000000, n, 1000000);
        }
        concrete(pick(n < 20, n, 20)) as usize
    };
    let next = match v {
        Value::Object(m) => {
            if digits {
                m.get_index(index()).map(|x| x.1)
            } else {
                let mut r = None;
                for (k, x) in m {
                    if eq(k, &path[0]) {
                        r = Some(x);
                    }
                }
                r
            }
        }
        Value::Array(a) => {
            if digits {
                a.get(index())
            } else {
                None
            }
        }
        _ => None,
    };
    next.and_then(|x| walk(x, &path[1..]))
}

harnesses! {
    /// a list of elements is kept by every route
    fn h_path() {
        let _ = Pather::new_with_bext("-warm-up");
        let v = elements("element", param("k") as usize, param("l") as usize);
        let mut w = v.clone();
        let mut list: Vec<Value> = v.iter().map(|x| st(x)).collect();
        if choose("number", 2) == 1 {
            let n = [0i64, 7, 12][choose("which", 3)];
            let at = choose("at", v.len() + 1);
            list.insert(at, Value::from(n));
            w.insert(at, n.to_string());
        }
        let x = ok(Pather::new_with_path(&arr(list)), "a list of Base64 elements is accepted");
        let t = joined(&w);
        let b = t.as_bytes();
        let n = b.len();
        let (ws, ls) = ((4 - n % 4) % 4, (3 - n % 4) % 3);
        let mut padded = vec![b'A'; ws];
        padded.extend_from_slice(b);
        let full = untext(&padded);
        let raw = &full[ls..];
        let code = ["4A", "5A", "6A"][ls];
        let is = |p: &Pather, how: &str| {
            check(eq(&ok(p.bext(), "bext"), &t), how);
            check(p.code() == code && same(&p.raw(), raw), how);
            list_is(p, &w, how);
        };
        is(&x, "from list");
        let (q, q2) = (ok(x.qb64(), "qb64"), ok(x.qb2(), "qb2"));
        check(same(&q2, &qb2(&format!("{code}{}", int_b64(full.len() as u64 / 3, 2)), ls, raw)), "CESR binary");
        check(same(q.as_bytes(), &text(&q2)), "CESR text");
        is(&ok(Pather::new_with_qb64(&q), "parse"), "from qb64");
        is(&ok(Pather::new_with_qb64b(q.as_bytes()), "parse"), "from qb64b");
        is(&ok(Pather::new_with_qb2(&q2), "parse"), "from qb2");
        is(&ok(Pather::new_with_raw(raw, None), "parse"), "from raw");
        is(&ok(Pather::new_with_bext(&t), "parse"), "from text");
        reach("kept");
    }

    /// an arbitrary element
    fn h_element() {
        let _ = Pather::new_with_bext("-warm-up");
        let n = param("n") as usize;
        let e = if choose("any", 2) == 0 { ascii("element", n) } else { utf8("element", n) };
        let list = arr(vec![st("a"), st(&e), st("b")]);
        match Pather::new_with_path(&list) {
            Ok(p) => {
                check(all_b64(e.as_bytes()), "an element that is not Base64 is refused");
                check(eq(&ok(p.bext(), "bext"), &format!("-a-{e}-b")), "text joins the elements");
                reach("accepted");
            }
            Err(_) => {
                check(!all_b64(e.as_bytes()), "a Base64 element is accepted");
                reach("refused");
            }
        }
        // an element that is neither a text nor an integer
        check(Pather::new_with_path(&arr(vec![st("a"), Value::Null])).is_err(), "null is no element");
        check(Pather::new_with_path(&arr(vec![Value::from(1.5f64)])).is_err(), "a fraction is no element");
        check(Pather::new_with_path(&st(&e)).is_err(), "a text is no list");
    }

    /// an arbitrary text as path
    fn h_bextpath() {
        let _ = Pather::new_with_bext("-warm-up");
        let n = param("n") as usize;
        let t = b64str("text", n);
        let b = t.as_bytes();
        if n > 0 && n % 4 == 0 {
            assume(b[0] != b'A');
        }
        let p = ok(Pather::new_with_bext(&t), "Base64 text");
        check(eq(&ok(p.bext(), "bext"), &t), "text is kept");
        let doc = obj(vec![("a", st("b"))]);
        let mut empty = false;
        for i in 0..n {
            empty |= n > 1 && b[i] == b'-' && (i + 1 == n || b[i + 1] == b'-');
        }
        match p.path() {
            Ok(v) => {
                check(n > 0 && b[0] == b'-', "a path starts with '-'");
                let v = ok(v.to_vec(), "list");
                let parts: Vec<String> = v.iter().map(|x| ok(x.to_string(), "text")).collect();
                check(empty | eq(&joined(&parts), &t), "elements are what stands between the '-'");
                for x in &parts {
                    check(!x.contains('-'), "no '-' in an element");
                }
                let _ = p.resolve(&doc);
                let _ = p.strip(&p);
                let _ = p.root(&p);
                reach("path");
            }
            Err(_) => {
                check(n == 0 || b[0] != b'-', "text starting with '-' is a path");
                check(p.resolve(&doc).is_err(), "text that is no path resolves to nothing");
                reach("no path");
            }
        }
    }

    /// root, strip, starts_with of two paths
    fn h_rel() {
        let _ = Pather::new_with_bext("-warm-up");
        let (k, l) = (param("k") as usize, param("l") as usize);
        let (a, b) = (elements("a", k, l), elements("b", k, l));
        let p = ok(Pather::new_with_path(&value(&a)), "a");
        let q = ok(Pather::new_with_path(&value(&b)), "b");
        let mut both = b.clone();
        both.extend(a.iter().cloned());
        let r = ok(p.root(&q), "root");
        list_is(&r, &both, "rooted path is the root's elements and then its own");
        let mut pre = b.len() <= a.len();
        if pre {
            for i in 0..b.len() {
                pre &= eq(&a[i], &b[i]);
            }
        }
        let s = ok(p.strip(&q), "strip");
        if pre {
            reach("stripped");
            list_is(&s, &a[b.len()..], "stripping leaves the remaining elements");
        } else {
            reach("kept");
            list_is(&s, &a, "stripping another path changes nothing");
        }
        list_is(&ok(r.strip(&q), "strip"), &a, "stripping the root gives the path back");
        let (ta, tb) = (joined(&a), joined(&b));
        let st = tb.len() <= ta.len() && same(&ta.as_bytes()[..tb.len()], tb.as_bytes());
        check(ok(p.starts_with(&q), "starts_with") == st, "starts_with is a prefix of the text");
        check(ok(r.starts_with(&q), "starts_with"), "a rooted path starts with its root");
        list_is(&p, &a, "unchanged");
    }

    /// resolution in a document
    fn h_resolve() {
        let _ = Pather::new_with_bext("-warm-up");
        let l = param("label") as usize;
        let (x, y, z) = (b63str("x", l), b63str("y", l), b63str("z", l));
        assume(!eq(&x, &y));
        let doc = match param("doc") {
            0 => obj(vec![(&x, st("v")), (&y, arr(vec![st("u"), obj(vec![(&z, st("w"))]), arr(vec![Value::from(7i64)])])), ("null", Value::Null)]),
            1 => arr(vec![obj(vec![(&x, arr(vec![])), (&y, Value::Boolean(true))]), st("text"), obj(vec![(&z, obj(vec![(&x, Value::from(5i64))]))])]),
            _ => obj(vec![(&x, obj(vec![(&y, obj(vec![(&z, st("deep"))])), ("k", arr(vec![st("0"), st("1"), st("2")]))]))]),
        };
        let n = param("n") as usize;
        let e: Vec<String> = (0..n).map(|i| b63str(&format!("element {i}"), 1 + choose("length", param("l") as usize))).collect();
        let p = ok(Pather::new_with_path(&value(&e)), "path");
        let got = p.resolve(&doc);
        match walk(&doc, &e) {
            Some(v) => {
                reach("found");
                check(eqv(&ok(got, "what is there is found"), v), "the value named");
            }
            None => {
                reach("nothing there");
                check(got.is_err(), "nothing there is an error");
            }
        }
    }

    /// numbers as places
    fn h_place() {
        let _ = Pather::new_with_bext("-warm-up");
        let front = ["", "25", "6553", "429496729", "1844674407370955161", "00000000000000000000000", "9999999999999999999999"][choose("front", 7)];
        let n = param("n") as usize;
        let mut e = front.to_string();
        for i in 0..n {
            e.push((b'0' + concrete(bytes::<1>(&format!("digit {i}"))[0] as u64 % 10) as u8) as char);
        }
        let (x, y) = (st("x"), st("y"));
        let list = arr(vec![x.clone(), y.clone(), Value::from(3)]);
        let doc = [arr(vec![list.clone(), y.clone()]), obj(vec![("l", list.clone()), ("m", y.clone())]), arr(vec![y.clone(), obj(vec![("x", x), ("y", list)])])][param("doc") as usize].clone();
        let path = match choose("where", 2) {
            0 => vec![e],
            _ => vec![["0", "l", "1"][param("doc") as usize].to_string(), e],
        };
        let p = ok(Pather::new_with_path(&value(&path)), "path");
        match walk(&doc, &path) {
            Some(v) => {
                reach("found");
                check(eqv(&ok(p.resolve(&doc), "what is there is found"), v), "the value named");
            }
            None => {
                reach("nothing there");
                check(p.resolve(&doc).is_err(), "nothing there is an error");
            }
        }
    }

    /// the tail a path names in an event
    fn h_tail() {
        let _ = Pather::new_with_bext("-warm-up");
        let plain = "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA";
        let k = choose("value", 8);
        let (mut good, mut bad) = (true, false);
        let v = match k {
            0 => {
                // one character is any
                let mut t = plain.as_bytes().to_vec();
                let at = [0, 1, 2, 43][choose("at", 4)];
                let c = b64str("character", 1);
                t[at] = c.as_bytes()[0];
                let i = untext(&[b'A', b'A', b'A', t[at]])[2];
                good = match at {
                    0 => (t[0] >= b'E') & (t[0] <= b'I'),
                    1 => i < 16,
                    _ => true,
                };
                st(std::str::from_utf8(&t).unwrap())
            }
            1 => {
                let n = [0, 1, 43, 44][choose("length", 4)];
                good = n == 44;
                st(&plain[..n])
            }
            2 => st(&(["0D", "0E", "0F", "0G"][choose("code", 4)].to_string() + &"A".repeat(86))),
            3 => {
                good = false;
                st(&(["0B", "0H", "1A"][choose("code", 3)].to_string() + &"A".repeat(86)))
            }
            4 => obj(vec![("x", st(&b64str("text", 2))), ("y", arr(vec![Value::Null]))]),
            5 => arr(vec![st(&b64str("text", 2)), Value::Boolean(false), obj(vec![])]),
            6 => [obj(vec![]), arr(vec![])][choose("empty", 2)].clone(),
            _ => {
                bad = true;
                [Value::Null, Value::Boolean(true), Value::from(12), Value::from(-0.5)][choose("other", 4)].clone()
            }
        };
        let ked = obj(vec![("v", st("KERI10JSON000000_")), ("t", st("ixn")), ("d", st(plain)), ("a", arr(vec![obj(vec![("q", v.clone())])]))]);
        let serder = ok(Serder::new_with_ked(&ked, None, None), "event");
        let path = [["a", "0", "q"], ["3", "0", "0"]][choose("by", 2)];
        let p = ok(Pather::new_with_path(&arr(path.iter().map(|x| st(x)).collect())), "path");
        let got = p.tail(&serder);
        if k < 4 {
            if good {
                reach("digest");
                check(eq(&ok(got, "digest"), &ok(v.to_string(), "text")), "the digest there");
            } else {
                reach("no digest");
                check(got.is_err(), "text that is no digest");
            }
        } else if bad {
            reach("nothing");
            check(got.is_err(), "neither digest nor map nor list");
        } else {
            reach("document");
            check(same(ok(got, "JSON").as_bytes(), &json(&v)), "the JSON of the document there");
        }
        let none = ok(Pather::new_with_path(&arr(vec![st("a"), st("1")])), "path");
        check(none.tail(&serder).is_err(), "nothing there is an error");
    }
}
