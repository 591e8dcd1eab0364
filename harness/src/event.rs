//! Key events and credentials: loading, building, reading fields.
use crate::spec::*;
use keride::cesr::*;
use keride::data::Value;
use symrt::*;

fn warm() {
    let _ = common::deversify("KERI10JSON000000_");
    let _ = common::sizeify(&obj(vec![("v", st("KERI10JSON000000_"))]), None);
    let _ = common::sniff(b"{\"v\":\"KERI10JSON000000_\",\"x\":1}");
}
/// an event or a credential
enum Any {
    S(Serder),
    C(Creder),
}
use Any::*;
type R<T> = keride::error::Result<T>;
fn acdc() -> bool {
    param("acdc") == 1
}
fn ident() -> &'static str {
    ["KERI", "ACDC"][acdc() as usize]
}
fn load(raw: &[u8], code: Option<&str>) -> R<Any> {
    Ok(if acdc() { C(Creder::new(code, Some(raw), None, None, None)?) } else { S(Serder::new(code, Some(raw), None, None, None)?) })
}
fn build(ked: &Value, code: Option<&str>, kind: Option<&str>) -> R<Any> {
    Ok(if acdc() { C(Creder::new(code, None, kind, Some(ked), None)?) } else { S(Serder::new(code, None, kind, Some(ked), None)?) })
}
macro_rules! on {
    ($x:expr, $m:ident) => {
        match $x {
            S(x) => x.$m(),
            C(x) => x.$m(),
        }
    };
}
/// everything an event or credential says of itself
fn is(x: &Any, raw: &[u8], ked: &Value, digest: &str, code: &str) {
    check(same(&on!(x, raw), raw), "its bytes");
    check(on!(x, size) as usize == raw.len(), "its size");
    check(eqv(&on!(x, ked), ked), "its fields");
    check(on!(x, ident) == ident() && on!(x, kind) == "JSON" && on!(x, code) == code, "its protocol and kind");
    let v = on!(x, version);
    check(v.major == 1 && v.minor == 0, "its version");
    check(same(ok(on!(x, said), "said").as_bytes(), digest.as_bytes()), "its digest");
    check(same(&ok(on!(x, saidb), "saidb"), digest.as_bytes()), "its digest");
    check(on!(x, saider).code() == code, "its digest's code");
    check(eq(&ok(on!(x, saider).qb64(), "saider"), digest), "its digest");
}
/// an event with symbolic texts and this digest
fn skeleton(digest: &str) -> Value {
    shaped(digest, [0, 0xabcdef][choose("size before", 2)], choose("digest second", 2) == 1)
}
fn shaped(digest: &str, before: usize, second: bool) -> Value {
    let mut f = vec![("v", st(&vers(ident(), before)))];
    if second {
        f.push(("d", st(digest)));
    }
    f.push(("t", st(&b64str("t", 3))));
    f.push(("i", st(&b64str("i", 2))));
    if f.len() == 3 {
        f.push(("d", st(digest)));
    }
    f.push(("s", st(&b64str("s", 1))));
    f.push(("a", arr(vec![obj(vec![("x", st(&b64str("x", 1))), ("n", Value::from(-12))]), Value::Null, Value::Boolean(true)])));
    obj(f)
}
fn hexdigit(name: &str) -> u8 {
    b"0123456789abcdef"[(bytes::<1>(name)[0] & 15) as usize]
}
/// adds fields nothing reads
fn decoys(f: &mut Vec<(&str, Value)>, labels: &'static str) {
    if choose("others", 2) == 1 {
        for l in labels.split(' ') {
            f.push((l, [st(l), arr(vec![st(l)])][l.len() % 2].clone()));
        }
    }
}
/// a character of k bytes
fn wide(name: &str, k: usize) -> String {
    if k == 1 {
        return b64str(name, 1);
    }
    let mut b = vec![[0xc3, 0xe2, 0xf1][k - 2]];
    b.extend(vec(name, k - 1).iter().map(|b| 0x80 | b & 63));
    unsafe { String::from_utf8_unchecked(b) }
}
/// indented JSON
fn pretty(v: &Value, depth: usize) -> String {
    let list = |open: &str, close: &str, items: Vec<String>| {
        if items.is_empty() {
            return format!("{open}{close}");
        }
        let pad = "  ".repeat(depth + 1);
        let mut t = open.to_string();
        for (i, x) in items.iter().enumerate() {
            t += if i > 0 { ",\n" } else { "\n" };
            t += &pad;
            t += x;
        }
        t + "\n" + &"  ".repeat(depth) + close
    };
    match v {
        Value::Array(a) => list("[", "]", a.iter().map(|x| pretty(x, depth + 1)).collect()),
        Value::Object(m) => list("{", "}", m.iter().map(|(k, x)| format!("\"{k}\": {}", pretty(x, depth + 1))).collect()),
        _ => unsafe { String::from_utf8_unchecked(json(v)) },
    }
}
/// the digest, reading its code
fn digest(k: usize) -> String {
    fixed(DIGESTS[k].0, &vec("digest", rawsize(entry(DIGESTS[k].0))))
}
/// a digest of constant bytes, reading its code
fn plain(k: usize) -> String {
    let n = rawsize(entry(DIGESTS[k].0));
    fixed(DIGESTS[k].0, &(0..n).map(|i| (i * 37 + k) as u8).collect::<Vec<_>>())
}
/// printable text which JSON writes as it is
fn printable(name: &str, n: usize) -> String {
    let b = vec(name, n);
    assume(b.iter().all(|b| matches!(b, b' '..=b'~') & (*b != b'"') & (*b != b'\\')));
    unsafe { String::from_utf8_unchecked(b) }
}
/// odd values for a field
fn odd(name: &str) -> Option<Value> {
    Some(match choose(name, 10) {
        0 => return None,
        1 => Value::Null,
        2 => Value::Boolean(true),
        3 => Value::from(7),
        4 => Value::from(0.5),
        5 => st(&printable("odd text", choose("odd length", 3))),
        6 => arr(vec![]),
        7 => arr(vec![Value::Null]),
        8 => arr(vec![st(&b64str("odd element", 4))]),
        _ => obj(vec![("x", st("y"))]),
    })
}
/// reads everything there is to read, without a panic
fn read_all(x: &Any) {
    let _ = (on!(x, said), on!(x, saidb));
    match x {
        S(s) => {
            let _ = (s.verfers(), s.digers(), s.werfers(), s.tholder(), s.ntholder());
            let _ = (s.sner(), s.sn(), s.fner(), s._fn(), s.pre(), s.preb(), s.est());
        }
        C(c) => {
            let _ = (c.crd(), c.issuer(), c.schema(), c.status(), c.chains());
        }
    }
}

harnesses! {
    /// from bytes, with others after them, and from fields
    fn h_load() {
        warm();
        let k = param("code") as usize;
        let code = DIGESTS[k].0;
        let d = digest(k);
        let ked = skeleton(&d);
        let want = sized(&ked, ident());
        let raw = json(&want);
        let given = if k == 0 && choose("code given", 2) == 0 { None } else { Some(code) };
        let x = match choose("route", 3) {
            0 => {
                let mut b = raw.clone();
                b.extend(vec("surplus", choose("surplus bytes", 3)));
                let x = match (given, acdc()) {
                    (None, false) => Serder::new_with_raw(&b).map(S),
                    (None, true) => Creder::new_with_raw(&b).map(C),
                    _ => load(&b, given),
                };
                ok(x, "a message is loaded")
            }
            1 => {
                let kind = [None, Some("JSON")][choose("kind", 2)];
                let x = match (kind, acdc()) {
                    (None, false) => Serder::new_with_ked(&ked, given, kind).map(S),
                    (None, true) => Creder::new_with_ked(&ked, given, kind).map(C),
                    _ => build(&ked, given, kind),
                };
                ok(x, "a message is built")
            }
            _ => match ok(build(&ked, given, None), "a message is built") {
                S(x) => S(ok(Serder::new(given, None, None, None, Some(&x)), "a copy")),
                C(x) => C(ok(Creder::new(given, None, None, None, Some(&x)), "a copy")),
            },
        };
        is(&x, &raw, &want, &d, code);
        let y = ok(load(&on!(&x, raw), given), "its bytes are loaded");
        match (&x, &y) {
            (S(x), S(y)) => check(x == y, "the same again"),
            (C(x), C(y)) => check(x == y, "the same again"),
            _ => fail("kind"),
        }
        reach("loaded");
    }

    /// its indented form, cut; and built again
    fn h_pretty() {
        warm();
        let d = plain(0);
        let n = param("n") as usize;
        let forms: &[&[usize]] = match n {
            0 => &[&[]],
            1 => &[&[1]],
            2 => &[&[2], &[1, 1]],
            3 => &[&[3], &[1, 2], &[2, 1]],
            _ => &[&[4], &[1, 3], &[3, 1], &[2, 2]],
        };
        let t: String = forms[choose("characters", forms.len())].iter().map(|k| wide("text", *k)).collect();
        let size = choose("size", 4);
        let ked = sized(&obj(vec![("v", st(&vers(ident(), 0))), ("a", arr(vec![Value::from(-1), obj(vec![]), st(&t)])), ("d", st(&d)), ("b", obj(vec![("x", arr(vec![])), ("y", Value::from(70))])), ("z", st(&"z".repeat(if size == 0 { 0 } else { 1000 })))]), ident());
        let mut x = ok(build(&ked, None, None), "a message");
        let want = pretty(&ked, 0);
        let at = want.find("\n    \"").unwrap() + 4;
        match size {
            0 | 3 => {
                check(eq(&ok(match &x { S(x) => x.pretty(None), C(x) => x.pretty(None) }, "pretty"), &want[..want.len().min(1024)]), "indented");
            }
            1 => {
                // cut in or beside the text
                let n: usize = at + choose("cut", param("n") as usize + 4);
                let p = ok(match &x { S(x) => x.pretty(Some(n)), C(x) => x.pretty(Some(n)) }, "pretty");
                let b = want.as_bytes();
                let mut m = n;
                while m > 0 && b[m] & 0xc0 == 0x80 {
                    m -= 1;
                }
                check(same(p.as_bytes(), &b[..m]), "cut at a character");
            }
            _ => {
                let n = choose("small", 3) + if flag("long") { want.len() - 1 } else { 0 };
                let p = ok(match &x { S(x) => x.pretty(Some(n)), C(x) => x.pretty(Some(n)) }, "pretty");
                check(same(p.as_bytes(), &want.as_bytes()[..n.min(want.len())]), "cut");
            }
        }
        reach("shown");
        if n > 1 {
            done()
        }
        let kind = ["JSON", "CBOR", "MGPK", "json", ""][choose("kind", 5)];
        let r = match &mut x {
            S(x) => x.populate_from_kind_and_self(kind),
            C(x) => x.populate_from_kind_and_self(kind),
        };
        check(r.is_ok() == (kind == "JSON"), "only JSON is written");
        is(&x, &json(&ked), &ked, &d, "E");
    }

    /// the stated size decides how many bytes count
    fn h_size() {
        warm();
        let d = plain(0);
        let ked = shaped(&d, 0, true);
        let n = json(&ked).len();
        let low = bytes::<1>("low digits")[0] as usize;
        let high = [0, 1, 0x1ff][param("high") as usize];
        let size = high << 8 | concrete(low as u64) as usize;
        let want = with(&ked, "v", st(&vers(ident(), size)));
        let mut raw = json(&want);
        let more = vec("surplus", 2);
        raw.extend_from_slice(&more);
        let blank = |b: u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r');
        let can = size >= n && size <= n + 2 && (size == n || blank(more[0])) && (size < n + 2 || blank(more[1]));
        match load(&raw, None) {
            Ok(x) => {
                reach("loaded");
                check(can, "a message of another size");
                is(&x, &raw[..size], &want, &d, "E");
            }
            Err(_) => {
                reach("refused");
                check(!can, "a message of its size");
            }
        }
    }

    /// messages that are none of these
    fn h_refuse() {
        warm();
        let d = plain(0);
        let mut ked = shaped(&d, 0, true);
        if choose("large", 2) == 1 {
            ked = with(&ked, "z", st(&"z".repeat(5000)));
        }
        let v = sized(&ked, ident())["v"].to_string().unwrap();
        let asked = if param("what") == 2 { [None, Some("E"), Some("0E"), Some("I"), Some("B"), Some("")][choose("code", 6)] } else { None };
        let mut good = matches!(asked, None | Some("E"));
        let mut kind = None;
        let ked = match param("what") {
            0 => {
                good = false;
                let other = ["KERI", "ACDC"][!acdc() as usize];
                with(&ked, "v", st(&v.replace(ident(), other)))
            }
            1 => {
                good = false;
                let text = if choose("other number", 2) == 1 {
                    // every other version number
                    let n = [hexdigit("major"), hexdigit("minor")];
                    assume(n != *b"10");
                    format!("{}{}JSON", ident(), unsafe { std::str::from_utf8_unchecked(&n) })
                } else {
                    ["CRED10JSON", "ACDC10MGPK", "KERI10CBOR", "KERI10MGPK", "ACDC10CBOR", "keri10JSON", "KERI10JSO_", "ACDC1 JSON"][choose("version", 8)].to_string()
                };
                with(&ked, "v", st(&format!("{text}{}", &v[10..])))
            }
            2 => {
                // another kind of digest
                let k = choose("digest", 9);
                good = k == 0 && good || asked == Some(DIGESTS[k].0);
                with(&ked, "d", st(&plain(k)))
            }
            3 => {
                good = false;
                let t = match choose("no digest", 4) {
                    0 => st(&fixed("B", &vec("key", 32))),
                    1 => st(&b64str("text", choose("length", 4))),
                    2 => st(&d[..43]),
                    _ => st(&format!("{}", fixed("M", &vec("number", 2)))),
                };
                with(&ked, "d", t)
            }
            4 => {
                good = false;
                match odd("d") {
                    None => without(&ked, "d"),
                    Some(v) => with(&ked, "d", v),
                }
            }
            5 => {
                // only fields can be in another kind
                kind = Some(["JSON", "CBOR", "MGPK", "", "json"][choose("kind", 5)]);
                ked
            }
            _ => {
                good = false;
                match odd("v") {
                    None => without(&ked, "v"),
                    Some(v) => with(&ked, "v", v),
                }
            }
        };
        let whole = if param("what") < 6 {
            let v = ked["v"].to_string().unwrap();
            let n = json(&ked).len();
            with(&ked, "v", st(&format!("{}{n:06x}_", &v[..10])))
        } else {
            ked.clone()
        };
        let a = load(&json(&whole), asked);
        check(a.is_ok() == good, "only messages of the asked kind are loaded");
        let good = good && matches!(kind, None | Some("JSON"));
        let b = build(&ked, asked, kind);
        check(b.is_ok() == good, "only messages of the asked kind are built");
        if let Ok(a) = a {
            reach("loaded");
            read_all(&a);
        } else {
            reach("refused");
        }
        if let Ok(b) = b {
            read_all(&b);
        }
        if choose("nothing", 2) == 1 {
            check(if acdc() { Creder::new(asked, None, None, None, None).is_err() } else { Serder::new(asked, None, None, None, None).is_err() }, "something is needed");
            for v in [Value::Null, st("KERI10JSON000000_"), arr(vec![]), Value::from(1)] {
                check(build(&v, asked, None).is_err(), "no document");
            }
        }
    }

    /// the fields of an event
    fn h_fields() {
        warm();
        let part = param("part");
        let code = |n: &str| ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"][choose(n, 6)];
        let key = |n: &str| {
            let c = code(n);
            fixed(c, &vec(n, rawsize(entry(c))))
        };
        let list = |on: bool, n: &str, dig: bool| -> Option<Vec<String>> {
            if !on {
                return Some(vec![]);
            }
            match choose(&format!("{n} count"), 4) {
                3 => None,
                k => Some((0..k).map(|_| if dig { digest(choose("digest code", 9)) } else { key(n) }).collect()),
            }
        };
        let (k, n, b) = (list(part == 0, "k", false), list(part == 1, "n", true), list(part == 2, "b", false));
        let d = plain(0);
        let mut f = vec![("v", st(&vers("KERI", 0))), ("d", st(&d))];
        let t = if part == 3 { ["icp", "rot", "ixn", "dip", "drt", "rct", "vcp", "", "icpx"][choose("ilk", 9)].to_string() } else { b64str("t", 3) };
        f.push(("t", st(&t)));
        let i = b64str("i", 3);
        f.push(("i", st(&i)));
        let hex: Vec<u8> = (0..if part == 3 { choose("s digits", 4) + 1 } else { 1 }).map(|_| b"0123456789abcdef"[(bytes::<1>("s")[0] & 15) as usize]).collect();
        let s = unsafe { String::from_utf8_unchecked(hex) };
        f.push(("s", st(&s)));
        for (l, x) in [("k", &k), ("n", &n), ("b", &b)] {
            if let Some(x) = x {
                f.push((l, arr(x.iter().map(|x| st(x)).collect())));
            }
        }
        let th = |n: &str| -> Option<(Value, bool, u32)> {
            match if part == 4 { choose(n, 5) } else { 0 } {
                0 => None,
                1 => Some((st("2"), false, 2)),
                2 => Some((Value::from(3), false, 3)),
                3 => Some((arr(vec![st("1/2"), st("1/2"), st("1")]), true, 3)),
                _ => Some((arr(vec![arr(vec![st("1")]), arr(vec![st("1/3"), st("2/3")])]), true, 3)),
            }
        };
        let (kt, nt) = (th("kt"), th("nt"));
        for (l, x) in [("kt", &kt), ("nt", &nt)] {
            if let Some(x) = x {
                f.push((l, x.0.clone()));
            }
        }
        let first = bytes::<2>("first seen");
        let has = choose("has f", 2) == 1;
        if has {
            f.push(("f", st(&fixed("M", &first))));
        }
        if part == 0 {
            decoys(&mut f, "w wits keys sn p bt br ba bd c a di fn K dig nxt x pre ilk");
        }
        let e = ok(Serder::new_with_ked(&obj(f), None, None), "an event");
        for (r, w, what) in [(e.verfers(), &k, "its keys"), (e.werfers(), &b, "its witnesses")] {
            let r = ok(r, what);
            let w = w.clone().unwrap_or_default();
            check(r.len() == w.len(), what);
            for (x, y) in r.iter().zip(&w) {
                check(eq(&ok(x.qb64(), what), y), what);
            }
        }
        let r = ok(e.digers(), "its next digests");
        let w = n.clone().unwrap_or_default();
        check(r.len() == w.len(), "its next digests");
        for (x, y) in r.iter().zip(&w) {
            check(eq(&ok(x.qb64(), "digest"), y), "its next digests");
        }
        for (r, w, what) in [(e.tholder(), &kt, "its threshold"), (e.ntholder(), &nt, "its next threshold")] {
            match (ok(r, what), w) {
                (None, None) => {}
                (Some(t), Some((v, weighted, n))) => {
                    check(t.weighted() == *weighted && t.size() == *n, what);
                    check(eqv(&ok(t.sith(), what), &if *weighted { v.clone() } else { st(&format!("{n}")) }), what);
                }
                _ => fail(what),
            }
        }
        let mut sn = 0;
        for c in s.as_bytes() {
            sn = sn * 16 + (*c - if *c < b'a' { b'0' } else { b'a' - 10 }) as u128;
        }
        check(ok(e.sn(), "its sequence number") == sn && ok(ok(e.sner(), "sner").num(), "sner") == sn, "its sequence number");
        if has {
            let f = (first[0] as u128) << 8 | first[1] as u128;
            check(ok(e._fn(), "first seen") == f && ok(ok(e.fner(), "fner").unwrap().num(), "fner") == f, "its first-seen number");
        } else {
            check(matches!(e.fner(), Ok(None)) && e._fn().is_err(), "no first-seen number");
        }
        check(eq(&ok(e.pre(), "pre"), &i) && same(&ok(e.preb(), "preb"), i.as_bytes()), "its identifier");
        let est = ["icp", "rot", "dip", "drt"].iter().any(|x| eq(x, &t));
        check(ok(e.est(), "est") == est, "establishment events");
        reach("read");
    }

    /// events with an odd field
    fn h_odd() {
        warm();
        let d = plain(0);
        let labels: &[&str] = if acdc() { &["i", "s", "a", "ri", "e"] } else { &["t", "i", "s", "k", "n", "b", "kt", "nt", "f"] };
        let l = labels[param("field") as usize];
        let mut f = vec![("v", st(&vers(ident(), 0))), ("d", st(&d)), ("x", Value::Null)];
        let v = odd("value");
        if let Some(v) = &v {
            f.push((l, v.clone()));
        }
        let ked = sized(&obj(f), ident());
        let x = match choose("route", 2) {
            0 => load(&json(&ked), None),
            _ => build(&ked, None, None),
        };
        let x = ok(x, "a message with its digest");
        read_all(&x);
        reach("read");
        let text = matches!(v, Some(Value::String(_)));
        match &x {
            S(e) => {
                // what is there is text, what is not there is an error
                match l {
                    "t" => check(e.est().is_ok() == text, "the kind of event"),
                    "i" => check(e.pre().is_ok() == text && e.preb().is_ok() == text, "the identifier"),
                    "s" => check(text || e.sner().is_err() && e.sn().is_err(), "the sequence number"),
                    "f" => check(match &v {
                        None => matches!(e.fner(), Ok(None)),
                        Some(_) => e.fner().is_err(), // no number fits into three characters
                    }, "the first-seen number"),
                    "b" => check(e.werfers().is_ok() == matches!(&v, None) | matches!(&v, Some(Value::Array(a)) if a.is_empty()), "the witnesses"),
                    "k" | "n" => {
                        let some = matches!(&v, Some(Value::Array(a)) if !a.is_empty());
                        check(if l == "k" { e.verfers().is_ok() } else { e.digers().is_ok() } != some, "the keys");
                    }
                    _ => {
                        let r = if l == "kt" { e.tholder() } else { e.ntholder() };
                        match &v {
                            None => check(matches!(r, Ok(None)), "no threshold"),
                            Some(Value::Number(_)) => {}
                            Some(Value::String(_)) | Some(Value::Array(_)) => {}
                            _ => check(r.is_err(), "no threshold"),
                        }
                    }
                }
            }
            C(c) => match l {
                "i" => check(c.issuer().is_ok() == text, "the issuer"),
                "s" => check(c.schema().is_ok() == text, "the schema"),
                "ri" => check(match &v {
                    None => matches!(c.status(), Ok(None)),
                    _ => c.status().is_ok() == text,
                }, "the registry"),
                "e" => check(eqv(&ok(c.chains(), "chains"), &v.clone().unwrap_or(obj(vec![]))), "the chains"),
                _ => {
                    if let Some(v) = &v {
                        check(eqv(&c.subject(), v), "the subject");
                    }
                }
            },
        }
    }

    /// any bytes after a version string, or none
    fn h_body() {
        warm();
        let n = param("n") as usize;
        let mut raw = match param("head") {
            0 => vec![],
            1 => b"{\"v\":\"KERI10JSON000000_\"".to_vec(),
            _ => {
                let d = plain(0);
                let mut b = b"{\"v\":\"KERI10JSON000000_\",\"d\":\"".to_vec();
                b.extend_from_slice(d.as_bytes());
                b.push(b'"');
                b
            }
        };
        raw.extend(vec("body", n));
        let total = raw.len();
        if param("head") > 0 {
            let v = vers(ident(), total);
            raw[6..23].copy_from_slice(v.as_bytes());
        }
        match load(&raw, None) {
            Ok(x) => {
                reach("loaded");
                check(param("head") == 2, "something without a digest");
                check(same(&on!(&x, raw), &raw) && on!(&x, size) as usize == total, "its bytes");
                read_all(&x);
            }
            Err(_) => reach("refused"),
        }
    }

    /// the fields of a credential
    fn h_creder() {
        warm();
        let d = plain(0);
        let (i, s, ri) = (b64str("i", 3), b64str("s", 2), b64str("ri", 2));
        let mut f = vec![("v", st(&vers("ACDC", 0))), ("d", st(&d)), ("i", st(&i))];
        let has = choose("registry", 2) == 1;
        if has {
            f.push(("ri", st(&ri)));
        }
        f.push(("s", st(&s)));
        let a = [obj(vec![("d", st(&b64str("x", 2))), ("n", arr(vec![Value::Null]))]), st(&b64str("y", 2)), arr(vec![])][choose("a", 3)].clone();
        f.push(("a", a.clone()));
        let e = [None, Some(obj(vec![("q", st(&b64str("e", 1)))])), Some(arr(vec![]))][choose("e", 3)].clone();
        if let Some(e) = &e {
            f.push(("e", e.clone()));
        }
        decoys(&mut f, "rd dt u r A ee S status issuer schema subject chains edges R rs ti");
        let ked = sized(&obj(f), "ACDC");
        let c = match choose("route", 2) {
            0 => Creder::new_with_raw(&json(&ked)),
            _ => Creder::new_with_ked(&ked, None, None),
        };
        let c = ok(c, "a credential");
        check(eqv(&c.crd(), &ked), "its fields");
        check(eq(&ok(c.issuer(), "issuer"), &i) && eq(&ok(c.schema(), "schema"), &s), "its issuer and schema");
        check(eqv(&c.subject(), &a), "its subject");
        match ok(c.status(), "status") {
            Some(x) => check(has && eq(&x, &ri), "its registry"),
            None => check(!has, "its registry"),
        }
        check(eqv(&ok(c.chains(), "chains"), &e.unwrap_or(obj(vec![]))), "its chains");
        reach("read");
    }

    /// a loaded message's digest verifies it and nothing else
    fn h_bound() {
        warm();
        let ked = skeleton("");
        let (s, want) = ok(Saider::saidify(&ked, None, None, None, None), "digest of a message");
        let q = ok(s.qb64(), "qb64");
        let x = ok(load(&json(&want), None), "its bytes are loaded");
        check(eq(&ok(on!(&x, said), "said"), &q), "its digest");
        let verifies = |x: &Any| {
            let e = on!(x, ked);
            ok(on!(x, saider).verify(&e, Some(true), Some(true), None, None, None), "verify")
        };
        check(verifies(&x), "a message verifies with its digest");
        let (l, t) = [("t", 3), ("i", 2), ("s", 1), ("d", 0), ("a", 1)][param("field") as usize];
        let e = match l {
            "d" => with(&want, "d", st(&digest(0))),
            "a" => with(&want, "a", arr(vec![obj(vec![("x", st(&b64str("new", t))), ("n", Value::from(-12))]), Value::Null, Value::Boolean(flag("flag"))])),
            _ => with(&want, l, st(&b64str("new", t))),
        };
        let e = sized(&e, ident());
        let y = ok(load(&json(&e), None), "another message");
        let r = verifies(&y);
        check(r == same(&json(&e), &json(&want)), "only the unchanged message verifies");
        reach(if r { "unchanged" } else { "changed" });
    }
}
