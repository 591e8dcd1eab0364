//! Typed primitives.
use crate::icodec::{self, X};
use crate::mcodec::M;
use crate::spec::*;
use keride::cesr::*;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;
use symrt::*;

pub const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const DIGS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub const STRS: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
const CLASSES: &[(&str, &[&[&str]])] = &[
    ("verfer", &[KEYS]),
    ("diger", &[DIGS]),
    ("saider", &[DIGS]),
    ("cigar", &[&["0B", "0C", "0I"]]),
    ("signer", &[&["A", "J", "Q"]]),
    ("salter", &[&["0A"]]),
    ("seqner", &[&["0A"]]),
    ("number", &[&["M", "0H", "N", "0A"]]),
    ("dater", &[&["1AAG"]]),
    ("bexter", &[STRS]),
    ("pather", &[STRS]),
    ("prefixer", &[KEYS, DIGS]),
];

pub enum R<'a> {
    Raw(&'a [u8], Option<&'a str>),
    Text(&'a str),
    TextB(&'a [u8]),
    Bin(&'a [u8]),
}
use R::*;

macro_rules! via {
    ($t:ty, $r:expr) => {
        match $r {
            Raw(r, c) => <$t>::new_with_raw(r, c),
            Text(s) => <$t>::new_with_qb64(s),
            TextB(s) => <$t>::new_with_qb64b(s),
            Bin(b) => <$t>::new_with_qb2(b),
        }
        .ok()
        .map(|x| (x.code(), x.raw()))
    };
    ($t:ty, $r:expr, $extra:expr, $raw:ident => $mk:expr) => {
        match $r {
            Raw(r, c) => {
                let $raw = (r, c);
                $mk
            }
            Text(s) => <$t>::new_with_qb64(s, $extra),
            TextB(s) => <$t>::new_with_qb64b(s, $extra),
            Bin(b) => <$t>::new_with_qb2(b, $extra),
        }
        .ok()
        .map(|x| (x.code(), x.raw()))
    };
}

fn make(t: usize, r: R) -> Option<(String, Vec<u8>)> {
    match t {
        0 => via!(Verfer, r),
        1 => via!(Diger, r),
        2 => via!(Saider, r),
        3 => via!(Cigar, r, None, x => Cigar::new_with_raw(x.0, None, x.1)),
        4 => via!(Signer, r, Some(true), x => Signer::new_with_raw(x.0, Some(true), x.1)),
        5 => via!(Salter, r, None, x => Salter::new_with_raw(x.0, x.1, None)),
        6 => via!(Seqner, r),
        7 => via!(Number, r),
        8 => via!(Dater, r),
        9 => via!(Bexter, r),
        10 => via!(Pather, r),
        _ => via!(Prefixer, r),
    }
}

fn member(t: usize, code: &str) -> bool {
    CLASSES[t].1.iter().any(|c| c.contains(&code))
}

/// seeds of these curves may be refused for not being valid scalars
fn picky(t: usize, code: &str) -> bool {
    t == 4 && code != "A"
}

fn judge(t: usize, code: &str, raw: &[u8], r: Option<(String, Vec<u8>)>, route: &str) {
    let ty = CLASSES[t].0;
    match r {
        Some((c, w)) => {
            check(member(t, code), &format!("{ty}: {route}: a code of another class is refused"));
            check(c == code && same(&w, raw), &format!("{ty}: {route}: code and raw"));
            reach("accepted");
        }
        None => {
            check(!member(t, code) || picky(t, code), &format!("{ty}: {route}: a code of the class is accepted"));
            reach("refused");
        }
    }
}

/// a 16-byte big-endian value
fn be(n: u128) -> [u8; 16] {
    n.to_be_bytes()
}
/// canonical lower-case hex
fn hex(n: u128) -> String {
    let mut len = 1;
    while len < 32 && n >> (4 * len) != 0 {
        len += 1;
    }
    let mut v = vec![];
    for i in (0..len).rev() {
        v.push(b"0123456789abcdef"[(n >> (4 * i)) as usize & 15]);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

fn number_is(x: keride::error::Result<Number>, n: u128, code: &str, what: &str) {
    let x = ok(x, what);
    check(x.code() == code, &format!("{what}: code"));
    check(ok(x.num(), "num") == n, &format!("{what}: num"));
    check(ok(x.positive(), "positive") == (n > 0), &format!("{what}: positive"));
}

fn bexter_is(x: &Bexter, code: &str, raw: &[u8], bext: &[u8], what: &str) {
    check(x.code() == code, &format!("{what}: code"));
    check(same(&x.raw(), raw), &format!("{what}: raw"));
    check(same(ok(x.bext(), "bext").as_bytes(), bext), &format!("{what}: text"));
}

harnesses! {
    /// one typed primitive against every code of the table
    fn h_class() {
        let t = param("type") as usize;
        let m = &MATTER[param("lo") as usize + choose("code", param("n") as usize)];
        let n = if m.4 == 0 { 12 - m.3 } else { rawsize(m) };
        let raw = vec("raw", n);
        let x = ok(M::new_with_code_and_raw(m.0, &raw), "carrier");
        match choose("route", 4) {
            0 => judge(t, m.0, &raw, make(t, Raw(&raw, Some(m.0))), "raw"),
            1 => judge(t, m.0, &raw, make(t, Text(&ok(x.qb64(), "qb64"))), "text"),
            2 => judge(t, m.0, &raw, make(t, TextB(&ok(x.qb64b(), "qb64b"))), "text bytes"),
            _ => judge(t, m.0, &raw, make(t, Bin(&ok(x.qb2(), "qb2"))), "binary"),
        }
    }
    /// raw without a code, with an unknown code
    fn h_class_raw() {
        let t = param("type") as usize;
        let n = [0usize, 1, 2, 4, 8, 16, 24, 32, 33, 64, 66][choose("len", 11)];
        let raw = vec("raw", n);
        let code = [None, Some(""), Some("1"), Some("0"), Some("4"), Some("1AAZ"), Some("4Z"), Some("é"), Some("-A"), Some("_")][choose("code", 10)];
        match make(t, Raw(&raw, code)) {
            Some((c, _)) => {
                check(member(t, &c), "a code of the class");
                reach("default code");
            }
            None => reach("refused"),
        }
    }
    /// constructors that compute what a primitive holds, given any code
    fn h_class_value() {
        let t = param("type") as usize;
        let i = choose("code", MATTER.len() + 5);
        let code = if i < MATTER.len() { MATTER[i].0 } else { ["", "Z", "-A", "1AAZ", "4B"][i - MATTER.len()] };
        let c = Some(code);
        let ty = CLASSES[t].0;
        let ser = bytes::<2>("data");
        let mut must = true;
        let r = match t {
            1 => match choose("route", 2) {
                0 => Diger::new(Some(&ser), c, None, None, None, None),
                _ => Diger::new_with_ser(&ser, c),
            }
            .ok()
            .map(|x| x.code()),
            2 => {
                let sad = obj(vec![("d", st("")), ("x", st("y"))]);
                let raw = vec("raw", if i < MATTER.len() && MATTER[i].4 > 0 { rawsize(&MATTER[i]) } else { 32 });
                match choose("route", 5) {
                    0 => Saider::new(Some(&sad), None, None, None, c, None, None, None, None),
                    1 => Saider::new(Some(&sad), None, None, None, c, Some(&raw), None, None, None),
                    2 => Saider::new(None, None, None, None, c, Some(&raw), None, None, None),
                    3 => Saider::new_with_sad(&sad, None, None, None, c),
                    _ => Saider::saidify(&sad, c, None, None, None).map(|x| x.0),
                }
                .ok()
                .map(|x| x.code())
            }
            4 => {
                must = code == "A";
                match choose("route", 2) {
                    0 => Signer::new_with_defaults(Some(true), c),
                    _ => Signer::new(None, c, None, None, None, None),
                }
                .ok()
                .map(|x| x.code())
            }
            5 => Salter::new(None, c, None, None, None, None).ok().map(|x| x.code()),
            6 => Seqner::new(Some(u128("n")), None, c, None, None, None, None).ok().map(|x| x.code()),
            7 => {
                must = false;
                Number::new(Some(u128("n")), None, c, None, None, None, None).ok().map(|x| x.code())
            }
            8 => {
                must = code == "1AAG";
                Dater::new_with_dts("2020-08-22T17:50:09.988921+00:00", c).ok().map(|x| x.code())
            }
            9 => {
                must = ["4A", "5A", "6A"].contains(&code);
                Bexter::new(Some(&b64str("text", 3)), c, None, None, None, None).ok().map(|x| x.code())
            }
            _ => {
                must = ["4A", "5A", "6A"].contains(&code);
                match choose("route", 2) {
                    0 => Pather::new(Some(&arr(vec![st("a"), st("b")])), None, c, None, None, None, None),
                    _ => Pather::new(None, Some("-a-b"), c, None, None, None, None),
                }
                .ok()
                .map(|x| x.code())
            }
        };
        match r {
            Some(k) => {
                check(member(t, &k), &format!("{ty}: computed: a code of the class"));
                if [1, 2, 4, 5, 6].contains(&t) {
                    check(k == code, &format!("{ty}: computed: the code asked for"));
                }
                reach("accepted");
            }
            None => {
                check(!(must && member(t, code)), &format!("{ty}: computed: a code of the class is accepted"));
                reach("refused");
            }
        }
    }
    /// indexed signatures against every indexer code
    fn h_siger() {
        let e = &icodec::TAB[choose("code", icodec::TAB.len())];
        let good = ["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"].contains(&e.code);
        let n = if e.fs == 0 { 6 } else { (e.fs - e.code.len() - e.ss) * 3 / 4 - e.ls };
        let raw = vec("raw", n);
        let index = if e.fs == 0 { 2 } else { 7 };
        let x = ok(X::new_with_code_and_raw(e.code, &raw, index, None), "carrier");
        let r = match choose("route", 4) {
            0 => Siger::new_with_raw(&raw, None, Some(index), None, Some(e.code)),
            1 => Siger::new_with_qb64(&ok(x.qb64(), "qb64"), None),
            2 => Siger::new_with_qb64b(&ok(x.qb64b(), "qb64b"), None),
            _ => Siger::new_with_qb2(&ok(x.qb2(), "qb2"), None),
        };
        match r {
            Ok(s) => {
                check(good, "siger: a code of another class is refused");
                check(s.code() == e.code && same(&s.raw(), &raw) && s.index() == index, "siger: code, raw, index");
                reach("accepted");
            }
            Err(_) => {
                check(!good, "siger: a code of the class is accepted");
                reach("refused");
            }
        }
    }

    /// numbers: every 128-bit integer
    fn h_num() {
        let n = u128("n");
        let x = ok(Number::new_with_num(n), "from integer");
        let (code, len) = if n < 1 << 16 {
            ("M", 2)
        } else if n < 1 << 32 {
            ("0H", 4)
        } else if n < 1 << 64 {
            ("N", 8)
        } else {
            ("0A", 16)
        };
        let raw = &be(n)[16 - len..];
        check(x.code() == code, "shortest code");
        check(same(&x.raw(), raw), "raw is the big-endian integer");
        let q = ok(x.qb64(), "qb64");
        check(same(q.as_bytes(), &text(&qb2(code, 0, raw))), "CESR text");
        reach("encoded");
        number_is(Ok(x.clone()), n, code, "from integer");
        number_is(Number::new_with_qb64(&q), n, code, "from text");
        number_is(Number::new_with_qb64b(q.as_bytes()), n, code, "from text bytes");
        number_is(Number::new_with_qb2(&ok(x.qb2(), "qb2")), n, code, "from binary");
        number_is(Number::new_with_raw(raw, Some(code)), n, code, "from raw");
        number_is(Number::new(Some(n), Some("zz"), None, None, None, None, None), n, code, "integer before hex");
        reach("parsed back");
    }
    fn h_numhex() {
        let n = u128("n");
        let h = ok(ok(Number::new_with_num(n), "from integer").numh(), "numh");
        check(same(h.as_bytes(), hex(n).as_bytes()), "number: canonical hex");
        let s = ok(Seqner::new_with_sn(n), "from integer");
        check(same(ok(s.snh(), "snh").as_bytes(), h.as_bytes()), "seqner: canonical hex");
        reach("hex");
    }
    /// every code, longer than needed or not: value of the raw
    fn h_numraw() {
        let (code, len) = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)][choose("code", 4)];
        let raw = vec("raw", len);
        let mut n = 0u128;
        for b in &raw {
            n = n << 8 | *b as u128;
        }
        let x = ok(Number::new_with_raw(&raw, Some(code)), "from raw");
        number_is(Number::new_with_qb64(&ok(x.qb64(), "qb64")), n, code, "from text");
        number_is(Ok(x), n, code, "from raw");
        reach("read");
    }
    fn h_seq() {
        let n = u128("n");
        let x = ok(Seqner::new_with_sn(n), "from integer");
        check(x.code() == "0A" && same(&x.raw(), &be(n)), "code and raw");
        check(ok(x.sn(), "sn") == n, "integer");
        let q = ok(x.qb64(), "qb64");
        check(same(q.as_bytes(), &text(&qb2("0A", 0, &be(n)))), "CESR text");
        for p in [
            Seqner::new_with_qb64(&q),
            Seqner::new_with_qb64b(q.as_bytes()),
            Seqner::new_with_qb2(&ok(x.qb2(), "qb2")),
            Seqner::new_with_raw(&be(n), None),
            Seqner::new_with_raw(&be(n), Some("0A")),
        ] {
            check(ok(ok(p, "parse").sn(), "sn") == n, "integer read back");
        }
        check(ok(ok(Seqner::new(None, None, None, None, None, None, None), "default").sn(), "sn") == 0, "no integer: zero");
        check(ok(ok(Number::new(None, None, None, None, None, None, None), "default").num(), "num") == 0, "no integer: zero");
        reach("read");
    }
    /// hex text: digits of either case
    fn h_hex() {
        let k = param("n") as usize;
        let zeros = param("zeros") as usize;
        let v = vec("digits", k);
        let mut s = vec![b'0'; zeros];
        let mut n = 0u128;
        for b in &v {
            let d = *b & 15;
            s.push(if *b & 16 != 0 { b"0123456789ABCDEF"[d as usize] } else { b"0123456789abcdef"[d as usize] });
            n = n << 4 | d as u128;
        }
        let s = unsafe { String::from_utf8_unchecked(s) };
        let x = ok(Number::new_with_numh(&s), "number from hex");
        check(ok(x.num(), "num") == n, "number: value of the hex text");
        let y = ok(Seqner::new_with_snh(&s), "seqner from hex");
        check(ok(y.sn(), "sn") == n, "seqner: value of the hex text");
        reach("read");
    }
    /// any text as hex
    fn h_hexany() {
        let k = param("n") as usize;
        let s = utf8("text", k);
        // a leading plus sign is something the integer parser takes
        assume(k == 0 || s.as_bytes()[0] != b'+');
        let mut good = k > 0;
        for b in s.as_bytes() {
            good &= b.is_ascii_hexdigit();
        }
        check(Number::new_with_numh(&s).is_ok() == (good || k == 0), "number: hex or refused");
        check(Seqner::new_with_snh(&s).is_ok() == good, "seqner: hex or refused");
        reach("done");
    }
    /// more than 32 hex digits
    fn h_hexlong() {
        let b = bytes::<1>("first")[0] & 15;
        let mut s = vec![b"0123456789abcdef"[b as usize]];
        s.extend_from_slice(&[b'9'; 32]);
        let s = unsafe { String::from_utf8_unchecked(s) };
        check(Number::new_with_numh(&s).is_ok() == (b == 0), "number: beyond 128 bits refused");
        check(Seqner::new_with_snh(&s).is_ok() == (b == 0), "seqner: beyond 128 bits refused");
        reach("done");
    }

    /// Base64 text: any text
    fn h_bext() {
        let n = param("n") as usize;
        let _ = Bexter::new_with_bext("warm_up");
        let s = match choose("any", 2) {
            0 => ascii("text", n),
            _ if n <= 6 => utf8("text", n),
            _ => {
                let a = choose("window", n - 3);
                ascii("text", a) + &utf8("wide", 4) + &ascii("rest", n - 4 - a)
            }
        };
        let b = s.as_bytes();
        let x = match Bexter::new_with_bext(&s) {
            Ok(x) => x,
            Err(_) => {
                reach("refused");
                check(!all_b64(b), "Base64 text is accepted");
                done()
            }
        };
        check(all_b64(b), "other text is refused");
        // this text is ambiguous in CESR
        if n > 0 && n % 4 == 0 {
            assume(b[0] != b'A');
        }
        let (ws, ls) = ((4 - n % 4) % 4, (3 - n % 4) % 3);
        let mut padded = vec![b'A'; ws];
        padded.extend_from_slice(b);
        let full = untext(&padded);
        let raw = &full[ls..];
        let code = ["4A", "5A", "6A"][ls];
        check(ls == (3 - raw.len() % 3) % 3, "specification is consistent");
        bexter_is(&x, code, raw, b, "from text");
        let q = ok(x.qb64(), "qb64");
        let q2 = ok(x.qb2(), "qb2");
        let both = format!("{code}{}", int_b64(full.len() as u64 / 3, 2));
        check(same(&q2, &qb2(&both, ls, raw)), "CESR binary");
        check(same(q.as_bytes(), &text(&q2)), "CESR text");
        reach("encoded");
        bexter_is(&ok(Bexter::new_with_qb64(&q), "parse"), code, raw, b, "from qb64");
        bexter_is(&ok(Bexter::new_with_qb64b(q.as_bytes()), "parse"), code, raw, b, "from qb64b");
        bexter_is(&ok(Bexter::new_with_qb2(&q2), "parse"), code, raw, b, "from qb2");
        bexter_is(&ok(Bexter::new_with_raw(raw, None), "parse"), code, raw, b, "from raw");
        bexter_is(&ok(Bexter::new_with_raw(raw, Some(STRS[choose("code", 3)])), "parse"), code, raw, b, "from raw and code");
        bexter_is(&ok(Bexter::new(Some(&s), Some(["4A", "6A"][choose("code2", 2)]), None, None, None, None), "parse"), code, raw, b, "from text and code");
        reach("parsed back");
    }

    /// date-times
    fn h_date() {
        let mut s = *b"0000-00-00T00:00:00.000000+00:00";
        let d = bytes::<32>("digits");
        for i in 0..32 {
            if s[i] == b'0' {
                assume(d[i] < 10);
                s[i] = b'0' + d[i];
            }
        }
        if choose("sign", 2) == 1 {
            s[26] = b'-';
        }
        // one character out of place
        let free = param("lo") as usize + choose("free", param("n") as usize);
        if free < 32 {
            let c = bytes::<1>("char")[0] as usize;
            assume(c < 66);
            s[free] = b"0123456789+-:.T_ABCEFGHIJKLMNOPQRSTUVWXYZabefghijklmnoqrstuvwxyz~!"[c % 66];
        }
        let t = std::str::from_utf8(&s).unwrap();
        let mut want = [0u8; 32];
        let mut good = true;
        for i in 0..32 {
            want[i] = match s[i] {
                b':' => b'c',
                b'.' => b'd',
                b'+' => b'p',
                c => c,
            };
            good &= s[i] != b'~' && s[i] != b'!';
        }
        let x = match Dater::new_with_dts(t, None) {
            Ok(x) => x,
            Err(_) => {
                check(!good, "a date-time is accepted");
                reach("refused");
                done()
            }
        };
        check(good, "other characters are refused");
        check(x.code() == "1AAG", "code");
        let q = ok(x.qb64(), "qb64");
        check(same(&q.as_bytes()[..4], b"1AAG") && same(&q.as_bytes()[4..], &want), "CESR text");
        check(same(&x.raw(), &untext(&want)), "raw");
        reach("encoded");
        for (i, y) in [
            Ok(x.clone()),
            Dater::new_with_qb64(&q),
            Dater::new_with_qb64b(q.as_bytes()),
            Dater::new_with_qb2(&ok(x.qb2(), "qb2")),
            Dater::new_with_raw(&x.raw(), None),
            Dater::new_with_raw(&x.raw(), Some("1AAG")),
            Dater::new_with_dts(t, Some("1AAG")),
        ]
        .into_iter()
        .enumerate()
        {
            let y = ok(y, "parse");
            check(same(ok(y.dts(), "dts").as_bytes(), &s), &format!("text read back, route {i}"));
            check(same(&ok(y.dtsb(), "dtsb"), &s), &format!("bytes read back, route {i}"));
            if i == 0 && param("routes") == 0 {
                break;
            }
        }
        reach("read");
    }
    /// shorter texts are not date-times
    fn h_dateshort() {
        let n = choose("n", 32);
        let t = "2020-08-22T17:50:09.988921+00:00";
        let w = utf8("any", 2);
        let n = n.max(2);
        let s = format!("{}{w}", &t[..n - 2]);
        check(Dater::new_with_dts(&s, None).is_err(), "short text refused");
        reach("refused");
    }

    /// classification
    fn h_classify() {
        let m = &MATTER[choose("code", MATTER.len())];
        let n = if m.4 == 0 { 12 - m.3 } else { rawsize(m) };
        let raw = vec("raw", n);
        let x = ok(M::new_with_code_and_raw(m.0, &raw), "carrier");
        let y = match choose("route", 4) {
            0 => x,
            1 => ok(M::new_with_qb64(&ok(x.qb64(), "qb64")), "text"),
            2 => ok(<M as Matter>::new_with_qb64b(&ok(x.qb64b(), "qb64b")), "text bytes"),
            _ => ok(M::new_with_qb2(&ok(x.qb2(), "qb2")), "binary"),
        };
        let nontrans = ["B", "1AAA", "1AAC", "1AAI"].contains(&m.0);
        check(y.transferable() == !nontrans, "transferable");
        check(y.digestive() == DIGS.contains(&m.0), "digestive");
        let fs = if m.4 == 0 { m.1 + m.2 + 16 } else { m.4 };
        check(ok(y.full_size(), "full_size") == fs, "full size");
        reach("classified");
    }
    /// variable-size material of any size
    fn h_fullsize() {
        let v: Vec<usize> = (0..MATTER.len()).filter(|i| MATTER[*i].4 == 0).collect();
        let m = &MATTER[v[choose("code", v.len())]];
        let k = [1usize, 2, 63, 64, 65, 128, 1000, 4095, 4096, 5000][choose("size", 10)];
        let raw = vec![7u8; 3 * k - m.3];
        let x = ok(M::new_with_code_and_raw(m.0, &raw), "carrier");
        // more than two characters can count takes a larger code
        let want = if m.1 + m.2 == 4 && k < 4096 { 4 } else { 8 } + 4 * k;
        check(ok(x.full_size(), "full_size") == want, "full size");
        let q = ok(x.qb64(), "qb64");
        check(q.len() == want, "full size is the length of the text");
        check(ok(ok(M::new_with_qb64(&q), "text").full_size(), "full_size") == want, "full size, from text");
        check(ok(ok(M::new_with_qb2(&ok(x.qb2(), "qb2")), "binary").full_size(), "full_size") == want, "full size, from binary");
        reach("sized");
    }
}
