//! Signing thresholds.
use crate::spec::*;
use keride::cesr::*;
use keride::data::Value;
use symrt::*;

type Clauses = Vec<Vec<(u64, u64)>>;

/// families of weights, as fractions
fn family(k: usize) -> Clauses {
    let f: &[&[&[(u64, u64)]]] = &[
        &[&[(1, 2), (1, 2)]],
        &[&[(1, 3), (1, 3), (1, 3)]],
        &[&[(1, 2), (1, 2), (1, 4), (1, 4)]],
        &[&[(1, 1), (0, 1), (1, 2)]],
        &[&[(1, 2), (1, 2)], &[(1, 1), (1, 1)]],
        &[&[(2, 3), (1, 3)], &[(1, 5), (4, 5), (2, 5)]],
        &[&[(1, 7), (6, 7), (1, 1)], &[(1, 1)]],
        &[&[(1, 2147483647), (2147483646, 2147483647), (1, 2147483646)]],
        &[&[(1, 1)], &[(1, 1)], &[(1, 2), (3, 4)]],
        &[&[(9, 10), (1, 10), (1, 11), (10, 11)]],
        &[&[(1, 3), (1, 3), (1, 6), (1, 6)]],
        &[&[(1, 1)]],
        &[&[(2, 3), (2, 3), (1, 2)], &[(1, 1), (1, 2)]],
        &[&[(1, 1), (3, 4), (1, 2)], &[(1, 2), (1, 3), (2, 3)], &[(0, 1), (1, 1)]],
    ];
    f[k].iter().map(|c| c.to_vec()).collect()
}
const FAMILIES: usize = 14;
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn frac(w: (u64, u64), sep: &str) -> String {
    let g = gcd(w.0, w.1);
    if w.1 == g {
        format!("{}", w.0 / g)
    } else {
        format!("{}{sep}{}", w.0 / g, w.1 / g)
    }
}
fn lists(c: &Clauses) -> Value {
    arr(c.iter().map(|x| arr(x.iter().map(|w| st(&frac(*w, "/"))).collect())).collect())
}
fn limen(c: &Clauses) -> String {
    let t: Vec<String> = c.iter().map(|x| x.iter().map(|w| frac(*w, "s")).collect::<Vec<_>>().join("c")).collect();
    bext(&t.join("a"))
}
/// CESR encoding of a Base64 text
fn bext(t: &str) -> String {
    let n = t.len();
    let (ws, ls) = ((4 - n % 4) % 4, (3 - n % 4) % 3);
    let mut padded = vec![b'A'; ws];
    padded.extend_from_slice(t.as_bytes());
    let full = untext(&padded);
    let code = format!("{}{}", ["4A", "5A", "6A"][ls], int_b64(full.len() as u64 / 3, 2));
    String::from_utf8(text(&qb2(&code, ls, &full[ls..]))).unwrap()
}
/// does every clause reach one with the given members
fn reached(c: &Clauses, has: impl Fn(usize) -> bool) -> bool {
    let mut all = true;
    let mut i = 0;
    for x in c {
        let common: u128 = x.iter().map(|w| w.1 as u128).product();
        let mut sum = 0u128;
        for w in x {
            sum += pick(has(i), w.0, 0) as u128 * (common / w.1 as u128);
            i += 1;
        }
        all &= sum >= common;
    }
    all
}
fn size(c: &Clauses) -> usize {
    c.iter().map(|x| x.len()).sum()
}
fn weighted_is(t: &Tholder, c: &Clauses, how: &str) {
    check(t.weighted() && t.size() as usize == size(c), how);
    check(eqv(&t.thold(), &lists(c)), how);
    check(matches!(t.num(), Ok(None)), how);
    let l = lists(c);
    let sith = if c.len() == 1 { l[0].clone() } else { l };
    check(eqv(&ok(t.sith(), "sith"), &sith), how);
    check(ok(t.to_json(), "json") == ok(sith.to_json(), "json"), how);
    check(same(&ok(t.limen(), "limen"), limen(c).as_bytes()), how);
}
fn number_is(t: &Tholder, n: u32, how: &str) {
    check(!t.weighted() && t.size() == n, how);
    check(ok(t.num(), "num") == Some(n), how);
    check(ok(t.thold().to_i64(), "thold") == n as i64, how);
    let k = concrete(pick(n < 1 << 16, 2, 4)) as usize;
    // the shortest number code that holds n
    let code = if k == 2 { "M" } else { "0H" };
    let want = text(&qb2(code, 0, &n.to_be_bytes()[4 - k..]));
    check(same(&ok(t.limen(), "limen"), &want), how);
}
fn hex(n: u32) -> String {
    let digits = concrete(pick(n < 16, 1, pick(n < 1 << 8, 2, pick(n < 1 << 12, 3, pick(n < 1 << 16, 4, pick(n < 1 << 20, 5, pick(n < 1 << 24, 6, pick(n < 1 << 28, 7, 8)))))))) as usize;
    let v: Vec<u8> = (0..digits).rev().map(|i| b"0123456789abcdef"[(n >> (4 * i) & 15) as usize]).collect();
    String::from_utf8(v).unwrap()
}
/// all weights together satisfy any acceptable threshold, none satisfies none
fn sane(t: &Tholder) {
    if t.weighted() {
        let all: Vec<u32> = (0..t.size()).collect();
        check(t.size() > 0, "weights");
        check(ok(t.satisfy(&all), "satisfy"), "all weights reach the threshold");
    }
    check(!ok(t.satisfy(&[]), "satisfy"), "no weights do not reach the threshold");
    let l = ok(t.limen(), "limen");
    let u = ok(Tholder::new_with_limen(&l), "limen is accepted");
    check(eqv(&u.thold(), &t.thold()) & (u.size() == t.size()) & (u.weighted() == t.weighted()), "limen keeps the threshold");
    let u = ok(Tholder::new_with_sith(&ok(t.sith(), "sith")), "sith is accepted");
    check(eqv(&u.thold(), &t.thold()) & (u.size() == t.size()) & (u.weighted() == t.weighted()), "sith keeps the threshold");
}

harnesses! {
    /// numeric threshold against any list of indices
    fn h_numeric() {
        let n = u32("threshold");
        assume(n > 0);
        let t = match choose("route", 2) {
            0 => ok(Tholder::new_with_thold(&Value::from(n as i64)), "number is a threshold"),
            _ => ok(Tholder::new_with_sith(&Value::from(n as i64)), "number is a threshold"),
        };
        let k = choose("count", param("k") as usize + 1);
        let v: Vec<u32> = (0..k).map(|i| u32(&format!("index {i}"))).collect();
        let mut distinct = 0;
        for i in 0..k {
            let mut new = true;
            for j in 0..i {
                new &= v[i] != v[j];
            }
            distinct += pick(new, 1, 0);
        }
        if ok(t.satisfy(&v), "satisfy") {
            reach("satisfied");
            check(distinct >= n as u64, "satisfied only by enough distinct indices");
        } else {
            reach("not satisfied");
            check(distinct < n as u64, "enough distinct indices satisfy");
        }
    }

    /// weighted threshold against any list of indices
    fn h_weighted() {
        let _ = Tholder::new_with_sith(&arr(vec![st("1")]));
        let mut c = family(param("family") as usize);
        if param("free") > 0 {
            // any fractions
            let table = [(0, 1), (1, 1), (1, 2), (1, 3), (2, 3), (3, 7)];
            c = vec![(0..param("free") as usize).map(|_| table[choose("weight", table.len())]).collect()];
            match choose("second clause", 3) {
                0 => {}
                1 => c.push(vec![(1, 2), (1, 2)]),
                _ => c.push(vec![(1, 1), (0, 1)]),
            }
        }
        let s = arr(c.iter().map(|x| arr(x.iter().map(|w| st(&format!("{}/{}", w.0, w.1))).collect())).collect());
        let good = reached(&c, |_| true);
        let t = match Tholder::new_with_sith(&s) {
            Ok(t) => t,
            Err(_) => {
                check(!good, "weights that reach one are accepted");
                done()
            }
        };
        check(good, "weights that do not reach one are refused");
        let t = match choose("route", param("routes") as usize) {
            0 => t,
            1 => ok(Tholder::new_with_thold(&t.thold()), "thold"),
            _ => ok(Tholder::new_with_limen(&ok(t.limen(), "limen")), "limen"),
        };
        let n = size(&c);
        let k = if param("subset") == 1 { 0 } else { choose("count", param("k") as usize + 1) };
        let v: Vec<u32> = if param("subset") == 1 {
            // every set of indices, in either order
            let mut v: Vec<u32> = (0..n as u32).filter(|_| choose("member", 2) == 1).collect();
            if choose("order", 2) == 1 {
                v.reverse();
            }
            v
        } else {
            (0..k).map(|i| if param("bits") > 0 { vec(&format!("index {i}"), 1)[0] as u32 & ((1 << param("bits")) - 1) } else { u32(&format!("index {i}")) }).collect()
        };
        let n = n as u32;
        let mut inside = true;
        for i in &v {
            inside &= *i < n;
        }
        let want = reached(&c, |i| {
            let mut r = false;
            for x in &v {
                r |= *x == i as u32;
            }
            r
        });
        match t.satisfy(&v) {
            Ok(true) => {
                reach("satisfied");
                check(inside, "indices without a weight never satisfy");
                check(want, "satisfied only when every clause reaches one");
            }
            Ok(false) => {
                reach("not satisfied");
                check(!(inside & want), "satisfied when every clause reaches one");
            }
            Err(_) => {
                reach("refused");
                check(!inside, "indices with a weight are evaluated");
            }
        }
    }

    /// every form of a weighted threshold
    fn h_forms() {
        let c = family(choose("family", FAMILIES));
        let s = lists(&c);
        let is = |t: keride::error::Result<Tholder>, how: &str| weighted_is(&ok(t, how), &c, how);
        is(Tholder::new_with_sith(&s), "from sith");
        is(Tholder::new_with_thold(&s), "from thold");
        is(Tholder::new_with_sith(&st(&ok(s.to_json(), "json"))), "from sith as JSON text");
        is(Tholder::new_with_limen(limen(&c).as_bytes()), "from limen");
        // fractions that are not in lowest terms
        let m = 1 + choose("multiple", 3) as u64;
        let s = arr(c.iter().map(|x| arr(x.iter().map(|w| if w.1 > 1 && w.1 < 1 << 20 { st(&format!("{}/{}", w.0 * m, w.1 * m)) } else { st(&frac(*w, "/")) }).collect())).collect());
        is(Tholder::new_with_sith(&s), "from reducible fractions");
        if c.len() == 1 {
            is(Tholder::new_with_sith(&s[0]), "from one clause");
        }
        sane(&ok(Tholder::new_with_sith(&s), "sith"));
        reach("kept");
    }

    /// thresholds of many clauses or many weights keep all of them
    fn h_long() {
        let k = [1usize, 2, 5, 12][choose("clauses", 4)];
        let m = [1usize, 2, 8, 9, 16, 31][choose("weights", 6)];
        let other = [(1u64, 2u64), (2, 3), (1, 1), (0, 1)][choose("weight", 4)];
        let c: Vec<Vec<(u64, u64)>> = (0..k)
            .map(|i| {
                let mut v = vec![if i % 2 == 0 { other } else { (1, 3) }; m];
                v[0] = (1, 1);
                v
            })
            .collect();
        let s = lists(&c);
        let is = |t: keride::error::Result<Tholder>, how: &str| weighted_is(&ok(t, how), &c, how);
        is(Tholder::new_with_sith(&s), "from sith");
        is(Tholder::new_with_limen(limen(&c).as_bytes()), "from limen");
        sane(&ok(Tholder::new_with_sith(&s), "sith"));
        reach("kept");
    }

    /// every form of a numeric threshold
    fn h_number() {
        let n = i64::from_be_bytes(bytes::<8>("threshold"));
        let r = match choose("route", 2) {
            0 => Tholder::new_with_thold(&Value::from(n)),
            _ => Tholder::new_with_sith(&Value::from(n)),
        };
        let t = match r {
            Ok(t) => t,
            Err(_) => {
                reach("refused");
                check(n < 0 || n > u32::MAX as i64, "a number is a threshold");
                done()
            }
        };
        check(n >= 0 && n <= u32::MAX as i64, "negative and huge numbers are refused");
        reach("accepted");
        let n = n as u32;
        number_is(&t, n, "from number");
        let h = hex(n);
        check(eqv(&ok(t.sith(), "sith"), &st(&h)), "sith is the hex number");
        let mut u = h.clone();
        u.make_ascii_uppercase();
        number_is(&ok(Tholder::new_with_sith(&st(&h)), "hex"), n, "from hex");
        number_is(&ok(Tholder::new_with_sith(&st(&u)), "hex"), n, "from upper-case hex");
        number_is(&ok(Tholder::new_with_sith(&st(&format!("000{h}"))), "hex"), n, "from hex with zeros");
        number_is(&ok(Tholder::new_with_limen(&ok(t.limen(), "limen")), "limen"), n, "from limen");
        let mut wide = [0u8; 8];
        wide[4..].copy_from_slice(&n.to_be_bytes());
        number_is(&ok(Tholder::new_with_limen(&text(&qb2("N", 0, &wide))), "limen"), n, "from a wider limen");
    }

    /// any text as threshold
    fn h_text() {
        let _ = Tholder::new_with_sith(&arr(vec![st("1")]));
        let n = param("n") as usize;
        let s = if choose("any", 2) == 0 || n > 5 { ascii("text", n) } else { utf8("text", n) };
        let b = s.as_bytes();
        if param("list") == 1 {
            assume(b[0] == b'[');
        } else {
            assume(n == 0 || b[0] != b'[');
        }
        let r = Tholder::new_with_sith(&st(&s));
        match r {
            Ok(t) => {
                if param("list") == 0 {
                    let mut good = n > 0;
                    for i in 0..n {
                        // a sign may precede the digits
                        good &= b[i].is_ascii_hexdigit() | (i == 0 && n > 1 && (b[i] == b'+' || b[i] == b'-'));
                    }
                    check(good, "text that is no number is refused");
                    let mut v = 0u32;
                    for c in b {
                        let d = pick(*c <= b'9', *c as u64 & 15, (*c as u64 & 7) + 9) as u32;
                        v = v << 4 | pick(c.is_ascii_hexdigit(), d as u64, 0) as u32;
                    }
                    check(t.size() == v, "the number the text spells");
                }
                reach("accepted");
                sane(&t);
            }
            Err(_) => {
                reach("refused");
                if param("list") == 0 {
                    let mut good = n > 0;
                    for c in b {
                        good &= c.is_ascii_hexdigit();
                    }
                    check(!good, "a hex number is accepted");
                }
            }
        }
    }

    /// any text as weight
    fn h_weight() {
        let _ = Tholder::new_with_sith(&arr(vec![st("1")]));
        let n = param("n") as usize;
        let w = if n > 3 || choose("any", 2) == 0 { ascii("weight", n) } else { utf8("weight", n) };
        // fractions: decide their digits
        let mut w = w.into_bytes();
        let mut slash = false;
        for c in &w {
            slash |= *c == b'/';
        }
        if slash {
            for i in 0..n {
                if w[i].is_ascii_digit() {
                    w[i] = concrete(w[i] as u64) as u8;
                }
            }
        }
        let w = unsafe { String::from_utf8_unchecked(w) };
        let b = w.as_bytes();
        let other = [(1u64, 2u64), (1, 1), (0, 1)][choose("other", param("others") as usize)];
        let mut sign = false;
        for c in b {
            sign |= *c == b'+' || *c == b'-';
        }
        assume(!sign);
        // the weight before, after, or behind two others that add up to the same
        let o = frac(other, "/");
        let s = match param("place") {
            0 => arr(vec![st(&w), st(&o)]),
            1 => arr(vec![st(&o), st(&w)]),
            _ => arr(vec![st("0"), st(&o), st(&w)]),
        };
        // read the fraction
        let mut slash = n;
        for i in (0..n).rev() {
            if b[i] == b'/' {
                slash = i;
            }
        }
        let num = |v: &[u8]| {
            let mut r = 0u64;
            let mut good = !v.is_empty();
            for c in v {
                good &= c.is_ascii_digit();
                r = r * 10 + (*c & 15) as u64;
            }
            (r, good)
        };
        let fr = if slash == n {
            if n == 1 && (b[0] == b'0' || b[0] == b'1') {
                Some(((b[0] & 1) as u64, 1))
            } else {
                None
            }
        } else {
            let ((p, g), (q, h)) = (num(&b[..slash]), num(&b[slash + 1..]));
            if g && h && q > 0 && p <= q {
                Some((concrete(p), concrete(q)))
            } else {
                None
            }
        };
        let want = match fr {
            Some((p, q)) => p * other.1 + other.0 * q >= q * other.1,
            None => false,
        };
        match Tholder::new_with_sith(&s) {
            Ok(t) => {
                reach("accepted");
                check(want, "a bad weight or too small a sum is refused");
                if let Some((p, q)) = fr {
                    let (p, q) = (concrete(p), concrete(q));
                    let c = match param("place") {
                        0 => vec![(p, q), other],
                        1 => vec![other, (p, q)],
                        _ => vec![(0, 1), other, (p, q)],
                    };
                    weighted_is(&t, &vec![c], "weights are kept");
                }
                sane(&t);
            }
            Err(_) => {
                reach("refused");
                check(!want, "fractions reaching one are accepted");
            }
        }
    }

    /// any encoded threshold
    fn h_limen() {
        let _ = Tholder::new_with_sith(&arr(vec![st("1")]));
        let n = param("n") as usize;
        let mut v = match param("code") {
            0 => vec![],
            1 => b"4AAB".to_vec(),
            2 => b"5AAB".to_vec(),
            3 => b"6AAB".to_vec(),
            4 => [&b"4AAB"[..], b"5AACAA"][(n - 4) / 2].to_vec(),
            _ => b"M".to_vec(),
        };
        if param("code") == 0 {
            v = vec("limen", n);
        } else if param("code") == 4 {
            // mostly the characters thresholds are made of
            for i in 0..n {
                v.push(b"0123sacA"[(vec(&format!("char {i}"), 1)[0] & 7) as usize]);
            }
        } else {
            v.extend(vec("limen", n));
        }
        // fractions: decide their digits
        if param("code") > 0 && param("code") < 5 {
            let mut slash = false;
            for c in &v[4..] {
                slash |= *c == b's';
            }
            if slash {
                for i in 4..v.len() {
                    if v[i].is_ascii_digit() {
                        v[i] = concrete(v[i] as u64) as u8;
                    }
                }
            }
        }
        match Tholder::new_with_limen(&v) {
            Ok(t) => {
                reach("accepted");
                sane(&t);
            }
            Err(_) => reach("refused"),
        }
    }

    /// expressions of another type
    fn h_types() {
        let bad = [
            Value::Null,
            Value::Boolean(true),
            Value::from(1.5f64),
            arr(vec![]),
            arr(vec![arr(vec![])]),
            arr(vec![arr(vec![]), arr(vec![st("1")])]),
            arr(vec![Value::from(1i64)]),
            arr(vec![Value::Null]),
            arr(vec![st("1"), Value::from(1i64)]),
            arr(vec![st("1"), arr(vec![st("1")])]),
            arr(vec![arr(vec![arr(vec![st("1")])])]),
            arr(vec![obj(vec![("a", st("1"))])]),
            obj(vec![("a", st("1"))]),
            arr(vec![arr(vec![st("1/2")]), arr(vec![st("1")])]),
            arr(vec![st("-1/2"), st("1")]),
            arr(vec![st("1/-2"), st("1")]),
            arr(vec![st("-1/-1"), st("1")]),
            arr(vec![st("1/2147483648"), st("1")]),
            arr(vec![st("2147483648/2147483649"), st("1")]),
            arr(vec![st("3/2"), st("1")]),
            arr(vec![st("2"), st("1")]),
            arr(vec![st("1/0"), st("1")]),
            arr(vec![st("0/0"), st("1")]),
            st("[1]"),
            st("[[\"1/2\"],[\"1\"]]"),
            st("["),
            st("[]"),
            st("[[]]"),
            st("-1"),
            st("100000000"),
            st("10000000000000000"),
        ];
        for (i, v) in bad.iter().enumerate() {
            check(Tholder::new_with_sith(v).is_err(), &format!("bad expression {i} is refused as sith"));
            if v.to_string().is_err() {
                check(Tholder::new_with_thold(v).is_err(), &format!("bad expression {i} is refused as thold"));
            }
        }
        check(Tholder::new_with_limen(b"").is_err(), "empty limen");
        check(Tholder::new(None, None, None).is_err(), "no expression");
        reach("refused");
    }
}
