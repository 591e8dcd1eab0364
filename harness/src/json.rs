//! Documents as JSON.
use crate::spec::*;
use keride::data::{dat, Object, Value};
use keride::verif::{dumps, loads};
use symrt::*;

fn escaped(s: &str, o: &mut Vec<u8>) {
    o.push(b'"');
    for &b in s.as_bytes() {
        match b {
            b'"' => o.extend_from_slice(b"\\\""),
            b'\\' => o.extend_from_slice(b"\\\\"),
            8 => o.extend_from_slice(b"\\b"),
            9 => o.extend_from_slice(b"\\t"),
            10 => o.extend_from_slice(b"\\n"),
            12 => o.extend_from_slice(b"\\f"),
            13 => o.extend_from_slice(b"\\r"),
            0..=31 => {
                o.extend_from_slice(b"\\u00");
                o.push(b"0123456789abcdef"[(b >> 4) as usize]);
                o.push(b"0123456789abcdef"[(b & 15) as usize]);
            }
            _ => o.push(b),
        }
    }
    o.push(b'"');
}
/// compact JSON, fields in order
fn write(v: &Value, o: &mut Vec<u8>) {
    match v {
        Value::String(s) => escaped(s, o),
        Value::Array(a) => {
            o.push(b'[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                write(x, o);
            }
            o.push(b']');
        }
        Value::Object(m) => {
            o.push(b'{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                escaped(k, o);
                o.push(b':');
                write(x, o);
            }
            o.push(b'}');
        }
        Value::Null => o.extend_from_slice(b"null"),
        Value::Boolean(b) => o.extend_from_slice(if *b { b"true" } else { b"false" }),
        Value::Number(_) => match v.to_i64() {
            Ok(i) => decimal(i, o),
            Err(_) => {
                let f = v.to_f64().unwrap();
                o.extend_from_slice(FLOATS.iter().find(|x| x.0.to_bits() == f.to_bits()).unwrap().1.as_bytes());
            }
        },
    }
}
const FLOATS: [(f64, &str); 9] = [(1.0, "1.0"), (0.5, "0.5"), (-2.25, "-2.25"), (0.1, "0.1"), (-0.0, "-0.0"), (0.0, "0.0"), (1e300, "1e+300"), (1e-7, "1e-7"), (9007199254740993.0, "9007199254740992.0")];
fn decimal(i: i64, o: &mut Vec<u8>) {
    let mut n = i.unsigned_abs();
    if i < 0 {
        o.push(b'-');
    }
    let mut k = 1;
    let mut limit = 10u64;
    while k < 19 && n >= limit {
        k += 1;
        limit = limit.wrapping_mul(10);
    }
    let mut d = vec![0; k];
    for j in (0..k).rev() {
        d[j] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    o.extend_from_slice(&d);
}

/// an independent reader of JSON
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.peek() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self, w: &[u8], v: Value) -> Option<Value> {
        for c in w {
            self.eat(*c)?;
        }
        Some(v)
    }
    fn digits(&mut self) -> Option<()> {
        let from = self.i;
        while let Some(b'0'..=b'9') = self.peek() {
            self.i += 1;
        }
        if self.i > from {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<Value> {
        let from = self.i;
        let neg = self.peek() == Some(b'-');
        if neg {
            self.i += 1;
        }
        let start = self.i;
        self.digits()?;
        if self.b[start] == b'0' && self.i > start + 1 {
            return None;
        }
        let end = self.i;
        let mut float = false;
        if self.peek() == Some(b'.') {
            float = true;
            self.i += 1;
            self.digits()?;
        }
        if let Some(b'e' | b'E') = self.peek() {
            float = true;
            self.i += 1;
            if let Some(b'+' | b'-') = self.peek() {
                self.i += 1;
            }
            self.digits()?;
        }
        if float {
            let mut t = vec![];
            for c in &self.b[from..self.i] {
                t.push(concrete(*c as u64) as u8);
            }
            let f: f64 = std::str::from_utf8(&t).ok()?.parse().ok()?;
            return if f.is_finite() { Some(Value::from(f)) } else { None };
        }
        let d = &self.b[start..end];
        if neg && d == b"0" {
            return Some(Value::from(-0.0f64));
        }
        let limit = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
        let mut large = d.len() > 19;
        if d.len() == 19 {
            for i in 0..19 {
                if d[i] != limit[i] {
                    large = d[i] > limit[i];
                    break;
                }
            }
        }
        if large {
            return Some(Value::Null); // out of bounds
        }
        let mut n = 0u64;
        for c in d {
            n = n.wrapping_mul(10).wrapping_add((c - b'0') as u64);
        }
        Some(Value::from(if neg { n.wrapping_neg() as i64 } else { n as i64 }))
    }
    fn unit(&mut self) -> Option<u32> {
        let mut n = 0;
        for _ in 0..4 {
            let c = self.peek()?;
            self.i += 1;
            n = n << 4
                | match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    b'A'..=b'F' => c - b'A' + 10,
                    _ => return None,
                } as u32;
        }
        Some(n)
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut s = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return Some(unsafe { String::from_utf8_unchecked(s) }),
                0..=31 => return None,
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let last = match e {
                        b'"' | b'\\' | b'/' => e,
                        b'b' => 8,
                        b't' => 9,
                        b'n' => 10,
                        b'f' => 12,
                        b'r' => 13,
                        b'u' => {
                            let mut u = self.unit()?;
                            if u >= 0xdc00 && u < 0xe000 {
                                return None;
                            }
                            if u >= 0xd800 && u < 0xdc00 {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let w = self.unit()?;
                                if w < 0xdc00 || w >= 0xe000 {
                                    return None;
                                }
                                u = 0x10000 + ((u & 0x3ff) << 10 | w & 0x3ff);
                            }
                            if u < 0x80 {
                                u as u8
                            } else {
                                if u < 0x800 {
                                    s.push(0xc0 | (u >> 6) as u8);
                                } else {
                                    if u < 0x10000 {
                                        s.push(0xe0 | (u >> 12) as u8);
                                    } else {
                                        s.push(0xf0 | (u >> 18) as u8);
                                        s.push(0x80 | (u >> 12 & 63) as u8);
                                    }
                                    s.push(0x80 | (u >> 6 & 63) as u8);
                                }
                                0x80 | (u & 63) as u8
                            }
                        }
                        _ => return None,
                    };
                    s.push(last);
                }
                _ => s.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<Value> {
        self.ws();
        match self.peek()? {
            b'n' => self.word(b"null", Value::Null),
            b't' => self.word(b"true", Value::Boolean(true)),
            b'f' => self.word(b"false", Value::Boolean(false)),
            b'"' => Some(Value::String(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.peek()? == b']' {
                    self.i += 1;
                    return Some(Value::Array(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    if self.peek()? == b']' {
                        self.i += 1;
                        return Some(Value::Array(a));
                    }
                    self.eat(b',')?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut m = keride::data::Object::new();
                self.ws();
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Some(Value::Object(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    let v = self.value()?;
                    m.insert(k, v);
                    self.ws();
                    if self.peek()? == b'}' {
                        self.i += 1;
                        return Some(Value::Object(m));
                    }
                    self.eat(b',')?;
                }
            }
            _ => self.number(),
        }
    }
}
fn parse(b: &[u8]) -> Option<Value> {
    let mut p = P { b, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i == b.len() {
        Some(v)
    } else {
        None
    }
}
fn numbers(a: &Value, b: &Value) -> bool {
    match (a.to_i64(), b.to_i64()) {
        (Ok(x), Ok(y)) => x == y,
        _ => match (a.to_f64(), b.to_f64()) {
            // serde_json rounds to within a few units in the last place
            (Ok(x), Ok(y)) => x.to_bits() == y.to_bits() || x.is_normal() && y.is_normal() && (x - y).abs() <= y.abs() * 1e-15,
            _ => false,
        },
    }
}
/// equal values
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(_), Value::Number(_)) => numbers(a, b),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && (0..x.len()).all(|i| alike(&x[i], &y[i])),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len()
                && (0..x.len()).all(|i| {
                    let ((k, v), (l, w)) = (x.get_index(i).unwrap(), y.get_index(i).unwrap());
                    eq(k, l) && alike(v, w)
                })
        }
        _ => eqv(a, b),
    }
}
fn loaded(b: &[u8]) {
    // with a size only so many bytes count
    let more = param("more") == 1 && choose("more", 2) == 1;
    let r = if more {
        let mut c = b.to_vec();
        c.extend(vec("surplus", 2));
        loads(&c, Some(b.len() as u32))
    } else {
        loads(b, None)
    };
    let want = if std::str::from_utf8(b).is_ok() { parse(b) } else { None };
    match (r, want) {
        (Ok(v), Some(w)) => {
            reach("loaded");
            check(alike(&v, &w), "the value the text spells");
            let t = ok(dumps(&v), "JSON");
            check(alike(&ok(loads(&t, None), "reload"), &v), "the same document again");
        }
        (Err(_), None) => reach("refused"),
        (Ok(_), None) => check(false, "text that is no JSON is refused"),
        (Err(_), Some(_)) => check(false, "JSON is accepted"),
    }
}
/// a value of any kind
fn leaf(name: &str, strings: usize) -> Value {
    match choose(name, 6) {
        0 => Value::Null,
        1 => Value::Boolean(flag("flag")),
        2 => Value::String(b64str("text", strings)),
        3 => Value::from([0, -1, 4095, i64::MIN, i64::MAX][choose("number", 5)]),
        4 => arr(vec![]),
        _ => obj(vec![]),
    }
}
fn kept(v: &Value) {
    let mut want = vec![];
    write(v, &mut want);
    let t = ok(v.to_json(), "JSON");
    check(same(t.as_bytes(), &want), "compact JSON, fields in order");
    check(same(&ok(dumps(v), "JSON"), &want), "compact JSON, fields in order");
    check(same(format!("{v}").as_bytes(), &want), "compact JSON, fields in order");
    check(alike(&ok(loads(t.as_bytes(), None), "reload"), v), "the same document");
    let n = want.len() as u32;
    check(alike(&ok(loads(t.as_bytes(), Some(n)), "reload"), v), "the same document");
    check(loads(t.as_bytes(), Some(n + 1)).is_err(), "a shorter text is refused");
    reach("kept");
}

harnesses! {
    /// texts
    fn h_string() {
        let s = utf8("text", param("n") as usize);
        match param("as") {
            0 => kept(&Value::String(s)),
            1 => kept(&arr(vec![obj(vec![("a", st("x")), (&s, st("y"))])])),
            _ => kept(&obj(vec![("\"", st(&s)), ("b", st(&s))])),
        }
    }
    /// integers
    fn h_integer() {
        // any bits in a window, all others alike
        let x = if param("bits") == 16 { u16::from_le_bytes(bytes::<2>("number")) as u64 } else { bytes::<1>("number")[0] as u64 };
        let w = x << param("shift");
        let n = if choose("others", 2) == 0 { w } else { !w } as i64;
        kept(&Value::from(n));
        check(matches!(Value::from(n).to_i64(), Ok(m) if m == n), "the number");
    }
    /// floats
    fn h_float() {
        kept(&Value::from(FLOATS[choose("float", FLOATS.len())].0));
    }
    /// nested documents
    fn h_tree() {
        let s = param("strings") as usize;
        let v = match param("shape") {
            0 => arr((0..choose("count", 3)).map(|_| leaf("element", s)).collect()),
            1 => {
                let n = choose("count", 3);
                let keys: Vec<String> = (0..n).map(|_| b64str("key", s)).collect();
                obj((0..n).map(|i| (&keys[i][..], leaf("value", s))).collect())
            }
            2 => arr(vec![obj(vec![("a", leaf("value", s)), ("b", arr(vec![leaf("element", s)]))]), leaf("element", s)]),
            3 => obj(vec![("z", obj(vec![("y", obj(vec![("x", leaf("value", s))])), ("a", leaf("value", s))])), ("a", arr(vec![arr(vec![leaf("element", s)])]))]),
            _ => {
                // the last value of a repeated field in the first one's place
                let (k, l, m) = (b64str("k", 1), b64str("l", 1), b64str("m", 1));
                let (x, y, z) = (b64str("x", 1), b64str("y", 1), b64str("z", 1));
                let v = obj(vec![(&k, st(&x)), (&l, st(&y)), (&m, st(&z))]);
                let t = format!("{{\"{k}\":\"{x}\",\"{l}\":\"{y}\",\"{m}\":\"{z}\"}}");
                check(alike(&ok(loads(t.as_bytes(), None), "load"), &v), "the document");
                v
            }
        };
        kept(&v);
    }
    /// any short text
    fn h_text() {
        let n = param("n") as usize;
        let mut b = vec("text", n);
        let alphabet: &[u8] = match param("alphabet") {
            0 => b"",
            1 => b"[]{},:\" 1",
            2 => b"\"\\u/bn0d",
            3 => b"-+.eE015",
            _ => b"truefalsn ",
        };
        if !alphabet.is_empty() {
            for c in b.iter_mut() {
                let k = *c as usize;
                assume(k < alphabet.len());
                *c = alphabet[k];
            }
        }
        if param("quoted") == 0 && b.iter().any(|c| matches!(c, b'.' | b'e' | b'E')) {
            // numbers with a fraction or an exponent
            for c in b.iter_mut() {
                if c.is_ascii_digit() {
                    *c = concrete(*c as u64) as u8;
                }
            }
        }
        if param("quoted") == 1 {
            b.insert(0, b'"');
            b.push(b'"');
        }
        loaded(&b);
    }
    /// escapes in texts
    fn h_escape() {
        let mut b = b"\"\\u".to_vec();
        b.extend(vec("unit", 4));
        if param("pair") != 0 {
            // after a first half
            b[3] = b'd';
            b[4] = if param("pair") == 1 { b'B' } else { b'8' };
            b.extend_from_slice(b"\\u");
            b.extend(vec("second", 4));
        }
        b.push(b'"');
        loaded(&b);
    }
    /// integers as text
    fn h_digits() {
        let n = param("n") as usize;
        let mut b = vec("digits", n);
        for c in b.iter_mut() {
            assume(*c < 10);
            *c += b'0';
        }
        // near the largest integers
        let front: &[u8] = [&b""[..], b"9223372036854775", b"18446744073709551", b"10000000000000000"][param("front") as usize];
        if !front.is_empty() {
            for c in b.iter_mut() {
                *c = concrete(*c as u64) as u8;
            }
            b.splice(0..0, front.iter().copied());
        }
        if choose("negative", 2) == 1 {
            b.insert(0, b'-');
        }
        match parse(&b) {
            Some(Value::Null) => {
                reach("too large");
                check(ok(loads(&b, None), "JSON").to_i64().is_err(), "no 64-bit integer");
            }
            Some(w) => {
                reach("loaded");
                check(numbers(&ok(loads(&b, None), "JSON"), &w), "the number");
            }
            None => {
                reach("refused");
                check(loads(&b, None).is_err(), "no JSON");
            }
        }
    }
    /// the document macro, and values read as their type
    fn h_macro() {
        let (s, k) = (b64str("text", 2), b64str("key", 2));
        let n = u32("number") as i64;
        let v = dat!({ "v": &s, k.as_str(): [n, null, true, { "x": true, "y": [] }, "t"], "f": 0.5, "last": {} });
        let w = obj(vec![
            ("v", st(&s)),
            (&k, arr(vec![Value::from(n), Value::Null, Value::Boolean(true), obj(vec![("x", Value::Boolean(true)), ("y", arr(vec![]))]), st("t")])),
            ("f", Value::from(0.5)),
            ("last", obj(vec![])),
        ]);
        check(alike(&v, &w), "the document written");
        let x = leaf("leaf", 2);
        let kind = match &x {
            Value::Null => 0,
            Value::Boolean(_) => 1,
            Value::String(_) => 2,
            Value::Number(_) => 3,
            Value::Array(_) => 4,
            Value::Object(_) => 5,
        };
        check(x.to_bool().is_ok() == (kind == 1) && x.to_string().is_ok() == (kind == 2) && x.to_i64().is_ok() == (kind == 3), "only its own type");
        check(x.to_f64().is_err() && x.to_vec().is_ok() == (kind == 4) && x.to_map().is_ok() == (kind == 5), "only its own type");
        let f = Value::from(0.5);
        check(f.to_i64().is_err() && matches!(f.to_f64(), Ok(y) if y == 0.5), "only its own type");
        reach("read");
    }
    /// values from native ones and back
    fn h_convert() {
        let (a, b, c) = (bytes::<1>("byte")[0], u16::from_le_bytes(bytes::<2>("short")), u32("word"));
        let d = i64::from_le_bytes(bytes::<8>("long"));
        let (v, n) = match choose("native", 7) {
            0 => (Value::from(a), a as i64),
            1 => (Value::from(b), b as i64),
            2 => (Value::from(c), c as i64),
            3 => (Value::from(a as i8), a as i8 as i64),
            4 => (Value::from(b as i16), b as i16 as i64),
            5 => (Value::from(c as i32), c as i32 as i64),
            _ => (Value::from(d), d),
        };
        check(matches!(v.to_i64(), Ok(m) if m == n), "the same number");
        check(matches!(i64::try_from(&v), Ok(m) if m == n), "the same number");
        check(v == Value::from(n) && v.to_f64().is_err(), "the same number");
        let e = flag("flag");
        let v = Value::Boolean(e);
        check(matches!(v.to_bool(), Ok(m) if m == e) && matches!(bool::try_from(&v), Ok(m) if m == e), "the same flag");
        let t = b64str("text", 3);
        let v = st(&t);
        check(v == Value::from(&t) && v == Value::from(t.as_str()), "the same text");
        check(eq(&ok(String::try_from(&v), "text"), &t) && eq(&ok(v.to_string(), "text"), &t), "the same text");
        for (f, i) in [(0.5, 0), (-2.25, -2), (1e300, i64::MAX), (3.0, 3)] {
            let v = Value::from(f);
            check(matches!(v.to_f64(), Ok(g) if g == f) && matches!(f64::try_from(&v), Ok(g) if g == f), "the same float");
            check(matches!(i64::try_from(&v), Ok(g) if g == i), "the whole part");
        }
        check(matches!(f64::try_from(&Value::from(-3)), Ok(g) if g == -3.0) && matches!(Value::from(0.25f32).to_f64(), Ok(g) if g == 0.25), "the same number");
        let x = leaf("leaf", 1);
        let kind = match &x {
            Value::Null => 0,
            Value::Boolean(_) => 1,
            Value::String(_) => 2,
            Value::Number(_) => 3,
            Value::Array(_) => 4,
            Value::Object(_) => 5,
        };
        check(bool::try_from(&x).is_ok() == (kind == 1) && String::try_from(&x).is_ok() == (kind == 2), "only its own type");
        check(i64::try_from(&x).is_ok() == (kind == 3) && f64::try_from(&x).is_ok() == (kind == 3), "only its own type");
        check(Vec::<Value>::try_from(&x).is_ok() == (kind == 4) && Object::try_from(&x).is_ok() == (kind == 5), "only its own type");
        reach("same");
    }
    /// fields and elements changed in place
    fn h_place() {
        let (k, l, m) = (b64str("k", 1), b64str("l", 1), b64str("m", 1));
        assume(k != l);
        let x = leaf("leaf", 1);
        let mut v = obj(vec![(&k, st("a")), (&l, arr(vec![st("b"), x.clone()]))]);
        check(alike(&v[&k[..]], &st("a")) && alike(&v[0], &st("a")) && alike(&v[1][1], &x), "in its place");
        v[&m[..]] = x.clone();
        let places: Vec<(String, Value)> = ok(v.to_map(), "map").into_iter().collect();
        check(alike(&v[&m[..]], &x), "the new value");
        if m == k {
            reach("first");
            check(places.len() == 2 && eq(&places[0].0, &k) && alike(&places[0].1, &x), "in its place");
        } else if m == l {
            reach("second");
            check(places.len() == 2 && eq(&places[1].0, &l) && alike(&places[1].1, &x), "in its place");
        } else {
            reach("new");
            check(places.len() == 3 && eq(&places[2].0, &m) && alike(&places[2].1, &x), "at the end");
            check(alike(&places[0].1, &st("a")) && alike(&v[2], &x), "the others stay");
            v[1][0] = st("c");
            let w = ok(v[&l[..]].to_vec(), "list");
            check(w.len() == 2 && alike(&w[0], &st("c")) && alike(&w[1], &x), "only that element");
            let a = ok(Vec::<Value>::try_from(&v[1]), "list");
            check(a.len() == 2 && alike(&a[0], &st("c")), "the same list");
            let o = ok(Object::try_from(&v), "map");
            check(o.len() == 3 && alike(&o[2], &x) && alike(&Value::from(&o), &v), "the same map");
            check(alike(&Value::from(&a[..]), &v[1]), "the same list");
        }
    }
}
