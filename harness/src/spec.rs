//! The CESR text/binary format, written down independently of the code under check.
#![allow(dead_code)]
use symrt::*;

pub const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
/// value of a Base64URL character, 255 for anything else
pub static REV: [u8; 256] = {
    let mut r = [255u8; 256];
    let mut i = 0;
    while i < 64 {
        r[B64[i] as usize] = i as u8;
        i += 1;
    }
    r
};

/// (code, hard size, soft size, lead bytes, full size in characters; 0 = variable)
pub const MATTER: &[(&str, usize, usize, usize, usize)] = &[
    ("A", 1, 0, 0, 44),
    ("B", 1, 0, 0, 44),
    ("C", 1, 0, 0, 44),
    ("D", 1, 0, 0, 44),
    ("E", 1, 0, 0, 44),
    ("F", 1, 0, 0, 44),
    ("G", 1, 0, 0, 44),
    ("H", 1, 0, 0, 44),
    ("I", 1, 0, 0, 44),
    ("J", 1, 0, 0, 44),
    ("K", 1, 0, 0, 76),
    ("L", 1, 0, 0, 76),
    ("M", 1, 0, 0, 4),
    ("N", 1, 0, 0, 12),
    ("O", 1, 0, 0, 44),
    ("P", 1, 0, 0, 124),
    ("Q", 1, 0, 0, 44),
    ("0A", 2, 0, 0, 24),
    ("0B", 2, 0, 0, 88),
    ("0C", 2, 0, 0, 88),
    ("0D", 2, 0, 0, 88),
    ("0E", 2, 0, 0, 88),
    ("0F", 2, 0, 0, 88),
    ("0G", 2, 0, 0, 88),
    ("0H", 2, 0, 0, 8),
    ("0I", 2, 0, 0, 88),
    ("1AAA", 4, 0, 0, 48),
    ("1AAB", 4, 0, 0, 48),
    ("1AAC", 4, 0, 0, 80),
    ("1AAD", 4, 0, 0, 80),
    ("1AAE", 4, 0, 0, 56),
    ("1AAF", 4, 0, 0, 8),
    ("1AAG", 4, 0, 0, 36),
    ("1AAH", 4, 0, 0, 100),
    ("1AAI", 4, 0, 0, 48),
    ("1AAJ", 4, 0, 0, 48),
    ("2AAA", 4, 0, 1, 8),
    ("3AAA", 4, 0, 2, 8),
    ("4A", 2, 2, 0, 0),
    ("5A", 2, 2, 1, 0),
    ("6A", 2, 2, 2, 0),
    ("7AAA", 4, 4, 0, 0),
    ("8AAA", 4, 4, 1, 0),
    ("9AAA", 4, 4, 2, 0),
    ("4B", 2, 2, 0, 0),
    ("5B", 2, 2, 1, 0),
    ("6B", 2, 2, 2, 0),
    ("7AAB", 4, 4, 0, 0),
    ("8AAB", 4, 4, 1, 0),
    ("9AAB", 4, 4, 2, 0),
];
pub const NFIXED: usize = 38;

/// raw size of a fixed-size code
pub fn rawsize(m: &(&str, usize, usize, usize, usize)) -> usize {
    (m.4 - m.1 - m.2) * 3 / 4 - m.3
}
pub fn entry(code: &str) -> &'static (&'static str, usize, usize, usize, usize) {
    for m in MATTER {
        if m.0 == code {
            return m;
        }
    }
    panic!("unknown code in spec")
}

/// n as `len` Base64 digits
pub fn int_b64(n: u64, len: usize) -> String {
    let mut v = vec![0u8; len];
    let mut x = n;
    for i in (0..len).rev() {
        v[i] = B64[(x % 64) as usize];
        x /= 64;
    }
    String::from_utf8(v).unwrap()
}

/// binary domain: the code's sextets, padded to a byte boundary with zero bits, lead zeros, raw
pub fn qb2(code: &str, lead: usize, raw: &[u8]) -> Vec<u8> {
    let mut acc = 0u128;
    let mut bits = 0;
    for c in code.bytes() {
        acc = acc << 6 | REV[c as usize] as u128;
        bits += 6;
    }
    while bits % 8 != 0 {
        acc <<= 2;
        bits += 2;
    }
    let mut v = vec![];
    for i in (0..bits / 8).rev() {
        v.push((acc >> (8 * i)) as u8);
    }
    v.resize(v.len() + lead, 0);
    v.extend_from_slice(raw);
    v
}

/// text domain: the same bits, six per character
pub fn text(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len() / 3 * 4);
    for t in b.chunks(3) {
        let n = (t[0] as u32) << 16 | (t[1] as u32) << 8 | t[2] as u32;
        v.push(B64[(n >> 18 & 63) as usize]);
        v.push(B64[(n >> 12 & 63) as usize]);
        v.push(B64[(n >> 6 & 63) as usize]);
        v.push(B64[(n & 63) as usize]);
    }
    v
}

/// are all bytes Base64URL characters (no branching on the bytes)
pub fn all_b64(s: &[u8]) -> bool {
    let mut ok = true;
    for c in s {
        ok &= REV[*c as usize] != 255;
    }
    ok
}

/// decode Base64URL text whose length is a multiple of four (non-characters read as garbage)
pub fn untext(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() / 4 * 3);
    for t in s.chunks(4) {
        let n = (REV[t[0] as usize] as u32 & 63) << 18 | (REV[t[1] as usize] as u32 & 63) << 12 | (REV[t[2] as usize] as u32 & 63) << 6 | (REV[t[3] as usize] as u32 & 63);
        v.push((n >> 16) as u8);
        v.push((n >> 8) as u8);
        v.push(n as u8);
    }
    v
}

/// n symbolic ASCII characters
pub fn ascii(name: &str, n: usize) -> String {
    let v = vec(name, n);
    for b in &v {
        assume(*b < 128);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// n symbolic Base64URL characters
pub fn b64str(name: &str, n: usize) -> String {
    let mut v = vec(name, n);
    for b in v.iter_mut() {
        *b = B64[(*b & 63) as usize];
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// n symbolic bytes that form UTF-8 text
pub fn utf8(name: &str, n: usize) -> String {
    match String::from_utf8(vec(name, n)) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

pub fn ok<T>(r: keride::error::Result<T>, what: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(what),
    }
}

/// n symbolic characters of the Base64URL alphabet without '-'
pub fn b63str(name: &str, n: usize) -> String {
    let mut v = vec(name, n);
    for b in v.iter_mut() {
        assume(*b < 63);
        *b = B63[(*b & 63) as usize];
    }
    unsafe { String::from_utf8_unchecked(v) }
}
static B63: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789__";

pub fn st(s: &str) -> keride::data::Value {
    keride::data::Value::from(s)
}
pub fn arr(v: Vec<keride::data::Value>) -> keride::data::Value {
    keride::data::Value::Array(v)
}
pub fn obj(v: Vec<(&str, keride::data::Value)>) -> keride::data::Value {
    let mut m = keride::data::Object::new();
    for (k, x) in v {
        m.insert(k.to_string(), x);
    }
    keride::data::Value::Object(m)
}
/// equality of two texts as one condition
pub fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
/// equality of values, keys in order, as one condition
pub fn eqv(a: &keride::data::Value, b: &keride::data::Value) -> bool {
    use keride::data::Value::*;
    match (a, b) {
        (String(x), String(y)) => eq(x, y),
        (Array(x), Array(y)) => {
            let mut r = x.len() == y.len();
            if r {
                for i in 0..x.len() {
                    r &= eqv(&x[i], &y[i]);
                }
            }
            r
        }
        (Object(x), Object(y)) => {
            let mut r = x.len() == y.len();
            if r {
                for i in 0..x.len() {
                    let ((k, v), (l, w)) = (x.get_index(i).unwrap(), y.get_index(i).unwrap());
                    r &= eq(k, l) & eqv(v, w);
                }
            }
            r
        }
        _ => a == b,
    }
}

/// digest codes and their algorithms
pub const DIGESTS: [(&str, &str); 9] = [
    ("E", "blake3"),
    ("F", "blake2b-256"),
    ("G", "blake2s-256"),
    ("H", "sha3-256"),
    ("I", "sha2-256"),
    ("0D", "blake3"),
    ("0E", "blake2b-512"),
    ("0F", "sha3-512"),
    ("0G", "sha2-512"),
];
/// the digest of these bytes, from the ideal hash functions
pub fn ideal(k: usize, ser: &[u8]) -> Vec<u8> {
    let (code, alg) = DIGESTS[k];
    let mut v = vec![0; rawsize(entry(code))];
    if code == "0D" {
        let (a, b) = v.split_at_mut(32);
        orc(alg, ser, a);
        orc("blake3+1", ser, b);
    } else {
        orc(alg, ser, &mut v);
    }
    v
}
/// CESR text of a fixed-size primitive
pub fn fixed(code: &str, raw: &[u8]) -> String {
    let e = entry(code);
    unsafe { String::from_utf8_unchecked(text(&qb2(code, e.3, raw))) }
}
/// compact JSON of a value whose texts need no escapes
pub fn json(v: &keride::data::Value) -> Vec<u8> {
    use keride::data::Value::*;
    let mut o = vec![];
    match v {
        String(s) => {
            o.push(b'"');
            o.extend_from_slice(s.as_bytes());
            o.push(b'"');
        }
        Array(a) => {
            o.push(b'[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                o.extend(json(x));
            }
            o.push(b']');
        }
        Object(m) => {
            o.push(b'{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                o.push(b'"');
                o.extend_from_slice(k.as_bytes());
                o.extend_from_slice(b"\":");
                o.extend(json(x));
            }
            o.push(b'}');
        }
        Null => o.extend_from_slice(b"null"),
        Boolean(b) => o.extend_from_slice(if *b { b"true" } else { b"false" }),
        Number(_) => o.extend_from_slice(&match v.to_i64() {
            Ok(n) => n.to_string().into_bytes(),
            Err(_) => b"0.5".to_vec(), // the one fraction here
        }),
    }
    o
}
/// copy of an object with a field replaced, or added at the end
pub fn with(v: &keride::data::Value, label: &str, x: keride::data::Value) -> keride::data::Value {
    let mut m = v.to_map().unwrap();
    m.insert(label.to_string(), x);
    keride::data::Value::Object(m)
}
/// copy of an object without a field
pub fn without(v: &keride::data::Value, label: &str) -> keride::data::Value {
    keride::data::Value::Object(v.to_map().unwrap().into_iter().filter(|(k, _)| k != label).collect())
}
/// version string of a document of this size
pub fn vers(ident: &str, size: usize) -> String {
    format!("{ident}10JSON{size:06x}_")
}
/// copy of a document with the size in its version string made right
pub fn sized(v: &keride::data::Value, ident: &str) -> keride::data::Value {
    let n = json(&with(v, "v", st(&vers(ident, 0)))).len();
    with(v, "v", st(&vers(ident, n)))
}
