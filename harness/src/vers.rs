//! Version strings: writing, reading, finding them in a message.
use crate::spec::*;
use keride::cesr::common::{deversify, sizeify, sniff, versify, Version};
use keride::data::Value;
use symrt::*;

fn upper(b: u8) -> bool {
    b >= b'A' && b <= b'Z'
}
fn hexd(b: u8) -> bool {
    (b >= b'0' && b <= b'9') | (b >= b'a' && b <= b'f')
}
fn val(b: u8) -> u64 {
    pick(b <= b'9', b as u64 & 15, (b as u64 & 7) + 9)
}
/// is this the form of a version string (no branching)
fn form(v: &[u8]) -> bool {
    let mut r = v.len() == 17;
    if r {
        for i in 0..17 {
            r &= match i {
                0..=3 | 6..=9 => upper(v[i]),
                16 => v[i] == b'_',
                _ => hexd(v[i]),
            };
        }
    }
    r
}
fn ident(v: &[u8]) -> bool {
    same(&v[..4], b"KERI") | same(&v[..4], b"ACDC")
}
fn number(v: &[u8]) -> u64 {
    v.iter().fold(0, |n, c| n << 4 | val(*c))
}
fn hex(n: u32, digits: usize) -> Vec<u8> {
    (0..digits).rev().map(|i| b"0123456789abcdef"[(n >> (4 * i) & 15) as usize]).collect()
}
fn warm() {
    let _ = deversify("KERI10JSON000000_");
    let _ = sniff(b"{\"v\":\"KERI10JSON000000_\",     ");
    let _ = sizeify(&obj(vec![("v", st("KERI10JSON000000_"))]), None);
}


harnesses! {
    /// write and read back
    fn h_versify() {
        warm();
        let who = choose("ident", 4);
        let any = ["KERI", "ACDC", "KERI", "free"][who].to_string();
        let any = if who == 3 { ascii("protocol", param("protocol") as usize) } else { any };
        let (major, minor) = (bytes::<1>("major")[0], bytes::<1>("minor")[0]);
        let size = u32("size");
        let version = Version { major, minor };
        let which = choose("given", 2);
        let kind = match choose("kind", 3) { 0 => None, 1 => Some("JSON"), _ => Some(["CBOR", "json", "JSO", ""][choose("other kind", 4)]) };
        let r = versify(
            if who == 2 { None } else { Some(&any) },
            if which == 0 { Some(&version) } else { None },
            kind,
            if which == 0 { Some(size) } else { None },
        );
        let (major, minor, size) = if which == 0 { (major, minor, size) } else { (1, 0, 0) };
        let known = matches!(kind, None | Some("JSON"));
        let mut good = known & (major < 16) & (minor < 16) & (size < 1 << 24);
        if who == 3 {
            good &= any.len() == 4 && ident(any.as_bytes());
        }
        match r {
            Ok(s) => {
                reach("written");
                check(good, "what does not fit, or is unknown, is refused");
                let mut want = any.as_bytes().to_vec();
                want.extend(hex(major as u32, 1));
                want.extend(hex(minor as u32, 1));
                want.extend_from_slice(b"JSON");
                want.extend(hex(size, 6));
                want.push(b'_');
                check(same(s.as_bytes(), &want), "the version string");
                let d = ok(deversify(&s), "what was written is read");
                check(eq(&d.ident, &any) & (d.version.major == major) & (d.version.minor == minor) & (d.size == size), "what was written is read back");
                check(d.kind == "JSON", "kind");
                reach("read back");
            }
            Err(_) => {
                reach("refused");
                check(!good, "what fits is written");
            }
        }
    }

    /// any text as version string
    fn h_deversify() {
        warm();
        let n = param("n") as usize;
        let mut v = vec("text", n);
        for b in &v {
            assume(*b < 128);
        }
        if param("shape") == 1 {
            // a version string with something before or after it
            let at = param("at") as usize;
            assume(form(&v[at..at + 17]));
        }
        let cut = param("multi") as usize;
        if cut > 0 {
            // a character that is not ASCII
            let c = "é".as_bytes();
            v[cut - 1] = c[0];
            v[cut] = c[1];
        }
        let s = unsafe { String::from_utf8_unchecked(v) };
        let b = s.as_bytes();
        let good = form(b) && ident(&b[..4]) && same(&b[6..10], b"JSON");
        match deversify(&s) {
            Ok(d) => {
                reach("read");
                check(good, "anything but a version string is refused");
                check(eq(&d.ident, &s[..4]) & (d.kind == "JSON"), "protocol and kind");
                check((d.version.major as u64 == val(b[4])) & (d.version.minor as u64 == val(b[5])), "version");
                check(d.size as u64 == number(&b[10..16]), "size");
            }
            Err(_) => {
                reach("refused");
                check(!good, "a version string is read");
            }
        }
    }

    /// a version string somewhere in a message
    fn h_sniff() {
        warm();
        let at = param("at") as usize;
        let total = param("n") as usize;
        let mut v = vec![];
        // before it: nothing that may look like one, except in the last `free` characters
        let free = (param("free") as usize).min(at);
        v.extend_from_slice(&b"{\"i\":0,\"b\":1,\"v\":\"........"[..at - free]);
        let pre = vec("before", free);
        for b in &pre {
            assume(*b < 128);
        }
        v.extend(pre);
        let mut w = vec("version", 17);
        for b in &w {
            assume(*b < 128);
        }
        if param("good") == 1 {
            assume(form(&w));
        }
        if free > 0 {
            // with letters before it the matcher might take them as part of the name
            assume(form(&w));
        }
        v.append(&mut w);
        // after it: anything at all
        let rest = total - v.len().min(total);
        v.extend(vec("after", rest.min(param("after") as usize)));
        v.resize(total, b'Z');
        let vs = &v[at..(at + 17).min(total)];
        match sniff(&v) {
            Ok(r) => {
                reach("found");
                check(total >= 29, "too few bytes are refused");
                if at <= 12 {
                    // the first version string in these bytes
                    let mut found = false;
                    for o in 0..13 {
                        let here = form(&v[o..o + 17]);
                        check(!here | found | (eq(&r.ident, unsafe { std::str::from_utf8_unchecked(&v[o..o + 4]) })
                            & (r.version.major as u64 == val(v[o + 4])) & (r.version.minor as u64 == val(v[o + 5]))
                            & (r.size as u64 == number(&v[o + 10..o + 16])) & same(&v[o + 6..o + 10], b"JSON")), "what the version string says");
                        found |= here;
                    }
                    check(found, "anything but a version string is refused");
                } else {
                    fail("a version string further on is not taken");
                }
                check(r.kind == "JSON", "kind");
            }
            Err(_) => {
                reach("refused");
                let good = total >= 29 && at <= 12 && form(vs) && same(&vs[6..10], b"JSON");
                if free == 0 {
                    check(!good, "a version string within the first bytes is found");
                }
            }
        }
    }

    /// any bytes at all
    fn h_sniffany() {
        warm();
        let n = param("n") as usize;
        let m = param("free") as usize;
        let at = param("at") as usize;
        let mut v = b"{\"v\":\"KERI10JSON00002f_\",\"t\":\"icp\",\"d\":\"\"}ab".to_vec();
        v.truncate(n);
        let w = vec("bytes", m);
        for i in 0..m {
            v[at + i] = w[i];
        }
        match sniff(&v) {
            Ok(r) => {
                reach("found");
                check(n >= 29, "too few bytes are refused");
                let mut found = false;
                for o in 0..13 {
                    let here = form(&v[o..o + 17]);
                    check(!here | found | (eq(&r.ident, unsafe { std::str::from_utf8_unchecked(&v[o..o + 4]) })
                        & (r.version.major as u64 == val(v[o + 4])) & (r.version.minor as u64 == val(v[o + 5]))
                        & (r.size as u64 == number(&v[o + 10..o + 16])) & same(&v[o + 6..o + 10], b"JSON")), "what the version string says");
                    found |= here;
                }
                check(found, "anything but a version string is refused");
            }
            Err(_) => {
                reach("refused");
                // text up to the end of the version string
                let good = n >= 29 && form(&v[6..23]) && same(&v[12..16], b"JSON");
                let mut plain = true;
                for b in &v[..6.min(n)] {
                    plain &= *b < 128;
                }
                check(!(good & plain), "a version string within the first bytes is found");
            }
        }
    }

    /// sizes are made right
    fn h_sizeify() {
        warm();
        let s = match param("shape") {
            0 => ascii("version", 17),
            _ => {
                let t = ascii("version", 17);
                assume(form(t.as_bytes()));
                t
            }
        };
        let x = b64str("value", choose("value length", 3));
        let label = b64str("label", 1);
        assume(label != "v" && label != "i");
        let fields = match choose("place", 4) {
            0 => vec![("v", st(&s)), (&label[..], st(&x))],
            // "i":0, before it: still within the first bytes
            1 => vec![("i", Value::from(0u8)), ("v", st(&s)), (&label[..], st(&x))],
            // too far
            2 => vec![("i", st("0000")), ("v", st(&s))],
            _ => vec![("i", st(&s))],
        };
        let place = fields.iter().position(|f| f.0 == "v");
        let mut far = false;
        if let Some(1) = place {
            far = matches!(fields[0].1, Value::String(_));
        }
        let kind = [None, Some("JSON"), Some("CBOR")][choose("kind", 3)];
        let ked = obj(fields.iter().map(|f| (f.0, f.1.clone())).collect());
        let b = s.as_bytes();
        let good = place.is_some() && !far && kind != Some("CBOR") && form(b) && ident(&b[..4]) && same(&b[6..10], b"JSON") && (b[4] == b'1') & (b[5] == b'0');
        match sizeify(&ked, kind) {
            Ok(r) => {
                reach("sized");
                check(good, "anything but a supported version string at the start is refused");
                let mut json = b"{".to_vec();
                let mut want = vec![];
                for (i, (l, v)) in fields.iter().enumerate() {
                    if i > 0 {
                        json.push(b',');
                    }
                    json.push(b'"');
                    json.extend_from_slice(l.as_bytes());
                    json.extend_from_slice(b"\":");
                    if *l == "v" {
                        json.push(b'"');
                        want = json.clone();
                        json.extend_from_slice(&[0; 17]);
                        json.push(b'"');
                    } else if let Value::String(t) = v {
                        json.push(b'"');
                        json.extend_from_slice(t.as_bytes());
                        json.push(b'"');
                    } else {
                        json.push(b'0');
                    }
                }
                json.push(b'}');
                let at = want.len();
                let mut vs = b[..4].to_vec();
                vs.extend_from_slice(b"10JSON");
                vs.extend(hex(json.len() as u32, 6));
                vs.push(b'_');
                json[at..at + 17].copy_from_slice(&vs);
                check(same(&r.raw, &json), "serialised with its own size");
                let k: Vec<(&str, Value)> = fields.iter().map(|f| (f.0, if f.0 == "v" { st(std::str::from_utf8(&vs).unwrap()) } else { f.1.clone() })).collect();
                check(eqv(&r.ked, &obj(k)), "fields are kept");
                check(eq(&r.ident, &s[..4]) & (r.kind == "JSON") & (r.version == Version { major: 1, minor: 0 }), "protocol, kind and version");
            }
            Err(_) => {
                reach("refused");
                check(!good, "a supported version string is sized");
            }
        }
    }
}
