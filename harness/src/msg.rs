//! Signed messages and receipts.
use crate::spec::*;
use keride::cesr::*;
use keride::verif::Seal;
use symrt::*;

/// indexed signature codes: characters of index, of other index
const SIGS: [(&str, usize, usize); 12] = [
    ("A", 1, 0),
    ("B", 1, 0),
    ("C", 1, 0),
    ("D", 1, 0),
    ("E", 1, 0),
    ("F", 1, 0),
    ("2A", 2, 2),
    ("2B", 2, 2),
    ("2C", 2, 2),
    ("2D", 2, 2),
    ("2E", 2, 2),
    ("2F", 2, 2),
];
/// an indexed signature with this code, and its text
fn sig(k: usize, i: usize, name: &str) -> (Siger, String) {
    let (code, ms, os) = SIGS[k];
    let raw = vec(name, 64);
    let index = [63, 0, 37][i] + if ms > 1 { 4000 } else { 0 };
    let only = k % 2 == 1;
    let ondex = if os > 0 && !only { Some(index - 3) } else { None };
    let x = ok(Siger::new_with_raw(&raw, None, Some(index), ondex, Some(code)), "an indexed signature");
    let head = format!("{code}{}{}", int_b64(index as u64, ms), int_b64(ondex.unwrap_or(0) as u64, os));
    (x, String::from_utf8(text(&qb2(&head, 0, &raw))).unwrap())
}
/// a key and an unindexed signature with these codes, and their texts
fn couple(key: &str, code: &str) -> (Cigar, String) {
    let (k, r) = (vec("key", rawsize(entry(key))), vec("signature", 64));
    let v = ok(Verfer::new_with_raw(&k, Some(key)), "a key");
    let c = ok(Cigar::new_with_raw(&r, Some(&v), Some(code)), "a signature");
    (c, format!("{}{}", fixed(key, &k), fixed(code, &r)))
}
const KEYS: [(&str, &str); 6] = [("B", "0B"), ("1AAA", "0C"), ("1AAI", "0I"), ("D", "0B"), ("1AAB", "0C"), ("1AAJ", "0I")];

/// some event, and its bytes
fn event() -> (Serder, Vec<u8>) {
    let d = fixed("E", &[7; 32]);
    let v = sized(&obj(vec![("v", st(&vers("KERI", 0))), ("t", st(&b64str("t", 3))), ("d", st(&d)), ("i", st(&b64str("i", 2)))]), "KERI");
    let raw = json(&v);
    let e = ok(Serder::new_with_raw(&raw), "an event");
    (e, raw)
}
/// the counter with this code
fn count(code: &str, n: usize) -> String {
    format!("{code}{}", int_b64(n as u64, 2))
}
fn message(e: &Serder, s: &Option<Vec<Siger>>, seal: Option<&Seal>, w: &Option<Vec<Siger>>, c: &Option<Vec<Cigar>>) -> keride::error::Result<String> {
    keride::verif::messagize(e, s.as_deref(), seal, w.as_deref(), c.as_deref())
}
fn hex(n: usize) -> (String, u128) {
    let b: Vec<u8> = vec("sn", n).iter().map(|b| b & 15).collect();
    let s = b.iter().map(|b| b"0123456789abcdef"[*b as usize]).collect();
    (unsafe { String::from_utf8_unchecked(s) }, b.iter().fold(0, |n, b| n << 4 | *b as u128))
}

harnesses! {
    /// an event with its attachments
    fn h_message() {
        let _ = common::deversify("KERI10JSON000000_");
        let k = param("code") as usize;
        let (e, mut want) = event();
        let list = |what: &str, k: usize| -> Option<(Vec<Siger>, String)> {
            let n = choose(what, 4);
            (n > 0).then(|| (1..n).map(|i| sig((k + i - 1) % 12, (k + i) % 3, what)).unzip::<Siger, String, Vec<_>, Vec<_>>()).map(|(a, b)| (a, b.concat()))
        };
        let (s, w) = (list("signatures", k), list("witness signatures", (k + 5) % 12));
        let n = choose("couples", 4);
        let c: Option<(Vec<Cigar>, Vec<String>)> = (n > 0).then(|| (1..n).map(|i| couple(KEYS[(k + i) % 3].0, KEYS[(k + i) % 3].1)).unzip());
        let any = s.as_ref().map_or(false, |s| s.0.len() > 0) || w.as_ref().map_or(false, |s| s.0.len() > 0) || n > 1;
        let (i, d) = (b64str("seal i", 3), b64str("seal d", 2));
        let (sn, num) = hex([1, 4, 32][choose("sn digits", 3)]);
        let kind = param("seal");
        let seal = Seal { i: &i, s: &sn, d: &d, last: [None, Some(false), Some(true), None][kind as usize] };
        let seal = (kind < 3).then_some(&seal);
        if let Some((x, t)) = &s {
            if x.len() > 0 {
                match kind {
                    3 => {}
                    2 => want.extend(format!("-HAB{i}").bytes()),
                    _ => {
                        want.extend(format!("-FAB{i}").bytes());
                        want.extend(fixed("0A", &num.to_be_bytes()).bytes());
                        want.extend(d.bytes());
                    }
                }
                want.extend(count("-A", x.len()).bytes());
                want.extend(t.bytes());
            }
        }
        if let Some((x, t)) = &w {
            if x.len() > 0 {
                want.extend(count("-B", x.len()).bytes());
                want.extend(t.bytes());
            }
        }
        if let Some((x, t)) = &c {
            if x.len() > 0 {
                want.extend(count("-C", x.len()).bytes());
                want.extend(t.concat().bytes());
            }
        }
        let r = message(&e, &s.map(|s| s.0), seal, &w.map(|w| w.0), &c.map(|c| c.0));
        match r {
            Ok(m) => {
                check(any, "without a signature");
                check(same(m.as_bytes(), &want), "the event and its attachments");
                reach("signed");
            }
            Err(_) => {
                check(!any, "with a signature");
                reach("refused");
            }
        }
    }

    /// more attachments
    fn h_many() {
        let _ = common::deversify("KERI10JSON000000_");
        let (e, mut want) = event();
        let n = param("n") as usize;
        let raw = [5; 64];
        let one = |i: usize, code: &str| ok(Siger::new_with_raw(&raw, None, Some(i as u32 & 63), None, Some(code)), "an indexed signature");
        let made = |i: usize, code: &str| String::from_utf8(text(&qb2(&format!("{code}{}", int_b64(i as u64 & 63, 1)), 0, &raw))).unwrap();
        let (x, t) = couple("B", "0B");
        let which = choose("which", 4);
        let s = (which == 0 || which == 3).then(|| (0..n).map(|i| one(i, "A")).collect::<Vec<_>>());
        let w = (which == 1 || which == 3).then(|| (0..n + 1).map(|i| one(i, "B")).collect::<Vec<_>>());
        let c = (which == 2 || which == 3).then(|| (0..n + 2).map(|_| x.clone()).collect::<Vec<_>>());
        if s.is_some() {
            want.extend(count("-A", n).bytes());
            want.extend((0..n).map(|i| made(i, "A")).collect::<String>().bytes());
        }
        if w.is_some() {
            want.extend(count("-B", n + 1).bytes());
            want.extend((0..n + 1).map(|i| made(i, "B")).collect::<String>().bytes());
        }
        if c.is_some() {
            want.extend(count("-C", n + 2).bytes());
            for _ in 0..n + 2 {
                want.extend(t.bytes());
            }
        }
        let m = ok(message(&e, &s, None, &w, &c), "a signed message");
        check(same(m.as_bytes(), &want), "the event and its attachments");
        reach("signed");
    }

    /// what cannot be attached
    fn h_refuse() {
        let _ = common::deversify("KERI10JSON000000_");
        let (e, _) = event();
        let s = Some(vec![sig(0, 0, "signature").0]);
        match choose("what", 3) {
            0 => {
                // a transferable key, first or second
                let (key, code) = KEYS[3 + choose("key", 3)];
                let (bad, good) = (couple(key, code).0, couple("B", "0B").0);
                let c = match choose("place", 3) {
                    0 => vec![bad],
                    1 => vec![bad, good],
                    _ => vec![good, bad],
                };
                let s = if choose("signed", 2) == 1 { s } else { None };
                check(message(&e, &s, None, &None, &Some(c)).is_err(), "a couple with a transferable key");
                reach("key refused");
            }
            1 => {
                // a seal's sequence number
                let t = ascii("number", choose("digits", 4));
                let good = t.len() > 0 && t.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'));
                let seal = Seal { i: "i", s: &t, d: "d", last: None };
                match message(&e, &s, Some(&seal), &None, &None) {
                    Ok(_) => {
                        // (a sign is let through)
                        check(good || t.as_bytes()[0] == b'+', "no number");
                        reach("accepted");
                    }
                    Err(_) => {
                        check(!good, "a number");
                        reach("number refused");
                    }
                }
            }
            _ => {
                // without signatures, a seal is not enough
                let seal = Seal { i: "i", s: "0", d: "d", last: Some(flag("last")) };
                check(message(&e, &None, Some(&seal), &None, &None).is_err(), "no signature");
                reach("nothing refused");
            }
        }
    }

    /// a receipt
    fn h_receipt() {
        let _ = common::deversify("KERI10JSON000000_");
        let pre = b64str("pre", param("pre") as usize);
        let k = choose("digest", 9);
        let said = fixed(DIGESTS[k].0, &vec("said", rawsize(entry(DIGESTS[k].0))));
        let n = param("digits") as usize;
        // all numbers of n hexadecimal digits
        let b: Vec<u8> = vec("sn", n).iter().map(|b| b & 15).collect();
        assume(n == 1 || b[0] > 0);
        let sn = b.iter().fold(0u128, |n, b| n << 4 | *b as u128);
        let t: String = unsafe { String::from_utf8_unchecked(b.iter().map(|b| b"0123456789abcdef"[*b as usize]).collect()) };
        let want = sized(&obj(vec![("v", st(&vers("KERI", 0))), ("t", st("rct")), ("d", st(&said)), ("i", st(&pre)), ("s", st(&t))]), "KERI");
        match keride::verif::receipt(&pre, sn, &said) {
            Ok(r) => {
                check(k == 0, "a receipt of another digest");
                check(same(&r.raw(), &json(&want)), "its bytes");
                check(eqv(&r.ked(), &want), "its fields");
                check(eq(&ok(r.said(), "said"), &said) && eq(&ok(r.pre(), "pre"), &pre), "its event");
                check(ok(r.sn(), "sn") == sn, "its sequence number");
                check(!ok(r.est(), "est"), "no establishment event");
                reach("made");
            }
            Err(_) => {
                check(k != 0, "a receipt");
                reach("refused");
            }
        }
    }
}
