//! Key stretching and derived keys.
use crate::spec::*;
use keride::cesr::*;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use symrt::*;

/// memory, passes, lanes of each tier
const TIERS: [(&str, u32, u32, u32); 4] = [("low", 65536, 2, 1), ("min", 8, 1, 1), ("med", 262144, 3, 1), ("high", 1048576, 4, 1)];

/// the ideal Argon2id (version 0x13)
fn argon(tier: usize, path: &[u8], salt: &[u8], len: usize) -> Vec<u8> {
    let (_, m, t, p) = TIERS[tier];
    let mut d = vec![2u8];
    for x in [0x13, m, t, p, len as u32, path.len() as u32] {
        d.extend_from_slice(&x.to_le_bytes());
    }
    d.extend_from_slice(path);
    d.extend_from_slice(&(salt.len() as u32).to_le_bytes());
    d.extend_from_slice(salt);
    let mut v = vec![0; len];
    orc("argon2", &d, &mut v);
    v
}
fn salter(wide: bool) -> (Vec<u8>, usize, Salter) {
    let raw = vec("salt", 16);
    let own = if wide { choose("own tier", 5) } else { 1 };
    let (own, t) = if own == 4 { (0, None) } else { (own, Some(TIERS[own].0)) };
    let x = match if wide { choose("route", 4) } else { 0 } {
        0 => Salter::new_with_raw(&raw, None, t),
        1 => Salter::new_with_qb64(&fixed("0A", &raw), t),
        2 => Salter::new_with_qb64b(fixed("0A", &raw).as_bytes(), t),
        _ => Salter::new_with_qb2(&qb2("0A", 0, &raw), t),
    };
    let x = ok(x, "a salter");
    check(x.tier() == TIERS[own].0 && x.code() == "0A" && same(&x.raw(), &raw), "the salt and its tier");
    (raw, own, x)
}
/// a tier asked for, and the one to expect
fn asked(wide: bool, own: usize) -> (Option<&'static str>, usize) {
    if !wide {
        return (None, own);
    }
    match choose("tier", 5) {
        4 => (None, own),
        t => (Some(TIERS[t].0), t),
    }
}
fn temporary(wide: bool) -> Option<bool> {
    if !wide {
        return None;
    }
    [None, Some(false), Some(true)][choose("temporary", 3)]
}
fn hex(n: u64) -> String {
    let mut k = 1;
    while k < 16 && n >> (4 * k) != 0 {
        k += 1;
    }
    let mut v = vec![0u8; k];
    for i in 0..k {
        v[i] = b"0123456789abcdef"[(n >> (4 * (k - 1 - i)) & 15) as usize];
    }
    unsafe { String::from_utf8_unchecked(v) }
}
const SEEDS: [(&str, &str, &str); 3] = [("A", "B", "D"), ("J", "1AAA", "1AAB"), ("Q", "1AAI", "1AAJ")];
/// the signer with this seed
fn is(s: &Signer, k: usize, t: bool, seed: &[u8]) {
    let (code, n, y) = SEEDS[k];
    check(s.code() == code, "the seed's code");
    check(same(&s.raw(), seed), "the stretched seed");
    check(s.verfer().code() == if t { y } else { n }, "transferability");
}
/// a seed any suite accepts
fn usable(seed: &[u8]) {
    assume(seed[0] < 0xff && seed[31] != 0);
}

harnesses! {
    /// stretching is the tier's Argon2id of path and salt
    fn h_stretch() {
        let (raw, own, x) = salter(true);
        let (tier, t) = asked(true, own);
        let temp = temporary(true);
        let t = if temp == Some(true) { 1 } else { t };
        let n = choose("path length", param("n") as usize + 2);
        let path = if n == 0 { None } else { Some(utf8("path", n - 1)) };
        let sizes = [32, 0, 3, 4, 16, 33, 64, 100];
        let k = choose("size", sizes.len() + 1);
        let size = if k == sizes.len() { None } else { Some(sizes[k]) };
        let len = size.unwrap_or(32);
        match x.stretch(size, path.as_deref(), tier, temp) {
            Ok(v) => {
                reach("stretched");
                check(len >= 4, "too short a size is refused");
                check(v.len() == len, "the asked size");
                check(same(&v, &argon(t, path.unwrap_or_default().as_bytes(), &raw, len)), "Argon2id at the tier's cost");
            }
            Err(_) => {
                reach("refused");
                check(len < 4, "a size is accepted");
            }
        }
    }

    /// tiers that do not exist
    fn h_tier() {
        let raw = vec("salt", 16);
        let t = ascii("tier", choose("tier length", 6));
        let known = TIERS.iter().any(|x| x.0 == t);
        match Salter::new_with_raw(&raw, None, Some(&t)) {
            Ok(x) => {
                let r = x.stretch(None, Some("a"), None, None);
                check(r.is_ok() == known, "only known tiers");
                check(x.stretch(None, Some("a"), Some("min"), None).is_ok(), "a known tier");
                check(x.stretch(None, Some("a"), None, Some(true)).is_ok(), "temporary");
                reach(if known { "known" } else { "unknown" });
            }
            Err(_) => check(!known, "only known tiers"),
        }
        let x = ok(Salter::new_with_raw(&raw, None, None), "a salter");
        check(x.stretch(None, None, Some(&t), None).is_ok() == known, "only known tiers");
        check(x.signer(None, None, None, Some(&t), None).is_ok() == known, "only known tiers");
    }

    /// a derived signer
    fn h_signer() {
        let (raw, own, x) = salter(true);
        let (tier, t) = asked(true, own);
        let temp = temporary(true);
        let t = if temp == Some(true) { 1 } else { t };
        let path = b64str("path", choose("path length", 3));
        let k = choose("suite", 4);
        let (k, code) = if k == 3 { (0, None) } else { (k, Some(SEEDS[k].0)) };
        let transferable = [None, Some(true), Some(false)][choose("transferable", 3)];
        let want = argon(t, path.as_bytes(), &raw, 32);
        usable(&want);
        let p = if path.is_empty() { None } else { Some(&path[..]) };
        let s = ok(x.signer(code, transferable, p, tier, temp), "a signer");
        is(&s, k, transferable.unwrap_or(true), &want);
        reach("derived");
    }

    /// codes that are not seeds
    fn h_code() {
        let x = ok(Salter::new_with_raw(&[3; 16], None, Some("min")), "a salter");
        let e = &MATTER[choose("code", MATTER.len())];
        let seed = SEEDS.iter().any(|s| s.0 == e.0);
        for p in ["", "0", "1"] {
            usable(&argon(1, p.as_bytes(), &[3; 16], 32));
        }
        check(x.signer(Some(e.0), None, None, None, None).is_ok() == seed, "only seeds");
        check(x.signers(Some(2), None, None, Some(e.0), None, None, None).is_ok() == seed, "only seeds");
        for c in ["", "ZZ", "5"] {
            check(x.signer(Some(c), None, None, None, None).is_err(), "only seeds");
        }
        reach(if seed { "seed" } else { "other" });
    }

    /// a row of derived signers
    fn h_signers() {
        let wide = param("wide") == 1;
        let (raw, own, x) = salter(wide);
        let (tier, t) = asked(wide, own);
        let temp = temporary(wide);
        let t = if temp == Some(true) { 1 } else { t };
        let path = b64str("path", if wide { 1 } else { choose("path length", 3) });
        let k = if wide { 0 } else { choose("suite", 3) };
        let transferable = wide || choose("transferable", 2) == 1;
        let count = if wide { 2 } else { choose("count", 5) };
        let start = if !wide && choose("start given", 2) == 1 { Some(u32("start") as usize) } else { None };
        let (count, n) = if count == 4 { (None, 1) } else { (Some(count), count) };
        let mut want = vec![];
        for i in 0..n {
            let p = format!("{}{}", path, hex((start.unwrap_or(0) + i) as u64));
            let w = argon(t, p.as_bytes(), &raw, 32);
            usable(&w);
            want.push(w);
        }
        let p = if path.is_empty() { None } else { Some(&path[..]) };
        let r = ok(x.signers(count, start, p, Some(SEEDS[k].0), Some(transferable), tier, temp), "signers");
        check(r.len() == n, "the asked count");
        for (s, w) in r.iter().zip(&want) {
            is(s, k, transferable, w);
        }
        reach("derived");
    }

    /// a salty creator's keys
    fn h_create() {
        let shape = param("shape");
        let raw = vec("salt", 16);
        let keys = shape < 3; // which stem and indices; otherwise which codes, tier and so on
        let t = if keys { 1 } else { choose("own tier", 4) };
        let own_stem = b64str("stem", if keys { choose("stem length", 3) } else { 1 });
        let stem = if own_stem.is_empty() && choose("stem given", 2) == 0 { None } else { Some(&own_stem[..]) };
        let c = match choose("made from", 2) {
            0 => SaltyCreator::new(Some(&fixed("0A", &raw)), stem, Some(TIERS[t].0), None),
            _ => SaltyCreator::new(None, stem, None, Some(ok(Salter::new_with_raw(&raw, None, Some(TIERS[t].0)), "a salter"))),
        };
        let c = ok(c, "a creator");
        let temp = !keys && choose("temporary", 2) == 1;
        let t = if temp { 1 } else { t };
        let given = match if keys { choose("other stem", 2) } else { 0 } {
            0 => None,
            _ => Some(b64str("other stem text", 2)),
        };
        let u16s = |name: &str, on: bool| -> Option<u16> {
            if on {
                Some(u16::from_le_bytes(bytes::<2>(name)))
            } else if keys {
                [None, Some(0)][choose(name, 2)]
            } else {
                None
            }
        };
        let (pidx, ridx, kidx) = (u16s("pidx", shape == 0), u16s("ridx", shape == 1), u16s("kidx", shape == 2));
        let (codes, count): (Option<Vec<&str>>, Option<u16>) = match if keys { 4 * choose("codes", 2) } else { choose("codes", 5) } {
            0 => (None, None),
            1 => (None, Some(choose("count", 4) as u16)),
            2 => (Some(vec![]), Some(2)),
            3 => (Some(vec!["Q"]), Some(3)),
            _ => (Some(vec!["A", "J", "A"]), None),
        };
        let code = if keys || choose("code given", 2) == 0 { None } else { Some("J") };
        let transferable = [None, Some(true), Some(false)][if keys { 0 } else { choose("transferable", 3) }];
        let list: Vec<&str> = match &codes {
            Some(v) if !v.is_empty() => v.clone(),
            _ => vec![code.unwrap_or("A"); count.unwrap_or(1) as usize],
        };
        let stem = if !own_stem.is_empty() {
            own_stem.clone()
        } else {
            match &given {
                Some(s) => s.clone(),
                None => hex(pidx.unwrap_or(0) as u64),
            }
        };
        let mut want = vec![];
        for i in 0..list.len() {
            let p = format!("{}{}{}", stem, hex(ridx.unwrap_or(0) as u64), hex(kidx.unwrap_or(0) as u64 + i as u64));
            let w = argon(t, p.as_bytes(), &raw, 32);
            usable(&w);
            want.push(w);
        }
        let r = c.create(codes, count, code, pidx, ridx, kidx, given.as_deref(), transferable, temp);
        check(r.len() == list.len(), "the asked count");
        for (i, s) in r.iter().enumerate() {
            let k = SEEDS.iter().position(|x| x.0 == list[i]).unwrap();
            is(s, k, transferable.unwrap_or(true), &want[i]);
        }
        reach("created");
    }

    /// salts from nothing and salts that are not salts
    fn h_newsalt() {
        let x = ok(Salter::new_with_defaults([None, Some("high")][choose("tier", 2)]), "a salter");
        let y = ok(Salter::new_with_defaults(None), "a salter");
        check(x.raw().len() == 16 && x.code() == "0A", "a random salt");
        let p = ok(x.stretch(None, None, Some("min"), None), "stretched");
        let q = ok(y.stretch(None, None, Some("min"), None), "stretched");
        check(same(&p, &q) == same(&x.raw(), &y.raw()), "another salt, another key");
        reach("random");
        let s = ascii("salt text", choose("length", 5) * 6);
        check(SaltyCreator::new(Some(&s), None, None, None).is_ok() == ok_salt(&s), "only salts");
    }
}
fn ok_salt(s: &str) -> bool {
    s.len() >= 24 && s.as_bytes()[..2] == *b"0A" && all_b64(&s.as_bytes()[..24]) && REV[s.as_bytes()[2] as usize] < 4
}
