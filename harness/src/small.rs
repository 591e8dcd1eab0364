//! Counters and the Base64 helpers.
use crate::spec::*;
use keride::cesr::*;
use keride::verif::util;
use symrt::*;

/// (code, digits of the count)
const CTR: &[(&str, usize)] = &[
    ("-A", 2),
    ("-B", 2),
    ("-C", 2),
    ("-D", 2),
    ("-E", 2),
    ("-F", 2),
    ("-G", 2),
    ("-H", 2),
    ("-I", 2),
    ("-J", 2),
    ("-K", 2),
    ("-L", 2),
    ("-V", 2),
    ("-0V", 5),
    ("--AAA", 3),
];

/// is `s` (no branching on its characters) accepted as a counter by the specification: Some((index, count))
fn canonical(c: &Counter, s: &[u8], binary: bool, code: Option<&str>) {
    reach("accepted");
    if let Some(k) = code {
        check(c.code() == k, "code read");
    }
    let ss = match CTR.iter().find(|t| t.0 == c.code()) {
        Some(t) => t.1,
        None => fail("a code of the table"),
    };
    let full = c.code().len() + ss;
    check(ok(c.full_size(), "full_size") == full, "full size");
    let len = if binary { full / 4 * 3 } else { full };
    check(len <= s.len(), "no more than the input is consumed");
    let t = &s[..len];
    let want = format!("{}{}", c.code(), int_b64(c.count() as u64, ss));
    check(same(&if binary { untext(want.as_bytes()) } else { want.clone().into_bytes() }, t), "the input spells code and count");
    check(same(ok(c.qb64(), "re-encode").as_bytes(), want.as_bytes()), "text is canonical");
    check(same(&ok(c.qb2(), "re-encode"), &untext(want.as_bytes())), "binary is canonical");
}
fn text_canonical(s: &str, code: Option<&str>) {
    let r = if choose("route", 2) == 0 { Counter::new_with_qb64(s) } else { Counter::new(None, None, None, Some(s.as_bytes()), None, None) };
    match r {
        Ok(x) => canonical(&x, s.as_bytes(), false, code),
        Err(_) => {
            reach("refused");
            if let Some(k) = code {
                let n = k.len() + CTR.iter().find(|t| t.0 == k).unwrap().1;
                check(s.len() < n || !all_b64(&s.as_bytes()[k.len()..n]), "a well-formed counter is accepted");
            }
        }
    }
}
fn bin_canonical(b: &[u8], code: Option<&str>) {
    match Counter::new_with_qb2(b) {
        Ok(x) => canonical(&x, b, true, code),
        Err(_) => {
            reach("refused");
            if let Some(k) = code {
                let n = k.len() + CTR.iter().find(|t| t.0 == k).unwrap().1;
                check(b.len() < n / 4 * 3, "a well-formed counter is accepted");
            }
        }
    }
}

fn pow64(n: usize) -> u128 {
    1u128 << (6 * n)
}

harnesses! {
    /// every code, every count
    fn h_count() {
        let (code, ss) = CTR[choose("code", CTR.len())];
        let count = u32("count");
        let fits = (count as u128) < pow64(ss);
        let r = match choose("how", 4) {
            0 => Counter::new_with_code_and_count(code, count),
            1 => Counter::new(Some(count), None, Some(code), None, None, None),
            2 => {
                let digits = int_b64(count as u64, 6);
                Counter::new(None, Some(&digits), Some(code), None, None, None)
            }
            _ => {
                assume(count == 1);
                Counter::new(None, None, Some(code), None, None, None)
            }
        };
        let c = match r {
            Ok(c) => {
                check(fits, "a count that does not fit is refused");
                c
            }
            Err(_) => {
                check(!fits, "a count that fits is accepted");
                reach("refused");
                done()
            }
        };
        check(c.code() == code && c.count() == count, "code and count");
        let digits = int_b64(count as u64, ss);
        let want = format!("{code}{digits}");
        check(ok(c.full_size(), "full_size") == want.len(), "full size");
        check(same(ok(c.count_as_b64(0), "count_as_b64").as_bytes(), digits.as_bytes()), "count in Base64");
        let q = ok(c.qb64(), "qb64");
        check(same(q.as_bytes(), want.as_bytes()), "qb64 is the CESR text");
        check(same(&ok(c.qb64b(), "qb64b"), want.as_bytes()), "qb64b is the CESR text");
        let q2 = ok(c.qb2(), "qb2");
        check(same(&q2, &untext(want.as_bytes())), "qb2 is the CESR binary");
        reach("encoded");
        let extra = param("extra") as usize;
        let s = format!("{q}{}", ascii("tail", extra));
        let mut b = q2.clone();
        b.extend_from_slice(&vec("btail", extra));
        for (i, p) in [
            Counter::new_with_qb64(&s),
            Counter::new_with_qb64b(s.as_bytes()),
            Counter::new_with_qb2(&b),
            Counter::new(None, None, None, None, Some(&s), None),
            Counter::new(None, None, None, Some(s.as_bytes()), None, None),
            Counter::new(None, None, None, None, None, Some(&b)),
        ]
        .into_iter()
        .enumerate()
        {
            let p = ok(p, "parse back");
            check(p.code() == code && p.count() == count, &format!("parsed back by route {i}"));
        }
        reach("parsed back");
    }
    /// any text that starts with a counter code
    fn h_cttext() {
        let (code, ss) = CTR[choose("code", CTR.len())];
        let n = ss + 1 - choose("short", 3);
        let rest = if choose("any", 2) == 0 { ascii("rest", n) } else { utf8("rest", n) };
        text_canonical(&format!("{code}{rest}"), Some(code));
    }
    /// any binary that starts with a counter code
    fn h_ctbin() {
        let (code, ss) = CTR[choose("code", CTR.len())];
        let n = (code.len() + ss + 3) / 4 * 4;
        let mut b = untext(format!("{code}{}", b64str("rest", n - code.len())).as_bytes());
        match choose("cut", 4) {
            1 => b.extend_from_slice(&vec("extra", 2)),
            2 => {
                b.pop();
            }
            3 => b.truncate(b.len() - 2),
            _ => {}
        }
        bin_canonical(&b, Some(code));
    }
    /// any short text
    fn h_ctany() {
        text_canonical(&utf8("text", param("n") as usize), None);
    }
    /// any short binary
    fn h_ctbany() {
        bin_canonical(&vec("bin", param("n") as usize), None);
    }
    /// semantic versions
    fn h_semver() {
        let [a, b, c] = bytes::<3>("version");
        let fits = a < 64 && b < 64 && c < 64;
        match Counter::sem_ver_to_b64(a, b, c) {
            Ok(s) => {
                check(fits, "a number of 64 or more is refused");
                reach("packed");
                check(same(s.as_bytes(), &[B64[a as usize], B64[b as usize], B64[c as usize]]), "one digit per number");
            }
            Err(_) => {
                reach("refused");
                check(!fits, "numbers below 64 are accepted");
            }
        }
    }
    /// semantic versions as text: dots, digits and one arbitrary character
    fn h_semstr() {
        let n = param("n") as usize;
        let s = vec("text", n);
        for b in &s {
            // a leading plus sign is something the integer parser takes
            assume(*b < 128 && *b != b'+');
        }
        let r = Counter::sem_ver_str_to_b64(std::str::from_utf8(&s).unwrap());
        let mut parts = [0u32; 3];
        let (mut k, mut good) = (0, true);
        // a part "-0" is zero
        let (mut neg, mut any) = (false, false);
        for b in &s {
            if *b == b'.' {
                good &= !neg || any && parts[k] == 0;
                (neg, any) = (false, false);
                k += 1;
                if k == 3 {
                    good = false;
                    break;
                }
            } else if b.is_ascii_digit() {
                parts[k] = (parts[k] * 10 + (*b - b'0') as u32).min(1000);
                any = true;
            } else if *b == b'-' && !neg && !any {
                neg = true;
            } else {
                good = false;
                break;
            }
        }
        good &= k == 3 || !neg || any && parts[k] == 0;
        good &= parts.iter().all(|p| *p < 64);
        match r {
            Ok(v) => {
                reach("packed");
                check(good, "what is not a version is refused");
                check(same(v.as_bytes(), &[B64[parts[0] as usize & 63], B64[parts[1] as usize & 63], B64[parts[2] as usize & 63]]), "one digit per number, missing ones zero");
            }
            Err(_) => {
                reach("refused");
                check(!good, "a version is accepted");
            }
        }
    }

    /// writing integers
    fn h_int32() {
        let n = u32("n");
        let len = choose("len", 10);
        assume((n as u128) < pow64(len));
        let s = ok(util::u32_to_b64(n, len), "write");
        check(same(s.as_bytes(), int_b64(n as u64, len).as_bytes()), "big-endian digits");
        reach("written");
        check(ok(util::b64_to_u32(&s), "read") == n, "read back");
        check(ok(util::b64_to_u64(&s), "read") == n as u64, "read back as u64");
        reach("read");
    }
    fn h_int64() {
        let n = u64("n");
        let len = param("len") as usize;
        assume((n as u128) < pow64(len));
        let s = ok(util::u64_to_b64(n, len), "write");
        check(same(s.as_bytes(), int_b64(n, len).as_bytes()), "big-endian digits");
        reach("written");
        check(ok(util::b64_to_u64(&s), "read") == n, "read back");
        reach("read");
    }
    /// reading any text
    fn h_read() {
        let n = param("n") as usize;
        let s = if choose("any", 2) == 0 || n > 6 { ascii("text", n) } else { utf8("text", n) };
        let mut v = 0u128;
        for b in s.as_bytes() {
            v = v << 6 | (REV[*b as usize] & 63) as u128;
        }
        let good = all_b64(s.as_bytes());
        match util::b64_to_u32(&s) {
            Ok(x) => {
                reach("read");
                check(good && x as u128 == v, "u32: the number the text spells");
            }
            Err(_) => {
                reach("refused");
                check(!good || v > u32::MAX as u128, "u32: a number that fits is read");
            }
        }
        match util::b64_to_u64(&s) {
            Ok(x) => check(good && x as u128 == v, "u64: the number the text spells"),
            Err(_) => check(!good || v > u64::MAX as u128, "u64: a number that fits is read"),
        }
    }
    /// single digits
    fn h_digit() {
        let i = bytes::<1>("i")[0];
        match util::b64_index_to_char(i) {
            Ok(c) => check(i < 64 && c as u32 == B64[i as usize & 63] as u32, "digit of an index"),
            Err(_) => check(i >= 64, "index below 64 has a digit"),
        }
        let n = u32("c");
        if let Some(c) = char::from_u32(n) {
            match util::b64_char_to_index(c) {
                Ok(i) => {
                    reach("digit");
                    check(n < 256 && REV[n as usize & 255] == i && i < 64, "index of a digit");
                }
                Err(_) => {
                    reach("not a digit");
                    check(n >= 256 || REV[n as usize & 255] == 255, "a digit has an index");
                }
            }
        }
    }
    /// code text to bytes and back
    fn h_pack() {
        let n = param("n") as usize;
        let s = ascii("text", n);
        match util::code_b64_to_b2(&s) {
            Ok(b) => {
                reach("packed");
                check(all_b64(s.as_bytes()), "foreign characters are refused");
                check(same(&b, &qb2(&s, 0, &[])), "packed left-aligned, zero bits after");
                let mut more = b.clone();
                more.extend_from_slice(&vec("more", param("more") as usize));
                let t = ok(util::code_b2_to_b64(&more, n), "unpack");
                check(same(t.as_bytes(), s.as_bytes()), "unpacks to the text");
            }
            Err(_) => {
                reach("refused");
                check(!all_b64(s.as_bytes()), "Base64 text is packed");
            }
        }
    }
    /// leading characters and sextets of any bytes
    fn h_nab() {
        let n = param("n") as usize;
        let b = vec("bytes", n);
        let mut padded = b.clone();
        padded.resize((n + 2) / 3 * 3, 0);
        let t = text(&padded);
        for k in 0..14usize {
            let need = (k * 6 + 7) / 8;
            match util::nab_sextets(&b, k) {
                Ok(v) => {
                    check(need <= n, "too few bytes are refused");
                    check(v.len() == k, "as many sextets as asked");
                    for i in 0..k {
                        check(B64[(v[i] & 63) as usize] == t[i] && v[i] < 64, "leading sextets");
                    }
                    reach("sliced");
                }
                Err(_) => check(need > n, "enough bytes are sliced"),
            }
            if k <= 8 {
                match util::code_b2_to_b64(&b, k) {
                    Ok(v) => {
                        check(need <= n, "too few bytes are refused");
                        check(same(v.as_bytes(), &t[..k]), "leading characters");
                    }
                    Err(_) => check(need > n, "enough bytes are unpacked"),
                }
            }
        }
    }
}
