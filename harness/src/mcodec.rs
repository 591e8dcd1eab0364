use crate::spec::*;
use keride::cesr::*;
use symrt::*;

/// A plain carrier for the Matter trait's own methods.
#[derive(Default)]
pub struct M {
    code: String,
    raw: Vec<u8>,
    size: u32,
}
impl Matter for M {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string()
    }
    fn set_size(&mut self, size: u32) {
        self.size = size
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec()
    }
}

fn agree(m: &M, code: &str, raw: &[u8], size: u32, full: usize, what: &str) {
    check(m.code() == code, &format!("{what}: code"));
    check(m.size() == size, &format!("{what}: size"));
    check(same(&m.raw(), raw), &format!("{what}: raw"));
    check(ok(m.full_size(), "full_size") == full, &format!("{what}: full size"));
}

fn round(m: &M, code: &str, both: &str, lead: usize, raw: &[u8], size: u32, full: usize) {
    agree(m, code, raw, size, full, "from raw");
    let want2 = qb2(both, lead, raw);
    let want = text(&want2);
    check(want.len() == full, "full size is the text length");
    let q = ok(m.qb64(), "qb64");
    check(same(q.as_bytes(), &want), "qb64 is the CESR text");
    check(same(&ok(m.qb64b(), "qb64b"), &want), "qb64b is the CESR text");
    let q2 = ok(m.qb2(), "qb2");
    check(same(&q2, &want2), "qb2 is the CESR binary");
    reach("encoded");
    // back again, with following stream content present
    let extra = param("extra") as usize;
    let tail = ascii("tail", extra);
    let s = format!("{q}{tail}");
    agree(&ok(M::new_with_qb64(&s), "parse qb64"), code, raw, size, full, "from qb64");
    agree(&ok(<M as Matter>::new(None, None, Some(s.as_bytes()), None, None), "parse qb64b"), code, raw, size, full, "from qb64b");
    let mut b = q2.clone();
    b.extend_from_slice(&vec("btail", extra));
    agree(&ok(M::new_with_qb2(&b), "parse qb2"), code, raw, size, full, "from qb2");
    reach("parsed back");
}

harnesses! {
    /// fixed-size codes: every raw value
    fn h_fixed() {
        let lo = param("lo") as usize;
        let n = (param("hi") as usize).min(NFIXED) - lo;
        let m = &MATTER[lo + choose("code", n)];
        let n = rawsize(m);
        // more raw than the code needs is cut
        let raw = vec("raw", n + param("more") as usize);
        let x = ok(<M as Matter>::new(Some(m.0), Some(&raw), None, None, None), "from raw");
        round(&x, m.0, m.0, m.3, &raw[..n], 0, m.4);
        // less is refused
        if n > 0 {
            check(M::new_with_code_and_raw(m.0, &raw[..n - 1]).is_err(), "short raw refused");
        }
    }
    /// variable-size codes: every raw value of each length
    fn h_var() {
        let k = choose("code", MATTER.len() - NFIXED);
        let given = &MATTER[NFIXED + k];
        let lo = param("lo") as usize;
        let n = lo + choose("len", param("n") as usize);
        let sym = n.min(param("sym") as usize);
        let mut raw = vec![0x5au8; n];
        if sym > 0 {
            let h = sym / 2;
            fill("head", &mut raw[..sym - h]);
            fill("last", &mut raw[n - h..]);
        }
        let x = ok(M::new_with_code_and_raw(given.0, &raw), "from raw");
        let lead = (3 - n % 3) % 3;
        let size = (n + lead) / 3;
        let fam = if given.0.ends_with('A') { 'A' } else { 'B' };
        let big = given.1 == 4 || size >= 4096;
        let code = if big { format!("{}AA{fam}", [7, 8, 9][lead]) } else { format!("{}{fam}", [4, 5, 6][lead]) };
        let e = entry(&code);
        let both = format!("{code}{}", int_b64(size as u64, e.2));
        round(&x, &code, &both, lead, &raw, size as u32, e.1 + e.2 + 4 * size);
    }
    /// any text that starts with a known code: accepted only if it is the one canonical text
    fn h_ctext() {
        let lo = param("lo") as usize;
        let m = &MATTER[lo + choose("code", param("n") as usize)];
        let n = if m.4 == 0 { m.1 + param("var") as usize } else { m.4 + 1 };
        let n = n - choose("short", 3);
        let rest = ascii("rest", n - m.1);
        let win = choose("window", 1 + param("win") as usize);
        let s = if win == 0 {
            format!("{}{rest}", m.0)
        } else {
            // three arbitrary bytes (UTF-8) somewhere
            let w = utf8("utf8", 3);
            let at = [0, (m.1 + m.2).saturating_sub(m.1 + 1), rest.len(), rest.len().saturating_sub(4), 1][win - 1].min(rest.len().saturating_sub(3));
            if rest.len() < 3 {
                return;
            }
            format!("{}{}{w}{}", m.0, &rest[..at], &rest[at + 3..])
        };
        text_canonical(&s, Some(m.0));
    }
    /// any short text
    fn h_cany() {
        let n = param("lo") as usize + choose("len", param("n") as usize);
        let s = utf8("text", n);
        text_canonical(&s, None);
    }
    /// any binary that starts with a known code
    fn h_cbin() {
        let lo = param("lo") as usize;
        let m = &MATTER[lo + choose("code", param("n") as usize)];
        let n = if m.4 == 0 { m.1 + param("var") as usize } else { m.4 };
        let n = (n + 3) / 4 * 4;
        let rest = b64str("rest", n - m.1);
        let mut b = untext(format!("{}{rest}", m.0).as_bytes());
        let cut = choose("cut", 3);
        if cut == 1 {
            b.push(bytes::<1>("extra")[0]);
        } else if cut == 2 {
            b.pop();
        }
        bin_canonical(&b, Some(m.0));
    }
    /// any short binary
    fn h_bany() {
        let n = param("lo") as usize + choose("len", param("n") as usize);
        bin_canonical(&vec("bin", n), None);
    }
}

fn text_canonical(s: &str, code: Option<&str>) {
    match M::new_with_qb64(s) {
        Ok(m) => {
            reach("accepted");
            if let Some(c) = code {
                check(m.code() == c, "code read");
            }
            let c = m.code();
            let e = entry(&c);
            let full = concrete(ok(m.full_size(), "full_size") as u64) as usize;
            check(full <= s.len(), "no more than the text is consumed");
            check(full == if e.4 == 0 { e.1 + e.2 + 4 * m.size() as usize } else { e.4 }, "full size");
            let t = &s.as_bytes()[..full];
            check(m.raw().len() == (full - e.1 - e.2) * 3 / 4 - e.3, "raw size");
            check(same(ok(m.qb64(), "re-encode").as_bytes(), t), "text is canonical");
            check(same(&ok(m.qb2(), "re-encode binary"), &untext(t)), "binary form is the text decoded");
        }
        Err(_) => reach("refused"),
    }
}

fn bin_canonical(b: &[u8], code: Option<&str>) {
    match M::new_with_qb2(b) {
        Ok(m) => {
            reach("accepted");
            if let Some(c) = code {
                check(m.code() == c, "code read");
            }
            let c = m.code();
            let e = entry(&c);
            let full = concrete(ok(m.full_size(), "full_size") as u64) as usize;
            check(full == if e.4 == 0 { e.1 + e.2 + 4 * m.size() as usize } else { e.4 }, "full size");
            check(full / 4 * 3 <= b.len(), "no more than the input is consumed");
            let b = &b[..full / 4 * 3];
            check(same(&ok(m.qb2(), "re-encode"), b), "binary is canonical");
            check(same(ok(m.qb64(), "re-encode text").as_bytes(), &text(b)), "text form is the binary encoded");
        }
        Err(_) => reach("refused"),
    }
}
