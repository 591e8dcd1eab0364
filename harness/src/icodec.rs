//! Indexed primitives.
use crate::spec::*;
use keride::cesr::*;
use symrt::*;

/// A plain carrier for the Indexer trait's own methods.
#[derive(Default)]
pub struct X {
    code: String,
    raw: Vec<u8>,
    index: u32,
    ondex: u32,
}
impl Indexer for X {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec()
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Cur,
    Both,
    Other,
}
pub struct E {
    pub code: &'static str,
    pub ss: usize,
    pub os: usize,
    pub fs: usize,
    pub ls: usize,
    pub k: K,
}
const fn e(code: &'static str, ss: usize, os: usize, fs: usize, ls: usize, k: K) -> E {
    E { code, ss, os, fs, ls, k }
}
use K::*;
/// the indexed code table (full size 0: variable, the index counts quadlets)
pub const TAB: &[E] = &[
    e("A", 1, 0, 88, 0, Both),
    e("B", 1, 0, 88, 0, Cur),
    e("C", 1, 0, 88, 0, Both),
    e("D", 1, 0, 88, 0, Cur),
    e("E", 1, 0, 88, 0, Both),
    e("F", 1, 0, 88, 0, Cur),
    e("0A", 2, 1, 156, 0, Both),
    e("0B", 2, 1, 156, 0, Cur),
    e("2A", 4, 2, 92, 0, Both),
    e("2B", 4, 2, 92, 0, Cur),
    e("2C", 4, 2, 92, 0, Both),
    e("2D", 4, 2, 92, 0, Cur),
    e("2E", 4, 2, 92, 0, Both),
    e("2F", 4, 2, 92, 0, Cur),
    e("3A", 6, 3, 160, 0, Both),
    e("3B", 6, 3, 160, 0, Cur),
    e("0z", 2, 0, 0, 0, Other),
    e("1z", 2, 1, 76, 1, Other),
    e("4z", 6, 3, 80, 1, Other),
];

pub fn p64(n: usize) -> u32 {
    1u32 << (6 * n)
}

fn agree(x: &X, e: &E, raw: &[u8], index: u32, ondex: u32, what: &str) {
    check(x.code == e.code, &format!("{what}: code"));
    check(x.index == index, &format!("{what}: index"));
    if e.code != "0z" {
        check(x.ondex == ondex, &format!("{what}: ondex"));
    }
    check(same(&x.raw, raw), &format!("{what}: raw"));
}

/// build from raw, compare with the specification, parse back
fn whole(e: &E, index: u32, ondex: Option<u32>, fits: bool) {
    let ms = e.ss - e.os;
    let fs = if e.fs == 0 { e.code.len() + e.ss + 4 * (if fits { index as usize } else { 2 }) } else { e.fs };
    let n = (fs - e.code.len() - e.ss) * 3 / 4 - e.ls;
    let more = param("more") as usize;
    let raw = vec("raw", n + more);
    let r = <X as Indexer>::new(Some(index), ondex, Some(e.code), Some(&raw), None, None, None);
    let x = match r {
        Ok(x) => {
            check(fits, "an index the code cannot carry is refused");
            x
        }
        Err(_) => {
            check(!fits, "an index the code can carry is accepted");
            reach("refused");
            done()
        }
    };
    let o = match (ondex, e.k) {
        (Some(o), _) => o,
        (None, Both) => index,
        (None, _) => 0,
    };
    let raw = &raw[..n];
    agree(&x, e, raw, index, o, "from raw");
    let both = format!("{}{}{}", e.code, int_b64(index as u64, ms), int_b64(o as u64, e.os));
    let want2 = qb2(&both, e.ls, raw);
    let want = text(&want2);
    check(want.len() == fs, "full size is the text length");
    check(ok(x.full_size(), "full_size") == fs, "full size");
    let q = ok(x.qb64(), "qb64");
    check(same(q.as_bytes(), &want), "qb64 is the CESR text");
    check(same(&ok(x.qb64b(), "qb64b"), &want), "qb64b is the CESR text");
    let q2 = ok(x.qb2(), "qb2");
    check(same(&q2, &want2), "qb2 is the CESR binary");
    reach("encoded");
    let extra = param("extra") as usize;
    let s = format!("{q}{}", ascii("tail", extra));
    agree(&ok(X::new_with_qb64(&s), "parse qb64"), e, raw, index, o, "from qb64");
    agree(&ok(<X as Indexer>::new(None, None, None, None, Some(s.as_bytes()), None, None), "parse qb64b"), e, raw, index, o, "from qb64b");
    let mut b = q2.clone();
    b.extend_from_slice(&vec("btail", extra));
    agree(&ok(X::new_with_qb2(&b), "parse qb2"), e, raw, index, o, "from qb2");
    if n > 0 {
        check(X::new_with_code_and_raw(e.code, &raw[..n - 1], index, ondex).is_err(), "short raw refused");
    }
    reach("parsed back");
}

fn canonical(x: &X, s: &[u8], binary: bool, code: Option<&str>) {
    reach("accepted");
    if let Some(c) = code {
        check(x.code == c, "code read");
    }
    let mut e = None;
    for t in TAB {
        if t.code == x.code {
            e = Some(t);
        }
    }
    let e = match e {
        Some(e) => e,
        None => fail("code of the table"),
    };
    let full = concrete(ok(x.full_size(), "full_size") as u64) as usize;
    check(full == if e.fs == 0 { e.code.len() + e.ss + 4 * x.index as usize } else { e.fs }, "full size");
    let len = if binary { full / 4 * 3 } else { full };
    check(len <= s.len(), "no more than the input is consumed");
    let t = &s[..len];
    check(x.raw.len() == (full - e.code.len() - e.ss) * 3 / 4 - e.ls, "raw size");
    if binary {
        check(same(&ok(x.qb2(), "re-encode"), t), "binary is canonical");
        check(same(ok(x.qb64(), "re-encode text").as_bytes(), &text(t)), "text form is the binary encoded");
    } else {
        check(same(ok(x.qb64(), "re-encode").as_bytes(), t), "text is canonical");
        check(same(&ok(x.qb2(), "re-encode binary"), &untext(t)), "binary form is the text decoded");
    }
}

fn text_canonical(s: &str, code: Option<&str>) {
    match X::new_with_qb64(s) {
        Ok(x) => canonical(&x, s.as_bytes(), false, code),
        Err(_) => reach("refused"),
    }
}
fn bin_canonical(b: &[u8], code: Option<&str>) {
    match X::new_with_qb2(b) {
        Ok(x) => canonical(&x, b, true, code),
        Err(_) => reach("refused"),
    }
}

harnesses! {
    /// fixed-size codes: every index, every ondex (or none), every raw
    fn h_ifixed() {
        let e = &TAB[param("code") as usize];
        let index = u32("index");
        let ondex = if choose("has_ondex", 2) == 1 { Some(u32("ondex")) } else { None };
        let mut fits = index < p64(e.ss - e.os);
        match (ondex, e.k) {
            (Some(_), Cur) => fits = false,
            (Some(o), _) => fits &= if e.os == 0 { o == index } else { o < p64(e.os) },
            _ => {}
        }
        whole(e, index, ondex, fits);
    }
    /// the variable-size code: every raw of small and of the largest size
    fn h_ivar() {
        let lo = param("lo") as u32;
        let index = lo + choose("index", param("n") as usize) as u32;
        let o = choose("ondex", 3);
        let ondex = [None, Some(index), Some(index + 1)][o];
        whole(&TAB[16], index, ondex, index < 4096 && o < 2);
    }
    /// any text that starts with a known code
    fn h_itext() {
        let e = &TAB[param("code") as usize];
        let n = if e.fs == 0 { 4 + param("var") as usize } else { e.fs + 1 };
        let n = n - choose("short", 3);
        let hs = e.code.len();
        let rest = ascii("rest", n - hs);
        let win = choose("window", 1 + param("win") as usize);
        let s = if win == 0 {
            format!("{}{rest}", e.code)
        } else {
            let w = utf8("utf8", 3);
            let m = rest.len();
            let at = [0, (e.ss).saturating_sub(1), m, m.saturating_sub(4), 1][win - 1].min(m.saturating_sub(3));
            format!("{}{}{w}{}", e.code, &rest[..at], &rest[at + 3..])
        };
        text_canonical(&s, Some(e.code));
    }
    /// any binary that starts with a known code
    fn h_ibin() {
        let e = &TAB[param("code") as usize];
        let n = if e.fs == 0 { 4 + param("var") as usize } else { e.fs };
        let rest = b64str("rest", n - e.code.len());
        let mut b = untext(format!("{}{rest}", e.code).as_bytes());
        match choose("cut", 3) {
            1 => b.push(bytes::<1>("extra")[0]),
            2 => {
                b.pop();
            }
            _ => {}
        }
        bin_canonical(&b, Some(e.code));
    }
    /// any short text
    fn h_iany() {
        let n = param("n") as usize;
        text_canonical(&utf8("text", n), None);
    }
    /// any short binary
    fn h_ibany() {
        bin_canonical(&vec("bin", param("n") as usize), None);
    }
}
