//! Regular expressions over possibly symbolic bytes. Patterns are parsed by `regex-syntax` (the
//! real crate's parser); matching is a sparse NFA simulation whose state bits are data, so that a
//! match question is one condition instead of one fork per byte.
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use std::borrow::Cow;
use std::collections::HashMap;
use std::fmt;
use std::ops::{Index, Range};

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Error::Syntax(s) => f.write_str(s),
            Error::CompiledTooBig(_) => f.write_str("too big"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
enum In {
    Class(Box<[u8; 256]>, usize),
    Split(usize, usize),
    Save(usize, usize),
    Look(Look, usize),
    Match,
}

#[derive(Clone, Debug)]
pub struct Regex {
    pat: String,
    prog: Vec<In>,
    start: usize,
    names: HashMap<String, usize>,
    nlist: Vec<Option<String>>,
    anchored: bool,
    /// closures, by whether at the start and at the end
    clos: [Vec<Vec<usize>>; 4],
}

struct Comp {
    p: Vec<In>,
    names: HashMap<String, usize>,
    nlist: Vec<Option<String>>,
}
impl Comp {
    fn push(&mut self, i: In) -> usize {
        self.p.push(i);
        self.p.len() - 1
    }
    fn range(&mut self, lo: u8, hi: u8, next: usize) -> usize {
        let mut t = Box::new([0u8; 256]);
        for i in lo as usize..=hi as usize {
            t[i] = 1;
        }
        self.push(In::Class(t, next))
    }
    /// code for `h` continuing at `next`; returns the entry
    fn c(&mut self, h: &Hir, next: usize) -> usize {
        match h.kind() {
            HirKind::Empty => next,
            HirKind::Literal(l) => {
                let mut n = next;
                for b in l.0.iter().rev() {
                    n = self.range(*b, *b, n);
                }
                n
            }
            HirKind::Class(Class::Bytes(c)) => {
                let mut t = Box::new([0u8; 256]);
                for r in c.iter() {
                    for i in r.start() as usize..=r.end() as usize {
                        t[i] = 1;
                    }
                }
                self.push(In::Class(t, next))
            }
            HirKind::Class(Class::Unicode(c)) => {
                let mut t = Box::new([0u8; 256]);
                let mut ascii = false;
                let mut alts = vec![];
                for r in c.iter() {
                    for seq in regex_syntax::utf8::Utf8Sequences::new(r.start(), r.end()) {
                        let s = seq.as_slice();
                        if s.len() == 1 {
                            for i in s[0].start as usize..=s[0].end as usize {
                                t[i] = 1;
                            }
                            ascii = true;
                        } else {
                            let mut n = next;
                            for b in s.iter().rev() {
                                n = self.range(b.start, b.end, n);
                            }
                            alts.push(n);
                        }
                    }
                }
                let mut e = None;
                if ascii {
                    e = Some(self.push(In::Class(t, next)));
                }
                for a in alts {
                    e = Some(match e {
                        None => a,
                        Some(x) => self.push(In::Split(x, a)),
                    });
                }
                match e {
                    Some(x) => x,
                    None => self.push(In::Class(Box::new([0u8; 256]), next)),
                }
            }
            HirKind::Look(l) => self.push(In::Look(*l, next)),
            HirKind::Repetition(r) => {
                let mut n = next;
                match r.max {
                    None => {
                        let s = self.push(In::Match);
                        let b = self.c(&r.sub, s);
                        self.p[s] = if r.greedy { In::Split(b, next) } else { In::Split(next, b) };
                        n = s;
                    }
                    Some(m) => {
                        for _ in r.min..m {
                            let b = self.c(&r.sub, n);
                            n = self.push(if r.greedy { In::Split(b, next) } else { In::Split(next, b) });
                        }
                    }
                }
                for _ in 0..r.min {
                    n = self.c(&r.sub, n);
                }
                n
            }
            HirKind::Capture(c) => {
                let i = c.index as usize;
                while self.nlist.len() <= i {
                    self.nlist.push(None);
                }
                if let Some(nm) = &c.name {
                    self.names.insert(nm.to_string(), i);
                    self.nlist[i] = Some(nm.to_string());
                }
                let e = self.push(In::Save(2 * i + 1, next));
                let b = self.c(&c.sub, e);
                self.push(In::Save(2 * i, b))
            }
            HirKind::Concat(v) => {
                let mut n = next;
                for h in v.iter().rev() {
                    n = self.c(h, n);
                }
                n
            }
            HirKind::Alternation(v) => {
                let mut e = None;
                for h in v.iter().rev() {
                    let a = self.c(h, next);
                    e = Some(match e {
                        None => a,
                        Some(x) => self.push(In::Split(a, x)),
                    });
                }
                e.unwrap_or(next)
            }
        }
    }
}

impl Regex {
    pub fn new(pat: &str) -> Result<Regex, Error> {
        Regex::build(pat, false)
    }
    fn build(pat: &str, ci: bool) -> Result<Regex, Error> {
        let h = regex_syntax::ParserBuilder::new().case_insensitive(ci).build().parse(pat).map_err(|e| Error::Syntax(e.to_string()))?;
        let anchored = h.properties().look_set_prefix().contains(Look::Start);
        let mut c = Comp { p: vec![In::Match], names: HashMap::new(), nlist: vec![None] };
        let start = c.c(&h, 0);
        let mut r = Regex { pat: pat.to_string(), prog: c.p, start, names: c.names, nlist: c.nlist, anchored, clos: Default::default() };
        for k in 0..4 {
            for pc in 0..r.prog.len() {
                let (mut seen, mut out) = (vec![], vec![]);
                r.close(pc, (k & 1 != 0, k & 2 != 0), &mut seen, &mut out);
                r.clos[k].push(out);
            }
        }
        Ok(r)
    }
    pub fn as_str(&self) -> &str {
        &self.pat
    }

    fn look(&self, l: Look, s: &[u8], p: usize) -> bool {
        match l {
            Look::Start => p == 0,
            Look::End => p == s.len(),
            _ => panic!("unsupported assertion in the regex model"),
        }
    }
    fn close(&self, pc: usize, at: (bool, bool), seen: &mut Vec<usize>, out: &mut Vec<usize>) {
        if seen.contains(&pc) {
            return;
        }
        seen.push(pc);
        match &self.prog[pc] {
            In::Class(..) | In::Match => out.push(pc),
            In::Split(a, b) => {
                self.close(*a, at, seen, out);
                self.close(*b, at, seen, out);
            }
            In::Save(_, n) => self.close(*n, at, seen, out),
            In::Look(l, n) => {
                if match l {
                    Look::Start => at.0,
                    Look::End => at.1,
                    _ => panic!("unsupported assertion in the regex model"),
                } {
                    self.close(*n, at, seen, out)
                }
            }
        }
    }
    /// the instructions reached without reading anything
    fn closure(&self, pc: usize, s: &[u8], p: usize) -> &[usize] {
        &self.clos[(p == 0) as usize + 2 * (p == s.len()) as usize][pc]
    }
    fn gone(a: u8) -> bool {
        symrt::known(a as u64) && a == 0
    }
    fn sure(a: u8) -> bool {
        symrt::known(a as u64) && a != 0
    }
    /// tells, at each position, whether some match that begins in `from..=last` ends there;
    /// stops when told to
    fn run(&self, s: &[u8], from: usize, last: usize, mut f: impl FnMut(usize, u8) -> bool) {
        let mut act: Vec<(usize, u8)> = vec![];
        let mut p = from;
        loop {
            if p <= last {
                for &q in self.closure(self.start, s, p) {
                    match act.iter_mut().find(|x| x.0 == q) {
                        Some(x) => x.1 = 1,
                        None => act.push((q, 1)),
                    }
                }
            }
            let mut m = 0u8;
            for (pc, a) in &act {
                if let In::Match = self.prog[*pc] {
                    m |= *a;
                }
            }
            if f(p, m) || p >= s.len() {
                return;
            }
            let b = s[p];
            let mut next: Vec<(usize, u8)> = vec![];
            for (pc, a) in &act {
                if let In::Class(t, n) = &self.prog[*pc] {
                    let hit = *a & t[b as usize];
                    if Self::gone(hit) {
                        continue;
                    }
                    for &q in self.closure(*n, s, p + 1) {
                        match next.iter_mut().find(|x| x.0 == q) {
                            Some(x) => x.1 |= hit,
                            None => next.push((q, hit)),
                        }
                    }
                }
            }
            if next.is_empty() && p + 1 > last {
                return;
            }
            act = next;
            p += 1;
        }
    }
    /// 1 if some match begins in `from..=last`
    fn sim(&self, s: &[u8], from: usize, last: usize) -> u8 {
        let mut m = 0u8;
        self.run(s, from, last, |_, x| {
            m |= x;
            Self::sure(m)
        });
        m
    }
    fn first_start(&self, s: &[u8], from: usize) -> Option<usize> {
        let none = s.len() as u64 + 1;
        let last = if self.anchored { from } else { s.len() };
        let mut oks = vec![];
        for i in from..=last {
            let x = self.sim(s, i, i);
            oks.push(x);
            if Self::sure(x) {
                break;
            }
        }
        let mut r = none;
        for i in (0..oks.len()).rev() {
            r = symrt::pick(oks[i] != 0, (from + i) as u64, r);
        }
        let r = symrt::concrete(r);
        if r == none {
            None
        } else {
            Some(r as usize)
        }
    }
    /// backtracking at a fixed start: the leftmost-first match
    fn walk(&self, s: &[u8], pc: usize, p: usize, slots: &mut Vec<Option<usize>>, depth: usize) -> Option<usize> {
        if depth > 100_000 {
            panic!("regex model recursion");
        }
        match &self.prog[pc] {
            In::Match => Some(p),
            In::Class(t, n) => {
                if p < s.len() && t[s[p] as usize] != 0 {
                    self.walk(s, *n, p + 1, slots, depth + 1)
                } else {
                    None
                }
            }
            In::Split(a, b) => {
                let keep = slots.clone();
                if let Some(e) = self.walk(s, *a, p, slots, depth + 1) {
                    return Some(e);
                }
                *slots = keep;
                self.walk(s, *b, p, slots, depth + 1)
            }
            In::Save(k, n) => {
                while slots.len() <= *k {
                    slots.push(None);
                }
                let old = slots[*k];
                slots[*k] = Some(p);
                let r = self.walk(s, *n, p, slots, depth + 1);
                if r.is_none() {
                    slots[*k] = old;
                }
                r
            }
            In::Look(l, n) => {
                if self.look(*l, s, p) {
                    self.walk(s, *n, p, slots, depth + 1)
                } else {
                    None
                }
            }
        }
    }
    fn at(&self, s: &str, from: usize) -> Option<Vec<Option<usize>>> {
        let st = self.first_start(s.as_bytes(), from)?;
        let mut slots = vec![None; self.nlist.len() * 2];
        let e = self.walk(s.as_bytes(), self.start, st, &mut slots, 0)?;
        slots[0] = Some(st);
        slots[1] = Some(e);
        Some(slots)
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.is_match_at(s, 0)
    }
    pub fn is_match_at(&self, s: &str, from: usize) -> bool {
        let last = if self.anchored { from } else { s.len() };
        self.sim(s.as_bytes(), from, last) != 0
    }
    pub fn find<'h>(&self, s: &'h str) -> Option<Match<'h>> {
        self.find_at(s, 0)
    }
    pub fn find_at<'h>(&self, s: &'h str, from: usize) -> Option<Match<'h>> {
        let m = self.at(s, from)?;
        Some(Match { h: s, a: m[0]?, b: m[1]? })
    }
    pub fn shortest_match(&self, s: &str) -> Option<usize> {
        self.shortest_match_at(s, 0)
    }
    pub fn shortest_match_at(&self, s: &str, from: usize) -> Option<usize> {
        // the earliest position at which a match is known to exist
        let b = s.as_bytes();
        let last = if self.anchored { from } else { b.len() };
        let mut ends = vec![];
        self.run(b, from, last, |p, x| {
            ends.push((p, x));
            Self::sure(x)
        });
        let none = b.len() as u64 + 1;
        let mut r = none;
        for (p, x) in ends.iter().rev() {
            r = symrt::pick(*x != 0, *p as u64, r);
        }
        let r = symrt::concrete(r);
        if r == none {
            None
        } else {
            Some(r as usize)
        }
    }
    pub fn captures<'h>(&self, s: &'h str) -> Option<Captures<'h>> {
        let slots = self.at(s, 0)?;
        Some(Captures { h: s, slots, names: self.names.clone() })
    }
    pub fn find_iter<'r, 'h>(&'r self, s: &'h str) -> Matches<'r, 'h> {
        Matches { r: self, s, p: 0, done: false }
    }
    pub fn captures_iter<'r, 'h>(&'r self, s: &'h str) -> CaptureMatches<'r, 'h> {
        CaptureMatches { r: self, s, p: 0, done: false }
    }
    pub fn split<'r, 'h>(&'r self, s: &'h str) -> std::vec::IntoIter<&'h str> {
        let mut v = vec![];
        let mut l = 0;
        for m in self.find_iter(s) {
            v.push(&s[l..m.start()]);
            l = m.end();
        }
        v.push(&s[l..]);
        v.into_iter()
    }
    pub fn replace<'h, R: Replacer>(&self, s: &'h str, rep: R) -> Cow<'h, str> {
        self.replacen(s, 1, rep)
    }
    pub fn replace_all<'h, R: Replacer>(&self, s: &'h str, rep: R) -> Cow<'h, str> {
        self.replacen(s, 0, rep)
    }
    pub fn replacen<'h, R: Replacer>(&self, s: &'h str, limit: usize, mut rep: R) -> Cow<'h, str> {
        let mut out = String::new();
        let mut l = 0;
        let mut k = 0;
        for c in self.captures_iter(s) {
            let m = c.get(0).unwrap();
            out.push_str(&s[l..m.start()]);
            rep.replace_append(&c, &mut out);
            l = m.end();
            k += 1;
            if limit > 0 && k >= limit {
                break;
            }
        }
        if k == 0 {
            return Cow::Borrowed(s);
        }
        out.push_str(&s[l..]);
        Cow::Owned(out)
    }
    pub fn captures_len(&self) -> usize {
        self.nlist.len()
    }
    pub fn capture_names(&self) -> std::vec::IntoIter<Option<&str>> {
        self.nlist.iter().map(|x| x.as_deref()).collect::<Vec<_>>().into_iter()
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.pat)
    }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Regex::new(s)
    }
}
impl TryFrom<&str> for Regex {
    type Error = Error;
    fn try_from(s: &str) -> Result<Self, Error> {
        Regex::new(s)
    }
}

pub struct RegexBuilder {
    pat: String,
    ci: bool,
}
impl RegexBuilder {
    pub fn new(p: &str) -> Self {
        RegexBuilder { pat: p.into(), ci: false }
    }
    pub fn case_insensitive(&mut self, y: bool) -> &mut Self {
        self.ci = y;
        self
    }
    pub fn build(&self) -> Result<Regex, Error> {
        Regex::build(&self.pat, self.ci)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> {
    h: &'h str,
    a: usize,
    b: usize,
}
impl<'h> Match<'h> {
    pub fn start(&self) -> usize {
        self.a
    }
    pub fn end(&self) -> usize {
        self.b
    }
    pub fn is_empty(&self) -> bool {
        self.a == self.b
    }
    pub fn len(&self) -> usize {
        self.b - self.a
    }
    pub fn range(&self) -> Range<usize> {
        self.a..self.b
    }
    pub fn as_str(&self) -> &'h str {
        &self.h[self.a..self.b]
    }
}
impl<'h> From<Match<'h>> for &'h str {
    fn from(m: Match<'h>) -> &'h str {
        m.as_str()
    }
}

#[derive(Debug)]
pub struct Captures<'h> {
    h: &'h str,
    slots: Vec<Option<usize>>,
    names: HashMap<String, usize>,
}
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        let a = (*self.slots.get(2 * i)?)?;
        let b = (*self.slots.get(2 * i + 1)?)?;
        Some(Match { h: self.h, a, b })
    }
    pub fn name(&self, n: &str) -> Option<Match<'h>> {
        self.get(*self.names.get(n)?)
    }
    pub fn len(&self) -> usize {
        self.slots.len() / 2
    }
    pub fn iter(&self) -> std::vec::IntoIter<Option<Match<'h>>> {
        (0..self.len()).map(|i| self.get(i)).collect::<Vec<_>>().into_iter()
    }
    pub fn expand(&self, t: &str, out: &mut String) {
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] != b'$' {
                let n = t[i..].chars().next().unwrap();
                out.push(n);
                i += n.len_utf8();
                continue;
            }
            if i + 1 < b.len() && b[i + 1] == b'$' {
                out.push('$');
                i += 2;
                continue;
            }
            let (nm, e) = if i + 1 < b.len() && b[i + 1] == b'{' {
                match t[i + 2..].find('}') {
                    Some(k) => (&t[i + 2..i + 2 + k], i + 3 + k),
                    None => {
                        out.push('$');
                        i += 1;
                        continue;
                    }
                }
            } else {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                if j == i + 1 {
                    out.push('$');
                    i += 1;
                    continue;
                }
                (&t[i + 1..j], j)
            };
            let m = match nm.parse::<usize>() {
                Ok(k) => self.get(k),
                Err(_) => self.name(nm),
            };
            if let Some(m) = m {
                out.push_str(m.as_str());
            }
            i = e;
        }
    }
}
impl<'h> Index<usize> for Captures<'h> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index"))
    }
}
impl<'h, 'i> Index<&'i str> for Captures<'h> {
    type Output = str;
    fn index(&self, n: &'i str) -> &str {
        self.name(n).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group named"))
    }
}

pub struct Matches<'r, 'h> {
    r: &'r Regex,
    s: &'h str,
    p: usize,
    done: bool,
}
impl<'r, 'h> Iterator for Matches<'r, 'h> {
    type Item = Match<'h>;
    fn next(&mut self) -> Option<Match<'h>> {
        if self.done || self.p > self.s.len() || (self.r.anchored && self.p > 0) {
            return None;
        }
        match self.r.find_at(self.s, self.p) {
            None => {
                self.done = true;
                None
            }
            Some(m) => {
                self.p = if m.is_empty() { m.b + 1 } else { m.b };
                Some(m)
            }
        }
    }
}
pub struct CaptureMatches<'r, 'h> {
    r: &'r Regex,
    s: &'h str,
    p: usize,
    done: bool,
}
impl<'r, 'h> Iterator for CaptureMatches<'r, 'h> {
    type Item = Captures<'h>;
    fn next(&mut self) -> Option<Captures<'h>> {
        if self.done || self.p > self.s.len() || (self.r.anchored && self.p > 0) {
            return None;
        }
        match self.r.at(self.s, self.p) {
            None => {
                self.done = true;
                None
            }
            Some(slots) => {
                let (a, b) = (slots[0].unwrap(), slots[1].unwrap());
                self.p = if a == b { b + 1 } else { b };
                Some(Captures { h: self.s, slots, names: self.r.names.clone() })
            }
        }
    }
}

pub trait Replacer {
    fn replace_append(&mut self, c: &Captures<'_>, dst: &mut String);
}
impl<'a> Replacer for &'a str {
    fn replace_append(&mut self, c: &Captures<'_>, dst: &mut String) {
        c.expand(self, dst)
    }
}
impl Replacer for String {
    fn replace_append(&mut self, c: &Captures<'_>, dst: &mut String) {
        c.expand(self, dst)
    }
}
impl<'a> Replacer for &'a String {
    fn replace_append(&mut self, c: &Captures<'_>, dst: &mut String) {
        c.expand(self, dst)
    }
}
impl<'a> Replacer for Cow<'a, str> {
    fn replace_append(&mut self, c: &Captures<'_>, dst: &mut String) {
        c.expand(self, dst)
    }
}
impl<F, T> Replacer for F
where
    F: FnMut(&Captures<'_>) -> T,
    T: AsRef<str>,
{
    fn replace_append(&mut self, c: &Captures<'_>, dst: &mut String) {
        dst.push_str((*self)(c).as_ref())
    }
}

pub fn escape(s: &str) -> String {
    regex_syntax::escape(s)
}
