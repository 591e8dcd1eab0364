//! Hash-consed bit-vector terms with a normalising constructor for every operation.
//!
//! Two normal forms carry most of the weight:
//! * `Concat` of pieces: shifts, masks, zero-extensions and byte-wise loads/stores by
//!   constants become re-arrangements of pieces, so encode-then-decode collapses.
//! * `Tab(root, table)`: every function of a single term of at most 8 bits is stored as its
//!   complete value table, so equal functions are the same term.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Const,
    Var,
    Tab,
    Concat,
    Extract,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tabl {
    B(Rc<[u8]>),
    Q(Rc<[u64]>),
}

impl Tabl {
    pub fn get(&self, i: usize) -> u64 {
        match self {
            Tabl::B(v) => v[i] as u64,
            Tabl::Q(v) => v[i],
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Tabl::B(v) => v.len(),
            Tabl::Q(v) => v.len(),
        }
    }
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub args: Rc<[T]>,
    pub k: u128, // Const value / Var index / Extract (hi<<32|lo)
    pub tab: Option<Tabl>,
    pub root: T,
    pub vars: Rc<[u32]>,
}

pub const NOROOT: T = u32::MAX; // several roots
pub const CROOT: T = u32::MAX - 1; // constant: no root

pub struct Arena {
    pub n: Vec<&'static Node>,
    ix: HashMap<u64, Vec<T>>,
    empty: Rc<[u32]>,
    pub tt: HashMap<T, [u64; 4]>,
}

static mut ARENA: Option<Arena> = None;

pub fn init() {
    unsafe {
        ARENA = Some(Arena { n: Vec::new(), ix: HashMap::new(), empty: Rc::from(vec![]), tt: HashMap::new() });
    }
    // term 0 is never used as a value: memory uses 0 for "concrete byte"
    let z = intern(Op::Const, 1, &[], 0, None);
    debug_assert_eq!(z, 0);
    ar().ix.clear();
}

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe { ARENA.as_mut().unwrap() }
}

pub fn nd(t: T) -> &'static Node {
    ar().n[t as usize]
}

pub fn w(t: T) -> u32 {
    nd(t).w
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn isc(t: T) -> Option<u128> {
    let n = nd(t);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}

fn hash_node(op: Op, w: u32, args: &[T], k: u128, tab: &Option<Tabl>) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = Fx(0xcbf29ce484222325);
    (op as u8).hash(&mut h);
    w.hash(&mut h);
    for a in args {
        h.write_u32(*a);
    }
    h.write_u64(k as u64);
    h.write_u64((k >> 64) as u64);
    if let Some(t) = tab {
        for i in 0..t.len() {
            h.write_u64(t.get(i));
        }
    }
    h.finish()
}

pub struct Fx(pub u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}

fn union_vars(args: &[T]) -> Rc<[u32]> {
    let mut best: Rc<[u32]> = ar().empty.clone();
    for &a in args {
        let v = &nd(a).vars;
        if v.is_empty() || Rc::ptr_eq(v, &best) {
            continue;
        }
        if best.is_empty() {
            best = v.clone();
            continue;
        }
        // merge
        if v.iter().all(|x| best.binary_search(x).is_ok()) {
            continue;
        }
        if best.iter().all(|x| v.binary_search(x).is_ok()) {
            best = v.clone();
            continue;
        }
        let mut m: Vec<u32> = best.iter().chain(v.iter()).cloned().collect();
        m.sort_unstable();
        m.dedup();
        best = Rc::from(m);
    }
    best
}

fn intern(op: Op, w: u32, args: &[T], k: u128, tab: Option<Tabl>) -> T {
    assert!(w <= 128 || matches!(op, Op::Concat), "term wider than 128 bits");
    let h = hash_node(op, w, args, k, &tab);
    let a = ar();
    if let Some(v) = a.ix.get(&h) {
        for &t in v {
            let n = &a.n[t as usize];
            if n.op == op && n.w == w && n.k == k && &*n.args == args && n.tab == tab {
                return t;
            }
        }
    }
    let id = a.n.len() as T;
    let vars = if op == Op::Var { Rc::from(vec![k as u32]) } else { union_vars(args) };
    let root = match op {
        Op::Const => CROOT,
        Op::Var => id,
        Op::Tab => args[0],
        Op::Concat => {
            let mut r = CROOT;
            for &x in args {
                let xr = nd(x).root;
                if xr == CROOT || xr == r {
                    continue;
                }
                if r == CROOT {
                    r = xr
                } else {
                    r = NOROOT;
                    break;
                }
            }
            if r == NOROOT && w <= 8 {
                id
            } else {
                r
            }
        }
        _ => {
            if w <= 8 {
                id
            } else {
                NOROOT
            }
        }
    };
    let a = ar();
    a.n.push(Box::leak(Box::new(Node { op, w, args: Rc::from(args), k, tab, root, vars })));
    a.ix.entry(h).or_default().push(id);
    id
}

pub fn cst(v: u128, w: u32) -> T {
    if w > 128 {
        // high zero pieces then the value
        let mut pcs = vec![];
        let mut left = w - 128;
        while left > 0 {
            let k = left.min(128);
            pcs.push(intern(Op::Const, k, &[], 0, None));
            left -= k;
        }
        pcs.push(intern(Op::Const, 128, &[], v, None));
        return intern(Op::Concat, w, &pcs, 0, None);
    }
    intern(Op::Const, w, &[], v & mask(w), None)
}

pub fn var(i: u32) -> T {
    intern(Op::Var, 8, &[], i as u128, None)
}

pub fn tru() -> T {
    cst(1, 1)
}
pub fn fls() -> T {
    cst(0, 1)
}

/// value table of `t` over all values of `r`; None if `t` is not a function of `r` alone or too wide
pub fn table(t: T, r: T) -> Option<Vec<u64>> {
    let n = nd(t);
    if n.w > 64 {
        return None;
    }
    let sz = 1usize << nd(r).w;
    if t == r {
        return Some((0..sz as u64).collect());
    }
    match n.op {
        Op::Const => Some(vec![n.k as u64; sz]),
        Op::Tab if n.args[0] == r => {
            let tb = n.tab.as_ref().unwrap();
            Some((0..sz).map(|i| tb.get(i)).collect())
        }
        Op::Not if n.args[0] == r && n.w <= 8 => Some((0..sz as u64).map(|x| !x & mask(n.w) as u64).collect()),
        Op::Concat if n.root == r => {
            let mut out = vec![0u64; sz];
            for &p in n.args.iter() {
                let pw = nd(p).w;
                match isc(p) {
                    Some(c) => {
                        for o in out.iter_mut() {
                            *o = sh64(*o, pw) | c as u64;
                        }
                    }
                    None => {
                        let pt = table(p, r)?;
                        for (o, x) in out.iter_mut().zip(pt) {
                            *o = sh64(*o, pw) | x;
                        }
                    }
                }
            }
            Some(out)
        }
        _ => None,
    }
}

fn sh64(x: u64, s: u32) -> u64 {
    if s >= 64 {
        0
    } else {
        x << s
    }
}

pub fn mk_tab(r: T, w: u32, vals: Vec<u64>) -> T {
    debug_assert_eq!(vals.len(), 1usize << nd(r).w);
    let first = vals[0];
    let mut or = 0u64;
    let mut same = true;
    for &v in &vals {
        or |= v;
        same &= v == first;
    }
    if same {
        return cst(first as u128, w);
    }
    let k = 64 - or.leading_zeros();
    if k < w {
        let t = mk_tab(r, k, vals);
        return concat(&[cst(0, w - k), t]);
    }
    let tz = or.trailing_zeros();
    if tz > 0 {
        let t = mk_tab(r, w - tz, vals.iter().map(|v| v >> tz).collect());
        return concat(&[t, cst(0, tz)]);
    }
    if w == nd(r).w && vals.iter().enumerate().all(|(i, v)| i as u64 == *v) {
        return r;
    }
    if w == 1 && nd(r).w == 1 {
        return intern(Op::Not, 1, &[r], 0, None);
    }
    let tab = if w <= 8 { Tabl::B(vals.iter().map(|v| *v as u8).collect::<Vec<_>>().into()) } else { Tabl::Q(vals.into()) };
    intern(Op::Tab, w, &[r], 0, Some(tab))
}

/// common root of several terms, if they are functions of one root
fn common(ts: &[T]) -> Option<T> {
    let mut r = CROOT;
    for &t in ts {
        let n = nd(t);
        if n.w > 64 {
            return None;
        }
        let x = n.root;
        if x == CROOT || x == r {
            continue;
        }
        if x == NOROOT || r != CROOT {
            return None;
        }
        r = x;
    }
    if r == CROOT {
        None
    } else {
        Some(r)
    }
}

fn via_tab(ow: u32, ts: &[T], f: impl Fn(&[u64]) -> u64) -> Option<T> {
    if ow > 64 {
        return None;
    }
    let r = common(ts)?;
    let tabs: Option<Vec<Vec<u64>>> = ts.iter().map(|t| table(*t, r)).collect();
    let tabs = tabs?;
    let n = tabs[0].len();
    let mut buf = vec![0u64; ts.len()];
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        for (b, t) in buf.iter_mut().zip(&tabs) {
            *b = t[i];
        }
        out.push(f(&buf) & mask(ow) as u64);
    }
    Some(mk_tab(r, ow, out))
}

pub fn pieces(t: T) -> Vec<T> {
    let n = nd(t);
    if n.op == Op::Concat {
        n.args.to_vec()
    } else {
        vec![t]
    }
}

fn ext_parts(t: T) -> Option<(T, u32, u32)> {
    let n = nd(t);
    if n.op == Op::Extract {
        Some((n.args[0], (n.k >> 32) as u32, n.k as u32))
    } else {
        None
    }
}

/// high to low
pub fn concat(ts: &[T]) -> T {
    let mut out: Vec<T> = Vec::new();
    for &t in ts {
        if w(t) == 0 {
            continue;
        }
        for p in pieces(t) {
            loop_merge(&mut out, p);
        }
    }
    if out.len() == 1 {
        return out[0];
    }
    let tw: u32 = out.iter().map(|t| w(*t)).sum();
    intern(Op::Concat, tw, &out, 0, None)
}

fn loop_merge(out: &mut Vec<T>, p: T) {
    if let Some(&l) = out.last() {
        let (lw, pw) = (w(l), w(p));
        if let (Some(a), Some(b)) = (isc(l), isc(p)) {
            if lw + pw <= 128 {
                out.pop();
                out.push(cst((a << pw) | b, lw + pw));
                return;
            }
        }
        if let (Some((b1, h1, l1)), Some((b2, h2, l2))) = (ext_parts(l), ext_parts(p)) {
            if b1 == b2 && l1 == h2 + 1 {
                out.pop();
                loop_merge(out, extract(b1, h1, l2));
                return;
            }
        }
        if lw + pw <= 8 {
            let (r1, r2) = (nd(l).root, nd(p).root);
            if r1 == r2 && r1 != NOROOT && r1 != CROOT {
                if let (Some(t1), Some(t2)) = (table(l, r1), table(p, r1)) {
                    let v = t1.iter().zip(&t2).map(|(a, b)| (a << pw) | b).collect();
                    let m = mk_tab_raw(r1, lw + pw, v);
                    if let Some(m) = m {
                        out.pop();
                        out.push(m);
                        return;
                    }
                }
            }
        }
    }
    out.push(p);
}

/// as mk_tab, but only when the result is a single piece (used while merging pieces)
fn mk_tab_raw(r: T, w: u32, vals: Vec<u64>) -> Option<T> {
    let mut or = 0u64;
    for &v in &vals {
        or |= v;
    }
    if or == 0 || 64 - or.leading_zeros() < w || or.trailing_zeros() > 0 {
        return None;
    }
    if vals.iter().all(|v| *v == vals[0]) {
        return None;
    }
    Some(mk_tab(r, w, vals))
}

pub fn extract(t: T, hi: u32, lo: u32) -> T {
    let n = nd(t);
    let ow = hi - lo + 1;
    if ow == n.w {
        return t;
    }
    match n.op {
        Op::Const => return cst(n.k >> lo, ow),
        Op::Concat => {
            let args = n.args.clone();
            let mut pos = n.w;
            let mut out = vec![];
            for &p in args.iter() {
                let pw = w(p);
                let (ph, pl) = (pos - 1, pos - pw);
                pos -= pw;
                if pl > hi || ph < lo {
                    continue;
                }
                let h = hi.min(ph) - pl;
                let l = lo.max(pl) - pl;
                out.push(extract(p, h, l));
            }
            return concat(&out);
        }
        Op::Extract => {
            let (b, _, l) = ext_parts(t).unwrap();
            return extract(b, l + hi, l + lo);
        }
        Op::Tab => {
            let r = n.args[0];
            let tb = n.tab.clone().unwrap();
            let m = mask(ow) as u64;
            let v = (0..tb.len()).map(|i| (tb.get(i) >> lo) & m).collect();
            return mk_tab(r, ow, v);
        }
        Op::And | Op::Or | Op::Xor => {
            let (o, a, b) = (n.op, n.args[0], n.args[1]);
            let (x, y) = (extract(a, hi, lo), extract(b, hi, lo));
            return match o {
                Op::And => and(x, y),
                Op::Or => or(x, y),
                _ => xor(x, y),
            };
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let (o, a, b) = (n.op, n.args[0], n.args[1]);
            let (x, y) = (extract(a, hi, 0), extract(b, hi, 0));
            return match o {
                Op::Add => add(x, y),
                Op::Sub => sub(x, y),
                _ => mul(x, y),
            };
        }
        _ => {}
    }
    if n.w <= 8 {
        // a root: its bits as a table
        let sz = 1usize << n.w;
        let m = mask(ow) as u64;
        let r = n.root;
        if r == t {
            return mk_tab(r, ow, (0..sz as u64).map(|v| (v >> lo) & m).collect());
        }
    }
    intern(Op::Extract, ow, &[t], ((hi as u128) << 32) | lo as u128, None)
}

pub fn zext(t: T, nw: u32) -> T {
    let tw = w(t);
    if nw == tw {
        return t;
    }
    if let Some(c) = isc(t) {
        return cst(c, nw);
    }
    concat(&[cst(0, nw - tw), t])
}

pub fn sext(t: T, nw: u32) -> T {
    let tw = w(t);
    if nw == tw {
        return t;
    }
    if let Some(c) = isc(t) {
        return cst(sx(c, tw) as u128, nw);
    }
    let s = extract(t, tw - 1, tw - 1);
    if isc(s) == Some(0) {
        return zext(t, nw);
    }
    let mut hi = vec![];
    let mut left = nw - tw;
    while left > 0 {
        let k = left.min(64);
        hi.push(ite(s, cst(mask(k), k), cst(0, k)));
        left -= k;
    }
    hi.push(t);
    concat(&hi)
}

pub fn trunc(t: T, nw: u32) -> T {
    extract(t, nw - 1, 0)
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// number of leading bits known to be zero
pub fn lz(t: T) -> u32 {
    let n = nd(t);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                n.w
            } else {
                n.w - (128 - n.k.leading_zeros())
            }
        }
        Op::Concat => {
            let mut z = 0;
            for &p in n.args.iter() {
                let pw = w(p);
                let x = if isc(p).is_some() { lz(p) } else { 0 };
                z += x;
                if x < pw {
                    break;
                }
            }
            z
        }
        Op::Ite => lz(n.args[1]).min(lz(n.args[2])),
        _ => 0,
    }
}

/// boundaries (from the low end) of the pieces of t
fn bounds(t: T, v: &mut Vec<u32>) {
    let mut pos = w(t);
    for p in pieces(t) {
        pos -= w(p);
        v.push(pos);
    }
}

/// refine the constant operand's runs when combined bitwise
fn const_runs(c: u128, w: u32, v: &mut Vec<u32>) {
    let mut prev = c & 1;
    for i in 1..w.min(128) {
        let b = (c >> i) & 1;
        if b != prev {
            v.push(i);
            prev = b;
        }
    }
}

fn segments(a: T, b: T) -> Vec<(u32, u32)> {
    let mut v = vec![];
    bounds(a, &mut v);
    bounds(b, &mut v);
    v.sort_unstable();
    v.dedup();
    let mut out = vec![];
    let tw = w(a);
    for (i, lo) in v.iter().enumerate() {
        let hi = if i + 1 < v.len() { v[i + 1] } else { tw } - 1;
        out.push((hi, *lo));
    }
    out.reverse();
    out
}

fn is_cat(t: T) -> bool {
    nd(t).op == Op::Concat
}

fn bitwise(op: Op, a: T, b: T) -> T {
    let ww = w(a);
    debug_assert_eq!(ww, w(b));
    let f = |x: u128, y: u128| match op {
        Op::And => x & y,
        Op::Or => x | y,
        _ => x ^ y,
    };
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return cst(f(x, y), ww);
    }
    let (a, b) = if isc(a).is_some() { (b, a) } else { (a, b) };
    if let Some(c) = isc(b) {
        let full = mask(ww);
        match op {
            Op::And => {
                if c == 0 {
                    return b;
                }
                if c == full {
                    return a;
                }
            }
            Op::Or => {
                if c == 0 {
                    return a;
                }
                if c == full {
                    return b;
                }
            }
            _ => {
                if c == 0 {
                    return a;
                }
                if ww == 1 {
                    return not(a);
                }
            }
        }
    }
    if a == b {
        return if op == Op::Xor { cst(0, ww) } else { a };
    }
    if ww == 1 {
        if is_not(a) == Some(b) || is_not(b) == Some(a) {
            return if op == Op::And { fls() } else { tru() };
        }
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| f(v[0] as u128, v[1] as u128) as u64) {
        return t;
    }
    if ww == 1 {
        // absorption
        for (x, y) in [(a, b), (b, a)] {
            let n = nd(x);
            if n.op == op && (n.args[0] == y || n.args[1] == y) && op != Op::Xor {
                return x;
            }
            if (op == Op::And && n.op == Op::Or || op == Op::Or && n.op == Op::And) && (n.args[0] == y || n.args[1] == y) {
                return y;
            }
        }
    } else {
        let mut cuts = vec![];
        if let Some(c) = isc(b) {
            const_runs(c, ww, &mut cuts);
        }
        if is_cat(a) || is_cat(b) || (isc(b).is_some() && op != Op::Xor && cuts.len() <= 16) {
            let mut v = vec![];
            bounds(a, &mut v);
            bounds(b, &mut v);
            if op != Op::Xor {
                v.extend(cuts);
            }
            v.sort_unstable();
            v.dedup();
            if v.len() > 1 {
                let mut out = vec![];
                for i in (0..v.len()).rev() {
                    let hi = if i + 1 < v.len() { v[i + 1] } else { ww } - 1;
                    out.push(bitwise(op, extract(a, hi, v[i]), extract(b, hi, v[i])));
                }
                return concat(&out);
            }
        }
    }
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    intern(op, ww, &[x, y], 0, None)
}

pub fn is_not(t: T) -> Option<T> {
    let n = nd(t);
    if n.op == Op::Not {
        Some(n.args[0])
    } else {
        None
    }
}

pub fn and(a: T, b: T) -> T {
    bitwise(Op::And, a, b)
}
pub fn or(a: T, b: T) -> T {
    bitwise(Op::Or, a, b)
}
pub fn xor(a: T, b: T) -> T {
    bitwise(Op::Xor, a, b)
}
pub fn not(a: T) -> T {
    let ww = w(a);
    if ww != 1 {
        return xor_ones(a);
    }
    if let Some(c) = isc(a) {
        return cst(!c, 1);
    }
    if let Some(x) = is_not(a) {
        return x;
    }
    let n = nd(a);
    if n.op == Op::Tab {
        let r = n.args[0];
        let tb = n.tab.clone().unwrap();
        return mk_tab(r, 1, (0..tb.len()).map(|i| tb.get(i) ^ 1).collect());
    }
    intern(Op::Not, 1, &[a], 0, None)
}

fn xor_ones(a: T) -> T {
    let ww = w(a);
    if ww > 128 {
        let p: Vec<T> = pieces(a).into_iter().map(not).collect();
        return concat(&p);
    }
    xor(a, cst(mask(ww), ww))
}

/// (x, c) with t = x + c
fn split_add(t: T) -> (T, u128) {
    let n = nd(t);
    if n.op == Op::Add {
        if let Some(c) = isc(n.args[1]) {
            return (n.args[0], c);
        }
    }
    (t, 0)
}

pub fn add(a: T, b: T) -> T {
    let ww = w(a);
    debug_assert_eq!(ww, w(b));
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return cst(x.wrapping_add(y), ww);
    }
    let (a, b) = if isc(a).is_some() { (b, a) } else { (a, b) };
    if isc(b) == Some(0) {
        return a;
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| v[0].wrapping_add(v[1])) {
        return t;
    }
    if let Some(c) = isc(b) {
        let (x, k) = split_add(a);
        if k != 0 {
            return add(x, cst(c.wrapping_add(k), ww));
        }
        if let Some((n, carry)) = carry_free(a, c) {
            let hi = add(extract(a, ww - 1, n), cst((c >> n).wrapping_add(carry as u128) & mask(ww - n), ww - n));
            return concat(&[hi, add(extract(a, n - 1, 0), cst(c & mask(n), n))]);
        }
    } else {
        let (x, k1) = split_add(a);
        let (y, k2) = split_add(b);
        if k1 != 0 || k2 != 0 {
            return add(add(x, y), cst(k1.wrapping_add(k2), ww));
        }
    }
    if disjoint(a, b) {
        return or(a, b);
    }
    let z = lz(a).min(lz(b));
    if z >= 2 && ww <= 128 {
        let nw = ww - z + 1;
        return zext(add(trunc(a, nw), trunc(b, nw)), ww);
    }
    // (x - y) + y
    for (p, q) in [(a, b), (b, a)] {
        let n = nd(p);
        if n.op == Op::Sub && n.args[1] == q {
            return n.args[0];
        }
    }
    let (x, y) = if isc(b).is_some() || a <= b { (a, b) } else { (b, a) };
    intern(Op::Add, ww, &[x, y], 0, None)
}

/// least and greatest value, as far as tables tell
fn range(t: T) -> (u128, u128) {
    if let Some(c) = isc(t) {
        return (c, c);
    }
    let n = nd(t);
    if let (Op::Tab, Some(v)) = (n.op, &n.tab) {
        let (mut lo, mut hi) = (u64::MAX, 0);
        for i in 0..1usize << nd(n.args[0]).w {
            let x = v.get(i);
            lo = lo.min(x);
            hi = hi.max(x);
        }
        return (lo as u128, hi as u128);
    }
    (0, mask(n.w) >> lz(t).min(n.w))
}
/// lowest place in a concatenation where adding a constant is known to carry or not
fn carry_free(a: T, c: u128) -> Option<(u32, bool)> {
    // (sums with small terms are addresses: their form matters)
    if !is_cat(a) || lz(a) > 23 {
        return None;
    }
    let (mut n, mut lo, mut hi) = (0, 0u128, 0u128);
    let ps = pieces(a);
    for p in ps[1..].iter().rev() {
        let (x, y) = range(*p);
        lo |= x << n;
        hi |= y << n;
        n += w(*p);
        let k = c & mask(n);
        if n >= 128 {
            return None;
        }
        if hi + k <= mask(n) {
            if k == 0 && c == 0 {
                return None;
            }
            return Some((n, false));
        }
        if lo + k > mask(n) {
            return Some((n, true));
        }
    }
    None
}

fn disjoint(a: T, b: T) -> bool {
    if !is_cat(a) && !is_cat(b) {
        return false;
    }
    for (hi, lo) in segments(a, b) {
        if isc(extract(a, hi, lo)) != Some(0) && isc(extract(b, hi, lo)) != Some(0) {
            return false;
        }
    }
    true
}

pub fn neg(a: T) -> T {
    sub(cst(0, w(a)), a)
}

pub fn sub(a: T, b: T) -> T {
    let ww = w(a);
    if a == b {
        return cst(0, ww);
    }
    if let Some(c) = isc(b) {
        return add(a, cst(c.wrapping_neg(), ww));
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| v[0].wrapping_sub(v[1])) {
        return t;
    }
    let (x, k1) = split_add(a);
    let (y, k2) = split_add(b);
    let k = k1.wrapping_sub(k2);
    if x == y {
        return cst(k, ww);
    }
    let n = nd(x);
    if n.op == Op::Add {
        if n.args[0] == y {
            return add(n.args[1], cst(k, ww));
        }
        if n.args[1] == y {
            return add(n.args[0], cst(k, ww));
        }
    }
    if k1 != 0 || k2 != 0 {
        return add(sub(x, y), cst(k, ww));
    }
    intern(Op::Sub, ww, &[a, b], 0, None)
}

pub fn mul(a: T, b: T) -> T {
    let ww = w(a);
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return cst(x.wrapping_mul(y), ww);
    }
    let (a, b) = if isc(a).is_some() { (b, a) } else { (a, b) };
    if let Some(c) = isc(b) {
        if c == 0 {
            return b;
        }
        if c == 1 {
            return a;
        }
        if c.is_power_of_two() {
            return shl(a, cst(c.trailing_zeros() as u128, ww));
        }
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| v[0].wrapping_mul(v[1])) {
        return t;
    }
    let used = (ww - lz(a)) + (ww - lz(b));
    if used < ww && used > 0 && ww <= 128 {
        return zext(mul(trunc(a, used), trunc(b, used)), ww);
    }
    let (x, y) = if isc(b).is_some() || a <= b { (a, b) } else { (b, a) };
    intern(Op::Mul, ww, &[x, y], 0, None)
}

pub fn udiv(a: T, b: T) -> T {
    divrem(a, b, true)
}
pub fn urem(a: T, b: T) -> T {
    divrem(a, b, false)
}
fn divrem(a: T, b: T, div: bool) -> T {
    let ww = w(a);
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        if y != 0 {
            return cst(if div { x / y } else { x % y }, ww);
        }
    }
    if let Some(c) = isc(b) {
        if c.is_power_of_two() {
            let k = c.trailing_zeros();
            return if div {
                lshr(a, cst(k as u128, ww))
            } else if k == 0 {
                cst(0, ww)
            } else {
                zext(trunc(a, k), ww)
            };
        }
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| if v[1] == 0 { if div { u64::MAX } else { v[0] } } else if div { v[0] / v[1] } else { v[0] % v[1] }) {
        return t;
    }
    let z = lz(a).min(lz(b));
    if z >= 1 && z < ww {
        let nw = ww - z;
        if let Some(c) = isc(b) {
            if c != 0 {
                return zext(divrem(trunc(a, nw), trunc(b, nw), div), ww);
            }
        }
    }
    intern(if div { Op::UDiv } else { Op::URem }, ww, &[a, b], 0, None)
}
pub fn sdiv(a: T, b: T) -> T {
    sdr(a, b, true)
}
pub fn srem(a: T, b: T) -> T {
    sdr(a, b, false)
}
fn sdr(a: T, b: T, div: bool) -> T {
    let ww = w(a);
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        if y != 0 {
            let (x, y) = (sx(x, ww), sx(y, ww));
            return cst(if div { x.wrapping_div(y) } else { x.wrapping_rem(y) } as u128, ww);
        }
    }
    if isc(extract(a, ww - 1, ww - 1)) == Some(0) && isc(extract(b, ww - 1, ww - 1)) == Some(0) {
        return divrem(a, b, div);
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| {
        let (x, y) = (sx(v[0] as u128, ww), sx(v[1] as u128, ww));
        if y == 0 {
            return if div { if x < 0 { 1 } else { u64::MAX } } else { v[0] };
        }
        (if div { x.wrapping_div(y) } else { x.wrapping_rem(y) }) as u64
    }) {
        return t;
    }
    intern(if div { Op::SDiv } else { Op::SRem }, ww, &[a, b], 0, None)
}

pub fn shl(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(c) = isc(b) {
        if c >= ww as u128 {
            return cst(0, ww);
        }
        let c = c as u32;
        if c == 0 {
            return a;
        }
        return concat(&[extract(a, ww - 1 - c, 0), cst(0, c)]);
    }
    if isc(a) == Some(0) {
        return a;
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| if v[1] >= ww as u64 { 0 } else { v[0] << v[1] }) {
        return t;
    }
    intern(Op::Shl, ww, &[a, b], 0, None)
}
pub fn lshr(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(c) = isc(b) {
        if c >= ww as u128 {
            return cst(0, ww);
        }
        let c = c as u32;
        if c == 0 {
            return a;
        }
        return concat(&[cst(0, c), extract(a, ww - 1, c)]);
    }
    if isc(a) == Some(0) {
        return a;
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| if v[1] >= ww as u64 { 0 } else { v[0] >> v[1] }) {
        return t;
    }
    intern(Op::LShr, ww, &[a, b], 0, None)
}
pub fn ashr(a: T, b: T) -> T {
    let ww = w(a);
    if let Some(c) = isc(b) {
        let c = (c.min(ww as u128 - 1)) as u32;
        if c == 0 {
            return a;
        }
        return sext(extract(a, ww - 1, c), ww);
    }
    if let Some(t) = via_tab(ww, &[a, b], |v| (sx(v[0] as u128, ww) >> v[1].min(ww as u64 - 1)) as u64) {
        return t;
    }
    intern(Op::AShr, ww, &[a, b], 0, None)
}

/// a table as an injective function of a slice of its root: (hi, lo, values by slice)
fn slice_of(t: T) -> Option<(u32, u32, Vec<u64>)> {
    let n = nd(t);
    if n.op != Op::Tab {
        return None;
    }
    let tb = n.tab.clone().unwrap();
    let bits = tb.len().trailing_zeros();
    if tb.len() != 1 << bits {
        return None;
    }
    let dep = |k: u32| (0..tb.len()).any(|i| tb.get(i) != tb.get(i ^ 1 << k));
    let lo = (0..bits).find(|k| dep(*k))?;
    let hi = (0..bits).rev().find(|k| dep(*k))?;
    let vals: Vec<u64> = (0..1usize << (hi - lo + 1)).map(|i| tb.get(i << lo)).collect();
    let mut s = vals.clone();
    s.sort_unstable();
    s.dedup();
    if s.len() != vals.len() {
        return None;
    }
    Some((hi, lo, vals))
}

/// equal images under the same injective function: compare the arguments
fn eq_tabs(a: T, b: T) -> Option<T> {
    let ((ha, la, va), (hb, lb, vb)) = (slice_of(a)?, slice_of(b)?);
    if va != vb || va.iter().enumerate().all(|(i, v)| i as u64 == *v) {
        return None;
    }
    let (ra, rb) = (nd(a).args[0], nd(b).args[0]);
    Some(eq(extract(ra, ha, la), extract(rb, hb, lb)))
}

pub fn eq(a: T, b: T) -> T {
    if a == b {
        return tru();
    }
    let ww = w(a);
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return cst((x == y) as u128, 1);
    }
    let (a, b) = if isc(a).is_some() { (b, a) } else { (a, b) };
    if ww == 1 {
        return match isc(b) {
            Some(1) => a,
            Some(_) => not(a),
            None => not(xor(a, b)),
        };
    }
    if let Some(t) = via_tab(1, &[a, b], |v| (v[0] == v[1]) as u64) {
        return t;
    }
    if let Some(t) = eq_tabs(a, b) {
        return t;
    }
    if is_cat(a) || is_cat(b) {
        let segs = segments(a, b);
        if segs.len() > 1 {
            let both = (is_cat(a) || isc(a).is_some()) && (is_cat(b) || isc(b).is_some());
            if both {
                // cheap disproof first
                let mut r = tru();
                for (hi, lo) in segs {
                    let e = eq(extract(a, hi, lo), extract(b, hi, lo));
                    if isc(e) == Some(0) {
                        return fls();
                    }
                    r = and(r, e);
                    if isc(r) == Some(0) {
                        return r;
                    }
                }
                return r;
            }
        }
    }
    if let Some(c) = isc(b) {
        let n = nd(a);
        if n.op == Op::Ite {
            let (q, x, y) = (n.args[0], n.args[1], n.args[2]);
            if isc(x).is_some() || isc(y).is_some() {
                let e1 = eq(x, b);
                let e2 = eq(y, b);
                return ite(q, e1, e2);
            }
        }
        if n.op == Op::Add {
            if let Some(k) = isc(n.args[1]) {
                return eq(n.args[0], cst(c.wrapping_sub(k), ww));
            }
        }
        if n.op == Op::Xor {
            if let Some(k) = isc(n.args[1]) {
                return eq(n.args[0], cst(c ^ k, ww));
            }
        }
    }
    let (x, y) = if isc(b).is_some() || a <= b { (a, b) } else { (b, a) };
    intern(Op::Eq, 1, &[x, y], 0, None)
}

pub fn ne(a: T, b: T) -> T {
    not(eq(a, b))
}

pub fn ult(a: T, b: T) -> T {
    let ww = w(a);
    if a == b {
        return fls();
    }
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return cst((x < y) as u128, 1);
    }
    if isc(b) == Some(0) {
        return fls();
    }
    if isc(a) == Some(0) {
        return not(eq(b, a));
    }
    if isc(b) == Some(1) {
        return eq(a, cst(0, ww));
    }
    if let Some(t) = via_tab(1, &[a, b], |v| (v[0] < v[1]) as u64) {
        return t;
    }
    let z = lz(a).min(lz(b));
    if z > 0 && z < ww {
        return ult(trunc(a, ww - z), trunc(b, ww - z));
    }
    if let Some(c) = isc(b) {
        if ww <= 128 && mask(ww) - c < lz_room(a) {
            // a has leading zeros beyond b's range
            return tru();
        }
        if c.is_power_of_two() {
            let k = c.trailing_zeros();
            return eq(extract(a, ww - 1, k), cst(0, ww - k));
        }
        if lz(a) > 0 && c >> (ww - lz(a)).min(127) != 0 {
            return tru();
        }
    }
    if let Some(c) = isc(a) {
        // c < b  <=>  not (b < c+1)
        if lz(b) > 0 && c >= mask(ww - lz(b)) {
            return fls();
        }
        if c == mask(ww) {
            return fls();
        }
        if (c + 1).is_power_of_two() {
            return not(ult(b, cst(c + 1, ww)));
        }
    }
    // common leading pieces
    if is_cat(a) && is_cat(b) {
        let segs = segments(a, b);
        let (hi, lo) = segs[0];
        if segs.len() > 1 && extract(a, hi, lo) == extract(b, hi, lo) {
            return ult(trunc(a, lo), trunc(b, lo));
        }
    }
    intern(Op::Ult, 1, &[a, b], 0, None)
}

fn lz_room(_a: T) -> u128 {
    0
}

pub fn ule(a: T, b: T) -> T {
    not(ult(b, a))
}

pub fn slt(a: T, b: T) -> T {
    let ww = w(a);
    if a == b {
        return fls();
    }
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return cst((sx(x, ww) < sx(y, ww)) as u128, 1);
    }
    if let Some(t) = via_tab(1, &[a, b], |v| (sx(v[0] as u128, ww) < sx(v[1] as u128, ww)) as u64) {
        return t;
    }
    let (sa, sb) = (extract(a, ww - 1, ww - 1), extract(b, ww - 1, ww - 1));
    match (isc(sa), isc(sb)) {
        (Some(x), Some(y)) => {
            if x == y {
                return ult(a, b);
            }
            return cst((x == 1) as u128, 1);
        }
        _ => {}
    }
    if isc(b) == Some(0) {
        return sa;
    }
    intern(Op::Slt, 1, &[a, b], 0, None)
}
pub fn sle(a: T, b: T) -> T {
    not(slt(b, a))
}

pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(k) = isc(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let Some(x) = is_not(c) {
        return ite(x, b, a);
    }
    let ww = w(a);
    debug_assert_eq!(ww, w(b));
    if ww == 1 {
        return match (isc(a), isc(b)) {
            (Some(1), Some(_)) => c,
            (Some(_), Some(_)) => not(c),
            (Some(1), None) => or(c, b),
            (Some(_), None) => and(not(c), b),
            (None, Some(0)) => and(c, a),
            (None, Some(_)) => or(not(c), a),
            _ => {
                if let Some(t) = via_tab(1, &[c, a, b], |v| if v[0] == 1 { v[1] } else { v[2] }) {
                    return t;
                }
                or(and(c, a), and(not(c), b))
            }
        };
    }
    if let Some(t) = via_tab(ww, &[c, a, b], |v| if v[0] == 1 { v[1] } else { v[2] }) {
        return t;
    }
    {
        let n = nd(a);
        if n.op == Op::Ite && n.args[0] == c {
            return ite(c, n.args[1], b);
        }
        let n = nd(b);
        if n.op == Op::Ite && n.args[0] == c {
            return ite(c, a, n.args[2]);
        }
    }
    if is_cat(a) || is_cat(b) {
        let pc = |t: T| is_cat(t) || isc(t).is_some();
        if pc(a) && pc(b) {
            let segs = segments(a, b);
            if segs.len() > 1 && segs.iter().any(|(h, l)| extract(a, *h, *l) == extract(b, *h, *l)) {
                let out: Vec<T> = segs.iter().map(|(h, l)| ite(c, extract(a, *h, *l), extract(b, *h, *l))).collect();
                return concat(&out);
            }
        }
    }
    let z = lz(a).min(lz(b));
    if z > 0 && z < ww {
        return zext(ite(c, trunc(a, ww - z), trunc(b, ww - z)), ww);
    }
    intern(Op::Ite, ww, &[c, a, b], 0, None)
}

pub struct Eval<'a> {
    pub m: &'a [u8],
    memo: HashMap<T, u128>,
}

impl<'a> Eval<'a> {
    pub fn new(m: &'a [u8]) -> Self {
        Eval { m, memo: HashMap::new() }
    }
    pub fn ev(&mut self, t: T) -> u128 {
        let n = nd(t);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.m.get(n.k as usize).copied().unwrap_or(0) as u128,
            Op::Tab => {
                let i = self.ev(n.args[0]);
                return n.tab.as_ref().unwrap().get(i as usize) as u128;
            }
            Op::Not => return self.ev(n.args[0]) ^ 1,
            _ => {}
        }
        if let Some(v) = self.memo.get(&t) {
            return *v;
        }
        let a: Rc<[T]> = n.args.clone();
        let ww = n.w;
        let aw = w(a[0]);
        let v = match n.op {
            Op::Concat => {
                let mut v = 0u128;
                for &p in a.iter() {
                    let pw = w(p);
                    let x = self.ev(p);
                    v = if pw >= 128 { x } else { (v << pw) | x };
                }
                v
            }
            Op::Extract => {
                let lo = n.k as u32;
                self.ev(a[0]) >> lo
            }
            Op::Add => self.ev(a[0]).wrapping_add(self.ev(a[1])),
            Op::Sub => self.ev(a[0]).wrapping_sub(self.ev(a[1])),
            Op::Mul => self.ev(a[0]).wrapping_mul(self.ev(a[1])),
            Op::UDiv => {
                let (x, y) = (self.ev(a[0]), self.ev(a[1]));
                if y == 0 {
                    u128::MAX
                } else {
                    x / y
                }
            }
            Op::URem => {
                let (x, y) = (self.ev(a[0]), self.ev(a[1]));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv | Op::SRem => {
                let (x, y) = (sx(self.ev(a[0]), ww), sx(self.ev(a[1]), ww));
                if y == 0 {
                    if n.op == Op::SDiv {
                        if x < 0 {
                            1
                        } else {
                            u128::MAX
                        }
                    } else {
                        x as u128
                    }
                } else if n.op == Op::SDiv {
                    x.wrapping_div(y) as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => self.ev(a[0]) & self.ev(a[1]),
            Op::Or => self.ev(a[0]) | self.ev(a[1]),
            Op::Xor => self.ev(a[0]) ^ self.ev(a[1]),
            Op::Shl => {
                let s = self.ev(a[1]);
                if s >= ww as u128 {
                    0
                } else {
                    self.ev(a[0]) << s
                }
            }
            Op::LShr => {
                let s = self.ev(a[1]);
                if s >= ww as u128 {
                    0
                } else {
                    self.ev(a[0]) >> s
                }
            }
            Op::AShr => {
                let s = self.ev(a[1]).min(ww as u128 - 1);
                (sx(self.ev(a[0]), ww) >> s) as u128
            }
            Op::Eq => (self.ev(a[0]) == self.ev(a[1])) as u128,
            Op::Ult => (self.ev(a[0]) < self.ev(a[1])) as u128,
            Op::Slt => (sx(self.ev(a[0]), aw) < sx(self.ev(a[1]), aw)) as u128,
            Op::Ite => {
                if self.ev(a[0]) == 1 {
                    self.ev(a[1])
                } else {
                    self.ev(a[2])
                }
            }
            _ => unreachable!(),
        } & mask(ww);
        self.memo.insert(t, v);
        v
    }
}

/// rebuild a term through the normalising constructors after its arguments changed
fn rebuild(n: &Node, a: &[T]) -> T {
    match n.op {
        Op::Concat => concat(a),
        Op::Extract => extract(a[0], (n.k >> 32) as u32, n.k as u32),
        Op::Add => add(a[0], a[1]),
        Op::Sub => sub(a[0], a[1]),
        Op::Mul => mul(a[0], a[1]),
        Op::UDiv => udiv(a[0], a[1]),
        Op::URem => urem(a[0], a[1]),
        Op::SDiv => sdiv(a[0], a[1]),
        Op::SRem => srem(a[0], a[1]),
        Op::And => and(a[0], a[1]),
        Op::Or => or(a[0], a[1]),
        Op::Xor => xor(a[0], a[1]),
        Op::Not => not(a[0]),
        Op::Shl => shl(a[0], a[1]),
        Op::LShr => lshr(a[0], a[1]),
        Op::AShr => ashr(a[0], a[1]),
        Op::Eq => eq(a[0], a[1]),
        Op::Ult => ult(a[0], a[1]),
        Op::Slt => slt(a[0], a[1]),
        Op::Ite => ite(a[0], a[1], a[2]),
        Op::Tab => {
            let tb = n.tab.as_ref().unwrap();
            if let Some(k) = isc(a[0]) {
                return cst(tb.get(k as usize) as u128, n.w);
            }
            match via_tab(n.w, &[a[0]], |v| tb.get(v[0] as usize)) {
                Some(t) => t,
                None => mk_tab(a[0], n.w, (0..tb.len()).map(|i| tb.get(i)).collect()),
            }
        }
        Op::Const | Op::Var => unreachable!(),
    }
}

/// simplify under the domains of the variables and under sub-terms of known value
pub fn reduce(t: T, doms: &[[u64; 4]], fixed: &HashMap<T, u128>, memo: &mut HashMap<T, T>) -> T {
    let n = nd(t);
    if n.op == Op::Const {
        return t;
    }
    if let Some(r) = memo.get(&t) {
        return *r;
    }
    let r = (|| {
        if let Some(v) = fixed.get(&t) {
            return cst(*v, n.w);
        }
        if n.vars.len() == 1 && (n.op == Op::Var || (n.op == Op::Tab && nd(n.args[0]).op == Op::Var)) {
            let d = &doms[n.vars[0] as usize];
            let mut val = None;
            for x in 0..256usize {
                if d[x / 64] >> (x % 64) & 1 == 1 {
                    let v = match &n.tab {
                        Some(tb) if n.op == Op::Tab => tb.get(x),
                        _ => x as u64,
                    };
                    match val {
                        None => val = Some(v),
                        Some(o) if o == v => {}
                        _ => return t,
                    }
                }
            }
            return match val {
                Some(v) => cst(v as u128, n.w),
                None => t,
            };
        }
        let a: Vec<T> = n.args.iter().map(|x| reduce(*x, doms, fixed, memo)).collect();
        if a[..] == n.args[..] {
            return t;
        }
        rebuild(n, &a)
    })();
    memo.insert(t, r);
    r
}

/// the narrow sub-terms a term is computed from (None: more than `cap`, or other leaves)
pub fn leaves(t: T, cap: usize, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) -> bool {
    if !seen.insert(t) {
        return true;
    }
    let n = nd(t);
    match n.op {
        Op::Const => true,
        Op::Var | Op::Tab => {
            out.push(t);
            out.len() <= cap
        }
        Op::Not => leaves(n.args[0], cap, out, seen),
        _ => n.args.iter().all(|a| leaves(*a, cap, out, seen)),
    }
}

/// is this a choice between at most `cap` constants
pub fn few(t: T, cap: usize) -> bool {
    fn go(t: T, cap: usize) -> usize {
        let n = nd(t);
        match n.op {
            Op::Const => 1,
            Op::Ite => go(n.args[1], cap).saturating_add(go(n.args[2], cap)),
            Op::Concat => n.args.iter().fold(1, |k: usize, a| if k > cap { k } else { k.saturating_mul(go(*a, cap)) }),
            _ if n.w <= 4 => 1 << n.w,
            _ => usize::MAX,
        }
    }
    go(t, cap) <= cap
}

/// the set of byte values for which a one-variable condition holds
pub fn truth_set(t: T) -> [u64; 4] {
    if let Some(s) = ar().tt.get(&t) {
        return *s;
    }
    let n = nd(t);
    debug_assert_eq!(n.w, 1);
    debug_assert_eq!(n.vars.len(), 1);
    let v = n.vars[0] as usize;
    let mut s = [0u64; 4];
    let mut m = vec![0u8; v + 1];
    for x in 0..256usize {
        m[v] = x as u8;
        if Eval::new(&m).ev(t) == 1 {
            s[x / 64] |= 1 << (x % 64);
        }
    }
    ar().tt.insert(t, s);
    s
}

pub fn show(t: T, d: usize) -> String {
    let n = nd(t);
    match n.op {
        Op::Const => format!("{:#x}:{}", n.k, n.w),
        Op::Var => format!("v{}", n.k),
        _ if d == 0 => format!("#{}:{}", t, n.w),
        Op::Tab => format!("Tab[{}]({})", n.w, show(n.args[0], d - 1)),
        Op::Extract => format!("({}[{}:{}])", show(n.args[0], d - 1), n.k >> 32, n.k as u32),
        _ => format!("({:?}:{} {})", n.op, n.w, n.args.iter().map(|a| show(*a, d - 1)).collect::<Vec<_>>().join(" ")),
    }
}
