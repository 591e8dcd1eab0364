//! Program image: functions with resolved operands, global objects, call targets.
use crate::ir::*;
use crate::term::T;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(T),
    A(Rc<Vec<V>>),
    /// float known only to lie in an interval
    FI(f64, f64),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pr {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cv {
    Trunc,
    Zext,
    Sext,
    Same, // ptrtoint/inttoptr of 64 bits
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

pub enum Tgt {
    F(u32),
    Ext(u32),
    Ptr(O),
    Asm(String),
}

pub enum I {
    Bin(B, Ty, O, O),
    Icmp(Pr, Ty, O, O),
    Fcmp(String, Ty, O, O),
    Fneg(Ty, O),
    Cast(Cv, Ty, O, Ty),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(u64, O),
    /// base + const + sum(scale * sext(index))
    Gep(O, u64, Vec<(u64, u32, O)>),
    Select(Ty, O, O, O),
    Extract(O, Vec<u64>),
    Insert(Ty, O, O, Vec<u64>),
    ExtElem(Ty, O, O),
    InsElem(Ty, O, O, O),
    Shuffle(Ty, O, O, Vec<i64>),
    Freeze(O),
    Call(Tgt, Vec<(Ty, O)>, Option<u32>, Ty),
    Rmw(String, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Nop,
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    Resume,
}

pub struct Blk {
    /// per predecessor: parallel copies (dst, operand)
    pub phis: Vec<(u32, u32, Vec<(u32, O)>)>, // (dst, integer width or 0, [(pred, opd)])
    pub insts: Vec<(u32, I)>, // dst or u32::MAX
}

pub struct Fun {
    pub name: String,
    pub dem: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Blk>,
    pub has_body: bool,
}

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub s: Option<Vec<T>>, // 0 = concrete byte (term id 0 is reserved)
    pub ro: bool,
}

pub struct Prog {
    pub funs: Vec<Fun>,
    pub fidx: HashMap<String, u32>,
    pub ext: Vec<String>,
    pub globals: Vec<Option<Rc<Obj>>>, // by object id
    pub gnames: Vec<String>,
    pub gaddr: HashMap<String, u64>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const EXT_BASE: u64 = 0x5000_0000;

pub fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(ts, _) => V::A(Rc::new(ts.iter().map(zero_of).collect())),
        Ty::Int(w) if *w > 128 => V::T(crate::term::cst(0, *w)),
        _ => V::C(0),
    }
}

struct Ld<'a> {
    p: &'a mut Prog,
    exti: HashMap<String, u32>,
    weak: HashMap<String, bool>,
}

impl<'a> Ld<'a> {
    fn ext(&mut self, n: &str) -> u32 {
        if let Some(i) = self.exti.get(n) {
            return *i;
        }
        let i = self.p.ext.len() as u32;
        self.p.ext.push(n.to_string());
        self.exti.insert(n.to_string(), i);
        i
    }
    fn addr(&mut self, n: &str) -> u64 {
        if let Some(a) = self.p.gaddr.get(n) {
            return *a;
        }
        if let Some(i) = self.p.fidx.get(n) {
            return (FUNC_BASE + *i as u64) << 32;
        }
        if *self.weak.get(n).unwrap_or(&false) && n != "__cxa_thread_atexit_impl" {
            return 0;
        }
        let i = self.ext(n);
        (EXT_BASE + i as u64) << 32
    }
    fn cv(&mut self, t: &Ty, c: &Cst) -> V {
        match c {
            Cst::Int(v) => {
                if t.width() > 128 {
                    V::T(crate::term::cst(*v, t.width()))
                } else {
                    V::C(*v)
                }
            }
            Cst::F(b) => V::C(*b as u128),
            Cst::Null => V::C(0),
            Cst::Undef | Cst::Zero => zero_of(t),
            Cst::Global(g, _) => V::C(self.addr(g) as u128),
            Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cv(t, c)).collect())),
            Cst::Str(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Cst::Splat(b) => {
                let e = self.cv(&b.0, &b.1);
                let n = match t {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                    _ => panic!("splat"),
                };
                V::A(Rc::new(vec![e; n as usize]))
            }
            Cst::Expr(op, b) => {
                let v = self.cv(&b.0, &b.1);
                match op.as_str() {
                    "trunc" => match v {
                        V::C(x) => V::C(x & crate::term::mask(t.width())),
                        _ => panic!("const trunc"),
                    },
                    "sext" => match v {
                        V::C(x) => V::C((crate::term::sx(x, b.0.width()) as u128) & crate::term::mask(t.width())),
                        _ => panic!("const sext"),
                    },
                    _ => v,
                }
            }
            Cst::Gep(t0, base, ix) => {
                let b = match self.cv(&Ty::Ptr, base) {
                    V::C(x) => x as u64,
                    _ => panic!("gep base"),
                };
                let mut off = b;
                let mut ty = t0.clone();
                for (k, (it, ic)) in ix.iter().enumerate() {
                    let i = match self.cv(it, ic) {
                        V::C(x) => crate::term::sx(x, it.width()) as i64,
                        _ => panic!("gep idx"),
                    };
                    if k == 0 {
                        off = off.wrapping_add((ty.alloc_size() as i64).wrapping_mul(i) as u64);
                    } else {
                        match &ty {
                            Ty::Struct(..) => {
                                let (o, t) = ty.field_off(i as u64);
                                off = off.wrapping_add(o);
                                ty = t;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                off = off.wrapping_add((e.alloc_size() as i64).wrapping_mul(i) as u64);
                                let e = (**e).clone();
                                ty = e;
                            }
                            _ => panic!("gep ty"),
                        }
                    }
                }
                V::C(off as u128)
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = match (self.cv(t, a), self.cv(t, b)) {
                    (V::C(x), V::C(y)) => (x, y),
                    _ => panic!("const bin"),
                };
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    "lshr" => x >> y,
                    _ => panic!("const bin op"),
                };
                V::C(r & crate::term::mask(t.width()))
            }
        }
    }
    fn o(&mut self, t: &Ty, o: &Opd) -> O {
        match o {
            Opd::Reg(r) => O::R(*r),
            Opd::C(c) => O::C(self.cv(t, c)),
        }
    }
    fn inst(&mut self, i: &Inst, ep: &HashMap<String, Cst>) -> I {
        let _ = ep;
        match i {
            Inst::Bin(op, t, a, b) => {
                let k = match op.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "fadd" => B::FAdd,
                    "fsub" => B::FSub,
                    "fmul" => B::FMul,
                    "fdiv" => B::FDiv,
                    "frem" => B::FRem,
                    _ => panic!("bin {}", op),
                };
                I::Bin(k, t.clone(), self.o(t, a), self.o(t, b))
            }
            Inst::Icmp(p, t, a, b) => {
                let k = match p.as_str() {
                    "eq" => Pr::Eq,
                    "ne" => Pr::Ne,
                    "ult" => Pr::Ult,
                    "ule" => Pr::Ule,
                    "ugt" => Pr::Ugt,
                    "uge" => Pr::Uge,
                    "slt" => Pr::Slt,
                    "sle" => Pr::Sle,
                    "sgt" => Pr::Sgt,
                    "sge" => Pr::Sge,
                    _ => panic!("icmp {}", p),
                };
                I::Icmp(k, t.clone(), self.o(t, a), self.o(t, b))
            }
            Inst::Fcmp(p, t, a, b) => I::Fcmp(p.clone(), t.clone(), self.o(t, a), self.o(t, b)),
            Inst::Fneg(t, a) => I::Fneg(t.clone(), self.o(t, a)),
            Inst::Cast(op, t, a, t2) => {
                let k = match op.as_str() {
                    "trunc" => Cv::Trunc,
                    "zext" => Cv::Zext,
                    "sext" => Cv::Sext,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        let (a, b) = (t.width(), t2.width());
                        if a == b {
                            Cv::Same
                        } else if a > b {
                            Cv::Trunc
                        } else {
                            Cv::Zext
                        }
                    }
                    "addrspacecast" => Cv::Same,
                    "bitcast" => Cv::Bitcast,
                    "uitofp" => Cv::UiToFp,
                    "sitofp" => Cv::SiToFp,
                    "fptoui" => Cv::FpToUi,
                    "fptosi" => Cv::FpToSi,
                    "fpext" => Cv::FpExt,
                    "fptrunc" => Cv::FpTrunc,
                    _ => panic!("cast {}", op),
                };
                I::Cast(k, t.clone(), self.o(t, a), t2.clone())
            }
            Inst::Load(t, p) => I::Load(t.clone(), self.o(&Ty::Ptr, p)),
            Inst::Store(t, v, p) => I::Store(t.clone(), self.o(t, v), self.o(&Ty::Ptr, p)),
            Inst::Alloca(t, n, nt) => I::Alloca(t.alloc_size(), self.o(nt, n)),
            Inst::Gep(t, b, ix) => {
                let base = self.o(&Ty::Ptr, b);
                let mut k = 0u64;
                let mut terms = vec![];
                let mut ty = t.clone();
                for (i, (it, io)) in ix.iter().enumerate() {
                    let o = self.o(it, io);
                    let scale;
                    if i == 0 {
                        scale = ty.alloc_size();
                    } else {
                        match ty.clone() {
                            Ty::Struct(..) => {
                                if let O::C(V::C(x)) = o {
                                    let (off, t) = ty.field_off(x as u64);
                                    k = k.wrapping_add(off);
                                    ty = t;
                                    continue;
                                }
                                panic!("gep struct idx");
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.alloc_size();
                                ty = (*e).clone();
                            }
                            _ => panic!("gep ty"),
                        }
                    }
                    if let O::C(V::C(x)) = o {
                        let iv = crate::term::sx(x, it.width()) as i64;
                        k = k.wrapping_add((scale as i64).wrapping_mul(iv) as u64);
                    } else {
                        terms.push((scale, it.width(), o));
                    }
                }
                I::Gep(base, k, terms)
            }
            Inst::Select(ct, c, t, a, b) => I::Select(t.clone(), self.o(ct, c), self.o(t, a), self.o(t, b)),
            Inst::Extract(t, a, ix) => I::Extract(self.o(t, a), ix.clone()),
            Inst::Insert(t, a, t2, b, ix) => I::Insert(t.clone(), self.o(t, a), self.o(t2, b), ix.clone()),
            Inst::ExtElem(t, a, t2, b) => I::ExtElem(t.clone(), self.o(t, a), self.o(t2, b)),
            Inst::InsElem(t, a, e, t2, b) => {
                let et = match t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => panic!("inselem"),
                };
                I::InsElem(t.clone(), self.o(t, a), self.o(&et, e), self.o(t2, b))
            }
            Inst::Shuffle(t, a, b, m, _) => I::Shuffle(t.clone(), self.o(t, a), self.o(t, b), m.clone()),
            Inst::Freeze(t, a) => I::Freeze(self.o(t, a)),
            Inst::Call(c) => {
                let tg = match &c.callee {
                    Callee::Name(n) => {
                        if n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias") {
                            return match c.normal {
                                Some(b) => I::Br(b),
                                None => I::Nop,
                            };
                        }
                        if !crate::ext::overrides(n) && self.p.fidx.contains_key(n) {
                            Tgt::F(self.p.fidx[n])
                        } else {
                            Tgt::Ext(self.ext(n))
                        }
                    }
                    Callee::Ptr(o) => Tgt::Ptr(self.o(&Ty::Ptr, o)),
                    Callee::Asm(s) => Tgt::Asm(s.clone()),
                };
                let args = c.args.iter().map(|(t, o)| (t.clone(), self.o(t, o))).collect();
                I::Call(tg, args, c.normal, c.ret.clone())
            }
            Inst::Rmw(o, t, p, v) => I::Rmw(o.clone(), t.clone(), self.o(&Ty::Ptr, p), self.o(t, v)),
            Inst::CmpXchg(t, p, c, n) => I::CmpXchg(t.clone(), self.o(&Ty::Ptr, p), self.o(t, c), self.o(t, n)),
            Inst::Fence | Inst::LandingPad => I::Nop,
            Inst::Phi(..) => unreachable!(),
            Inst::Br(b) => I::Br(*b),
            Inst::CondBr(c, a, b) => I::CondBr(self.o(&Ty::Int(1), c), *a, *b),
            Inst::Switch(t, v, d, cs) => I::Switch(t.width(), self.o(t, v), *d, cs.clone()),
            Inst::Ret(t, o) => I::Ret(o.as_ref().map(|o| self.o(t, o))),
            Inst::Unreachable => I::Unreachable,
            Inst::Resume => I::Resume,
        }
    }
    fn write(&mut self, b: &mut [u8], t: &Ty, v: &V) {
        match (t, v) {
            (Ty::Arr(_, e), V::A(vs)) | (Ty::Vec(_, e), V::A(vs)) => {
                let es = e.alloc_size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.write(&mut b[i * es..], e, x);
                }
            }
            (Ty::Struct(ts, _), V::A(vs)) => {
                for i in 0..ts.len() {
                    let (o, ft) = t.field_off(i as u64);
                    self.write(&mut b[o as usize..], &ft, &vs[i]);
                }
            }
            (_, V::C(x)) => {
                let n = t.size() as usize;
                b[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("global init {:?} {:?}", t, v),
        }
    }
}

pub fn demangle(n: &str) -> String {
    // crude v0 readability: keep the identifiers only
    let b = n.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    i += 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let s = if i < b.len() && b[i] == b'_' { i + 1 } else { i };
            if l > 1 && s + l <= b.len() && n.is_char_boundary(s) && n.is_char_boundary(s + l) {
                let id = &n[s..s + l];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && id.bytes().any(|c| c.is_ascii_lowercase()) {
                    out.push(id.to_string());
                    i = s + l;
                    continue;
                }
            }
        } else if b[i] == b's' && i > 1 && b[i - 1] == b'C' {
            // crate disambiguator: Cs<base62>_
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
        }
        i += 1;
    }
    out.join("::")
}

pub fn load(m: Module) -> Prog {
    let mut p = Prog { funs: vec![], fidx: HashMap::new(), ext: vec![], globals: vec![None], gnames: vec!["<null>".into()], gaddr: HashMap::new() };
    for (i, f) in m.funcs.iter().enumerate() {
        p.fidx.insert(f.name.clone(), i as u32);
    }
    for g in &m.globals {
        if g.init.is_none() && g.weak {
            p.gaddr.insert(g.name.clone(), 0);
            continue;
        }
        let id = p.globals.len() as u64;
        p.gaddr.insert(g.name.clone(), id << 32);
        p.globals.push(None);
        p.gnames.push(g.name.clone());
    }
    let weak: HashMap<String, bool> = m.decls.iter().cloned().collect();
    let mut l = Ld { p: &mut p, exti: HashMap::new(), weak };
    for (n, c) in &m.aliases {
        let v = l.cv(&Ty::Ptr, c);
        if let V::C(a) = v {
            l.p.gaddr.insert(n.clone(), a as u64);
            if (a as u64 >> 32) >= FUNC_BASE && ((a as u64 >> 32) - FUNC_BASE) < m.funcs.len() as u64 {
                let i = ((a as u64 >> 32) - FUNC_BASE) as u32;
                l.p.fidx.insert(n.clone(), i);
            }
        }
    }
    for g in &m.globals {
        if g.init.is_none() && g.weak {
            continue;
        }
        let a = l.p.gaddr[&g.name] >> 32;
        let mut b = vec![0u8; g.ty.alloc_size() as usize];
        if let Some(c) = &g.init {
            if !matches!(c, Cst::Zero | Cst::Undef) {
                let v = l.cv(&g.ty, c);
                l.write(&mut b, &g.ty, &v);
            }
        }
        l.p.globals[a as usize] = Some(Rc::new(Obj { b, s: None, ro: g.constant }));
    }
    for f in m.funcs.iter() {
        if crate::ext::overrides(&f.name) {
            l.ext(&f.name);
        }
    }
    let ep = HashMap::new();
    for f in m.funcs.iter() {
        let mut blocks = vec![];
        for b in &f.blocks {
            let mut phis = vec![];
            let mut insts = vec![];
            for (d, i) in &b.insts {
                if let Inst::Phi(t, v) = i {
                    let ops = v.iter().map(|(o, b)| (*b, l.o(t, o))).collect();
                    let w = if let Ty::Int(w) = t { *w } else { 0 };
                    phis.push((d.unwrap(), w, ops));
                } else {
                    insts.push((d.unwrap_or(u32::MAX), l.inst(i, &ep)));
                }
            }
            blocks.push(Blk { phis, insts });
        }
        l.p.funs.push(Fun {
            name: f.name.clone(),
            dem: demangle(&f.name),
            params: f.params.iter().map(|x| x.1).collect(),
            nregs: f.nregs,
            has_body: true,
            blocks,
        });
    }
    p
}
