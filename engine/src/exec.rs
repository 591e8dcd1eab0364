//! The symbolic executor: states, memory, path conditions, instruction semantics.
use crate::ir::Ty;
use crate::prog::*;
use crate::term::{self, T};
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub fun: u32,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub normal: Option<u32>,
}

const CH: usize = 64;

thread_local! {
    /// the first object number that is not a global's
    pub static FIRST_OBJ: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Rc<Vec<u32>>,
    next: u32,
}

impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = if self.free.is_empty() {
            self.next += 1;
            self.next - 1
        } else {
            Rc::make_mut(&mut self.free).pop().unwrap()
        };
        self.put(id, Some(Rc::new(o)));
        id
    }
    fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let (c, i) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i] = o;
    }
    /// the objects that are not the same object in both
    pub fn diff(a: &Mem, b: &Mem, mut f: impl FnMut(u64, Option<&Rc<Obj>>, Option<&Rc<Obj>>) -> bool) {
        for c in 0..a.chunks.len().max(b.chunks.len()) {
            let (x, y) = (a.chunks.get(c), b.chunks.get(c));
            if let (Some(x), Some(y)) = (x, y) {
                if Rc::ptr_eq(x, y) {
                    continue;
                }
            }
            for i in 0..CH {
                let p = x.and_then(|x| x[i].as_ref());
                let q = y.and_then(|y| y[i].as_ref());
                let eq = match (p, q) {
                    (Some(p), Some(q)) => Rc::ptr_eq(p, q),
                    (None, None) => true,
                    _ => false,
                };
                if !eq && !f((c * CH + i) as u64, p, q) {
                    return;
                }
            }
        }
    }
    /// free numbers after joining states with the same live objects
    pub fn settle<'a>(&mut self, all: impl Iterator<Item = &'a Mem>) {
        let mut differ = false;
        for m in all {
            differ |= m.next != self.next || *m.free != *self.free;
            self.next = self.next.max(m.next);
        }
        if differ {
            let mut free: Vec<u32> = (*self.free).clone();
            let known: std::collections::HashSet<u32> = free.iter().copied().collect();
            let lo = free.iter().copied().max().unwrap_or(0);
            for id in 0..self.next {
                if id as usize >= FIRST_OBJ.with(|f| f.get()) && self.get(id as u64).is_none() && !known.contains(&id) {
                    free.push(id);
                }
            }
            let _ = lo;
            self.free = Rc::new(free);
        }
    }
    pub fn release(&mut self, id: u32) {
        self.put(id, None);
        Rc::make_mut(&mut self.free).push(id);
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        self.chunks.get(c)?[i].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        let ch = self.chunks.get_mut(c)?;
        let o = Rc::make_mut(ch)[i].as_mut()?;
        Some(Rc::make_mut(o))
    }
}

#[derive(Clone, Debug)]
pub struct Input {
    pub name: String,
    pub data: Vec<InByte>,
}
#[derive(Clone, Copy, Debug)]
pub enum InByte {
    Var(u32),
    Const(u8),
}

#[derive(Clone)]
pub struct OrcEntry {
    pub tag: String,
    pub inp: Vec<T>,
    pub out: Vec<T>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Rc<Vec<T>>,
    pub doms: Rc<Vec<[u64; 4]>>,
    pub multi: Rc<Vec<bool>>,
    pub model: Rc<Vec<u8>>,
    pub inputs: Rc<Vec<Input>>,
    pub fixed: Rc<HashMap<T, u128>>,
    pub orc: Rc<Vec<OrcEntry>>,
    pub notes: Rc<Vec<String>>,
    pub observed: Rc<Vec<(String, Vec<T>)>>,
    pub heap: Rc<HashMap<u32, u64>>,
    pub orc_concrete: bool,
    pub allow_panic: bool,
    pub steps: u64,
    pub forks: u32,
    /// open regions (merge.rs) and the values of their roots that came this way
    pub regions: Vec<(usize, [u64; 4])>,
}

#[derive(Debug)]
pub enum End {
    Ok,
    Panic(String),
    Fail(String),
    Infeasible,
    Err(String),
}

pub enum Ctl {
    Conc(T),
    End(End),
}

pub type X<A> = Result<A, Ctl>;

pub fn err<A>(s: impl Into<String>) -> X<A> {
    Err(Ctl::End(End::Err(s.into())))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub paths_ok: u64,
    pub panics: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub branches: u64,
    pub forks: u64,
    pub joined: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_dom: u64,
    pub asserts_z3: u64,
    pub dom_decided: u64,
    pub cache_hits: u64,
    pub max_vars: usize,
    pub funcs: std::collections::HashSet<u32>,
    pub reach: std::collections::BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub max_stack: usize,
}

pub struct PathSample {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub outcome: String,
    pub notes: Vec<String>,
    pub observed: Vec<(String, Vec<u8>)>,
}

pub struct Eng {
    pub p: Prog,
    pub z: Z3,
    pub params: HashMap<String, u64>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub samples: Vec<PathSample>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub exts: Vec<Option<crate::ext::ExtFn>>,
    pub deadline: Instant,
    /// made when a violation is found; others then stop soon
    pub found: Option<String>,
    pub max_paths: u64,
    pub max_viol: usize,
    pub qcache: HashMap<(u64, u64), Option<Vec<(u32, u8)>>>,
    pub prof: HashMap<(u32, u32), u64>,
    pub qprof: HashMap<String, (u64, f64, String)>,
    pub trace: bool,
    pub max_steps: u64,
    pub merging: bool,
    pub regions: Vec<crate::merge::Region>,
    pub cfgs: HashMap<u32, crate::merge::Cfg>,
}

pub enum Feas {
    Yes(Rc<Vec<u8>>),
    No,
    Unknown,
}

pub fn to_t(v: &V, w: u32) -> X<T> {
    match v {
        V::C(x) => Ok(term::cst(*x, w)),
        V::T(t) => Ok(*t),
        V::A(_) => err("aggregate as term"),
        V::FI(..) => err("interval float as term"),
    }
}

pub fn norm(t: T) -> V {
    match term::isc(t) {
        Some(c) => V::C(c),
        None => V::T(t),
    }
}

impl State {
    pub fn model_eval(&self, t: T) -> u128 {
        term::Eval::new(&self.model).ev(t)
    }

    pub fn new_var(&mut self) -> u32 {
        self.regions.clear();
        let i = self.doms.len() as u32;
        Rc::make_mut(&mut self.doms).push([u64::MAX; 4]);
        Rc::make_mut(&mut self.multi).push(false);
        Rc::make_mut(&mut self.model).push(0);
        i
    }

    /// simplify a term under what the path has fixed so far
    pub fn reduce(&self, t: T) -> T {
        term::reduce(t, &self.doms, &self.fixed, &mut HashMap::new())
    }

    pub fn dom_single(&self, v: u32) -> Option<u8> {
        let d = &self.doms[v as usize];
        let n: u32 = d.iter().map(|x| x.count_ones()).sum();
        if n == 1 {
            for i in 0..4 {
                if d[i] != 0 {
                    return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
                }
            }
        }
        None
    }

    /// add a condition already known to be consistent with the path (model must be set by the caller)
    pub fn assume(&mut self, c: T) {
        // a condition the open regions do not know of
        self.regions.clear();
        let n = term::nd(c);
        match n.op {
            term::Op::Const => return,
            term::Op::And => {
                let (a, b) = (n.args[0], n.args[1]);
                self.assume(a);
                self.assume(b);
                return;
            }
            term::Op::Not => {
                let m = term::nd(n.args[0]);
                if m.op == term::Op::Or {
                    let (a, b) = (m.args[0], m.args[1]);
                    self.assume(term::not(a));
                    self.assume(term::not(b));
                    return;
                }
            }
            _ => {}
        }
        if n.vars.len() == 1 {
            let v = n.vars[0] as usize;
            let s = term::truth_set(c);
            let d = &mut Rc::make_mut(&mut self.doms)[v];
            for i in 0..4 {
                d[i] &= s[i];
            }
            return;
        }
        if self.pc.contains(&c) {
            return;
        }
        Rc::make_mut(&mut self.pc).push(c);
        let m = Rc::make_mut(&mut self.multi);
        for v in n.vars.iter() {
            m[*v as usize] = true;
        }
    }

    pub fn inputs_under(&self, model: &[u8]) -> Vec<(String, Vec<u8>)> {
        self.inputs
            .iter()
            .map(|i| {
                (
                    i.name.clone(),
                    i.data
                        .iter()
                        .map(|b| match b {
                            InByte::Var(v) => model.get(*v as usize).copied().unwrap_or(0),
                            InByte::Const(c) => *c,
                        })
                        .collect(),
                )
            })
            .collect()
    }
}

impl Eng {
    // ---------- feasibility ----------
    pub fn feasible(&mut self, st: &State, c: T) -> Feas {
        if let Some(k) = term::isc(c) {
            return if k == 1 { Feas::Yes(st.model.clone()) } else { Feas::No };
        }
        if st.model_eval(c) == 1 {
            return Feas::Yes(st.model.clone());
        }
        let n = term::nd(c);
        if n.vars.len() == 1 {
            let v = n.vars[0] as usize;
            let s = term::truth_set(c);
            let d = &st.doms[v];
            let mut x = [0u64; 4];
            let mut any = false;
            for i in 0..4 {
                x[i] = d[i] & s[i];
                any |= x[i] != 0;
            }
            if !any {
                self.st.dom_decided += 1;
                return Feas::No;
            }
            if !st.multi[v] {
                self.st.dom_decided += 1;
                let mut m = (*st.model).clone();
                for i in 0..4 {
                    if x[i] != 0 {
                        m[v] = (i * 64) as u8 + x[i].trailing_zeros() as u8;
                        break;
                    }
                }
                return Feas::Yes(Rc::new(m));
            }
        }
        self.solve(st, c)
    }

    pub fn solve(&mut self, st: &State, c: T) -> Feas {
        // slice
        let mut inset = vec![false; st.doms.len()];
        for v in term::nd(c).vars.iter() {
            inset[*v as usize] = true;
        }
        let mut used = vec![false; st.pc.len()];
        let mut conds = vec![c];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = &term::nd(p).vars;
                if vs.iter().any(|v| inset[*v as usize]) {
                    used[i] = true;
                    ch = true;
                    conds.push(p);
                    for v in vs.iter() {
                        inset[*v as usize] = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        conds[1..].sort_unstable();
        let doms: Vec<(u32, [u64; 4])> = inset.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| (i as u32, st.doms[i])).collect();
        let key = {
            use std::hash::Hasher;
            let mut h1 = term::Fx(1);
            let mut h2 = term::Fx(0x9e3779b97f4a7c15);
            for c in &conds {
                h1.write_u64(*c as u64);
                h2.write_u64((*c as u64).wrapping_mul(0xff51afd7ed558ccd));
            }
            for (v, d) in &doms {
                h1.write_u64(*v as u64);
                h2.write_u64(*v as u64 + 77);
                for x in d {
                    h1.write_u64(*x);
                    h2.write_u64(x.wrapping_mul(0xc4ceb9fe1a85ec53));
                }
            }
            (h1.finish(), h2.finish())
        };
        let r = if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            r.clone()
        } else {
            let t0 = std::time::Instant::now();
            let zr = self.z.check(&conds, &doms);
            if self.trace {
                let f = st.frames.last().unwrap();
                let k = format!("{} bb{}.{}", self.where_(st), f.bb, f.ip);
                let dt = t0.elapsed().as_secs_f64();
                let e = self.qprof.entry(k).or_insert_with(|| (0, 0.0, term::show(c, 9)));
                e.0 += 1;
                e.1 += dt;
            }
            if false {
                eprintln!("slow query {:?} {} vars {} conds in {}: {}", t0.elapsed(), doms.len(), conds.len(), self.where_(st), term::show(c, 7));
            }
            match zr {
                Res::Sat(m) => {
                    let r = Some(m);
                    self.qcache.insert(key, r.clone());
                    r
                }
                Res::Unsat => {
                    self.qcache.insert(key, None);
                    None
                }
                Res::Unknown => return Feas::Unknown,
            }
        };
        match r {
            None => Feas::No,
            Some(m) => {
                let mut mm = (*st.model).clone();
                for (v, x) in m {
                    mm[v as usize] = x;
                }
                // the engine's own evaluator must agree with the solver's model
                debug_assert_eq!(term::Eval::new(&mm).ev(c), 1);
                if term::Eval::new(&mm).ev(c) != 1 {
                    if self.trace {
                        eprintln!("MISMATCH {} model {:?}", term::show(c, 40), term::nd(c).vars.iter().map(|v| (*v, mm[*v as usize])).collect::<Vec<_>>());
                    }
                    self.st.errors.push("solver model does not satisfy the query under the evaluator".into());
                    return Feas::Unknown;
                }
                Feas::Yes(Rc::new(mm))
            }
        }
    }

    /// (can be true, can be false) with models
    pub fn branch(&mut self, st: &State, c: T) -> X<(Option<Rc<Vec<u8>>>, Option<Rc<Vec<u8>>>)> {
        self.st.branches += 1;
        if let Some(k) = term::isc(c) {
            return Ok(if k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) });
        }
        if let Some(k) = st.fixed.get(&c) {
            return Ok(if *k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) });
        }
        let c = st.reduce(c);
        if let Some(k) = term::isc(c) {
            return Ok(if k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) });
        }
        let mv = st.model_eval(c) == 1;
        let other = if mv { term::not(c) } else { c };
        let o = match self.feasible(st, other) {
            Feas::Yes(m) => Some(m),
            Feas::No => None,
            Feas::Unknown => return err("solver gave no answer on a branch"),
        };
        Ok(if mv { (Some(st.model.clone()), o) } else { (o, Some(st.model.clone())) })
    }

    pub fn conc(&mut self, st: &State, t: T) -> X<u128> {
        if let Some(c) = term::isc(t) {
            return Ok(c);
        }
        if let Some(v) = st.fixed.get(&t) {
            return Ok(*v);
        }
        if term::nd(t).vars.iter().all(|v| st.dom_single(*v).is_some()) {
            return Ok(st.model_eval(t));
        }
        if let Some(c) = term::isc(st.reduce(t)) {
            return Ok(c);
        }
        Err(Ctl::Conc(t))
    }
    /// a term whose variables leave it few values is decided: nonlinear arithmetic on it would be hard for the solver
    pub fn small(&mut self, st: &State, t: T) -> X<T> {
        self.small_cap(st, t, 1024)
    }
    fn small_cap(&mut self, st: &State, t: T, cap: u32) -> X<T> {
        let n = term::nd(t);
        if term::isc(t).is_some() || n.vars.len() > 4 {
            return Ok(t);
        }
        let mut k = 1u32;
        for v in n.vars.iter() {
            k *= st.doms[*v as usize].iter().map(|x| x.count_ones()).sum::<u32>();
            if k > cap {
                return Ok(t);
            }
        }
        let c = self.conc(st, t)?;
        Ok(term::cst(c, n.w))
    }
    pub fn concv(&mut self, st: &State, v: &V) -> X<u128> {
        match v {
            V::C(x) => Ok(*x),
            V::T(t) => self.conc(st, *t),
            _ => err("concretise aggregate"),
        }
    }

    /// all feasible values of t, each with a model
    /// variables connected to `t` through the path condition, and the conditions that connect them
    fn slice(&self, st: &State, t: T) -> (Vec<u32>, Vec<T>) {
        let mut inset = vec![false; st.doms.len()];
        for v in term::nd(t).vars.iter() {
            inset[*v as usize] = true;
        }
        let mut used = vec![false; st.pc.len()];
        let mut conds = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = &term::nd(p).vars;
                if vs.iter().any(|v| inset[*v as usize]) {
                    used[i] = true;
                    ch = true;
                    conds.push(p);
                    for v in vs.iter() {
                        inset[*v as usize] = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        ((0..inset.len() as u32).filter(|v| inset[*v as usize]).collect(), conds)
    }

    /// all values of `t` by running over the (small) product of its variables' domains
    fn enumerate_small(&mut self, st: &State, t: T, cap: usize) -> Option<Result<Vec<(u128, Rc<Vec<u8>>)>, String>> {
        let (vs, conds) = self.slice(st, t);
        let doms: Vec<Vec<u8>> = vs.iter().map(|v| (0..=255u8).filter(|x| st.doms[*v as usize][*x as usize / 64] >> (x % 64) & 1 == 1).collect()).collect();
        let mut total = 1usize;
        for d in &doms {
            total = total.saturating_mul(d.len());
        }
        if total == 0 || total > 40_000 {
            return None;
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut m = (*st.model).clone();
        let mut ix = vec![0usize; vs.len()];
        loop {
            for (k, v) in vs.iter().enumerate() {
                m[*v as usize] = doms[k][ix[k]];
            }
            let mut ev = term::Eval::new(&m);
            if conds.iter().all(|c| ev.ev(*c) == 1) {
                let x = ev.ev(t);
                if seen.insert(x) {
                    out.push((x, Rc::new(m.clone())));
                    if out.len() > cap {
                        return Some(Err(format!("more than {} values for {}", cap, term::show(t, 4))));
                    }
                }
            }
            let mut k = 0;
            while k < ix.len() {
                ix[k] += 1;
                if ix[k] < doms[k].len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
            }
            if k == ix.len() {
                break;
            }
        }
        Some(Ok(out))
    }

    pub fn enumerate(&mut self, st: &State, t: T, cap: usize) -> Result<Vec<(u128, Rc<Vec<u8>>)>, String> {
        let mut out: Vec<(u128, Rc<Vec<u8>>)> = vec![];
        let n = term::nd(t);
        if n.vars.len() == 1 && !st.multi[n.vars[0] as usize] {
            let v = n.vars[0] as usize;
            let d = st.doms[v];
            let mut seen = HashMap::new();
            let mut m = (*st.model).clone();
            for x in 0..256usize {
                if d[x / 64] >> (x % 64) & 1 == 1 {
                    m[v] = x as u8;
                    let val = term::Eval::new(&m).ev(t);
                    if seen.insert(val, ()).is_none() {
                        out.push((val, Rc::new(m.clone())));
                    }
                }
            }
            return Ok(out);
        }
        if let Some(o) = self.enumerate_small(st, t, cap) {
            return o;
        }
        let v0 = st.model_eval(t);
        out.push((v0, st.model.clone()));
        let mut cond = term::ne(t, term::cst(v0, n.w));
        loop {
            match self.feasible(st, cond) {
                Feas::No => return Ok(out),
                Feas::Unknown => return Err("solver gave no answer while enumerating".into()),
                Feas::Yes(m) => {
                    let v = term::Eval::new(&m).ev(t);
                    out.push((v, m));
                    if out.len() > cap {
                        return Err(format!("more than {} values for {}", cap, term::show(t, 4)));
                    }
                    cond = term::and(cond, term::ne(t, term::cst(v, n.w)));
                }
            }
        }
    }

    // ---------- memory ----------
    pub fn obj<'a>(&'a self, st: &'a State, id: u64) -> Option<&'a Rc<Obj>> {
        match st.mem.get(id) {
            Some(o) => Some(o),
            None => self.p.globals.get(id as usize).and_then(|x| x.as_ref()),
        }
    }

    pub fn read(&self, st: &State, addr: u64, n: usize) -> X<V> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let o = match self.obj(st, id) {
            Some(o) => o,
            None => return err(format!("read of {} bytes at bad address {:#x}", n, addr)),
        };
        if off + n > o.b.len() {
            return err(format!("read out of bounds: {:#x}+{} of object size {} {}", addr, n, o.b.len(), self.p.gnames.get(id as usize).cloned().unwrap_or_default()));
        }
        if let Some(s) = &o.s {
            if s[off..off + n].iter().any(|x| *x != 0) {
                let ps: Vec<T> = (0..n).rev().map(|i| if s[off + i] != 0 { s[off + i] } else { term::cst(o.b[off + i] as u128, 8) }).collect();
                return Ok(norm(term::concat(&ps)));
            }
        }
        if n > 16 {
            let ps: Vec<T> = (0..n).rev().map(|i| term::cst(o.b[off + i] as u128, 8)).collect();
            return Ok(V::T(term::concat(&ps)));
        }
        let mut x = [0u8; 16];
        x[..n].copy_from_slice(&o.b[off..off + n]);
        Ok(V::C(u128::from_le_bytes(x)))
    }

    pub fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> X<&'a mut Obj> {
        if st.mem.get(id).is_none() {
            match self.p.globals.get(id as usize).and_then(|x| x.as_ref()) {
                Some(o) if !o.ro => {
                    let o = o.clone();
                    st.mem.put(id as u32, Some(o));
                }
                Some(_) => return err(format!("write to constant {}", self.p.gnames[id as usize])),
                None => return err(format!("write to bad object {:#x}", id)),
            }
        }
        Ok(st.mem.get_mut(id).unwrap())
    }

    pub fn write_c(&self, st: &mut State, addr: u64, n: usize, v: u128) -> X<()> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let o = self.obj_mut(st, id)?;
        if off + n > o.b.len() {
            return err(format!("write out of bounds {:#x}+{} size {}", addr, n, o.b.len()));
        }
        if n <= 16 {
            o.b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        } else {
            return err("wide concrete write");
        }
        if let Some(s) = o.s.as_mut() {
            for x in &mut s[off..off + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    pub fn write_t(&self, st: &mut State, addr: u64, n: usize, t: T) -> X<()> {
        let tw = term::w(t);
        let t = if tw < n as u32 * 8 { term::zext(t, n as u32 * 8) } else { t };
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let o = self.obj_mut(st, id)?;
        if off + n > o.b.len() {
            return err(format!("write out of bounds {:#x}+{} size {}", addr, n, o.b.len()));
        }
        let len = o.b.len();
        let s = o.s.get_or_insert_with(|| vec![0; len]);
        for i in 0..n {
            let b = term::extract(t, i as u32 * 8 + 7, i as u32 * 8);
            match term::isc(b) {
                Some(c) => {
                    o.b[off + i] = c as u8;
                    s[off + i] = 0;
                }
                None => {
                    o.b[off + i] = 0;
                    s[off + i] = b;
                }
            }
        }
        Ok(())
    }

    pub fn byte_t(&self, st: &State, addr: u64) -> X<T> {
        match self.read(st, addr, 1)? {
            V::C(x) => Ok(term::cst(x, 8)),
            V::T(t) => Ok(t),
            _ => unreachable!(),
        }
    }
    pub fn bytes_t(&self, st: &State, addr: u64, n: usize) -> X<Vec<T>> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(self.byte_t(st, addr + i as u64)?);
        }
        Ok(v)
    }
    pub fn bytes_c(&mut self, st: &State, addr: u64, n: usize) -> X<Vec<u8>> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let t = self.byte_t(st, addr + i as u64)?;
            v.push(self.conc(st, t)? as u8);
        }
        Ok(v)
    }

    pub fn copy(&self, st: &mut State, dst: u64, src: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, soff) = (src >> 32, (src & 0xffff_ffff) as usize);
        let so = match self.obj(st, sid) {
            Some(o) => o.clone(),
            None => return err(format!("copy from bad address {:#x}", src)),
        };
        if soff + n > so.b.len() {
            return err(format!("copy source out of bounds {:#x}+{} size {}", src, n, so.b.len()));
        }
        let (did, doff) = (dst >> 32, (dst & 0xffff_ffff) as usize);
        let o = self.obj_mut(st, did)?;
        if doff + n > o.b.len() {
            return err(format!("copy destination out of bounds {:#x}+{} size {}", dst, n, o.b.len()));
        }
        o.b[doff..doff + n].copy_from_slice(&so.b[soff..soff + n]);
        let ssym = so.s.as_ref().map(|s| s[soff..soff + n].iter().any(|x| *x != 0)).unwrap_or(false);
        if ssym {
            let len = o.b.len();
            let d = o.s.get_or_insert_with(|| vec![0; len]);
            d[doff..doff + n].copy_from_slice(&so.s.as_ref().unwrap()[soff..soff + n]);
        } else if let Some(d) = o.s.as_mut() {
            for x in &mut d[doff..doff + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    pub fn load(&mut self, st: &State, ty: &Ty, p: &V) -> X<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.width();
                let n = ty.size() as usize;
                let addr = match p {
                    V::C(a) => *a as u64,
                    V::T(t) => match self.conc(st, *t) {
                        Ok(a) => a as u64,
                        Err(e) => {
                            if let Some(v) = self.load_tab(st, *t, n, w)? {
                                return Ok(v);
                            }
                            return Err(e);
                        }
                    },
                    _ => return err("load ptr"),
                };
                let v = self.read(st, addr, n)?;
                Ok(match v {
                    V::C(x) => V::C(x & term::mask(w)),
                    V::T(t) => norm(if term::w(t) > w { term::trunc(t, w) } else { t }),
                    v => v,
                })
            }
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let a = self.concv(st, p)? as u64;
                if let (Ty::Vec(..), Ty::Int(1)) = (ty, &**e) {
                    let v = self.read(st, a, ty.size() as usize)?;
                    let t = to_t(&v, ty.size() as u32 * 8)?;
                    return Ok(V::A(Rc::new((0..*n as u32).map(|i| norm(term::extract(t, i, i))).collect())));
                }
                let es = e.alloc_size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, e, &V::C((a + i * es) as u128))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(ts, _) => {
                let a = self.concv(st, p)? as u64;
                let mut v = vec![];
                for i in 0..ts.len() {
                    let (o, ft) = ty.field_off(i as u64);
                    v.push(self.load(st, &ft, &V::C((a + o) as u128))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }

    /// load through an address that is a function of one byte-sized term
    fn load_tab(&mut self, st: &State, t: T, n: usize, w: u32) -> X<Option<V>> {
        if n > 8 {
            return Ok(None);
        }
        let x0 = match addr_core(t) {
            Some(r) => r,
            None => return Ok(None),
        };
        let r = if term::w(x0) <= 8 {
            x0
        } else {
            // a wide index: usable as a byte when it cannot exceed one
            let big = term::ult(term::cst(255, term::w(x0)), x0);
            match self.feasible(st, big) {
                Feas::No => {}
                _ => return Ok(None),
            }
            term::extract(x0, 7, 0)
        };
        if term::isc(r).is_some() {
            return Ok(None);
        }
        let rw = term::w(r);
        let mut seen: HashMap<u64, T> = HashMap::new();
        let rn = term::nd(r);
        let isvar = rn.op == term::Op::Var;
        let mut conc_vals = vec![0u64; 1 << rw];
        let mut all_conc = true;
        let mut per: Vec<Option<T>> = vec![None; 1 << rw];
        let mut bads = vec![0u64; 1 << rw];
        for x in 0..(1u64 << rw) {
            if isvar {
                let d = &st.doms[rn.k as usize];
                if d[(x / 64) as usize] >> (x % 64) & 1 == 0 {
                    continue;
                }
            }
            let addr = match tab_at(t, x0, x) {
                Some(a) => a,
                None => return Ok(None),
            };
            let v = match seen.get(&addr) {
                Some(v) => Some(*v),
                None => match self.read(st, addr, n) {
                    Ok(v) => {
                        let tt = to_t(&v, n as u32 * 8)?;
                        let tt = if term::w(tt) > w { term::trunc(tt, w) } else { tt };
                        seen.insert(addr, tt);
                        Some(tt)
                    }
                    Err(_) => None,
                },
            };
            match v {
                Some(tt) => {
                    match term::isc(tt) {
                        Some(c) => conc_vals[x as usize] = c as u64,
                        None => all_conc = false,
                    }
                    per[x as usize] = Some(tt);
                }
                None => bads[x as usize] = 1,
            }
        }
        let bad = term::mk_tab(r, 1, bads);
        if term::isc(bad) != Some(0) {
            match self.feasible(st, bad) {
                Feas::No => {}
                _ => return err(format!("symbolic load may be out of bounds: {}", term::show(t, 3))),
            }
        }
        if all_conc {
            // don't-care entries copy a neighbour
            let any = per.iter().position(|p| p.is_some());
            let dflt = match any {
                Some(i) => conc_vals[i],
                None => return err("load with no valid address"),
            };
            for (i, p) in per.iter().enumerate() {
                if p.is_none() {
                    conc_vals[i] = dflt;
                }
            }
            return Ok(Some(norm(term::mk_tab(r, w, conc_vals))));
        }
        if seen.len() > 40 {
            return Ok(None);
        }
        // group by value
        let mut groups: Vec<(T, Vec<u64>)> = vec![];
        for (x, p) in per.iter().enumerate() {
            if let Some(tt) = p {
                match groups.iter_mut().find(|g| g.0 == *tt) {
                    Some(g) => g.1.push(x as u64),
                    None => groups.push((*tt, vec![x as u64])),
                }
            }
        }
        let mut acc = groups[0].0;
        for (tt, xs) in &groups[1..] {
            let vals: Vec<u64> = (0..1u64 << rw).map(|x| xs.contains(&x) as u64).collect();
            let c = term::mk_tab(r, 1, vals);
            acc = term::ite(c, *tt, acc);
        }
        Ok(Some(norm(acc)))
    }

    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> X<()> {
        let a = self.concv(st, p)? as u64;
        self.store_at(st, ty, v, a)
    }
    pub fn store_at(&mut self, st: &mut State, ty: &Ty, v: &V, a: u64) -> X<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.size() as usize;
                match v {
                    V::C(x) => self.write_c(st, a, n, *x),
                    V::T(t) => self.write_t(st, a, n, *t),
                    _ => err(format!("store of {:?}", v)),
                }
            }
            Ty::Vec(_, e) | Ty::Arr(_, e) => {
                if let V::A(vs) = v {
                    if let (Ty::Vec(..), Ty::Int(1)) = (ty, &**e) {
                        let ps: Vec<T> = vs.iter().rev().map(|x| to_t(x, 1)).collect::<X<Vec<T>>>()?;
                        let t = term::concat(&ps);
                        return self.write_t(st, a, ty.size() as usize, t);
                    }
                    let es = e.alloc_size();
                    for (i, x) in vs.iter().enumerate() {
                        self.store_at(st, e, x, a + i as u64 * es)?;
                    }
                    Ok(())
                } else {
                    err("store vec")
                }
            }
            Ty::Struct(ts, _) => {
                if let V::A(vs) = v {
                    for i in 0..ts.len() {
                        let (o, ft) = ty.field_off(i as u64);
                        self.store_at(st, &ft, &vs[i], a + o)?;
                    }
                    Ok(())
                } else {
                    err("store struct")
                }
            }
            _ => err("store type"),
        }
    }

    pub fn alloc(&self, st: &mut State, n: u64) -> u64 {
        let id = st.mem.alloc(Obj { b: vec![0; n as usize], s: None, ro: false });
        (id as u64) << 32
    }

    // ---------- scalars ----------
    pub fn binop(&mut self, st: &State, b: B, ty: &Ty, x: &V, y: &V) -> X<V> {
        if let Ty::Vec(_, e) = ty {
            if let (V::A(p), V::A(q)) = (x, y) {
                let mut v = vec![];
                for (i, j) in p.iter().zip(q.iter()) {
                    v.push(self.binop(st, b, e, i, j)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            return err("vector binop");
        }
        if matches!(b, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem) {
            let f = |e: &mut Self, v: &V| -> X<V> {
                match v {
                    V::T(t) => Ok(V::C(e.conc(st, *t)?)),
                    v => Ok(v.clone()),
                }
            };
            let (x, y) = (f(self, x)?, f(self, y)?);
            return fbin(b, ty, &x, &y);
        }
        let w = ty.width();
        if let (V::C(p), V::C(q)) = (x, y) {
            let (p, q) = (*p, *q);
            let r = match b {
                B::Add => p.wrapping_add(q),
                B::Sub => p.wrapping_sub(q),
                B::Mul => p.wrapping_mul(q),
                B::And => p & q,
                B::Or => p | q,
                B::Xor => p ^ q,
                B::Shl => {
                    if q >= w as u128 {
                        0
                    } else {
                        p << q
                    }
                }
                B::LShr => {
                    if q >= w as u128 {
                        0
                    } else {
                        p >> q
                    }
                }
                B::AShr => (term::sx(p, w) >> q.min(w as u128 - 1)) as u128,
                B::UDiv | B::URem | B::SDiv | B::SRem if q == 0 => return err("division by zero"),
                B::UDiv => p / q,
                B::URem => p % q,
                B::SDiv => term::sx(p, w).wrapping_div(term::sx(q, w)) as u128,
                B::SRem => term::sx(p, w).wrapping_rem(term::sx(q, w)) as u128,
                _ => unreachable!(),
            };
            return Ok(V::C(r & term::mask(w)));
        }
        let (mut p, mut q) = (to_t(x, w)?, to_t(y, w)?);
        if matches!(b, B::Mul | B::UDiv | B::URem | B::SDiv | B::SRem) && term::isc(q).is_none() && term::isc(p).is_none() {
            p = self.small(st, p)?;
            q = self.small(st, q)?;
        }
        if matches!(b, B::UDiv | B::URem | B::SDiv | B::SRem) && term::isc(q).is_none() {
            q = self.small(st, q)?;
        }
        if let (Some(p), Some(q)) = (term::isc(p), term::isc(q)) {
            return self.binop(st, b, ty, &V::C(p), &V::C(q));
        }
        let r = match b {
            B::Add => term::add(p, q),
            B::Sub => term::sub(p, q),
            B::Mul => term::mul(p, q),
            B::And => term::and(p, q),
            B::Or => term::or(p, q),
            B::Xor => term::xor(p, q),
            B::Shl => term::shl(p, q),
            B::LShr => term::lshr(p, q),
            B::AShr => term::ashr(p, q),
            B::UDiv => term::udiv(p, q),
            B::URem => term::urem(p, q),
            B::SDiv => term::sdiv(p, q),
            B::SRem => term::srem(p, q),
            _ => unreachable!(),
        };
        Ok(norm(r))
    }

    pub fn icmp(&mut self, p: Pr, ty: &Ty, x: &V, y: &V) -> X<V> {
        if let Ty::Vec(_, e) = ty {
            if let (V::A(a), V::A(b)) = (x, y) {
                let mut v = vec![];
                for (i, j) in a.iter().zip(b.iter()) {
                    v.push(self.icmp(p, e, i, j)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            return err("vector icmp");
        }
        let w = ty.width();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (term::sx(a, w), term::sx(b, w));
            let r = match p {
                Pr::Eq => a == b,
                Pr::Ne => a != b,
                Pr::Ult => a < b,
                Pr::Ule => a <= b,
                Pr::Ugt => a > b,
                Pr::Uge => a >= b,
                Pr::Slt => sa < sb,
                Pr::Sle => sa <= sb,
                Pr::Sgt => sa > sb,
                Pr::Sge => sa >= sb,
            };
            return Ok(V::C(r as u128));
        }
        let (a, b) = (to_t(x, w)?, to_t(y, w)?);
        let r = match p {
            Pr::Eq => term::eq(a, b),
            Pr::Ne => term::ne(a, b),
            Pr::Ult => term::ult(a, b),
            Pr::Ule => term::ule(a, b),
            Pr::Ugt => term::ult(b, a),
            Pr::Uge => term::ule(b, a),
            Pr::Slt => term::slt(a, b),
            Pr::Sle => term::sle(a, b),
            Pr::Sgt => term::slt(b, a),
            Pr::Sge => term::sle(b, a),
        };
        Ok(norm(r))
    }

    fn cast(&mut self, st: &State, c: Cv, t: &Ty, v: &V, t2: &Ty) -> X<V> {
        if let (Ty::Vec(_, e), Ty::Vec(_, e2)) = (t, t2) {
            if c != Cv::Bitcast {
                if let V::A(vs) = v {
                    let mut o = vec![];
                    for x in vs.iter() {
                        o.push(self.cast(st, c, e, x, e2)?);
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                return err("vector cast");
            }
        }
        match c {
            Cv::Same => Ok(v.clone()),
            Cv::Trunc => Ok(match v {
                V::C(x) => V::C(x & term::mask(t2.width())),
                V::T(x) => norm(term::trunc(*x, t2.width())),
                _ => return err("trunc"),
            }),
            Cv::Zext => Ok(match v {
                V::C(x) if t2.width() <= 128 => V::C(*x),
                V::C(x) => V::T(term::cst(*x, t2.width())),
                V::T(x) => norm(term::zext(*x, t2.width())),
                _ => return err("zext"),
            }),
            Cv::Sext => Ok(match v {
                V::C(x) => V::C(term::sx(*x, t.width()) as u128 & term::mask(t2.width())),
                V::T(x) => norm(term::sext(*x, t2.width())),
                _ => return err("sext"),
            }),
            Cv::Bitcast => {
                if t.is_scalar() && t2.is_scalar() {
                    return Ok(v.clone());
                }
                // via bits
                let bits = self.to_bits(t, v)?;
                self.from_bits(t2, bits)
            }
            Cv::UiToFp | Cv::SiToFp => match v {
                V::C(x) => {
                    let w = t.width();
                    let bits = if c == Cv::UiToFp {
                        if *t2 == Ty::F32 {
                            (*x as f32).to_bits() as u128
                        } else {
                            (*x as f64).to_bits() as u128
                        }
                    } else {
                        let s = term::sx(*x, w);
                        if *t2 == Ty::F32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    };
                    Ok(V::C(bits))
                }
                V::T(x) => {
                    let w = t.width();
                    if c == Cv::SiToFp && term::isc(term::extract(*x, w - 1, w - 1)) != Some(0) {
                        return err("symbolic sitofp");
                    }
                    let x = &self.small_cap(st, *x, if *t2 == Ty::F64 { 1024 } else { 40 })?;
                    if term::isc(*x).is_some() || term::few(*x, 8) {
                        let n = self.conc(st, *x)?;
                        let r = if *t2 == Ty::F32 { (n as f32).to_bits() as u128 } else { (n as f64).to_bits() as u128 };
                        return Ok(V::C(r));
                    }
                    // split on the number of base-64 digits
                    let mut d = term::cst(0, 6);
                    let mut k = 0;
                    while k < w {
                        let ge = term::not(term::eq(term::lshr(*x, term::cst(k as u128, w)), term::cst(0, w)));
                        d = term::ite(ge, term::cst(k as u128 / 6 + 1, 6), d);
                        k += 6;
                    }
                    let n = self.conc(st, d)? as u32;
                    if n == 0 {
                        return Ok(V::C(0));
                    }
                    let lo = 1u128 << (6 * (n - 1));
                    let hi = if 6 * n >= w { term::mask(w) } else { (1u128 << (6 * n)) - 1 };
                    Ok(if *t2 == Ty::F32 { V::FI((lo as f32) as f64, (hi as f32) as f64) } else { V::FI(lo as f64, hi as f64) })
                }
                _ => err("uitofp"),
            },
            Cv::FpToUi | Cv::FpToSi => match v {
                V::C(x) => {
                    let f = if *t == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x as u64) };
                    let r = if c == Cv::FpToUi { f as u128 } else { f as i128 as u128 };
                    Ok(V::C(r & term::mask(t2.width())))
                }
                V::T(x) => {
                    let k = V::C(self.conc(st, *x)?);
                    self.cast(st, c, t, &k, t2)
                }
                _ => err("symbolic fptoint"),
            },
            Cv::FpExt => match v {
                V::C(x) => Ok(V::C((f32::from_bits(*x as u32) as f64).to_bits() as u128)),
                V::FI(..) => Ok(v.clone()),
                V::T(x) => {
                    let k = V::C(self.conc(st, *x)?);
                    self.cast(st, c, t, &k, t2)
                }
                _ => err("fpext"),
            },
            Cv::FpTrunc => match v {
                V::C(x) => Ok(V::C((f64::from_bits(*x as u64) as f32).to_bits() as u128)),
                V::FI(a, b) => Ok(V::FI(*a as f32 as f64, *b as f32 as f64)),
                V::T(x) => {
                    let k = V::C(self.conc(st, *x)?);
                    self.cast(st, c, t, &k, t2)
                }
                _ => err("fptrunc"),
            },
        }
    }

    fn to_bits(&mut self, t: &Ty, v: &V) -> X<T> {
        match (t, v) {
            (Ty::Vec(_, e), V::A(vs)) => {
                let mut ps = vec![];
                for x in vs.iter().rev() {
                    ps.push(to_t(x, e.width())?);
                }
                Ok(term::concat(&ps))
            }
            _ => to_t(v, t.width()),
        }
    }
    fn from_bits(&mut self, t: &Ty, b: T) -> X<V> {
        match t {
            Ty::Vec(n, e) => {
                let w = e.width();
                Ok(V::A(Rc::new((0..*n as u32).map(|i| norm(term::extract(b, (i + 1) * w - 1, i * w))).collect())))
            }
            _ => Ok(norm(b)),
        }
    }

    // ---------- stepping ----------
    #[inline]
    fn val(&self, f: &Frame, o: &O) -> V {
        match o {
            O::R(r) => f.regs[*r as usize].clone(),
            O::C(v) => v.clone(),
        }
    }

    pub fn jump(&self, st: &mut State, bb: u32) -> X<()> {
        let f = st.frames.last_mut().unwrap();
        let from = f.bb;
        let blk = &self.p.funs[f.fun as usize].blocks[bb as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for (d, _, ops) in &blk.phis {
                let o = match ops.iter().find(|x| x.0 == from) {
                    Some(x) => &x.1,
                    None => return err("phi without predecessor"),
                };
                let v = match o {
                    O::R(r) => f.regs[*r as usize].clone(),
                    O::C(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.bb = bb;
        f.ip = 0;
        Ok(())
    }

    /// jump along several edges at once: the phis become selections among the edges
    fn jump_merged(&self, st: &mut State, bb: u32, es: &[(u32, T)]) -> X<()> {
        let f = st.frames.last_mut().unwrap();
        let blk = &self.p.funs[f.fun as usize].blocks[bb as usize];
        let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
        for (d, w, ops) in &blk.phis {
            let mut acc: Option<V> = None;
            for (p, c) in es {
                let v = match ops.iter().find(|x| x.0 == *p) {
                    Some((_, O::R(r))) => f.regs[*r as usize].clone(),
                    Some((_, O::C(v))) => v.clone(),
                    None => return err("phi without predecessor"),
                };
                acc = Some(match acc {
                    None => v,
                    Some(a) => {
                        let t = |v: &V| match v {
                            V::C(k) => Some(term::cst(*k, *w)),
                            V::T(t) => Some(*t),
                            _ => None,
                        };
                        match (&a, &v) {
                            (V::C(x), V::C(y)) if x == y => a,
                            (V::T(x), V::T(y)) if x == y => a,
                            _ => match (t(&a), t(&v)) {
                                (Some(x), Some(y)) if *w > 0 => {
                                    let r = term::ite(*c, y, x);
                                    match term::isc(r) {
                                        Some(k) => V::C(k),
                                        None => V::T(r),
                                    }
                                }
                                _ => return err("merge of unmergeable phi"),
                            },
                        }
                    }
                });
            }
            vals.push((*d, acc.unwrap()));
        }
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.bb = bb;
        f.ip = 0;
        Ok(())
    }

    pub fn push_frame(&mut self, st: &mut State, fun: u32, args: Vec<V>, dst: u32, normal: Option<u32>) -> X<()> {
        if st.frames.len() > 400 {
            return err("call depth limit");
        }
        self.st.funcs.insert(fun);
        let f = &self.p.funs[fun as usize];
        let mut regs = vec![V::C(0); f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if let Some(p) = f.params.get(i) {
                regs[*p as usize] = a;
            }
        }
        st.frames.push(Frame { fun, bb: 0, ip: 0, regs, allocas: vec![], dst, normal });
        Ok(())
    }

    fn set(&self, st: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            let f = st.frames.last_mut().unwrap();
            f.regs[d as usize] = v;
        }
    }

    pub fn finish_call(&mut self, st: &mut State, d: u32, v: V, normal: Option<u32>) -> X<()> {
        self.set(st, d, v);
        match normal {
            Some(b) => self.jump(st, b),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    pub fn where_(&self, st: &State) -> String {
        st.frames.iter().rev().take(8).map(|f| self.p.funs[f.fun as usize].dem.clone()).collect::<Vec<_>>().join(" < ")
    }

    fn step(&mut self, st: &mut State, stack: &mut Vec<State>) -> X<()> {
        let fi = st.frames.len() - 1;
        let (fun, bb, ip) = {
            let f = &st.frames[fi];
            (f.fun, f.bb, f.ip)
        };
        // the program image is immutable while running
        let prog: &'static Prog = unsafe { &*(&self.p as *const Prog) };
        let (dst, inst) = {
            let b = &prog.funs[fun as usize].blocks[bb as usize];
            let x = &b.insts[ip as usize];
            (x.0, &x.1)
        };
        macro_rules! v {
            ($o:expr) => {
                self.val(&st.frames[fi], $o)
            };
        }
        macro_rules! ret {
            ($v:expr) => {{
                let x = $v;
                let f = &mut st.frames[fi];
                if dst != u32::MAX {
                    f.regs[dst as usize] = x;
                }
                f.ip += 1;
                return Ok(());
            }};
        }
        match inst {
            I::Bin(b, t, x, y) => {
                let (p, q) = (v!(x), v!(y));
                ret!(self.binop(st, *b, t, &p, &q)?)
            }
            I::Icmp(p, t, x, y) => {
                let (a, b) = (v!(x), v!(y));
                ret!(self.icmp(*p, t, &a, &b)?)
            }
            I::Fcmp(p, t, x, y) => {
                let (mut a, mut b) = (v!(x), v!(y));
                // a float read through a choice of addresses: decide which
                for x in [&mut a, &mut b] {
                    if let V::T(t) = *x {
                        *x = V::C(self.conc(st, t)?);
                    }
                }
                ret!(fcmp(p, t, &a, &b)?)
            }
            I::Fneg(t, x) => {
                let a = v!(x);
                ret!(match a {
                    V::C(b) => V::C(b ^ (1u128 << (t.width() - 1))),
                    V::T(x) => V::C(self.conc(st, x)? ^ (1u128 << (t.width() - 1))),
                    V::FI(l, h) => V::FI(-h, -l),
                    _ => return err("fneg"),
                })
            }
            I::Cast(c, t, x, t2) => {
                let a = v!(x);
                ret!(self.cast(st, *c, t, &a, t2)?)
            }
            I::Load(t, p) => {
                let a = v!(p);
                ret!(self.load(st, t, &a)?)
            }
            I::Store(t, x, p) => {
                let (a, b) = (v!(x), v!(p));
                self.store(st, t, &a, &b)?;
                st.frames[fi].ip += 1;
                Ok(())
            }
            I::Alloca(sz, n) => {
                let n = match v!(n) {
                    V::C(x) => x as u64,
                    _ => return err("symbolic alloca"),
                };
                let a = self.alloc(st, sz * n);
                st.frames[fi].allocas.push((a >> 32) as u32);
                ret!(V::C(a as u128))
            }
            I::Gep(b, k, ts) => {
                let base = v!(b);
                if let V::A(_) = base {
                    return err("vector gep");
                }
                let mut conc = match base {
                    V::C(x) => x as u64,
                    _ => 0,
                };
                conc = conc.wrapping_add(*k);
                let mut sym: Option<T> = match base {
                    V::T(t) => Some(t),
                    _ => None,
                };
                for (scale, w, o) in ts {
                    match v!(o) {
                        V::C(x) => conc = conc.wrapping_add((*scale as i64).wrapping_mul(term::sx(x, *w) as i64) as u64),
                        V::T(t) => {
                            let i = if *w < 64 { term::sext(t, 64) } else { term::trunc(t, 64) };
                            let m = term::mul(i, term::cst(*scale as u128, 64));
                            sym = Some(match sym {
                                Some(s) => term::add(s, m),
                                None => m,
                            });
                        }
                        _ => return err("gep index"),
                    }
                }
                ret!(match sym {
                    None => V::C(conc as u128),
                    Some(s) => norm(term::add(s, term::cst(conc as u128, 64))),
                })
            }
            I::Select(t, c, x, y) => {
                let cv = v!(c);
                match cv {
                    V::C(k) => {
                        let r = if k == 1 { v!(x) } else { v!(y) };
                        ret!(r)
                    }
                    V::T(ct) => {
                        let (a, b) = (v!(x), v!(y));
                        let r = self.select(st, t, ct, &a, &b)?;
                        ret!(r)
                    }
                    V::A(cs) => {
                        let e = match t {
                            Ty::Vec(_, e) => e.clone(),
                            _ => return err("select"),
                        };
                        let (a, b) = (v!(x), v!(y));
                        if let (V::A(p), V::A(q)) = (a, b) {
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(match &cs[i] {
                                    V::C(1) => p[i].clone(),
                                    V::C(_) => q[i].clone(),
                                    V::T(c) => self.select(st, &e, *c, &p[i], &q[i])?,
                                    _ => return err("select"),
                                });
                            }
                            ret!(V::A(Rc::new(out)))
                        }
                        err("select vec")
                    }
                    _ => err("select cond"),
                }
            }
            I::Extract(x, ix) => {
                let mut a = v!(x);
                for i in ix {
                    a = match &a {
                        V::A(v) => v[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                ret!(a)
            }
            I::Insert(_, x, y, ix) => {
                let a = v!(x);
                let b = v!(y);
                fn ins(a: &V, ix: &[u64], b: V) -> X<V> {
                    if ix.is_empty() {
                        return Ok(b);
                    }
                    match a {
                        V::A(v) => {
                            let mut n = (**v).clone();
                            n[ix[0] as usize] = ins(&n[ix[0] as usize], &ix[1..], b)?;
                            Ok(V::A(Rc::new(n)))
                        }
                        _ => err("insertvalue"),
                    }
                }
                ret!(ins(&a, ix, b)?)
            }
            I::ExtElem(_, x, i) => {
                let a = v!(x);
                let iv = v!(i);
                let k = self.concv(st, &iv)? as usize;
                ret!(match &a {
                    V::A(v) => v[k].clone(),
                    _ => return err("extractelement"),
                })
            }
            I::InsElem(_, x, e, i) => {
                let a = v!(x);
                let ev = v!(e);
                let iv = v!(i);
                let k = self.concv(st, &iv)? as usize;
                ret!(match &a {
                    V::A(v) => {
                        let mut n = (**v).clone();
                        n[k] = ev;
                        V::A(Rc::new(n))
                    }
                    _ => return err("insertelement"),
                })
            }
            I::Shuffle(_, x, y, m) => {
                let (a, b) = (v!(x), v!(y));
                if let (V::A(p), V::A(q)) = (a, b) {
                    let n = p.len();
                    let out = m
                        .iter()
                        .map(|i| {
                            if *i < 0 {
                                V::C(0)
                            } else if (*i as usize) < n {
                                p[*i as usize].clone()
                            } else {
                                q[*i as usize - n].clone()
                            }
                        })
                        .collect();
                    ret!(V::A(Rc::new(out)))
                }
                err("shuffle")
            }
            I::Freeze(x) => ret!(v!(x)),
            I::Nop => {
                if dst != u32::MAX {
                    ret!(V::A(Rc::new(vec![V::C(0), V::C(0)])))
                }
                st.frames[fi].ip += 1;
                Ok(())
            }
            I::Rmw(op, t, p, x) => {
                let pv = v!(p);
                let xv = v!(x);
                let a = self.concv(st, &pv)?;
                let old = self.load(st, t, &V::C(a))?;
                let new = match op.as_str() {
                    "xchg" => xv,
                    "add" => self.binop(st, B::Add, t, &old, &xv)?,
                    "sub" => self.binop(st, B::Sub, t, &old, &xv)?,
                    "and" => self.binop(st, B::And, t, &old, &xv)?,
                    "or" => self.binop(st, B::Or, t, &old, &xv)?,
                    "xor" => self.binop(st, B::Xor, t, &old, &xv)?,
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store_at(st, t, &new, a as u64)?;
                ret!(old)
            }
            I::CmpXchg(t, p, c, n) => {
                let (pv, cv, nv) = (v!(p), v!(c), v!(n));
                let a = self.concv(st, &pv)?;
                let old = self.load(st, t, &V::C(a))?;
                let e = self.icmp(Pr::Eq, t, &old, &cv)?;
                let k = self.concv(st, &e)?;
                if k == 1 {
                    self.store_at(st, t, &nv, a as u64)?;
                }
                ret!(V::A(Rc::new(vec![old, V::C(k)])))
            }
            I::Br(b) => self.jump(st, *b),
            I::CondBr(c, a, b) => match v!(c) {
                V::C(k) => self.jump(st, if k == 1 { *a } else { *b }),
                V::T(t) => {
                    let (x, y) = self.branch(st, t)?;
                    match (x, y) {
                        (Some(_), None) => self.jump(st, *a),
                        (None, Some(_)) => self.jump(st, *b),
                        (Some(m1), Some(m2)) => {
                            self.st.forks += 1;
                            if self.trace {
                                *self.prof.entry((fun, bb)).or_default() += 1;
                            }
                            let rs = self.part(st, t, stack.len());
                            let (ra, rb) = rs.unwrap_or_default();
                            let mut o = st.clone();
                            o.forks += 1;
                            st.forks += 1;
                            o.model = m2;
                            o.assume(term::not(t));
                            o.regions = rb;
                            self.jump(&mut o, *b)?;
                            stack.push(o);
                            st.model = m1;
                            st.assume(t);
                            st.regions = ra;
                            self.jump(st, *a)
                        }
                        _ => Err(Ctl::End(End::Infeasible)),
                    }
                }
                _ => err("br cond"),
            },
            I::Switch(w, x, d, cs) => match v!(x) {
                V::C(k) => {
                    let b = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(st, b)
                }
                V::T(t) => {
                    if let Ok(k) = self.conc(st, t) {
                        let b = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        return self.jump(st, b);
                    }
                    // edges: (predecessor, target, condition), looking through blocks that only branch on
                    let mut edges: Vec<(u32, u32, T)> = vec![];
                    let mut any = term::fls();
                    let blocks = &prog.funs[fun as usize].blocks;
                    let thru = |b: u32| -> (u32, u32) {
                        let k = &blocks[b as usize];
                        match (k.phis.is_empty(), k.insts.as_slice()) {
                            (true, [(_, I::Br(j))]) => (b, *j),
                            _ => (bb, b),
                        }
                    };
                    for (k, b) in cs {
                        let e = term::eq(t, term::cst(*k, *w));
                        any = term::or(any, e);
                        let (p, b) = thru(*b);
                        match edges.iter_mut().find(|g| g.0 == p && g.1 == b) {
                            Some(g) => g.2 = term::or(g.2, e),
                            None => edges.push((p, b, e)),
                        }
                    }
                    let dn = term::not(any);
                    let (p, b) = thru(*d);
                    match edges.iter_mut().find(|g| g.0 == p && g.1 == b) {
                        Some(g) => g.2 = term::or(g.2, dn),
                        None => edges.push((p, b, dn)),
                    }
                    // successors: edges into the same block are merged when its phis can be
                    let mut groups: Vec<(u32, Vec<(u32, T)>)> = vec![];
                    for (p, b, c) in edges {
                        let blk = &blocks[b as usize];
                        let val = |q: u32, ops: &Vec<(u32, O)>| -> Option<V> {
                            ops.iter().find(|x| x.0 == q).map(|x| match &x.1 {
                                O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                                O::C(v) => v.clone(),
                            })
                        };
                        let same = |x: &V, y: &V| match (x, y) {
                            (V::C(a), V::C(b)) => a == b,
                            (V::T(a), V::T(b)) => a == b,
                            _ => false,
                        };
                        let fits = |q: u32| {
                            blk.phis.iter().all(|(_, w, ops)| match (val(p, ops), val(q, ops)) {
                                (Some(x), Some(y)) => {
                                    same(&x, &y)
                                        || (*w > 0 && !matches!(x, V::A(_)) && !matches!(y, V::A(_)))
                                }
                                _ => false,
                            })
                        };
                        match groups.iter_mut().find(|g| g.0 == b && fits(g.1[0].0)) {
                            Some(g) => g.1.push((p, c)),
                            None => groups.push((b, vec![(p, c)])),
                        }
                    }
                    let mut first: Option<(u32, Vec<(u32, T)>, T, Rc<Vec<u8>>)> = None;
                    let root = term::nd(t).root;
                    let known = groups.iter().all(|(_, es)| Eng::holds(es.iter().fold(term::fls(), |a, e| term::or(a, e.1)), root).is_some());
                    let open = groups.len() > 1 && known && self.open(st, root, stack.len());
                    let mut rest = [u64::MAX; 4];
                    for (b, es) in groups {
                        let c = es.iter().fold(term::fls(), |a, e| term::or(a, e.1));
                        match self.feasible(st, c) {
                            Feas::No => {}
                            Feas::Unknown => return err("solver gave no answer on a switch"),
                            Feas::Yes(m) => {
                                if first.is_none() {
                                    first = Some((b, es, c, m));
                                } else {
                                    self.st.forks += 1;
                                    if self.trace {
                                        *self.prof.entry((fun, bb)).or_default() += 1;
                                    }
                                    let mut o = st.clone();
                                    o.model = m;
                                    o.assume(c);
                                    if let (true, Some(y)) = (open, Eng::holds(c, root)) {
                                        o.regions = self.narrowed(st, root, &y);
                                        for i in 0..4 {
                                            rest[i] &= !y[i];
                                        }
                                    }
                                    self.jump_merged(&mut o, b, &es)?;
                                    stack.push(o);
                                }
                            }
                        }
                    }
                    match first {
                        Some((b, es, c, m)) => {
                            st.model = m;
                            // (the values no path takes are counted to this one)
                            let rs = if open { self.narrowed(st, root, &rest) } else { vec![] };
                            st.assume(c);
                            st.regions = rs;
                            self.jump_merged(st, b, &es)
                        }
                        None => Err(Ctl::End(End::Infeasible)),
                    }
                }
                _ => err("switch"),
            },
            I::Ret(o) => {
                let v = match o {
                    Some(o) => v!(o),
                    None => V::C(0),
                };
                let f = st.frames.pop().unwrap();
                for a in f.allocas {
                    st.mem.release(a);
                }
                if st.frames.is_empty() {
                    return Err(Ctl::End(End::Ok));
                }
                self.finish_call(st, f.dst, v, f.normal)
            }
            I::Unreachable => err(format!("unreachable executed in {}", self.where_(st))),
            I::Resume => err("resume executed"),
            I::Call(tg, args, normal, rty) => {
                let mut target: Result<u32, u32> = match tg {
                    Tgt::F(i) => Ok(*i),
                    Tgt::Ext(i) => Err(*i),
                    Tgt::Asm(s) => {
                        let r = if s.contains("cpuid") {
                            match rty {
                                Ty::Struct(ts, _) => V::A(Rc::new(vec![V::C(0); ts.len()])),
                                _ => V::C(0),
                            }
                        } else if s.trim().is_empty() || (s.trim().starts_with("/*") && s.trim().ends_with("*/")) {
                            match rty {
                                Ty::Void => V::C(0),
                                _ => match args.first() {
                                    Some((_, a)) => v!(a),
                                    None => V::C(0),
                                },
                            }
                        } else if s.contains("xgetbv") {
                            V::A(Rc::new(vec![V::C(0); 2]))
                        } else {
                            return err(format!("inline asm {:?}", s));
                        };
                        return self.finish_call(st, dst, r, *normal);
                    }
                    Tgt::Ptr(o) => {
                        let pv = v!(o);
                        let a = self.concv(st, &pv)? as u64 >> 32;
                        if a >= EXT_BASE {
                            Err((a - EXT_BASE) as u32)
                        } else if a >= FUNC_BASE {
                            Ok((a - FUNC_BASE) as u32)
                        } else {
                            return err(format!("call of bad pointer {:#x} in {}", a, self.where_(st)));
                        }
                    }
                };
                if let Ok(i) = target {
                    // overridden function reached through a pointer
                    let n = &prog.funs[i as usize].name;
                    if crate::ext::overrides(n) {
                        match prog.ext.iter().position(|e| e == n) {
                            Some(k) => target = Err(k as u32),
                            None => return err(format!("override without entry {}", n)),
                        }
                    }
                }
                let mut av = Vec::with_capacity(args.len());
                for (_, a) in args {
                    av.push(v!(a));
                }
                match target {
                    Ok(i) => self.push_frame(st, i, av, dst, *normal),
                    Err(e) => {
                        let f = match self.exts[e as usize] {
                            Some(f) => f,
                            None => return err(format!("call of unmodelled external {} from {}", prog.ext[e as usize], self.where_(st))),
                        };
                        let r = f(self, st, &av, args, rty, &prog.ext[e as usize])?;
                        self.finish_call(st, dst, r, *normal)
                    }
                }
            }
        }
    }

    pub fn select(&mut self, st: &State, t: &Ty, c: T, a: &V, b: &V) -> X<V> {
        if let Some(k) = st.fixed.get(&c) {
            return Ok(if *k == 1 { a.clone() } else { b.clone() });
        }
        match t {
            Ty::Int(_) | Ty::Ptr => {
                let w = t.width();
                Ok(norm(term::ite(c, to_t(a, w)?, to_t(b, w)?)))
            }
            Ty::F32 | Ty::F64 => match (a, b) {
                (V::C(x), V::C(y)) if x == y => Ok(a.clone()),
                _ => {
                    let k = self.conc(st, c)?;
                    Ok(if k == 1 { a.clone() } else { b.clone() })
                }
            },
            Ty::Vec(_, e) | Ty::Arr(_, e) => match (a, b) {
                (V::A(p), V::A(q)) => {
                    let mut out = vec![];
                    for i in 0..p.len() {
                        out.push(self.select(st, e, c, &p[i], &q[i])?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                _ => err("select vec"),
            },
            Ty::Struct(ts, _) => match (a, b) {
                (V::A(p), V::A(q)) => {
                    let mut out = vec![];
                    for i in 0..p.len() {
                        out.push(self.select(st, &ts[i], c, &p[i], &q[i])?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                _ => err("select struct"),
            },
            _ => err("select type"),
        }
    }

    // ---------- driving ----------
    pub fn initial(&self) -> State {
        let mut mem = Mem::default();
        mem.next = self.p.globals.len() as u32;
        FIRST_OBJ.with(|f| f.set(mem.next as usize));
        State {
            frames: vec![],
            mem,
            pc: Rc::new(vec![]),
            doms: Rc::new(vec![]),
            multi: Rc::new(vec![]),
            model: Rc::new(vec![]),
            inputs: Rc::new(vec![]),
            fixed: Rc::new(HashMap::new()),
            orc: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            observed: Rc::new(vec![]),
            heap: Rc::new(HashMap::new()),
            orc_concrete: false,
            allow_panic: false,
            steps: 0,
            forks: 0,
            regions: vec![],
        }
    }

    pub fn violation(&mut self, st: &State, model: &[u8], kind: &str, label: &str) {
        let same = self.viol.iter().filter(|v| v.label == label).count();
        if same >= 2 || self.viol.len() >= self.max_viol {
            return;
        }
        if let Some(f) = &self.found {
            let _ = std::fs::write(f, "");
        }
        self.viol.push(Violation { kind: kind.into(), label: label.into(), inputs: st.inputs_under(model), notes: st.notes.to_vec() });
    }

    fn end(&mut self, st: &State, e: End) {
        self.st.paths += 1;
        self.st.max_vars = self.st.max_vars.max(st.doms.len());
        let mut outcome = String::new();
        match e {
            End::Ok => {
                self.st.paths_ok += 1;
                outcome = "ok".into();
            }
            End::Infeasible => {
                self.st.infeasible += 1;
                self.st.paths -= 1;
            }
            End::Panic(l) => {
                self.st.panics += 1;
                outcome = "panic".into();
                if !st.allow_panic {
                    let m = st.model.clone();
                    self.violation(st, &m, "panic", &l);
                }
            }
            End::Fail(l) => {
                let m = st.model.clone();
                self.violation(st, &m, "fail", &l);
            }
            End::Err(s) => {
                if self.st.errors.len() < 20 {
                    let w = self.where_(st);
                    self.st.errors.push(format!("{} @ {}", s, w));
                }
            }
        }
        if !outcome.is_empty() && (self.st.paths <= 8 || self.st.paths % self.sample_every == 0) && self.samples.len() < self.max_samples {
            // inputs the path does not constrain take arbitrary values
            let mut bound = vec![false; st.model.len()];
            for p in st.pc.iter() {
                for v in term::nd(*p).vars.iter() {
                    bound[*v as usize] = true;
                }
            }
            let mut m = (*st.model).clone();
            let mut r = 0x9e3779b97f4a7c15u64.wrapping_mul(self.st.paths * 2 + 1);
            for v in 0..m.len() {
                if bound[v] || v >= st.doms.len() {
                    continue;
                }
                for _ in 0..24 {
                    r ^= r << 13;
                    r ^= r >> 7;
                    r ^= r << 17;
                    let x = (r >> 32) as u8;
                    if st.doms[v][x as usize / 64] >> (x % 64) & 1 == 1 {
                        m[v] = x;
                        break;
                    }
                }
            }
            let obs = st.observed.iter().map(|(n, ts)| (n.clone(), ts.iter().map(|t| term::Eval::new(&m).ev(*t) as u8).collect())).collect();
            self.samples.push(PathSample { inputs: st.inputs_under(&m), outcome, notes: st.notes.to_vec(), observed: obs });
        }
    }

    pub fn run(&mut self, entry: &str) -> bool {
        let fi = match self.p.fidx.get(entry) {
            Some(f) => *f,
            None => {
                self.st.errors.push(format!("no entry {}", entry));
                return false;
            }
        };
        let mut s0 = self.initial();
        let _ = self.push_frame(&mut s0, fi, vec![], u32::MAX, None);
        let mut stack = vec![s0];
        let mut complete = true;
        let mut tick = 0u64;
        'outer: loop {
            while self.regions.last().map_or(false, |g| stack.len() <= g.h) {
                self.resolve(&mut stack);
            }
            let mut st = match stack.pop() {
                Some(s) => s,
                None => break,
            };
            self.st.max_stack = self.st.max_stack.max(stack.len() + 1);
            if self.viol.len() >= self.max_viol {
                complete = false;
                break;
            }
            if self.st.paths >= self.max_paths {
                self.st.errors.push("path limit reached".into());
                complete = false;
                break;
            }
            loop {
                if !st.regions.is_empty() && self.met(&st) {
                    self.meet(st);
                    break;
                }
                tick += 1;
                if tick & 0xffff == 0 && self.found.as_ref().map_or(false, |f| std::path::Path::new(f).exists()) {
                    self.deadline = self.deadline.min(Instant::now() + std::time::Duration::from_secs(30));
                    self.found = None;
                }
                if tick & 0xff == 0 && Instant::now() > self.deadline {
                    self.st.errors.push(format!("time limit reached with {} pending states @ {}", stack.len() + 1, self.where_(&st)));
                    complete = false;
                    break 'outer;
                }
                self.st.insts += 1;
                st.steps += 1;
                if st.steps > self.max_steps {
                    self.end(&st, End::Err("step limit on one path".into()));
                    break;
                }
                match self.step(&mut st, &mut stack) {
                    Ok(()) => {}
                    Err(Ctl::End(e)) => {
                        self.end(&st, e);
                        break;
                    }
                    Err(Ctl::Conc(t)) => {
                        let f = st.frames.last().unwrap();
                        if self.trace {
                            let k = self.prof.entry((f.fun, f.bb)).or_default();
                            *k += 1;
                            if *k <= 2 {
                                eprintln!("conc in {} bb{}: {}", self.p.funs[f.fun as usize].dem, f.bb, term::show(t, 8));
                            }
                        }
                        let orig = t;
                        let t = st.reduce(t);
                        // when the value determines the narrow terms it is computed from, fix those
                        let mut lv = vec![];
                        let inj = term::leaves(t, 4, &mut lv, &mut Default::default()) && lv.len() > 1;
                        match self.enumerate(&st, t, 2048) {
                            Err(e) => {
                                self.end(&st, End::Err(e));
                            }
                            Ok(vals) => {
                                let mut tuples: Option<HashMap<u128, Vec<u128>>> = None;
                                if inj {
                                    let j = term::concat(&lv);
                                    if term::w(j) <= 64 {
                                        if let Some(Ok(js)) = self.enumerate_small(&st, j, 2048) {
                                            if js.len() == vals.len() {
                                                tuples = Some(
                                                    js.iter()
                                                        .map(|(_, m)| {
                                                            let mut ev = term::Eval::new(m);
                                                            (ev.ev(t), lv.iter().map(|l| ev.ev(*l)).collect())
                                                        })
                                                        .collect(),
                                                );
                                            }
                                        }
                                    }
                                }
                                let n = vals.len();
                                self.st.forks += n as u64 - 1;
                                let tw = term::w(t);
                                for (v, m) in vals.into_iter().rev() {
                                    let mut o = st.clone();
                                    o.model = m;
                                    match tuples.as_ref().and_then(|x| x.get(&v)) {
                                        Some(ls) => {
                                            for (l, x) in lv.iter().zip(ls) {
                                                o.assume(term::eq(*l, term::cst(*x, term::w(*l))));
                                                Rc::make_mut(&mut o.fixed).insert(*l, *x);
                                            }
                                        }
                                        None => o.assume(term::eq(t, term::cst(v, tw))),
                                    }
                                    Rc::make_mut(&mut o.fixed).insert(t, v);
                                    Rc::make_mut(&mut o.fixed).insert(orig, v);
                                    stack.push(o);
                                }
                            }
                        }
                        break;
                    }
                }
            }
        }
        complete && self.st.errors.is_empty()
    }
}

/// the one small term (at most 8 bits) an address depends on
fn addr_core(t: T) -> Option<T> {
    let n = term::nd(t);
    if n.root != term::NOROOT {
        return if n.root == term::CROOT { None } else { Some(n.root) };
    }
    match n.op {
        term::Op::Concat => {
            let nc: Vec<usize> = (0..n.args.len()).filter(|i| term::isc(n.args[*i]).is_none()).collect();
            let (a, b) = (*nc.first()?, *nc.last()?);
            if a == b {
                return addr_core(n.args[a]);
            }
            Some(term::concat(&n.args[a..=b]))
        }
        term::Op::Add if term::isc(n.args[1]).is_some() => addr_core(n.args[0]),
        term::Op::Add if term::isc(n.args[0]).is_some() => addr_core(n.args[1]),
        term::Op::Add => None,
        _ => Some(t),
    }
}

fn tab_at(t: T, r: T, x: u64) -> Option<u64> {
    fn go(t: T, r: T, x: u64) -> Option<u128> {
        if t == r {
            return Some(x as u128);
        }
        let n = term::nd(t);
        match n.op {
            term::Op::Const => Some(n.k),
            term::Op::Tab if n.args[0] == r => Some(n.tab.as_ref().unwrap().get(x as usize) as u128),
            term::Op::Add => Some((go(n.args[0], r, x)?.wrapping_add(go(n.args[1], r, x)?)) & term::mask(n.w)),
            term::Op::Concat => {
                // the core may be a run of this term's own pieces
                if term::nd(r).op == term::Op::Concat {
                    let rp = &term::nd(r).args;
                    if let Some(i) = (0..n.args.len()).find(|i| n.args[*i..].starts_with(rp)) {
                        let mut v = 0u128;
                        let mut k = 0;
                        while k < n.args.len() {
                            if k == i {
                                v = (v << term::w(r)) | x as u128;
                                k += rp.len();
                                continue;
                            }
                            let p = n.args[k];
                            v = (v << term::w(p)) | go(p, r, x)?;
                            k += 1;
                        }
                        return Some(v);
                    }
                }
                let mut v = 0u128;
                for &p in n.args.iter() {
                    let pw = term::w(p);
                    let y = go(p, r, x)?;
                    v = (v << pw) | y;
                }
                Some(v)
            }
            _ => None,
        }
    }
    go(t, r, x).map(|v| v as u64)
}

fn f_of(t: &Ty, b: u128) -> f64 {
    if *t == Ty::F32 {
        f32::from_bits(b as u32) as f64
    } else {
        f64::from_bits(b as u64)
    }
}

fn fr(t: &Ty, x: f64) -> f64 {
    if *t == Ty::F32 {
        x as f32 as f64
    } else {
        x
    }
}

fn fbin(b: B, t: &Ty, x: &V, y: &V) -> X<V> {
    if let (V::C(p), V::C(q)) = (x, y) {
        if *t == Ty::F32 {
            let (p, q) = (f32::from_bits(*p as u32), f32::from_bits(*q as u32));
            let r = match b {
                B::FAdd => p + q,
                B::FSub => p - q,
                B::FMul => p * q,
                B::FDiv => p / q,
                _ => p % q,
            };
            return Ok(V::C(r.to_bits() as u128));
        }
        let (p, q) = (f64::from_bits(*p as u64), f64::from_bits(*q as u64));
        let r = match b {
            B::FAdd => p + q,
            B::FSub => p - q,
            B::FMul => p * q,
            B::FDiv => p / q,
            _ => p % q,
        };
        return Ok(V::C(r.to_bits() as u128));
    }
    let iv = |v: &V| -> X<(f64, f64)> {
        match v {
            V::C(p) => Ok((f_of(t, *p), f_of(t, *p))),
            V::FI(a, b) => Ok((*a, *b)),
            o => err(format!("float operand {:?}", o)),
        }
    };
    let (a, c) = (iv(x)?, iv(y)?);
    let f = |p: f64, q: f64| {
        if *t == Ty::F32 {
            let (p, q) = (p as f32, q as f32);
            (match b {
                B::FAdd => p + q,
                B::FSub => p - q,
                B::FMul => p * q,
                B::FDiv => p / q,
                _ => f32::NAN,
            }) as f64
        } else {
            match b {
                B::FAdd => p + q,
                B::FSub => p - q,
                B::FMul => p * q,
                B::FDiv => p / q,
                _ => f64::NAN,
            }
        }
    };
    if b == B::FRem || (b == B::FDiv && c.0 <= 0.0 && c.1 >= 0.0) {
        return err("interval float op");
    }
    let cs = [f(a.0, c.0), f(a.0, c.1), f(a.1, c.0), f(a.1, c.1)];
    if cs.iter().any(|x| x.is_nan()) {
        return err("interval nan");
    }
    let lo = cs.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = cs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    Ok(V::FI(fr(t, lo), fr(t, hi)))
}

fn fcmp(p: &str, t: &Ty, x: &V, y: &V) -> X<V> {
    if let (V::C(a), V::C(b)) = (x, y) {
        let (a, b) = (f_of(t, *a), f_of(t, *b));
        let un = a.is_nan() || b.is_nan();
        let r = match p {
            "oeq" => !un && a == b,
            "ogt" => !un && a > b,
            "oge" => !un && a >= b,
            "olt" => !un && a < b,
            "ole" => !un && a <= b,
            "one" => !un && a != b,
            "ord" => !un,
            "ueq" => un || a == b,
            "ugt" => un || a > b,
            "uge" => un || a >= b,
            "ult" => un || a < b,
            "ule" => un || a <= b,
            "une" => un || a != b,
            "uno" => un,
            "true" => true,
            _ => false,
        };
        return Ok(V::C(r as u128));
    }
    let iv = |v: &V| -> X<(f64, f64)> {
        match v {
            V::C(p) => Ok((f_of(t, *p), f_of(t, *p))),
            V::FI(a, b) => Ok((*a, *b)),
            o => err(format!("float operand {:?}", o)),
        }
    };
    let (a, b) = (iv(x)?, iv(y)?);
    let lt = |s: bool| -> Option<bool> {
        // a < b (s) or a <= b
        if s {
            if a.1 < b.0 {
                Some(true)
            } else if a.0 >= b.1 {
                Some(false)
            } else {
                None
            }
        } else if a.1 <= b.0 {
            Some(true)
        } else if a.0 > b.1 {
            Some(false)
        } else {
            None
        }
    };
    let r = match p {
        "olt" | "ult" => lt(true),
        "ole" | "ule" => lt(false),
        "oge" | "uge" => lt(true).map(|x| !x),
        "ogt" | "ugt" => lt(false).map(|x| !x),
        "ord" => Some(true),
        "uno" => Some(false),
        "oeq" | "ueq" if a.1 < b.0 || a.0 > b.1 => Some(false),
        "one" | "une" if a.1 < b.0 || a.0 > b.1 => Some(true),
        _ => None,
    };
    match r {
        Some(b) => Ok(V::C(b as u128)),
        None => err(format!("undecided interval comparison {} {:?} {:?}", p, a, b)),
    }
}
