//! Joining of paths. When the paths of a function part on a condition over one narrow term (at
//! most 8 bits) and meet again, the states that met are joined: what differs between them becomes
//! a value table over that term. A search for a character in an alphabet, or a chain of
//! comparisons, thus costs one path instead of one per value.
use crate::exec::*;
use crate::ir::Ty;
use crate::prog::*;
use crate::term::{self, T};
use std::collections::HashMap;
use std::rc::Rc;

pub const RET: u32 = u32::MAX;

/// where paths that parted at a block meet again, and which registers matter there
pub struct Cfg {
    /// immediate post-dominator of each block (RET: the return of the function)
    pub ipdom: Vec<Option<u32>>,
    live: HashMap<u32, Rc<Vec<u64>>>,
    ty: Vec<Option<Ty>>,
}

pub struct Region {
    pub fun: u32,
    pub depth: usize,
    pub join: u32,
    pub root: T,
    pub h: usize,
    pub base: State,
    pub pool: Vec<(State, [u64; 4])>,
}

fn succ(f: &Fun, b: usize) -> Vec<u32> {
    match f.blocks[b].insts.last() {
        Some((_, I::Br(x))) => vec![*x],
        Some((_, I::CondBr(_, x, y))) => vec![*x, *y],
        Some((_, I::Switch(_, _, d, cs))) => {
            let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
            v.push(*d);
            v.sort_unstable();
            v.dedup();
            v
        }
        Some((_, I::Call(_, _, Some(n), _))) => vec![*n],
        _ => vec![],
    }
}

fn uses(i: &I, mut f: impl FnMut(&O)) {
    match i {
        I::Bin(_, _, a, b) | I::Icmp(_, _, a, b) | I::Fcmp(_, _, a, b) | I::Store(_, a, b) | I::Rmw(_, _, a, b) => {
            f(a);
            f(b);
        }
        I::Insert(_, a, b, _) | I::ExtElem(_, a, b) | I::Shuffle(_, a, b, _) => {
            f(a);
            f(b);
        }
        I::Fneg(_, a) | I::Cast(_, _, a, _) | I::Load(_, a) | I::Alloca(_, a) | I::Extract(a, _) | I::Freeze(a) => f(a),
        I::Gep(a, _, ts) => {
            f(a);
            for (_, _, o) in ts {
                f(o);
            }
        }
        I::Select(_, a, b, c) | I::InsElem(_, a, b, c) | I::CmpXchg(_, a, b, c) => {
            f(a);
            f(b);
            f(c);
        }
        I::Call(t, args, _, _) => {
            if let Tgt::Ptr(o) = t {
                f(o);
            }
            for (_, o) in args {
                f(o);
            }
        }
        I::CondBr(a, _, _) | I::Switch(_, a, _, _) => f(a),
        I::Ret(Some(a)) => f(a),
        I::Ret(None) | I::Nop | I::Br(_) | I::Unreachable | I::Resume => {}
    }
}

impl Cfg {
    pub fn of(f: &Fun) -> Cfg {
        let n = f.blocks.len();
        let mut pred: Vec<Vec<u32>> = vec![vec![]; n + 1];
        let mut sc: Vec<Vec<u32>> = vec![];
        for b in 0..n {
            let mut s = succ(f, b);
            if let Some((_, I::Ret(_))) = f.blocks[b].insts.last() {
                s.push(n as u32);
            }
            for x in &s {
                pred[*x as usize].push(b as u32);
            }
            sc.push(s);
        }
        // post-order of the reverse graph from the exit
        let mut order = vec![];
        let mut seen = vec![false; n + 1];
        let mut st = vec![(n as u32, 0usize)];
        seen[n] = true;
        while let Some((b, i)) = st.pop() {
            if i < pred[b as usize].len() {
                st.push((b, i + 1));
                let p = pred[b as usize][i];
                if !seen[p as usize] {
                    seen[p as usize] = true;
                    st.push((p, 0));
                }
            } else {
                order.push(b);
            }
        }
        let mut num = vec![usize::MAX; n + 1];
        for (i, b) in order.iter().enumerate() {
            num[*b as usize] = i;
        }
        let mut idom: Vec<Option<u32>> = vec![None; n + 1];
        idom[n] = Some(n as u32);
        let mut ch = true;
        while ch {
            ch = false;
            for &b in order.iter().rev() {
                if b as usize == n {
                    continue;
                }
                let mut nw: Option<u32> = None;
                for &s in &sc[b as usize] {
                    if idom[s as usize].is_none() {
                        continue;
                    }
                    nw = Some(match nw {
                        None => s,
                        Some(mut a) => {
                            let mut c = s;
                            while a != c {
                                while num[a as usize] < num[c as usize] {
                                    a = idom[a as usize].unwrap();
                                }
                                while num[c as usize] < num[a as usize] {
                                    c = idom[c as usize].unwrap();
                                }
                            }
                            a
                        }
                    });
                }
                if nw.is_some() && idom[b as usize] != nw {
                    idom[b as usize] = nw;
                    ch = true;
                }
            }
        }
        let ipdom = (0..n).map(|b| idom[b].map(|x| if x as usize == n { RET } else { x })).collect();
        let mut ty: Vec<Option<Ty>> = vec![None; f.nregs];
        for b in &f.blocks {
            for (d, w, _) in &b.phis {
                if *w > 0 {
                    ty[*d as usize] = Some(Ty::Int(*w));
                }
            }
            for (d, i) in &b.insts {
                if *d == u32::MAX {
                    continue;
                }
                ty[*d as usize] = match i {
                    I::Bin(_, t, ..) | I::Fneg(t, _) | I::Load(t, _) | I::Select(t, ..) | I::Call(_, _, _, t) | I::Cast(_, _, _, t) => Some(t.clone()),
                    I::Icmp(_, Ty::Int(_) | Ty::Ptr, ..) | I::Fcmp(_, Ty::F32 | Ty::F64, ..) => Some(Ty::Int(1)),
                    I::Gep(..) | I::Alloca(..) => Some(Ty::Ptr),
                    _ => None,
                };
            }
        }
        Cfg { ipdom, live: HashMap::new(), ty }
    }

    /// registers that may be read at or after the start of block `b` (its phis done)
    fn live_at(&mut self, f: &Fun, b: u32) -> Rc<Vec<u64>> {
        if let Some(l) = self.live.get(&b) {
            return l.clone();
        }
        let n = f.blocks.len();
        let wd = (f.nregs + 63) / 64;
        // in[b]: live before the phis; at[b]: live after them
        let mut at: Vec<Vec<u64>> = vec![vec![0; wd]; n];
        let mut ch = true;
        while ch {
            ch = false;
            for b in (0..n).rev() {
                let mut l = vec![0u64; wd];
                for s in succ(f, b) {
                    let blk = &f.blocks[s as usize];
                    let mut x = at[s as usize].clone();
                    for (d, _, _) in &blk.phis {
                        x[*d as usize / 64] &= !(1 << (d % 64));
                    }
                    for (_, _, ops) in &blk.phis {
                        for (p, o) in ops {
                            if *p as usize == b {
                                if let O::R(r) = o {
                                    x[*r as usize / 64] |= 1 << (r % 64);
                                }
                            }
                        }
                    }
                    for (a, y) in l.iter_mut().zip(x) {
                        *a |= y;
                    }
                }
                for (d, i) in f.blocks[b].insts.iter().rev() {
                    if *d != u32::MAX {
                        l[*d as usize / 64] &= !(1 << (d % 64));
                    }
                    uses(i, |o| {
                        if let O::R(r) = o {
                            l[*r as usize / 64] |= 1 << (r % 64);
                        }
                    });
                }
                if l != at[b] {
                    at[b] = l;
                    ch = true;
                }
            }
        }
        let mut out = None;
        for (i, l) in at.into_iter().enumerate() {
            // only blocks where paths meet are ever asked for
            if i as u32 == b {
                out = Some(Rc::new(l));
            } else if self.ipdom.iter().any(|p| *p == Some(i as u32)) {
                self.live.insert(i as u32, Rc::new(l));
            }
        }
        let l = out.unwrap();
        self.live.insert(b, l.clone());
        l
    }
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::T(x), V::T(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))),
        (V::FI(a, b), V::FI(c, d)) => a == c && b == d,
        _ => false,
    }
}

/// can `a` and `b` be told apart by the root alone
fn joinable(t: &Ty, a: &V, b: &V, r: T) -> bool {
    match t {
        Ty::Int(w) if *w <= 64 => {
            let ok = |v: &V| match v {
                V::C(_) => true,
                V::T(t) => term::nd(*t).root == r,
                _ => false,
            };
            if let (64, V::C(x), V::C(y)) = (*w, a, b) {
                // pointers into different objects are better kept apart
                if x >> 32 != y >> 32 && x >> 32 != 0 && y >> 32 != 0 {
                    return false;
                }
            }
            ok(a) && ok(b)
        }
        Ty::Ptr => match (a, b) {
            (V::C(x), V::C(y)) => x >> 32 == y >> 32,
            _ => false,
        },
        Ty::Arr(_, e) | Ty::Vec(_, e) => match (a, b) {
            (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q) || joinable(e, p, q, r)),
            _ => false,
        },
        Ty::Struct(ts, _) => match (a, b) {
            (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).enumerate().all(|(i, (p, q))| same(p, q) || joinable(&ts[i], p, q, r)),
            _ => false,
        },
        _ => false,
    }
}

fn tabulate(r: T, w: u32, vs: &[(&[u64; 4], T)]) -> Option<T> {
    let sz = 1usize << term::w(r);
    let mut out: Vec<Option<u64>> = vec![None; sz];
    for (s, t) in vs {
        let tb = term::table(*t, r)?;
        for x in 0..sz {
            if s[x / 64] >> (x % 64) & 1 == 1 {
                out[x] = Some(tb[x]);
            }
        }
    }
    // values of the root that reach none of these states: whatever keeps the table simple
    let first = out.iter().flatten().next().copied()?;
    Some(term::mk_tab(r, w, out.into_iter().map(|x| x.unwrap_or(first)).collect()))
}

fn join(t: &Ty, vs: &[(&[u64; 4], &V)], r: T) -> Option<V> {
    if vs.iter().all(|v| same(v.1, vs[0].1)) {
        return Some(vs[0].1.clone());
    }
    match t {
        Ty::Int(_) | Ty::Ptr => {
            let w = t.width();
            let ts: Option<Vec<_>> = vs
                .iter()
                .map(|(s, v)| match v {
                    V::C(c) => Some((*s, term::cst(*c, w))),
                    V::T(t) => Some((*s, *t)),
                    _ => None,
                })
                .collect();
            Some(norm(tabulate(r, w, &ts?)?))
        }
        Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
            let n = match vs[0].1 {
                V::A(x) => x.len(),
                _ => return None,
            };
            let mut out = vec![];
            for i in 0..n {
                let et: &Ty = match t {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => e,
                    Ty::Struct(ts, _) => &ts[i],
                    _ => return None,
                };
                let mut col = vec![];
                for (s, v) in vs {
                    match v {
                        V::A(x) if x.len() == n => col.push((*s, &x[i])),
                        _ => return None,
                    }
                }
                out.push(join(et, &col, r)?);
            }
            Some(V::A(Rc::new(out)))
        }
        _ => None,
    }
}

fn byte(o: &Obj, i: usize) -> T {
    match &o.s {
        Some(s) if s[i] != 0 => s[i],
        _ => term::cst(o.b[i] as u128, 8),
    }
}

fn overlap(a: &[u64; 4], b: &[u64; 4]) -> bool {
    (0..4).any(|i| a[i] & b[i] != 0)
}

impl Eng {
    fn cfg(&mut self, fun: u32) -> &mut Cfg {
        let f: &'static Fun = unsafe { &*(&self.p.funs[fun as usize] as *const Fun) };
        self.cfgs.entry(fun).or_insert_with(|| Cfg::of(f))
    }

    /// called before `st` parts on conditions over `r`: open a region unless one is open for it
    pub fn open(&mut self, st: &mut State, r: T, h: usize) -> bool {
        if !self.merging || r == term::NOROOT || r == term::CROOT {
            return false;
        }
        if !st.regions.last().map_or(false, |g| self.regions[g.0].root == r) {
            let f = st.frames.last().unwrap();
            let (fun, bb) = (f.fun, f.bb);
            let depth = st.frames.len();
            if let Some(join) = self.cfg(fun).ipdom[bb as usize] {
                if !(join == RET && depth == 1) {
                    let base = st.clone();
                    self.regions.push(Region { fun, depth, join, root: r, h, base, pool: vec![] });
                    st.regions.push((self.regions.len() - 1, [u64::MAX; 4]));
                }
            }
        }
        !st.regions.is_empty()
    }

    /// the open regions when the values of `r` are narrowed to `set`
    pub fn narrowed(&self, st: &State, r: T, set: &[u64; 4]) -> Vec<(usize, [u64; 4])> {
        let mut a = st.regions.clone();
        for (g, s) in a.iter_mut() {
            if self.regions[*g].root == r {
                for i in 0..4 {
                    s[i] &= set[i];
                }
            }
        }
        a
    }

    /// the values of `r` for which `c` holds
    pub fn holds(c: T, r: T) -> Option<[u64; 4]> {
        if r == term::NOROOT || r == term::CROOT {
            return None;
        }
        let tb = term::table(c, r)?;
        let mut yes = [0u64; 4];
        for (i, x) in tb.iter().enumerate() {
            if *x == 1 {
                yes[i / 64] |= 1 << (i % 64);
            }
        }
        Some(yes)
    }

    /// called before `st` parts on `c`: the regions to restore on the state for which `c` holds, and on the other
    pub fn part(&mut self, st: &mut State, c: T, h: usize) -> Option<(Vec<(usize, [u64; 4])>, Vec<(usize, [u64; 4])>)> {
        let r = term::nd(c).root;
        if !self.open(st, r, h) {
            return None;
        }
        let yes = Eng::holds(c, r)?;
        let no = [!yes[0], !yes[1], !yes[2], !yes[3]];
        Some((self.narrowed(st, r, &yes), self.narrowed(st, r, &no)))
    }

    /// has the state reached the place where its innermost region ends
    #[inline]
    pub fn met(&self, st: &State) -> bool {
        let g = match st.regions.last() {
            None => return false,
            Some(g) => &self.regions[g.0],
        };
        if g.join == RET {
            return st.frames.len() < g.depth;
        }
        if st.frames.len() != g.depth {
            return false;
        }
        let f = st.frames.last().unwrap();
        f.ip == 0 && f.bb == g.join && f.fun == g.fun
    }

    pub fn meet(&mut self, mut st: State) {
        let (g, s) = st.regions.pop().unwrap();
        self.regions[g].pool.push((st, s));
    }

    /// every path of the last region has met or left: join what can be joined
    pub fn resolve(&mut self, stack: &mut Vec<State>) {
        let g = self.regions.pop().unwrap();
        let mut groups: Vec<Vec<(State, [u64; 4])>> = vec![];
        let single = g.pool.len() == 1;
        let live = if g.join == RET || single {
            None
        } else {
            let f: &'static Fun = unsafe { &*(&self.p.funs[g.fun as usize] as *const Fun) };
            Some(self.cfg(g.fun).live_at(f, g.join))
        };
        let mut lone = vec![];
        for (st, s) in g.pool {
            if single || !self.clean(&g.base, &st) {
                lone.push((st, s));
                continue;
            }
            let mut at = None;
            for (i, q) in groups.iter().enumerate() {
                if q.iter().all(|m| !overlap(&m.1, &s)) && self.alike(&q[0].0, &st, g.root, live.as_deref()) {
                    at = Some(i);
                    break;
                }
            }
            match at {
                Some(i) => groups[i].push((st, s)),
                None => groups.push(vec![(st, s)]),
            }
        }
        let mut out = vec![];
        for q in groups {
            if q.len() == 1 {
                lone.extend(q);
                continue;
            }
            let all = q.len();
            match self.join_all(&g.base, &q, g.root, live.as_deref()) {
                Some(st) => {
                    self.st.joined += all as u64 - 1;
                    out.push(st);
                }
                None => lone.extend(q),
            }
        }
        for (mut st, s) in lone {
            let full = term::w(g.root);
            if !(0..1usize << full).all(|x| s[x / 64] >> (x % 64) & 1 == 1) {
                st.regions.clear();
            }
            out.push(st);
        }
        stack.extend(out);
    }

    /// nothing happened in the region but computation on what was there
    fn clean(&self, b: &State, s: &State) -> bool {
        Rc::ptr_eq(&b.inputs, &s.inputs)
            && Rc::ptr_eq(&b.orc, &s.orc)
            && Rc::ptr_eq(&b.notes, &s.notes)
            && Rc::ptr_eq(&b.observed, &s.observed)
            && Rc::ptr_eq(&b.fixed, &s.fixed)
            && b.doms.len() == s.doms.len()
            && b.orc_concrete == s.orc_concrete
            && b.allow_panic == s.allow_panic
    }

    fn alike(&mut self, a: &State, b: &State, r: T, live: Option<&Vec<u64>>) -> bool {
        if a.frames.len() != b.frames.len() {
            return false;
        }
        let (f, g) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if f.fun != g.fun || f.bb != g.bb || f.ip != g.ip || f.dst != g.dst || f.normal != g.normal || f.allocas != g.allocas {
            return false;
        }
        let fun = f.fun;
        let c = self.cfg(fun);
        for i in 0..f.regs.len() {
            if let Some(l) = live {
                if l[i / 64] >> (i % 64) & 1 == 0 {
                    continue;
                }
            }
            if !same(&f.regs[i], &g.regs[i]) {
                match &c.ty[i] {
                    Some(t) if joinable(t, &f.regs[i], &g.regs[i], r) => {}
                    _ => return false,
                }
            }
        }
        if !(Rc::ptr_eq(&a.heap, &b.heap) || a.heap == b.heap) {
            return false;
        }
        let mut ok = true;
        Mem::diff(&a.mem, &b.mem, |_, x, y| match (x, y) {
            (Some(x), Some(y)) => {
                if x.b.len() != y.b.len() || x.ro != y.ro {
                    ok = false;
                    return false;
                }
                let n = x.b.len();
                let fits = |t: T| matches!(term::nd(t).root, q if q == r || q == term::CROOT);
                for i in 0..n {
                    if x.s.is_none() && y.s.is_none() && x.b[i] == y.b[i] {
                        continue;
                    }
                    let (p, q) = (byte(x, i), byte(y, i));
                    if p != q && !(fits(p) && fits(q)) {
                        ok = false;
                        return false;
                    }
                }
                // pointers to different objects
                if x.s.is_none() && y.s.is_none() {
                    let mut i = 0;
                    while i + 8 <= n {
                        if x.b[i..i + 8] != y.b[i..i + 8] {
                            let h = |o: &Obj| u32::from_le_bytes(o.b[i + 4..i + 8].try_into().unwrap());
                            if h(x) != h(y) && h(x) != 0 && h(y) != 0 {
                                ok = false;
                                return false;
                            }
                        }
                        i += 8;
                    }
                }
                true
            }
            (None, None) => true,
            _ => {
                ok = false;
                false
            }
        });
        ok
    }

    fn join_all(&mut self, base: &State, q: &[(State, [u64; 4])], r: T, live: Option<&Vec<u64>>) -> Option<State> {
        let mut st = q[0].0.clone();
        let fun = st.frames.last()?.fun;
        let n = st.frames.last()?.regs.len();
        for i in 0..n {
            if let Some(l) = live {
                if l[i / 64] >> (i % 64) & 1 == 0 {
                    st.frames.last_mut()?.regs[i] = V::C(0);
                    continue;
                }
            }
            let col: Vec<(&[u64; 4], &V)> = q.iter().map(|(s, k)| (k, &s.frames.last().unwrap().regs[i])).collect();
            if col.iter().all(|v| same(v.1, col[0].1)) {
                continue;
            }
            let t = self.cfg(fun).ty[i].clone()?;
            let v = join(&t, &col, r)?;
            st.frames.last_mut()?.regs[i] = v;
        }
        let mut ids = vec![];
        for (s, _) in &q[1..] {
            Mem::diff(&q[0].0.mem, &s.mem, |id, _, _| {
                ids.push(id);
                true
            });
        }
        ids.sort_unstable();
        ids.dedup();
        for id in ids {
            let objs: Option<Vec<&Rc<Obj>>> = q.iter().map(|(s, _)| s.mem.get(id)).collect();
            let objs = match objs {
                Some(o) => o,
                None if q.iter().all(|(s, _)| s.mem.get(id).is_none()) => continue,
                None => return None,
            };
            let mut new: Vec<(usize, T)> = vec![];
            for i in 0..objs[0].b.len() {
                if objs.iter().all(|o| o.s.is_none() && o.b[i] == objs[0].b[i]) {
                    continue;
                }
                let ts: Vec<T> = objs.iter().map(|o| byte(o, i)).collect();
                if ts.iter().all(|t| *t == ts[0]) {
                    continue;
                }
                let col: Vec<(&[u64; 4], T)> = q.iter().map(|m| &m.1).zip(ts).collect();
                new.push((i, tabulate(r, 8, &col)?));
            }
            if new.is_empty() {
                continue;
            }
            let o = st.mem.get_mut(id)?;
            if o.s.is_none() {
                o.s = Some(vec![0; o.b.len()]);
            }
            for (i, t) in new {
                match term::isc(t) {
                    Some(c) => {
                        o.b[i] = c as u8;
                        o.s.as_mut()?[i] = 0;
                    }
                    None => o.s.as_mut()?[i] = t,
                }
            }
        }
        st.mem.settle(q.iter().map(|m| &m.0.mem));
        // the path condition: what held before, and the values of the root that came here
        let mut u = [0u64; 4];
        for (_, s) in q {
            for i in 0..4 {
                u[i] |= s[i];
            }
        }
        st.pc = base.pc.clone();
        st.doms = base.doms.clone();
        st.multi = base.multi.clone();
        st.regions = base.regions.clone();
        st.steps = q.iter().map(|m| m.0.steps).max()?;
        let sz = 1usize << term::w(r);
        let tab: Vec<u64> = (0..sz).map(|x| u[x / 64] >> (x % 64) & 1).collect();
        if tab.iter().any(|x| *x == 0) {
            let c = term::mk_tab(r, 1, tab);
            st.assume(c);
        }
        Some(st)
    }
}
