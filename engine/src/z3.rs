//! Raw FFI to libz3 (loaded with dlopen), and the translation of terms.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(n: *const c_char, f: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
}

macro_rules! api {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $( $n: unsafe extern "C" fn($($a),*) $(-> $r)?, )* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $( $n: {
                    let c = CString::new(stringify!($n)).unwrap();
                    let p = dlsym(h, c.as_ptr());
                    if p.is_null() { panic!("no symbol {}", stringify!($n)); }
                    std::mem::transmute(p)
                }, )* }
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context: fn(P) -> P;
    Z3_set_error_handler: fn(P, Option<unsafe extern "C" fn(P, c_int)>);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
    Z3_inc_ref: fn(P, P);
    Z3_get_full_version: fn() -> *const c_char;
}

pub struct Z3 {
    a: Api,
    c: P,
    ast: HashMap<T, P>,
    tabc: HashMap<(T, Vec<u64>), P>,
    timeout_ms: u32,
    pub version: String,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

unsafe extern "C" fn errh(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(70);
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cands = [
                std::env::var("SYMEX_Z3").unwrap_or_default(),
                "libz3.so.4".into(),
                "libz3.so".into(),
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into(),
            ];
            let mut h: P = std::ptr::null_mut();
            for c in cands.iter().filter(|c| !c.is_empty()) {
                let s = CString::new(c.as_str()).unwrap();
                h = dlopen(s.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                panic!("cannot load libz3");
            }
            let a = Api::load(h);
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, Some(errh));
            let version = std::ffi::CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
            Z3 { a, c, ast: HashMap::new(), tabc: HashMap::new(), timeout_ms, version, queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0 }
        }
    }

    unsafe fn keep(&self, p: P) -> P {
        (self.a.Z3_inc_ref)(self.c, p);
        p
    }

    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = (self.a.Z3_mk_bv_sort)(self.c, w);
        let t = CString::new(v.to_string()).unwrap();
        (self.a.Z3_mk_numeral)(self.c, t.as_ptr(), s)
    }

    unsafe fn bool_to_bv(&self, b: P) -> P {
        (self.a.Z3_mk_ite)(self.c, b, self.num(1, 1), self.num(0, 1))
    }
    unsafe fn bv_to_bool(&self, b: P) -> P {
        (self.a.Z3_mk_eq)(self.c, b, self.num(1, 1))
    }

    unsafe fn tab(&mut self, root: P, rt: T, rw: u32, bit: u32, vals: &[u64], w: u32) -> P {
        if vals.iter().all(|v| *v == vals[0]) {
            return self.num(vals[0] as u128, w);
        }
        let key = (rt, {
            let mut k = vals.to_vec();
            k.push(w as u64);
            k
        });
        if let Some(p) = self.tabc.get(&key) {
            return *p;
        }
        let half = vals.len() / 2;
        let lo = self.tab(root, rt, rw, bit.wrapping_sub(1), &vals[..half], w);
        let hi = self.tab(root, rt, rw, bit.wrapping_sub(1), &vals[half..], w);
        let b = (self.a.Z3_mk_extract)(self.c, bit, bit, root);
        let r = (self.a.Z3_mk_ite)(self.c, self.bv_to_bool(b), hi, lo);
        let r = self.keep(r);
        self.tabc.insert(key, r);
        r
    }

    pub fn tr(&mut self, t: T) -> P {
        if let Some(p) = self.ast.get(&t) {
            return *p;
        }
        // iterative post-order for deep terms
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.ast.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = nd(x);
            let mut ready = true;
            for &a in n.args.iter() {
                if !self.ast.contains_key(&a) {
                    st.push(a);
                    ready = false;
                }
            }
            if ready {
                st.pop();
                let p = unsafe { self.tr1(x) };
                self.ast.insert(x, p);
            }
        }
        self.ast[&t]
    }

    unsafe fn tr1(&mut self, t: T) -> P {
        let n = nd(t);
        let c = self.c;
        let g = |i: usize| self.ast[&n.args[i]];
        let r = match n.op {
            Op::Const => self.num(n.k, n.w),
            Op::Var => {
                let nm = CString::new(format!("v{}", n.k)).unwrap();
                let s = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                (self.a.Z3_mk_const)(c, s, (self.a.Z3_mk_bv_sort)(c, 8))
            }
            Op::Tab => {
                let r = g(0);
                let rt = n.args[0];
                let rw = w(rt);
                let tb = n.tab.clone().unwrap();
                let vals: Vec<u64> = (0..tb.len()).map(|i| tb.get(i)).collect();
                self.tab(r, rt, rw, rw - 1, &vals, n.w)
            }
            Op::Concat => {
                let mut r = g(0);
                for i in 1..n.args.len() {
                    r = (self.a.Z3_mk_concat)(c, r, self.ast[&n.args[i]]);
                }
                r
            }
            Op::Extract => (self.a.Z3_mk_extract)(c, (n.k >> 32) as u32, n.k as u32, g(0)),
            Op::Add => (self.a.Z3_mk_bvadd)(c, g(0), g(1)),
            Op::Sub => (self.a.Z3_mk_bvsub)(c, g(0), g(1)),
            Op::Mul => (self.a.Z3_mk_bvmul)(c, g(0), g(1)),
            Op::UDiv => (self.a.Z3_mk_bvudiv)(c, g(0), g(1)),
            Op::URem => (self.a.Z3_mk_bvurem)(c, g(0), g(1)),
            Op::SDiv => (self.a.Z3_mk_bvsdiv)(c, g(0), g(1)),
            Op::SRem => (self.a.Z3_mk_bvsrem)(c, g(0), g(1)),
            Op::And => (self.a.Z3_mk_bvand)(c, g(0), g(1)),
            Op::Or => (self.a.Z3_mk_bvor)(c, g(0), g(1)),
            Op::Xor => (self.a.Z3_mk_bvxor)(c, g(0), g(1)),
            Op::Not => (self.a.Z3_mk_bvnot)(c, g(0)),
            Op::Shl => (self.a.Z3_mk_bvshl)(c, g(0), g(1)),
            Op::LShr => (self.a.Z3_mk_bvlshr)(c, g(0), g(1)),
            Op::AShr => (self.a.Z3_mk_bvashr)(c, g(0), g(1)),
            Op::Eq => self.bool_to_bv((self.a.Z3_mk_eq)(c, g(0), g(1))),
            Op::Ult => self.bool_to_bv((self.a.Z3_mk_bvult)(c, g(0), g(1))),
            Op::Slt => self.bool_to_bv((self.a.Z3_mk_bvslt)(c, g(0), g(1))),
            Op::Ite => (self.a.Z3_mk_ite)(c, self.bv_to_bool(g(0)), g(1), g(2)),
        };
        self.keep(r)
    }

    /// satisfiability of the conjunction of 1-bit terms and byte-domain sets
    pub fn check(&mut self, conds: &[T], doms: &[(u32, [u64; 4])]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe { self.check1(conds, doms) };
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }

    unsafe fn check1(&mut self, conds: &[T], doms: &[(u32, [u64; 4])]) -> Res {
        let c = self.c;
        let lg = CString::new("QF_BV").unwrap();
        let sy = (self.a.Z3_mk_string_symbol)(c, lg.as_ptr());
        let s = (self.a.Z3_mk_solver_for_logic)(c, sy);
        (self.a.Z3_solver_inc_ref)(c, s);
        let pr = (self.a.Z3_mk_params)(c);
        (self.a.Z3_params_inc_ref)(c, pr);
        let tn = CString::new("timeout").unwrap();
        let ts = (self.a.Z3_mk_string_symbol)(c, tn.as_ptr());
        (self.a.Z3_params_set_uint)(c, pr, ts, self.timeout_ms);
        (self.a.Z3_solver_set_params)(c, s, pr);
        let mut vars: Vec<u32> = vec![];
        for &t in conds {
            let a = self.tr(t);
            let b = self.bv_to_bool(a);
            (self.a.Z3_solver_assert)(c, s, b);
            vars.extend(nd(t).vars.iter());
        }
        for (v, d) in doms {
            vars.push(*v);
            if d.iter().all(|x| *x == u64::MAX) {
                continue;
            }
            let vt = var(*v);
            let vals: Vec<u64> = (0..256).map(|i| (d[i / 64] >> (i % 64)) & 1).collect();
            let t = mk_tab(vt, 1, vals);
            let a = self.tr(t);
            let b = self.bv_to_bool(a);
            (self.a.Z3_solver_assert)(c, s, b);
        }
        vars.sort_unstable();
        vars.dedup();
        if let Ok(d) = std::env::var("SYMEX_DUMP") {
            let st = std::ffi::CStr::from_ptr((self.a.Z3_solver_to_string)(c, s)).to_string_lossy().into_owned();
            let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.queries), st + "\n(check-sat)\n");
        }
        let r = (self.a.Z3_solver_check)(c, s);
        let out = if r == 1 {
            let m = (self.a.Z3_solver_get_model)(c, s);
            (self.a.Z3_model_inc_ref)(c, m);
            let mut o = vec![];
            for v in vars {
                let vt = self.tr(var(v));
                let mut e: P = std::ptr::null_mut();
                (self.a.Z3_model_eval)(c, m, vt, true, &mut e);
                let mut x = 0u64;
                (self.a.Z3_get_numeral_uint64)(c, e, &mut x);
                o.push((v, x as u8));
            }
            (self.a.Z3_model_dec_ref)(c, m);
            Res::Sat(o)
        } else if r == -1 {
            Res::Unsat
        } else {
            Res::Unknown
        };
        (self.a.Z3_solver_dec_ref)(c, s);
        out
    }
}
