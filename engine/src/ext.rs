//! Models of everything outside the bitcode: allocator, memory intrinsics, LLVM intrinsics,
//! process environment, panics, the harness primitives and the ideal cryptographic oracles.
use crate::exec::*;
use crate::ir::Ty;
use crate::prog::*;
use crate::term::{self, T};
use std::rc::Rc;

pub type ExtFn = fn(&mut Eng, &mut State, &[V], &[(Ty, O)], &Ty, &str) -> X<V>;

fn is_panic(n: &str) -> bool {
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return n == "abort";
    }
    n.contains("_4core9panicking")
        || n.contains("17rust_begin_unwind")
        || (n.contains("5slice5index") && n.contains("_fail"))
        || n.contains("17len_mismatch_fail")
        || n.contains("16slice_error_fail")
        || n.contains("19slice_error_fail_rt")
        || n.contains("13expect_failed")
        || n.contains("13unwrap_failed")
        || n.contains("4cell22panic_already_borrowed")
        || n.contains("4cell30panic_already_mutably_borrowed")
        || n.contains("18handle_alloc_error")
        || n.contains("7raw_vec12handle_error")
        || n.contains("7raw_vec17capacity_overflow")
        || n.contains("13assert_failed")
        || n.contains("3std9panicking11begin_panic")
        || n.contains("3std7process5abort")
        || n.contains("3std3sys4unix14abort_internal")
        || n.contains("panic_for_nonpositive_argument")
}

/// functions with a body in the module that are nevertheless modelled here
pub fn overrides(n: &str) -> bool {
    if n.starts_with("sym_") {
        return true;
    }
    is_panic(n) || is_rand_keys(n) || is_byte_debug(n) || is_table_hash(n)
}

/// `<u8 as Debug>::fmt`: only error messages show bytes this way, their digits are left out
fn is_byte_debug(n: &str) -> bool {
    n.starts_with("_RNvX") && (n.contains("4core3fmt3numhNtB") || n.contains("4core3fmtRhNtB")) && n.contains("5Debug3fmt")
}

/// the hash of a key in a `HashMap` or `HashSet` with randomised state: any function will do, the
/// constant one keeps the probing concrete
fn is_table_hash(n: &str) -> bool {
    n.starts_with("_R") && n.contains("6random11RandomState") && n.contains("11BuildHasher8hash_one")
}

fn is_rand_keys(n: &str) -> bool {
    n.starts_with("_R") && n.contains("19hashmap_random_keys")
}

pub fn resolve(n: &str) -> Option<ExtFn> {
    if is_panic(n) {
        return Some(x_panic);
    }
    if is_rand_keys(n) {
        return Some(x_rand_keys);
    }
    if is_byte_debug(n) || is_table_hash(n) {
        return Some(x_zero);
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        return intrinsic(r);
    }
    Some(match n {
        "malloc" => x_malloc,
        "calloc" => x_calloc,
        "realloc" => x_realloc,
        "free" => x_free,
        "posix_memalign" => x_memalign,
        "aligned_alloc" => x_aligned_alloc,
        "memcpy" | "memmove" => x_memcpy,
        "memset" => x_memset,
        "bcmp" => x_bcmp,
        "memcmp" => x_memcmp,
        "strlen" => x_strlen,
        "memchr" | "memrchr" => x_memchr,
        "getenv" => x_zero,
        "gettid" | "getpid" => x_one,
        "syscall" => x_syscall,
        "getrandom" => x_getrandom,
        "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_self" | "sched_yield" => x_zero,
        "clock_gettime" => x_clock,
        "__errno_location" => x_errno,
        "getcwd" => x_zero,
        "sym_bytes" => s_bytes,
        "sym_assume" => s_assume,
        "sym_assert" => s_assert,
        "sym_fail" => s_fail,
        "sym_reach" => s_reach,
        "sym_param" => s_param,
        "sym_choose" => s_choose,
        "sym_eq" => s_eq,
        "sym_concretize" => s_conc,
        "sym_note" => s_note,
        "sym_observe" => s_observe,
        "sym_allow_panic" => s_allow_panic,
        "sym_orc" => s_orc,
        "sym_orc_concrete" => s_orc_concrete,
        "sym_known" => s_known,
        "sym_orc_sign" => s_orc_sign,
        "sym_orc_verify" => s_orc_verify,
        "sym_random" => s_random,
        "sym_done" => s_done,
        "sym_ite" => s_ite,
        "sym_symbolic" => s_symbolic,
        "sym_show" => s_show,
        _ => return None,
    })
}

fn c64(e: &mut Eng, st: &State, v: &V) -> X<u64> {
    Ok(e.concv(st, v)? as u64)
}

fn cstr(e: &mut Eng, st: &State, p: &V, n: &V) -> X<String> {
    let (p, n) = (c64(e, st, p)?, c64(e, st, n)?);
    let b = e.bytes_c(st, p, n as usize)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}

fn loc_of(e: &Eng, st: &State, a: u64) -> Option<String> {
    let id = a >> 32;
    if id == 0 || id >= FUNC_BASE {
        return None;
    }
    let o = e.p.globals.get(id as usize)?.as_ref()?;
    if !o.ro || o.b.len() != 24 || a & 0xffff_ffff != 0 {
        return None;
    }
    let rd = |i: usize, n: usize| -> u64 {
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(&o.b[i..i + n]);
        u64::from_le_bytes(x)
    };
    let (p, l, line, col) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4));
    let _ = st;
    let f = e.p.globals.get((p >> 32) as usize)?.as_ref()?;
    let off = (p & 0xffff_ffff) as usize;
    let s = f.b.get(off..off + l as usize)?;
    let s = String::from_utf8_lossy(s).into_owned();
    Some(format!("{}:{}:{}", s, line, col))
}

fn x_panic(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, n: &str) -> X<V> {
    let mut loc = None;
    for v in a {
        if let V::C(x) = v {
            if let Some(l) = loc_of(e, st, *x as u64) {
                loc = Some(l);
            }
        }
    }
    let d = demangle(n);
    let d = d.rsplit("::").next().unwrap_or("panic").to_string();
    let by = st
        .frames
        .iter()
        .rev()
        .map(|f| &e.p.funs[f.fun as usize].dem)
        .find(|d| d.contains("keride"))
        .cloned()
        .unwrap_or_default();
    Err(Ctl::End(End::Panic(format!("{} at {} in {}", d, loc.unwrap_or_else(|| "?".into()), by))))
}

fn x_rand_keys(_e: &mut Eng, _s: &mut State, _a: &[V], _t: &[(Ty, O)], r: &Ty, _n: &str) -> X<V> {
    Ok(zero_of(r))
}

fn x_zero(_e: &mut Eng, _s: &mut State, _a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    Ok(V::C(0))
}
fn x_one(_e: &mut Eng, _s: &mut State, _a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    Ok(V::C(1))
}

const MAXALLOC: u64 = 1 << 28;

fn x_malloc(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let n = c64(e, st, &a[0])?;
    if n > MAXALLOC {
        return err(format!("malloc of {} bytes", n));
    }
    Ok(V::C(e.alloc(st, n) as u128))
}
fn x_calloc(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let n = c64(e, st, &a[0])? * c64(e, st, &a[1])?;
    if n > MAXALLOC {
        return err(format!("calloc of {} bytes", n));
    }
    Ok(V::C(e.alloc(st, n) as u128))
}
fn x_aligned_alloc(e: &mut Eng, st: &mut State, a: &[V], t: &[(Ty, O)], r: &Ty, n: &str) -> X<V> {
    x_malloc(e, st, &a[1..], t, r, n)
}
fn x_memalign(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let p = c64(e, st, &a[0])?;
    let n = c64(e, st, &a[2])?;
    let q = e.alloc(st, n);
    e.write_c(st, p, 8, q as u128)?;
    Ok(V::C(0))
}
fn x_realloc(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let p = c64(e, st, &a[0])?;
    let n = c64(e, st, &a[1])?;
    if n > MAXALLOC {
        return err(format!("realloc of {} bytes", n));
    }
    let q = e.alloc(st, n);
    if p != 0 {
        let old = match e.obj(st, p >> 32) {
            Some(o) => o.b.len(),
            None => return err("realloc of bad pointer"),
        };
        e.copy(st, q, p, old.min(n as usize))?;
        st.mem.release((p >> 32) as u32);
    }
    Ok(V::C(q as u128))
}
fn x_free(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let p = c64(e, st, &a[0])?;
    if p != 0 {
        if p & 0xffff_ffff != 0 || st.mem.get(p >> 32).is_none() {
            return err(format!("free of bad pointer {:#x}", p));
        }
        st.mem.release((p >> 32) as u32);
    }
    Ok(V::C(0))
}
fn x_memcpy(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let (d, s, n) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?, c64(e, st, &a[2])?);
    e.copy(st, d, s, n as usize)?;
    Ok(V::C(d as u128))
}
fn x_memset(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let (d, n) = (c64(e, st, &a[0])?, c64(e, st, &a[2])?);
    match &a[1] {
        V::C(x) => {
            for i in 0..n {
                e.write_c(st, d + i, 1, *x & 0xff)?;
            }
        }
        V::T(t) => {
            let b = if term::w(*t) > 8 { term::trunc(*t, 8) } else { *t };
            for i in 0..n {
                e.write_t(st, d + i, 1, b)?;
            }
        }
        _ => return err("memset"),
    }
    Ok(V::C(d as u128))
}

fn eq_bytes(e: &Eng, st: &State, p: u64, q: u64, n: usize) -> X<T> {
    let mut acc = term::tru();
    for i in 0..n as u64 {
        let (x, y) = (e.byte_t(st, p + i)?, e.byte_t(st, q + i)?);
        acc = term::and(acc, term::eq(x, y));
        if term::isc(acc) == Some(0) {
            break;
        }
    }
    Ok(acc)
}

fn x_bcmp(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let n = c64(e, st, &a[2])?;
    if n == 0 {
        return Ok(V::C(0));
    }
    let (p, q) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?);
    let t = eq_bytes(e, st, p, q, n as usize)?;
    Ok(norm(term::zext(term::not(t), 32)))
}
fn x_memcmp(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let n = c64(e, st, &a[2])?;
    if n == 0 {
        return Ok(V::C(0));
    }
    let (p, q) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?);
    let mut acc = term::cst(0, 32);
    for i in (0..n).rev() {
        let (x, y) = (e.byte_t(st, p + i)?, e.byte_t(st, q + i)?);
        let lt = term::ite(term::ult(x, y), term::cst(0xffff_ffff, 32), term::cst(1, 32));
        acc = term::ite(term::eq(x, y), acc, lt);
    }
    Ok(norm(acc))
}
fn x_strlen(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let p = c64(e, st, &a[0])?;
    let mut i = 0;
    loop {
        let t = e.byte_t(st, p + i)?;
        if e.conc(st, t)? == 0 {
            return Ok(V::C(i as u128));
        }
        i += 1;
    }
}
fn x_memchr(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, nm: &str) -> X<V> {
    let (p, n) = (c64(e, st, &a[0])?, c64(e, st, &a[2])?);
    let c = match &a[1] {
        V::C(x) => term::cst(*x & 0xff, 8),
        V::T(t) => term::trunc(*t, 8),
        _ => return err("memchr"),
    };
    // index of the match as a term, then fork on it
    let mut ix = term::cst(n as u128, 64);
    let order: Vec<u64> = if nm == "memchr" { (0..n).rev().collect() } else { (0..n).collect() };
    for i in order {
        let b = e.byte_t(st, p + i)?;
        ix = term::ite(term::eq(b, c), term::cst(i as u128, 64), ix);
    }
    let i = e.conc(st, ix)? as u64;
    Ok(V::C(if i == n { 0 } else { (p + i) as u128 }))
}
fn x_syscall(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let k = c64(e, st, &a[0])?;
    match k {
        318 => {
            let (p, n) = (c64(e, st, &a[1])?, c64(e, st, &a[2])?);
            for i in 0..n {
                e.write_c(st, p + i, 1, 0x5a)?;
            }
            Ok(V::C(n as u128))
        }
        202 => Ok(V::C(0)),
        186 => Ok(V::C(1)),
        _ => err(format!("syscall {}", k)),
    }
}
fn x_getrandom(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let (p, n) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?);
    for i in 0..n {
        e.write_c(st, p + i, 1, 0x5a)?;
    }
    Ok(V::C(n as u128))
}
fn x_clock(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let p = c64(e, st, &a[1])?;
    e.write_c(st, p, 8, 1_700_000_000)?;
    e.write_c(st, p + 8, 8, 123_456_000)?;
    Ok(V::C(0))
}
fn x_errno(e: &mut Eng, st: &mut State, _a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let p = e.alloc(st, 4);
    Ok(V::C(p as u128))
}

// ---------- LLVM intrinsics ----------
fn intrinsic(r: &str) -> Option<ExtFn> {
    let pre = |p: &str| r.starts_with(p);
    Some(if pre("memcpy.") || pre("memmove.") {
        x_memcpy
    } else if pre("memset.") {
        x_memset
    } else if pre("threadlocal.address") || pre("expect.") || pre("launder.") || pre("strip.") || pre("ptrmask.") && false {
        |_e, _s, a, _t, _r, _n| Ok(a[0].clone())
    } else if pre("trap") || pre("ubsantrap") {
        x_panic
    } else if pre("is.constant") {
        x_zero
    } else if pre("x86.sse2.pause") || pre("prefetch") || pre("stackrestore") || pre("stacksave") || pre("sideeffect") {
        x_zero
    } else if pre("umin.") || pre("umax.") || pre("smin.") || pre("smax.") || pre("uadd.sat") || pre("usub.sat") || pre("sadd.sat") || pre("ssub.sat") || pre("ctlz.") || pre("cttz.") || pre("ctpop.") || pre("bswap.") || pre("bitreverse.") || pre("fshl.") || pre("fshr.") || pre("ucmp.") || pre("scmp.") || pre("abs.") {
        x_int
    } else if r.contains(".with.overflow") {
        x_ovf
    } else if pre("vector.reduce.") {
        x_reduce
    } else if pre("log2.") || pre("fabs.") || pre("floor.") || pre("ceil.") || pre("trunc.f") || pre("round.") || pre("rint.") || pre("sqrt.") {
        x_flt
    } else if pre("is.fpclass") {
        x_fpclass
    } else if pre("fptoui.sat") || pre("fptosi.sat") {
        x_fptosat
    } else {
        return None;
    })
}

fn x_fptosat(_e: &mut Eng, _st: &mut State, a: &[V], t: &[(Ty, O)], r: &Ty, n: &str) -> X<V> {
    let (lo, hi) = match &a[0] {
        V::C(x) => {
            let f = if t[0].0 == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x as u64) };
            (f, f)
        }
        V::FI(a, b) => (*a, *b),
        _ => return err("fptosat"),
    };
    let w = r.width();
    let cv = |f: f64| -> u128 {
        if n.contains("fptoui") {
            if f.is_nan() || f <= 0.0 {
                0
            } else {
                (f as u128).min(term::mask(w))
            }
        } else {
            let m = (term::mask(w) >> 1) as i128;
            ((f as i128).clamp(-m - 1, m) as u128) & term::mask(w)
        }
    };
    if cv(lo) == cv(hi) {
        return Ok(V::C(cv(lo)));
    }
    err(format!("interval float to integer: {} .. {}", lo, hi))
}

fn x_fpclass(_e: &mut Eng, _st: &mut State, a: &[V], t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let (V::C(x), V::C(m)) = (&a[0], &a[1]) else { return err("float class of a symbolic value") };
    use std::num::FpCategory::*;
    let (c, neg, quiet) = if t[0].0 == Ty::F32 {
        let f = f32::from_bits(*x as u32);
        (f.classify(), f.is_sign_negative(), x >> 22 & 1 == 1)
    } else {
        let f = f64::from_bits(*x as u64);
        (f.classify(), f.is_sign_negative(), x >> 51 & 1 == 1)
    };
    let bit = match (c, neg) {
        (Nan, _) => quiet as u32,
        (Infinite, true) => 2,
        (Normal, true) => 3,
        (Subnormal, true) => 4,
        (Zero, true) => 5,
        (Zero, false) => 6,
        (Subnormal, false) => 7,
        (Normal, false) => 8,
        (Infinite, false) => 9,
    };
    Ok(V::C(m >> bit & 1))
}

fn x_flt(e: &mut Eng, st: &mut State, a: &[V], t: &[(Ty, O)], _r: &Ty, n: &str) -> X<V> {
    let f32_ = t[0].0 == Ty::F32;
    let f = |x: f64| -> f64 {
        let s = |d: f64, s: f32| if f32_ { s as f64 } else { d };
        if n.contains("log2") {
            s(x.log2(), (x as f32).log2())
        } else if n.contains("fabs") {
            x.abs()
        } else if n.contains("floor") {
            x.floor()
        } else if n.contains("ceil") {
            x.ceil()
        } else if n.contains("trunc") {
            x.trunc()
        } else if n.contains("sqrt") {
            s(x.sqrt(), (x as f32).sqrt())
        } else {
            x.round()
        }
    };
    let a0 = match &a[0] {
        V::T(t) => V::C(e.conc(st, *t)?),
        v => v.clone(),
    };
    match &a0 {
        V::C(x) => {
            let v = if f32_ { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x as u64) };
            let y = f(v);
            Ok(V::C(if f32_ { (y as f32).to_bits() as u128 } else { y.to_bits() as u128 }))
        }
        V::FI(p, q) if !n.contains("fabs") => Ok(V::FI(f(*p), f(*q))),
        _ => err("float intrinsic"),
    }
}

fn lanes(a: &[V], i: usize) -> Vec<V> {
    a.iter()
        .map(|v| match v {
            V::A(x) => x[i].clone(),
            v => v.clone(),
        })
        .collect()
}

fn x_int(e: &mut Eng, st: &mut State, a: &[V], t: &[(Ty, O)], r: &Ty, n: &str) -> X<V> {
    if let Ty::Vec(k, el) = r {
        let at: Ty = match &t[0].0 {
            Ty::Vec(_, x) => (**x).clone(),
            x => x.clone(),
        };
        let mut out = vec![];
        for i in 0..*k as usize {
            out.push(int1(e, st, &lanes(a, i), &at, el, n)?);
        }
        return Ok(V::A(Rc::new(out)));
    }
    int1(e, st, a, &t[0].0, r, n)
}

fn int1(_e: &mut Eng, _st: &mut State, a: &[V], t: &Ty, r: &Ty, n: &str) -> X<V> {
    let w = t.width();
    let n = &n[5..];
    let p = to_t(&a[0], w)?;
    let k = |x: u128| term::cst(x, w);
    let op = n.split('.').next().unwrap();
    let res = match op {
        "umin" | "umax" | "smin" | "smax" => {
            let q = to_t(&a[1], w)?;
            let c = if op.starts_with('u') { term::ult(p, q) } else { term::slt(p, q) };
            if op.ends_with("min") {
                term::ite(c, p, q)
            } else {
                term::ite(c, q, p)
            }
        }
        "uadd" => {
            let q = to_t(&a[1], w)?;
            let s = term::add(p, q);
            term::ite(term::ult(s, p), k(term::mask(w)), s)
        }
        "usub" => {
            let q = to_t(&a[1], w)?;
            term::ite(term::ult(p, q), k(0), term::sub(p, q))
        }
        "sadd" | "ssub" => {
            let q = to_t(&a[1], w)?;
            let (pw, qw) = (term::sext(p, w + 1), term::sext(q, w + 1));
            let s = if op == "sadd" { term::add(pw, qw) } else { term::sub(pw, qw) };
            let mx = term::mask(w) >> 1;
            let hi = term::slt(term::cst(mx, w + 1), s);
            let mn = (!mx) & term::mask(w + 1);
            let lo = term::slt(s, term::cst(mn, w + 1));
            term::ite(hi, k(mx), term::ite(lo, k(!mx), term::trunc(s, w)))
        }
        "ctlz" | "cttz" => {
            let mut acc = k(w as u128);
            if op == "ctlz" {
                for i in 0..w {
                    acc = term::ite(term::extract(p, i, i), k((w - 1 - i) as u128), acc);
                }
            } else {
                for i in (0..w).rev() {
                    acc = term::ite(term::extract(p, i, i), k(i as u128), acc);
                }
            }
            acc
        }
        "ctpop" => {
            let mut acc = k(0);
            for i in 0..w {
                let b = term::extract(p, i, i);
                acc = term::add(acc, if w == 1 { b } else { term::zext(b, w) });
            }
            acc
        }
        "bswap" => {
            let v: Vec<T> = (0..w / 8).map(|i| term::extract(p, i * 8 + 7, i * 8)).collect();
            term::concat(&v)
        }
        "bitreverse" => {
            let v: Vec<T> = (0..w).map(|i| term::extract(p, i, i)).collect();
            term::concat(&v)
        }
        "fshl" | "fshr" => {
            let q = to_t(&a[1], w)?;
            let s = to_t(&a[2], w)?;
            let s = match term::isc(s) {
                Some(c) => k(c % w as u128),
                None => term::urem(s, k(w as u128)),
            };
            let z = term::eq(s, k(0));
            let is = term::sub(k(w as u128), s);
            if op == "fshl" {
                term::ite(z, p, term::or(term::shl(p, s), term::lshr(q, is)))
            } else {
                term::ite(z, q, term::or(term::shl(p, is), term::lshr(q, s)))
            }
        }
        "ucmp" | "scmp" => {
            let q = to_t(&a[1], w)?;
            let (lt, rw) = (if op == "ucmp" { term::ult(p, q) } else { term::slt(p, q) }, r.width());
            term::ite(lt, term::cst(term::mask(rw), rw), term::ite(term::eq(p, q), term::cst(0, rw), term::cst(1, rw)))
        }
        "abs" => term::ite(term::slt(p, k(0)), term::neg(p), p),
        _ => return err(format!("intrinsic {}", n)),
    };
    Ok(norm(res))
}

/// product and whether it overflows
fn umul(e: &mut Eng, st: &State, p: T, q: T, w: u32) -> X<(T, T)> {
    if let (Some(a), Some(b)) = (term::isc(p), term::isc(q)) {
        let (m, o) = a.overflowing_mul(b);
        return Ok((term::cst(m & term::mask(w), w), term::cst((o || m > term::mask(w)) as u128, 1)));
    }
    let (p, q) = if term::isc(p).is_some() || term::isc(q).is_some() { (p, q) } else { (e.small(st, p)?, e.small(st, q)?) };
    if w <= 64 {
        let s = term::mul(term::zext(p, 2 * w), term::zext(q, 2 * w));
        return Ok((term::trunc(s, w), term::ne(term::extract(s, 2 * w - 1, w), term::cst(0, w))));
    }
    let m = term::mul(p, q);
    let half = |t: T| term::isc(term::extract(t, w - 1, w / 2)) == Some(0);
    if half(p) && half(q) {
        return Ok((m, term::fls()));
    }
    let z = term::eq(p, term::cst(0, w));
    let d = term::udiv(m, term::ite(z, term::cst(1, w), p));
    Ok((m, term::and(term::not(z), term::ne(d, q))))
}

fn x_ovf(e: &mut Eng, st: &mut State, a: &[V], t: &[(Ty, O)], r: &Ty, n: &str) -> X<V> {
    if let Ty::Vec(..) = t[0].0 {
        return err("vector overflow intrinsic");
    }
    let _ = r;
    let w = t[0].0.width();
    let (p, q) = (to_t(&a[0], w)?, to_t(&a[1], w)?);
    let op = &n[5..9];
    let (res, o) = match op {
        "uadd" => {
            let s = term::add(p, q);
            (s, term::ult(s, p))
        }
        "usub" => (term::sub(p, q), term::ult(p, q)),
        "umul" => umul(e, st, p, q, w)?,
        "sadd" | "ssub" => {
            let s = if op == "sadd" { term::add(p, q) } else { term::sub(p, q) };
            // overflow: both operands (the second negated for a difference) differ in sign from the result
            let x = term::xor(s, p);
            let y = if op == "sadd" { term::xor(s, q) } else { term::xor(p, q) };
            (s, term::extract(term::and(x, y), w - 1, w - 1))
        }
        "smul" => {
            let (np, nq) = (term::extract(p, w - 1, w - 1), term::extract(q, w - 1, w - 1));
            let (m, uo) = umul(e, st, term::ite(np, term::neg(p), p), term::ite(nq, term::neg(q), q), w)?;
            let neg = term::xor(np, nq);
            let lim = term::add(term::cst(term::mask(w - 1), w), term::zext(neg, w));
            (term::ite(neg, term::neg(m), m), term::or(uo, term::ult(lim, m)))
        }
        _ => return err(format!("intrinsic {}", n)),
    };
    Ok(V::A(Rc::new(vec![norm(res), norm(o)])))
}

fn x_reduce(e: &mut Eng, st: &mut State, a: &[V], t: &[(Ty, O)], _r: &Ty, n: &str) -> X<V> {
    let el = match &t[0].0 {
        Ty::Vec(_, x) => (**x).clone(),
        _ => return err("reduce"),
    };
    let vs = match &a[0] {
        V::A(v) => v.clone(),
        _ => return err("reduce"),
    };
    let op = n[5..].split('.').nth(2).unwrap_or("").to_string();
    let mut acc = vs[0].clone();
    for v in &vs[1..] {
        acc = match op.as_str() {
            "add" => e.binop(st, B::Add, &el, &acc, v)?,
            "mul" => e.binop(st, B::Mul, &el, &acc, v)?,
            "and" => e.binop(st, B::And, &el, &acc, v)?,
            "or" => e.binop(st, B::Or, &el, &acc, v)?,
            "xor" => e.binop(st, B::Xor, &el, &acc, v)?,
            "umax" | "umin" | "smax" | "smin" => int1(e, st, &[acc, v.clone()], &el, &el, &format!("llvm.{}.x", op))?,
            _ => return err(format!("reduce {}", op)),
        };
    }
    Ok(acc)
}

// ---------- harness primitives ----------
fn fresh(st: &mut State, name: &str, n: usize) -> Vec<T> {
    let mut v = vec![];
    let mut d = vec![];
    for _ in 0..n {
        let i = st.new_var();
        v.push(term::var(i));
        d.push(InByte::Var(i));
    }
    Rc::make_mut(&mut st.inputs).push(Input { name: name.into(), data: d });
    v
}

fn put_bytes(e: &Eng, st: &mut State, p: u64, v: &[T]) -> X<()> {
    for (i, t) in v.iter().enumerate() {
        e.write_t(st, p + i as u64, 1, *t)?;
    }
    Ok(())
}

fn s_bytes(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let name = cstr(e, st, &a[0], &a[1])?;
    let (p, n) = (c64(e, st, &a[2])?, c64(e, st, &a[3])?);
    let v = fresh(st, &name, n as usize);
    put_bytes(e, st, p, &v)?;
    Ok(V::C(0))
}
fn s_random(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let (p, n) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?);
    let v = if st.orc_concrete {
        let k = st.inputs.len() as u64;
        let d: Vec<u8> = (0..n).map(|i| (mix(k * 1000 + i + 0x7777) >> 17) as u8).collect();
        Rc::make_mut(&mut st.inputs).push(Input { name: "random".into(), data: d.iter().map(|b| InByte::Const(*b)).collect() });
        d.iter().map(|b| term::cst(*b as u128, 8)).collect()
    } else {
        fresh(st, "random", n as usize)
    };
    put_bytes(e, st, p, &v)?;
    Ok(V::C(0))
}
fn bool_t(v: &V) -> X<T> {
    match v {
        V::C(x) => Ok(term::cst(*x & 1, 1)),
        V::T(t) if term::w(*t) == 1 => Ok(*t),
        V::T(t) => Ok(term::extract(*t, 0, 0)),
        _ => err("bool"),
    }
}
fn s_assume(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let c = bool_t(&a[0])?;
    match e.feasible(st, c) {
        Feas::Yes(m) => {
            st.model = m;
            st.assume(c);
            Ok(V::C(0))
        }
        Feas::No => Err(Ctl::End(End::Infeasible)),
        Feas::Unknown => err("solver gave no answer on an assumption"),
    }
}
fn s_assert(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let c = bool_t(&a[0])?;
    let label = cstr(e, st, &a[1], &a[2])?;
    e.st.asserts += 1;
    *e.st.reach.entry(format!("assert: {}", label)).or_default() += 1;
    match term::isc(c) {
        Some(1) => {
            e.st.asserts_trivial += 1;
            return Ok(V::C(0));
        }
        Some(_) => return Err(Ctl::End(End::Fail(label))),
        None => {}
    }
    e.st.asserts_z3 += 1;
    let bad = if st.model_eval(c) == 0 {
        Feas::Yes(st.model.clone())
    } else {
        // a conjunction holds when each of its parts does: the parts depend on far fewer inputs
        let mut parts = vec![];
        conjuncts(c, &mut parts);
        let mut r = Feas::No;
        for p in parts {
            match e.feasible(st, term::not(p)) {
                Feas::No => {}
                x => {
                    r = x;
                    break;
                }
            }
        }
        r
    };
    match bad {
        Feas::No => Ok(V::C(0)),
        Feas::Unknown => err(format!("solver gave no answer on assertion {}", label)),
        Feas::Yes(m) => {
            e.violation(st, &m, "fail", &label);
            match e.feasible(st, c) {
                Feas::Yes(m) => {
                    st.model = m;
                    st.assume(c);
                    Ok(V::C(0))
                }
                _ => Err(Ctl::End(End::Infeasible)),
            }
        }
    }
}
fn conjuncts(c: T, out: &mut Vec<T>) {
    let n = term::nd(c);
    if n.op == term::Op::And && n.w == 1 {
        conjuncts(n.args[0], out);
        conjuncts(n.args[1], out);
    } else if !out.contains(&c) {
        out.push(c);
    }
}
fn s_fail(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let label = cstr(e, st, &a[0], &a[1])?;
    Err(Ctl::End(End::Fail(label)))
}
fn s_done(_e: &mut Eng, _st: &mut State, _a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    Err(Ctl::End(End::Ok))
}
fn s_reach(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let label = cstr(e, st, &a[0], &a[1])?;
    *e.st.reach.entry(label).or_default() += 1;
    Ok(V::C(0))
}
fn s_param(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let name = cstr(e, st, &a[0], &a[1])?;
    match e.params.get(&name) {
        Some(v) => Ok(V::C(*v as u128)),
        None => err(format!("harness parameter {} not given", name)),
    }
}
fn s_choose(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    // two-phase: the fresh variable survives in the state, the fork happens at the re-execution
    let name = cstr(e, st, &a[0], &a[1])?;
    let n = c64(e, st, &a[2])?;
    if n == 0 || n > 65536 {
        return err("sym_choose range");
    }
    let key = format!("?{}", name);
    let pending = st.inputs.last().map(|i| i.name == key).unwrap_or(false);
    if !pending {
        let v = fresh(st, &key, if n <= 256 { 1 } else { 2 });
        if n <= 256 {
            if n < 256 {
                st.assume(term::ult(v[0], term::cst(n as u128, 8)));
            }
        } else {
            let t = term::concat(&[v[1], v[0]]);
            if n < 65536 {
                st.assume(term::ult(t, term::cst(n as u128, 16)));
            }
        }
    }
    let ix = st.inputs.len() - 1;
    let bytes: Vec<T> = st.inputs[ix]
        .data
        .iter()
        .map(|b| match b {
            InByte::Var(i) => term::var(*i),
            InByte::Const(c) => term::cst(*c as u128, 8),
        })
        .collect();
    let t = if bytes.len() == 1 { bytes[0] } else { term::concat(&[bytes[1], bytes[0]]) };
    let k = e.conc(st, t)?;
    Rc::make_mut(&mut st.inputs)[ix].name = name;
    Ok(V::C(k))
}
fn s_eq(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let (p, q, n) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?, c64(e, st, &a[2])?);
    if n == 0 {
        return Ok(V::C(1));
    }
    Ok(norm(eq_bytes(e, st, p, q, n as usize)?))
}
fn s_ite(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let c = bool_t(&a[0])?;
    match term::isc(c) {
        Some(1) => Ok(a[1].clone()),
        Some(_) => Ok(a[2].clone()),
        None => e.select(st, &Ty::Int(64), c, &a[1], &a[2]),
    }
}
fn s_conc(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    Ok(V::C(e.concv(st, &a[0])?))
}
fn s_symbolic(_e: &mut Eng, _st: &mut State, _a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    Ok(V::C(1))
}
fn s_show(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    if e.trace {
        let (p, n) = (c64(e, st, &a[0])?, c64(e, st, &a[1])?);
        for i in 0..n {
            let t = e.byte_t(st, p + i)?;
            eprintln!("  [{}] {}", i, term::show(t, 4));
        }
    }
    Ok(V::C(0))
}
fn s_note(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let label = cstr(e, st, &a[0], &a[1])?;
    Rc::make_mut(&mut st.notes).push(label);
    Ok(V::C(0))
}
fn s_observe(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let name = cstr(e, st, &a[0], &a[1])?;
    let (p, n) = (c64(e, st, &a[2])?, c64(e, st, &a[3])?);
    let v = if n == 0 { vec![] } else { e.bytes_t(st, p, n as usize)? };
    Rc::make_mut(&mut st.observed).push((name, v));
    Ok(V::C(0))
}
fn s_allow_panic(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let t = bool_t(&a[0])?;
    st.allow_panic = e.conc(st, t)? == 1;
    Ok(V::C(0))
}
fn s_known(_e: &mut Eng, _st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    Ok(V::C(match &a[0] {
        V::C(_) => 1,
        V::T(t) => term::isc(*t).is_some() as u128,
        _ => 0,
    }))
}
fn s_orc_concrete(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let t = bool_t(&a[0])?;
    st.orc_concrete = e.conc(st, t)? == 1;
    Ok(V::C(0))
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn eq_list(a: &[T], b: &[T]) -> T {
    let mut acc = term::tru();
    for (x, y) in a.iter().zip(b) {
        acc = term::and(acc, term::eq(*x, *y));
        if term::isc(acc) == Some(0) {
            break;
        }
    }
    acc
}

/// sym_orc(tag, taglen, in, inlen, out, outlen): a collision-free function, the same for every path prefix
fn s_orc(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let tag = cstr(e, st, &a[0], &a[1])?;
    let (ip, il) = (c64(e, st, &a[2])?, c64(e, st, &a[3])? as usize);
    let (op, ol) = (c64(e, st, &a[4])?, c64(e, st, &a[5])? as usize);
    let inp = if il == 0 { vec![] } else { e.bytes_t(st, ip, il)? };
    let mut distinct: Vec<Vec<T>> = vec![];
    let mut unsure: Vec<(T, Vec<T>)> = vec![];
    let mut same: Option<Vec<T>> = None;
    for en in st.orc.clone().iter() {
        if en.tag != tag || en.out.len() != ol {
            continue;
        }
        if en.inp.len() != inp.len() {
            distinct.push(en.out.clone());
            continue;
        }
        let q = eq_list(&en.inp, &inp);
        if let Some(k) = term::isc(q) {
            if k == 1 {
                same = Some(en.out.clone());
                break;
            }
            distinct.push(en.out.clone());
            continue;
        }
        if st.orc_concrete {
            if e.conc(st, q)? == 1 {
                same = Some(en.out.clone());
                break;
            }
            continue;
        }
        let (y, n) = e.branch(st, q)?;
        match (y.is_some(), n.is_some()) {
            (true, false) => {
                same = Some(en.out.clone());
                break;
            }
            (false, _) => distinct.push(en.out.clone()),
            _ => unsure.push((q, en.out.clone())),
        }
    }
    let out = match same {
        Some(o) => o,
        None => {
            let h = tag.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
            let cnt = st.orc.len() as u64;
            let rnd: Vec<u8> = (0..ol as u64).map(|i| (mix(h ^ (cnt << 20) ^ i) >> 13) as u8).collect();
            let o: Vec<T>;
            if st.orc_concrete {
                o = rnd.iter().map(|b| term::cst(*b as u128, 8)).collect();
                Rc::make_mut(&mut st.inputs).push(Input { name: format!("orc:{}", tag), data: rnd.iter().map(|b| InByte::Const(*b)).collect() });
            } else {
                let first = st.doms.len();
                o = fresh(st, &format!("orc:{}", tag), ol);
                // a model for the new bytes
                let mut vals = rnd;
                for (q, po) in &unsure {
                    if st.model_eval(*q) == 1 {
                        vals = po.iter().map(|t| st.model_eval(*t) as u8).collect();
                        break;
                    }
                }
                let m = Rc::make_mut(&mut st.model);
                m[first..first + ol].copy_from_slice(&vals);
                let mut cs = vec![];
                if ol >= 16 {
                    for d in &distinct {
                        cs.push(term::not(eq_list(d, &o)));
                    }
                }
                for (q, po) in &unsure {
                    let oe = eq_list(po, &o);
                    cs.push(if ol >= 16 { term::eq(*q, oe) } else { term::or(term::not(*q), oe) });
                }
                for c in cs {
                    if st.model_eval(c) != 1 {
                        match e.feasible(st, c) {
                            Feas::Yes(m) => st.model = m,
                            Feas::No => return err("oracle constraints inconsistent"),
                            Feas::Unknown => return err("solver gave no answer on an oracle constraint"),
                        }
                    }
                    st.assume(c);
                }
            }
            Rc::make_mut(&mut st.orc).push(OrcEntry { tag, inp, out: o.clone() });
            o
        }
    };
    put_bytes(e, st, op, &out)?;
    Ok(V::C(0))
}

/// sym_orc_sign(tag, taglen, pkmsg, len, sig, siglen): record that sig was produced for pk||msg
fn s_orc_sign(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let tag = format!("sig:{}", cstr(e, st, &a[0], &a[1])?);
    let (ip, il) = (c64(e, st, &a[2])?, c64(e, st, &a[3])? as usize);
    let (op, ol) = (c64(e, st, &a[4])?, c64(e, st, &a[5])? as usize);
    let inp = e.bytes_t(st, ip, il)?;
    let out = e.bytes_t(st, op, ol)?;
    Rc::make_mut(&mut st.orc).push(OrcEntry { tag, inp, out });
    Ok(V::C(0))
}
fn s_orc_verify(e: &mut Eng, st: &mut State, a: &[V], _t: &[(Ty, O)], _r: &Ty, _n: &str) -> X<V> {
    let tag = format!("sig:{}", cstr(e, st, &a[0], &a[1])?);
    let (ip, il) = (c64(e, st, &a[2])?, c64(e, st, &a[3])? as usize);
    let (op, ol) = (c64(e, st, &a[4])?, c64(e, st, &a[5])? as usize);
    let inp = e.bytes_t(st, ip, il)?;
    let out = e.bytes_t(st, op, ol)?;
    let mut acc = term::fls();
    for en in st.orc.iter() {
        if en.tag == tag && en.inp.len() == inp.len() && en.out.len() == out.len() {
            acc = term::or(acc, term::and(eq_list(&en.inp, &inp), eq_list(&en.out, &out)));
        }
    }
    Ok(norm(acc))
}
