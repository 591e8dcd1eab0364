//! Primitives of the checking harnesses.
//!
//! With `--cfg symex` these are external functions the symbolic executor interprets; without it
//! they replay a recorded assignment natively, so that the same harness text runs against the
//! real code as compiled by rustc.
#![allow(unexpected_cfgs)]

#[cfg(symex)]
mod raw {
    extern "C" {
        pub fn sym_bytes(n: *const u8, nl: usize, p: *mut u8, l: usize);
        pub fn sym_random(p: *mut u8, l: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, n: *const u8, nl: usize);
        pub fn sym_fail(n: *const u8, nl: usize) -> !;
        pub fn sym_done() -> !;
        pub fn sym_reach(n: *const u8, nl: usize);
        pub fn sym_param(n: *const u8, nl: usize) -> u64;
        pub fn sym_choose(n: *const u8, nl: usize, k: u64) -> u64;
        pub fn sym_eq(p: *const u8, q: *const u8, l: usize) -> bool;
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_known(v: u64) -> bool;
        pub fn sym_note(n: *const u8, nl: usize);
        pub fn sym_observe(n: *const u8, nl: usize, p: *const u8, l: usize);
        pub fn sym_allow_panic(b: bool);
        pub fn sym_orc_concrete(b: bool);
        pub fn sym_orc(t: *const u8, tl: usize, i: *const u8, il: usize, o: *mut u8, ol: usize);
        pub fn sym_orc_sign(t: *const u8, tl: usize, i: *const u8, il: usize, o: *const u8, ol: usize);
        pub fn sym_orc_verify(t: *const u8, tl: usize, i: *const u8, il: usize, o: *const u8, ol: usize) -> bool;
        pub fn sym_show(p: *const u8, l: usize);
    }
}

#[cfg(symex)]
mod imp {
    use super::raw::*;
    pub fn fill(name: &str, b: &mut [u8]) {
        unsafe { sym_bytes(name.as_ptr(), name.len(), b.as_mut_ptr(), b.len()) }
    }
    pub fn random(b: &mut [u8]) {
        unsafe { sym_random(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, label: &str) {
        unsafe { sym_assert(c, label.as_ptr(), label.len()) }
    }
    pub fn fail(label: &str) -> ! {
        unsafe { sym_fail(label.as_ptr(), label.len()) }
    }
    pub fn done() -> ! {
        unsafe { sym_done() }
    }
    pub fn reach(label: &str) {
        unsafe { sym_reach(label.as_ptr(), label.len()) }
    }
    pub fn param(name: &str) -> u64 {
        unsafe { sym_param(name.as_ptr(), name.len()) }
    }
    pub fn choose(name: &str, n: usize) -> usize {
        unsafe { sym_choose(name.as_ptr(), name.len(), n as u64) as usize }
    }
    pub fn same(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        unsafe { sym_eq(a.as_ptr(), b.as_ptr(), a.len()) }
    }
    pub fn pick(c: bool, a: u64, b: u64) -> u64 {
        unsafe { sym_ite(c, a, b) }
    }
    pub fn concrete(v: u64) -> u64 {
        unsafe { sym_concretize(v) }
    }
    /// is this value the same on every input reaching here (an answer of `false` says nothing)
    pub fn known(v: u64) -> bool {
        unsafe { sym_known(v) }
    }
    pub fn note(s: &str) {
        unsafe { sym_note(s.as_ptr(), s.len()) }
    }
    pub fn observe(name: &str, b: &[u8]) {
        unsafe { sym_observe(name.as_ptr(), name.len(), b.as_ptr(), b.len()) }
    }
    pub fn allow_panic(b: bool) {
        unsafe { sym_allow_panic(b) }
    }
    pub fn orc_concrete(b: bool) {
        unsafe { sym_orc_concrete(b) }
    }
    pub fn orc(tag: &str, input: &[u8], out: &mut [u8]) {
        unsafe { sym_orc(tag.as_ptr(), tag.len(), input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) }
    }
    pub fn orc_sign(tag: &str, pkmsg: &[u8], sig: &[u8]) {
        unsafe { sym_orc_sign(tag.as_ptr(), tag.len(), pkmsg.as_ptr(), pkmsg.len(), sig.as_ptr(), sig.len()) }
    }
    pub fn orc_verify(tag: &str, pkmsg: &[u8], sig: &[u8]) -> bool {
        unsafe { sym_orc_verify(tag.as_ptr(), tag.len(), pkmsg.as_ptr(), pkmsg.len(), sig.as_ptr(), sig.len()) }
    }
    pub fn show(b: &[u8]) {
        unsafe { sym_show(b.as_ptr(), b.len()) }
    }
}

#[cfg(not(symex))]
pub mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;

    #[derive(Default)]
    pub struct Rt {
        pub inputs: Vec<(String, Vec<u8>)>,
        pub pos: usize,
        pub params: HashMap<String, u64>,
        pub orcs: Vec<(String, Vec<u8>, Vec<u8>)>,
        pub observed: Vec<(String, Vec<u8>)>,
        pub concrete: bool,
        pub allow_panic: bool,
    }

    thread_local! {
        pub static RT: RefCell<Rt> = RefCell::new(Rt::default());
    }

    pub fn finish(code: i32, word: &str) -> ! {
        RT.with(|r| {
            for (n, b) in &r.borrow().observed {
                println!("OBS {} {}", n, b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
            }
        });
        println!("{}", word);
        std::process::exit(code)
    }

    fn next(name: &str, n: usize) -> Vec<u8> {
        let r = RT.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            r.inputs.get(p).cloned()
        });
        match r {
            Some((m, b)) if (m == name || m == format!("?{}", name)) && b.len() == n => b,
            Some((m, b)) => finish(5, &format!("DIVERGED want {}[{}] have {}[{}]", name, n, m, b.len())),
            None => finish(5, &format!("DIVERGED want {}[{}] have nothing", name, n)),
        }
    }
    pub fn fill(name: &str, b: &mut [u8]) {
        let v = next(name, b.len());
        b.copy_from_slice(&v);
    }
    pub fn random(b: &mut [u8]) {
        fill("random", b)
    }
    pub fn assume(c: bool) {
        if !c {
            finish(4, "ASSUMPTION-FALSE")
        }
    }
    pub fn check(c: bool, label: &str) {
        if !c {
            fail(label)
        }
    }
    pub fn fail(label: &str) -> ! {
        finish(1, &format!("FAIL {}", label))
    }
    pub fn done() -> ! {
        finish(0, "OK")
    }
    pub fn reach(_label: &str) {}
    pub fn param(name: &str) -> u64 {
        RT.with(|r| r.borrow().params.get(name).copied().unwrap_or_else(|| finish(5, &format!("no parameter {}", name))))
    }
    pub fn choose(name: &str, n: usize) -> usize {
        let v = next(name, if n <= 256 { 1 } else { 2 });
        let k = v.iter().rev().fold(0usize, |a, b| a << 8 | *b as usize);
        if k >= n {
            finish(4, "ASSUMPTION-FALSE")
        }
        k
    }
    pub fn same(a: &[u8], b: &[u8]) -> bool {
        a == b
    }
    pub fn pick(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
    pub fn known(_v: u64) -> bool {
        true
    }
    pub fn note(_s: &str) {}
    pub fn observe(name: &str, b: &[u8]) {
        RT.with(|r| r.borrow_mut().observed.push((name.to_string(), b.to_vec())))
    }
    pub fn allow_panic(b: bool) {
        RT.with(|r| r.borrow_mut().allow_panic = b)
    }
    pub fn orc_concrete(b: bool) {
        RT.with(|r| r.borrow_mut().concrete = b)
    }
    pub fn orc(tag: &str, input: &[u8], out: &mut [u8]) {
        let known = RT.with(|r| r.borrow().orcs.iter().find(|o| o.0 == tag && o.1 == input && o.2.len() == out.len()).map(|o| o.2.clone()));
        match known {
            Some(v) => {
                // the executor drew this output anew when it could not tell yet that the input is a known one
                RT.with(|r| {
                    let mut r = r.borrow_mut();
                    let p = r.pos;
                    if r.inputs.get(p).is_some_and(|(n, b)| *n == format!("orc:{tag}") && *b == v) {
                        r.pos += 1;
                    }
                });
                out.copy_from_slice(&v)
            }
            None => {
                let v = next(&format!("orc:{}", tag), out.len());
                out.copy_from_slice(&v);
                RT.with(|r| r.borrow_mut().orcs.push((tag.to_string(), input.to_vec(), v)));
            }
        }
    }
    pub fn orc_sign(tag: &str, pkmsg: &[u8], sig: &[u8]) {
        RT.with(|r| r.borrow_mut().orcs.push((format!("sig:{}", tag), pkmsg.to_vec(), sig.to_vec())))
    }
    pub fn orc_verify(tag: &str, pkmsg: &[u8], sig: &[u8]) -> bool {
        let t = format!("sig:{}", tag);
        RT.with(|r| r.borrow().orcs.iter().any(|o| o.0 == t && o.1 == pkmsg && o.2 == sig))
    }
    pub fn show(_b: &[u8]) {}
}

pub use imp::*;

pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(name, &mut b);
    b
}

pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        fill(name, &mut b);
    }
    b
}

pub fn u32(name: &str) -> u32 {
    u32::from_le_bytes(bytes::<4>(name))
}
pub fn u64(name: &str) -> u64 {
    u64::from_le_bytes(bytes::<8>(name))
}
pub fn u128(name: &str) -> u128 {
    u128::from_le_bytes(bytes::<16>(name))
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}

/// a predicate of `input` the environment decides, the same for equal inputs
pub fn orc_bit(tag: &str, input: &[u8]) -> bool {
    let mut b = [0u8; 1];
    orc(tag, input, &mut b);
    b[0] & 1 == 1
}
