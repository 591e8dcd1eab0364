//! Differential test of the term layer. Random expressions are evaluated directly with machine
//! integers and built with the normalising constructors; the built term must evaluate to the same
//! value on random inputs, and the solver's reading of it must agree too.
use crate::term::{self, mask, sx, T};
use crate::z3::{Res, Z3};

struct R(u64);
impl R {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn k(&mut self, n: u64) -> u64 {
        (self.n() >> 20) % n
    }
}
const NV: usize = 4;
const NA: usize = 16;
const WS: [u32; 10] = [1, 2, 5, 6, 8, 16, 24, 32, 64, 37];
type E = (T, Vec<u128>);

fn cval(r: &mut R, w: u32) -> u128 {
    let m = mask(w);
    (match r.k(6) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => 1u128 << r.k(w as u64),
        4 => r.k(64) as u128,
        _ => ((r.n() as u128) << 64) | r.n() as u128,
    }) & m
}
fn fit(r: &mut R, e: E, w: u32) -> E {
    let ew = term::w(e.0);
    if ew == w {
        return e;
    }
    if ew > w {
        let lo = if r.k(2) == 0 { 0 } else { r.k((ew - w + 1) as u64) as u32 };
        return (term::extract(e.0, lo + w - 1, lo), e.1.iter().map(|x| (x >> lo) & mask(w)).collect());
    }
    if r.k(2) == 0 {
        (term::zext(e.0, w), e.1)
    } else {
        (term::sext(e.0, w), e.1.iter().map(|x| sx(*x, ew) as u128 & mask(w)).collect())
    }
}
fn gen(r: &mut R, asg: &[Vec<u8>], d: u32, w: u32) -> E {
    if d == 0 || r.k(8) == 0 {
        if r.k(4) == 0 {
            let c = cval(r, w);
            return (term::cst(c, w), vec![c; asg.len()]);
        }
        let v = r.k(NV as u64) as u32;
        let e = (term::var(v), asg.iter().map(|a| a[v as usize] as u128).collect());
        return fit(r, e, w);
    }
    let m = mask(w);
    let op = r.k(22);
    let bin = |r: &mut R| {
        let a = gen(r, asg, d - 1, w);
        let b = if r.k(3) == 0 {
            let c = cval(r, w);
            (term::cst(c, w), vec![c; asg.len()])
        } else {
            gen(r, asg, d - 1, w)
        };
        (a, b)
    };
    let z = |a: &E, b: &E, f: &dyn Fn(u128, u128) -> u128| -> Vec<u128> { a.1.iter().zip(&b.1).map(|(x, y)| f(*x, *y) & m).collect() };
    match op {
        0 | 1 => {
            let (a, b) = bin(r);
            (term::add(a.0, b.0), z(&a, &b, &|x, y| x.wrapping_add(y)))
        }
        2 => {
            let (a, b) = bin(r);
            (term::sub(a.0, b.0), z(&a, &b, &|x, y| x.wrapping_sub(y)))
        }
        3 => {
            let (a, b) = bin(r);
            (term::mul(a.0, b.0), z(&a, &b, &|x, y| x.wrapping_mul(y)))
        }
        4 => {
            let (a, b) = bin(r);
            (term::and(a.0, b.0), z(&a, &b, &|x, y| x & y))
        }
        5 => {
            let (a, b) = bin(r);
            (term::or(a.0, b.0), z(&a, &b, &|x, y| x | y))
        }
        6 => {
            let (a, b) = bin(r);
            (term::xor(a.0, b.0), z(&a, &b, &|x, y| x ^ y))
        }
        7 => {
            let a = gen(r, asg, d - 1, w);
            (term::not(a.0), a.1.iter().map(|x| !x & m).collect())
        }
        8 | 9 | 10 => {
            let a = gen(r, asg, d - 1, w);
            let s = r.k(w as u64) as u128;
            let c = term::cst(s, w);
            match op {
                8 => (term::shl(a.0, c), a.1.iter().map(|x| (x << s) & m).collect()),
                9 => (term::lshr(a.0, c), a.1.iter().map(|x| x >> s).collect()),
                _ => (term::ashr(a.0, c), a.1.iter().map(|x| (sx(*x, w) >> s) as u128 & m).collect()),
            }
        }
        11 => {
            let (a, b) = bin(r);
            let ww = w as u128;
            (term::shl(a.0, b.0), z(&a, &b, &|x, y| if y >= ww { 0 } else { x << y }))
        }
        12 => {
            let (a, b) = bin(r);
            let ww = w as u128;
            (term::lshr(a.0, b.0), z(&a, &b, &|x, y| if y >= ww { 0 } else { x >> y }))
        }
        13 | 14 => {
            let a = gen(r, asg, d - 1, w);
            let c = cval(r, w).max(1);
            let ct = term::cst(c, w);
            if op == 13 {
                (term::udiv(a.0, ct), a.1.iter().map(|x| x / c).collect())
            } else {
                (term::urem(a.0, ct), a.1.iter().map(|x| x % c).collect())
            }
        }
        15 => {
            let c = gen(r, asg, d - 1, 1);
            let (a, b) = bin(r);
            (term::ite(c.0, a.0, b.0), (0..asg.len()).map(|i| if c.1[i] == 1 { a.1[i] } else { b.1[i] }).collect())
        }
        16 if w >= 2 => {
            let k = 1 + r.k(w as u64 - 1) as u32;
            let a = gen(r, asg, d - 1, w - k);
            let b = gen(r, asg, d - 1, k);
            (term::concat(&[a.0, b.0]), (0..asg.len()).map(|i| (a.1[i] << k) | b.1[i]).collect())
        }
        17 | 18 | 19 => {
            let ow = WS[r.k(WS.len() as u64) as usize];
            let a = gen(r, asg, d - 1, ow);
            let b = if r.k(2) == 0 {
                let c = cval(r, ow);
                (term::cst(c, ow), vec![c; asg.len()])
            } else {
                gen(r, asg, d - 1, ow)
            };
            let f: (T, Vec<u128>) = match op {
                17 => (term::eq(a.0, b.0), (0..asg.len()).map(|i| (a.1[i] == b.1[i]) as u128).collect()),
                18 => (term::ult(a.0, b.0), (0..asg.len()).map(|i| (a.1[i] < b.1[i]) as u128).collect()),
                _ => (term::slt(a.0, b.0), (0..asg.len()).map(|i| (sx(a.1[i], ow) < sx(b.1[i], ow)) as u128).collect()),
            };
            fit(r, f, w)
        }
        _ => {
            let ow = WS[r.k(WS.len() as u64) as usize];
            let a = gen(r, asg, d - 1, ow);
            fit(r, a, w)
        }
    }
}

pub fn run(n: u64, seed: u64) -> bool {
    let mut r = R(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let mut z = Z3::new(20_000);
    let mut zq = 0;
    for it in 0..n {
        let asg: Vec<Vec<u8>> = (0..NA).map(|_| (0..NV).map(|_| if r.k(4) == 0 { [0, 255, 128, 1][r.k(4) as usize] } else { r.n() as u8 }).collect()).collect();
        let w = WS[r.k(WS.len() as u64) as usize];
        let depth = 1 + r.k(6) as u32;
        let (t, vals) = gen(&mut r, &asg, depth, w);
        for (a, v) in asg.iter().zip(&vals) {
            let g = term::Eval::new(a).ev(t);
            if term::w(t) != w || g != *v {
                eprintln!("selftest {}: width {} inputs {:?}: term gives {:#x}, direct evaluation {:#x}\n{}", it, w, a, g, v, term::show(t, 12));
                return false;
            }
        }
        if it % 5 == 0 {
            let (a, v) = (&asg[0], vals[0]);
            let doms: Vec<(u32, [u64; 4])> = (0..NV)
                .map(|i| {
                    let mut d = [0u64; 4];
                    d[a[i] as usize / 64] = 1 << (a[i] % 64);
                    (i as u32, d)
                })
                .collect();
            for (k, want) in [(v, false), (v ^ 1, true)] {
                let c = term::ne(t, term::cst(k, w));
                if let Some(b) = term::isc(c) {
                    if (b == 1) != want {
                        return false;
                    }
                    continue;
                }
                zq += 1;
                let ok = match z.check(&[c], &doms) {
                    Res::Sat(_) => want,
                    Res::Unsat => !want,
                    Res::Unknown => true,
                };
                if !ok {
                    eprintln!("selftest {}: solver disagrees on {}", it, term::show(t, 12));
                    return false;
                }
            }
        }
    }
    println!("selftest: {} expressions, {} solver queries agree", n, zq);
    true
}
