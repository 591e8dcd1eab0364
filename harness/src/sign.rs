//! Signing and verifying.
use crate::spec::*;
use keride::cesr::*;
use keride::signing::Signer;
use symrt::*;

struct Suite {
    tag: &'static str,
    seed: &'static str,
    key: [&'static str; 2],
    sig: &'static str,
    small: &'static str,
    small_only: &'static str,
    big: &'static str,
    big_only: &'static str,
    keylen: usize,
}
const SUITES: [Suite; 3] = [
    Suite { tag: "ed25519", seed: "A", key: ["B", "D"], sig: "0B", small: "A", small_only: "B", big: "2A", big_only: "2B", keylen: 32 },
    Suite { tag: "k256", seed: "J", key: ["1AAA", "1AAB"], sig: "0C", small: "C", small_only: "D", big: "2C", big_only: "2D", keylen: 33 },
    Suite { tag: "p256", seed: "Q", key: ["1AAI", "1AAJ"], sig: "0I", small: "E", small_only: "F", big: "2E", big_only: "2F", keylen: 33 },
];

/// a signer with a symbolic seed
fn signer(s: &Suite, name: &str, t: bool) -> (Vec<u8>, Signer) {
    let seed = vec(name, 32);
    if s.tag != "ed25519" {
        // surely within the group order
        assume(seed[0] < 0xff && seed[31] != 0);
    }
    let x = ok(Signer::new_with_raw(&seed, Some(t), Some(s.seed)), "a signer from a seed");
    (seed, x)
}
fn public(s: &Suite, seed: &[u8]) -> Vec<u8> {
    let mut pk = vec![0; s.keylen];
    orc(&format!("{}-pk", s.tag), seed, &mut pk);
    pk
}
/// the signer again, by any route
fn again(x: Signer, t: bool) -> Signer {
    match choose("route", 5) {
        0 => x,
        1 => ok(Signer::new_with_raw(&x.raw(), Some(t), Some(&x.code())), "raw"),
        2 => ok(Signer::new_with_qb64(&ok(x.qb64(), "qb64"), Some(t)), "qb64"),
        3 => ok(Signer::new_with_qb64b(&ok(x.qb64b(), "qb64b"), Some(t)), "qb64b"),
        _ => ok(Signer::new_with_qb2(&ok(x.qb2(), "qb2"), Some(t)), "qb2"),
    }
}
fn key(v: &Verfer) -> Verfer {
    match choose("key route", 3) {
        0 => v.clone(),
        1 => ok(Verfer::new_with_qb64(&ok(v.qb64(), "qb64")), "qb64"),
        _ => ok(Verfer::new_with_qb2(&ok(v.qb2(), "qb2")), "qb2"),
    }
}

harnesses! {
    /// an unindexed signature verifies under its key and message only
    fn h_sign() {
        let s = &SUITES[param("suite") as usize];
        let n = choose("length", param("n") as usize + 1);
        let m = choose("other length", param("n") as usize + 1);
        let t = flag("transferable");
        let t = if t { true } else { false };
        let (seed, x) = signer(s, "seed", t);
        let x = again(x, t);
        check(x.code() == s.seed && same(&x.raw(), &seed), "the seed");
        let v = x.verfer();
        check(v.code() == s.key[t as usize], "the key's code");
        check(same(&v.raw(), &public(s, &seed)), "the seed's key");
        let msg = vec("message", n);
        let c = ok(x.sign_unindexed(&msg), "a signature");
        check(c.code() == s.sig, "the signature's code");
        check(c.verfer().code() == v.code() && same(&c.verfer().raw(), &v.raw()), "the signature's key");
        check(c.raw().len() == 64, "64 bytes");
        let k = key(&v);
        check(ok(k.verify(&c.raw(), &msg), "verify"), "verifies");
        check(ok(c.verfer().verify(&c.raw(), &msg), "verify"), "verifies");
        reach("verified");
        let other = vec("other", m);
        check(ok(k.verify(&c.raw(), &other), "verify") == same(&msg, &other), "verifies no other message");
        let t2 = choose("other transferable", 2) == 1;
        let (seed2, y) = signer(s, "other seed", t2);
        if ok(y.verfer().verify(&c.raw(), &msg), "verify") {
            reach("same key");
            check(same(&seed, &seed2), "verifies under no other key");
        } else {
            reach("other key");
            check(!same(&seed, &seed2), "verifies under the same key");
        }
    }

    /// an indexed signature carries what was asked for
    fn h_indexed() {
        let s = &SUITES[param("suite") as usize];
        let (_, x) = signer(s, "seed", true);
        let msg = vec("message", param("n") as usize);
        let only = choose("only", 2) == 1;
        let index = u32("index");
        let given = choose("ondex given", 2) == 1;
        let ondex = if given { Some(u32("ondex")) } else { None };
        let both = ondex.unwrap_or(index);
        let small = index < 64 && (only || both == index);
        let fits = index < 4096 && (only || both < 4096);
        let r = x.sign_indexed(&msg, only, index, ondex);
        let g = match r {
            Ok(g) => g,
            Err(_) => {
                reach("refused");
                check(!fits, "an index that fits is accepted");
                return;
            }
        };
        check(fits, "an index that does not fit is refused");
        let want = match (only, small) {
            (false, true) => s.small,
            (true, true) => s.small_only,
            (false, false) => s.big,
            (true, false) => s.big_only,
        };
        check(g.code() == want, "the signature's code");
        check(g.index() == index, "the index");
        if !only {
            check(g.ondex() == both, "the other index");
        }
        check(same(&g.verfer().raw(), &x.verfer().raw()) && g.verfer().code() == x.verfer().code(), "the signature's key");
        check(ok(g.verfer().verify(&g.raw(), &msg), "verify"), "verifies");
        reach("signed");
        let b = match choose("route", 2) {
            0 => ok(Siger::new_with_qb64(&ok(g.qb64(), "qb64"), Some(&x.verfer())), "qb64"),
            _ => ok(Siger::new_with_qb2(&ok(g.qb2(), "qb2"), Some(&x.verfer())), "qb2"),
        };
        check(b.code() == g.code() && b.index() == index && (only || b.ondex() == both), "kept by its encodings");
        check(ok(b.verfer().verify(&b.raw(), &msg), "verify"), "verifies");
    }

    /// any bytes as signature
    fn h_badsig() {
        let s = &SUITES[param("suite") as usize];
        let (_, x) = signer(s, "seed", true);
        let msg = vec("message", 2);
        let c = ok(x.sign_unindexed(&msg), "a signature");
        let lens = [0, 1, 31, 32, 63, 64, 65, 66, 96, 128];
        let sig = vec("signature", lens[choose("signature length", lens.len())]);
        let other = vec("other", 2);
        match x.verfer().verify(&sig, &other) {
            Ok(true) => {
                reach("verified");
                check(same(&sig, &c.raw()) & same(&msg, &other), "only what was signed verifies");
            }
            Ok(false) => {
                reach("not verified");
                check(!(same(&sig, &c.raw()) & same(&msg, &other)), "what was signed verifies");
            }
            Err(_) => {
                reach("refused");
                check(!(same(&sig, &c.raw()) & same(&msg, &other)), "what was signed verifies");
            }
        }
    }

    /// any bytes as key
    fn h_badkey() {
        let s = &SUITES[param("suite") as usize];
        let t = choose("transferable", 2);
        let (seed, x) = signer(s, "seed", true);
        let msg = vec("message", 2);
        let c = ok(x.sign_unindexed(&msg), "a signature");
        let k = vec("key", s.keylen);
        let v = ok(Verfer::new_with_raw(&k, Some(s.key[t])), "a key");
        let mine = public(s, &seed);
        match v.verify(&c.raw(), &msg) {
            Ok(true) => {
                reach("verified");
                check(same(&k, &mine), "verifies under its key only");
            }
            Ok(false) => {
                reach("not verified");
                check(!same(&k, &mine), "verifies under its key");
            }
            Err(_) => {
                reach("refused");
                check(!same(&k, &mine), "verifies under its key");
            }
        }
    }

    /// another suite's key
    fn h_cross() {
        let a = choose("suite", 3);
        let b = choose("other suite", 3);
        assume(a != b);
        let (s, o) = (&SUITES[a], &SUITES[b]);
        let (seed, x) = signer(s, "seed", true);
        let y = if o.tag == "ed25519" || s.tag != "ed25519" || choose("same seed", 2) == 0 { signer(o, "other seed", choose("transferable", 2) == 1).1 } else {
            assume(seed[0] < 0xff && seed[31] != 0);
            ok(Signer::new_with_raw(&seed, None, Some(o.seed)), "signer")
        };
        let msg = vec("message", 2);
        let c = ok(x.sign_unindexed(&msg), "a signature");
        let g = ok(x.sign_indexed(&msg, false, 1, None), "a signature");
        check(!matches!(y.verfer().verify(&c.raw(), &msg), Ok(true)), "no other suite's key verifies");
        check(!matches!(y.verfer().verify(&g.raw(), &msg), Ok(true)), "no other suite's key verifies");
        // the same bytes under another suite's code
        let k = x.verfer().raw();
        if o.keylen == k.len() {
            if let Ok(v) = Verfer::new_with_raw(&k, Some(o.key[1])) {
                check(!matches!(v.verify(&c.raw(), &msg), Ok(true)), "no other suite's key verifies");
            }
        }
        reach("refused");
    }

    /// signers from random seeds
    fn h_random() {
        let k = choose("suite", 4);
        let (code, s) = if k == 3 { (None, &SUITES[0]) } else { (Some(SUITES[k].seed), &SUITES[k]) };
        let t = choose("transferable", 3);
        let t = [None, Some(false), Some(true)][t];
        let x = ok(Signer::new_with_defaults(t, code), "a signer");
        let y = ok(Signer::new_with_defaults(t, code), "a signer");
        check(x.code() == s.seed, "the seed's code");
        check(x.raw().len() == 32, "32 bytes");
        check(x.verfer().code() == s.key[t.unwrap_or(true) as usize], "the key's code");
        check(same(&x.verfer().raw(), &public(s, &x.raw())), "the seed's key");
        let z = ok(Signer::new_with_qb64(&ok(x.qb64(), "qb64"), t), "rebuilt");
        check(same(&z.verfer().raw(), &x.verfer().raw()) && z.verfer().code() == x.verfer().code(), "a rebuilt signer has its key");
        if !same(&x.raw(), &y.raw()) {
            reach("two seeds");
            check(!same(&x.verfer().raw(), &y.verfer().raw()), "other seed, other key");
        }
        let msg = vec("message", 2);
        let c = ok(z.sign_unindexed(&msg), "a signature");
        check(ok(x.verfer().verify(&c.raw(), &msg), "verify"), "verifies");
        reach("verified");
    }

    /// any 32 bytes as seed
    fn h_seed() {
        let s = &SUITES[choose("suite", 3)];
        let seed = vec("seed", 32);
        let order: [u8; 32] = match s.tag {
            "k256" => [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41],
            _ => [0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51],
        };
        let mut any = 0;
        for b in &seed {
            any |= *b;
        }
        let good = s.tag == "ed25519" || (any != 0 && seed[..] < order[..]);
        let enc = fixed(s.seed, &seed);
        match Signer::new_with_qb64(&enc, None) {
            Ok(x) => {
                reach("made");
                check(good, "no key for such a seed");
                check(same(&x.raw(), &seed) && same(&x.verfer().raw(), &public(s, &seed)), "the seed's key");
            }
            Err(_) => {
                reach("refused");
                check(!good, "a seed is accepted");
            }
        }
    }
}
