//! Ideal stand-in for ECDSA over a named curve.
#[macro_export]
macro_rules! curve {
    ($name:literal, $order:expr) => {
        pub use $crate::signature;
        use $crate::rand_core::CryptoRngCore;
        use $crate::signature::{RandomizedSigner, Signer, Verifier};
        pub use $crate::signature::Error;
        pub type Result<T> = core::result::Result<T, Error>;

        const ORDER: [u8; 32] = $order;

        /// 0 < x < order, without branching on the bytes
        fn scalar_ok(b: &[u8]) -> bool {
            let mut nz = 0u8;
            for x in b {
                nz |= *x;
            }
            (nz != 0) & (b < &ORDER[..])
        }

        fn join(a: &[u8], b: &[u8]) -> Vec<u8> {
            let mut v = a.to_vec();
            v.extend_from_slice(b);
            v
        }

        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct Signature([u8; 64]);
        impl Signature {
            pub fn from_slice(b: &[u8]) -> Result<Self> {
                if b.len() != 64 || !(scalar_ok(&b[..32]) & scalar_ok(&b[32..])) {
                    return Err(Error::new());
                }
                let mut x = [0u8; 64];
                x.copy_from_slice(b);
                Ok(Signature(x))
            }
            pub fn from_bytes(b: &[u8; 64]) -> Result<Self> {
                Signature::from_slice(&b[..])
            }
            pub fn to_bytes(&self) -> [u8; 64] {
                self.0
            }
            pub fn to_vec(&self) -> Vec<u8> {
                self.0.to_vec()
            }
            pub fn normalize_s(&self) -> Option<Self> {
                None
            }
        }
        impl TryFrom<&[u8]> for Signature {
            type Error = Error;
            fn try_from(b: &[u8]) -> Result<Self> {
                Signature::from_slice(b)
            }
        }
        impl signature::SignatureEncoding for Signature {
            type Repr = [u8; 64];
        }
        impl From<Signature> for [u8; 64] {
            fn from(s: Signature) -> Self {
                s.0
            }
        }

        #[derive(Clone, PartialEq, Eq, Debug)]
        pub struct EncodedPoint(Vec<u8>);
        impl EncodedPoint {
            pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<Self> {
                Ok(EncodedPoint(b.as_ref().to_vec()))
            }
            pub fn is_compressed(&self) -> bool {
                self.0.len() == 33
            }
            pub fn compress(&self) -> Self {
                assert!(self.0.len() == 33, "stand-in");
                self.clone()
            }
            pub fn as_bytes(&self) -> &[u8] {
                &self.0
            }
            pub fn to_bytes(&self) -> Box<[u8]> {
                self.0.clone().into_boxed_slice()
            }
        }
        impl AsRef<[u8]> for EncodedPoint {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }

        #[derive(Clone, PartialEq, Eq, Debug)]
        pub struct VerifyingKey([u8; 33]);
        impl VerifyingKey {
            pub fn from_sec1_bytes(b: &[u8]) -> Result<Self> {
                if b.len() == 33 {
                    let tag_ok = (b[0] == 2) | (b[0] == 3);
                    if tag_ok && (symrt::orc_verify(concat!($name, "-key"), b, &[1]) || symrt::orc_bit(concat!($name, "-point"), b)) {
                        let mut x = [0u8; 33];
                        x.copy_from_slice(b);
                        return Ok(VerifyingKey(x));
                    }
                }
                Err(Error::new())
            }
            pub fn from_encoded_point(p: &EncodedPoint) -> Result<Self> {
                VerifyingKey::from_sec1_bytes(&p.0)
            }
            pub fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
                if compress {
                    EncodedPoint(self.0.to_vec())
                } else {
                    let mut v = vec![0u8; 65];
                    symrt::orc(concat!($name, "-affine"), &self.0, &mut v[1..]);
                    v[0] = 4;
                    EncodedPoint(v)
                }
            }
            pub fn to_sec1_bytes(&self) -> Box<[u8]> {
                self.0.to_vec().into_boxed_slice()
            }
        }
        impl TryFrom<&[u8]> for VerifyingKey {
            type Error = Error;
            fn try_from(b: &[u8]) -> Result<Self> {
                VerifyingKey::from_sec1_bytes(b)
            }
        }
        impl From<&VerifyingKey> for EncodedPoint {
            fn from(k: &VerifyingKey) -> Self {
                k.to_encoded_point(true)
            }
        }
        impl From<VerifyingKey> for EncodedPoint {
            fn from(k: VerifyingKey) -> Self {
                k.to_encoded_point(true)
            }
        }
        impl AsRef<VerifyingKey> for SigningKey {
            fn as_ref(&self) -> &VerifyingKey {
                &self.vk
            }
        }
        impl From<SigningKey> for VerifyingKey {
            fn from(k: SigningKey) -> Self {
                k.vk
            }
        }
        impl From<&SigningKey> for VerifyingKey {
            fn from(k: &SigningKey) -> Self {
                k.vk.clone()
            }
        }
        impl Verifier<Signature> for VerifyingKey {
            fn verify(&self, msg: &[u8], sig: &Signature) -> Result<()> {
                if symrt::orc_verify($name, &join(&self.0, msg), &sig.0) {
                    Ok(())
                } else {
                    Err(Error::new())
                }
            }
        }

        #[derive(Clone, Debug)]
        pub struct SigningKey {
            seed: [u8; 32],
            vk: VerifyingKey,
        }
        impl SigningKey {
            pub fn from_slice(b: &[u8]) -> Result<Self> {
                if b.len() != 32 || !scalar_ok(b) {
                    return Err(Error::new());
                }
                let mut seed = [0u8; 32];
                seed.copy_from_slice(b);
                let mut pk = [0u8; 33];
                symrt::orc(concat!($name, "-pk"), &seed, &mut pk);
                symrt::assume((pk[0] == 2) | (pk[0] == 3));
                symrt::orc_sign(concat!($name, "-key"), &pk, &[1]);
                Ok(SigningKey { seed, vk: VerifyingKey(pk) })
            }
            pub fn from_bytes(b: &[u8; 32]) -> Result<Self> {
                SigningKey::from_slice(&b[..])
            }
            pub fn random(r: &mut impl CryptoRngCore) -> Self {
                let mut b = [0u8; 32];
                r.fill_bytes(&mut b);
                symrt::assume(scalar_ok(&b));
                SigningKey::from_slice(&b).unwrap()
            }
            pub fn to_bytes(&self) -> [u8; 32] {
                self.seed
            }
            pub fn verifying_key(&self) -> &VerifyingKey {
                &self.vk
            }
            fn go(&self, msg: &[u8], extra: &[u8]) -> Signature {
                let mut s = [0u8; 64];
                let mut d = self.seed.to_vec();
                d.extend_from_slice(extra);
                d.extend_from_slice(msg);
                symrt::orc(concat!($name, "-sig"), &d, &mut s);
                symrt::assume(scalar_ok(&s[..32]) & scalar_ok(&s[32..]));
                symrt::orc_sign($name, &join(&self.vk.0, msg), &s);
                Signature(s)
            }
        }
        impl TryFrom<&[u8]> for SigningKey {
            type Error = Error;
            fn try_from(b: &[u8]) -> Result<Self> {
                SigningKey::from_slice(b)
            }
        }
        impl Signer<Signature> for SigningKey {
            fn try_sign(&self, msg: &[u8]) -> Result<Signature> {
                Ok(self.go(msg, &[]))
            }
        }
        impl RandomizedSigner<Signature> for SigningKey {
            fn try_sign_with_rng(&self, rng: &mut impl CryptoRngCore, msg: &[u8]) -> Result<Signature> {
                let mut x = [0u8; 32];
                rng.fill_bytes(&mut x);
                Ok(self.go(msg, &x))
            }
        }
    };
}
pub use rand_core;
pub use signature;
