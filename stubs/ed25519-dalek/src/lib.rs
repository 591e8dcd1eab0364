//! Ideal stand-in for Ed25519: public keys and signatures come from oracles, and exactly the
//! signatures that were produced verify.
pub use signature::{self, Error as SignatureError, Signer, Verifier};
use rc::CryptoRngCore;

pub const SECRET_KEY_LENGTH: usize = 32;
pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SIGNATURE_LENGTH: usize = 64;
pub const KEYPAIR_LENGTH: usize = 64;
pub type SecretKey = [u8; 32];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Signature([u8; 64]);
impl Signature {
    pub const BYTE_SIZE: usize = 64;
    pub fn from_bytes(b: &[u8; 64]) -> Self {
        Signature(*b)
    }
    pub fn from_slice(b: &[u8]) -> Result<Self, SignatureError> {
        if b.len() != 64 {
            return Err(SignatureError::new());
        }
        let mut x = [0u8; 64];
        x.copy_from_slice(b);
        Ok(Signature(x))
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        self.0
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn r_bytes(&self) -> &[u8; 32] {
        self.0[..32].try_into().unwrap()
    }
    pub fn s_bytes(&self) -> &[u8; 32] {
        self.0[32..].try_into().unwrap()
    }
}
impl TryFrom<&[u8]> for Signature {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        Signature::from_slice(b)
    }
}
impl From<[u8; 64]> for Signature {
    fn from(b: [u8; 64]) -> Self {
        Signature(b)
    }
}
impl From<&[u8; 64]> for Signature {
    fn from(b: &[u8; 64]) -> Self {
        Signature(*b)
    }
}
impl signature::SignatureEncoding for Signature {
    type Repr = [u8; 64];
}
impl From<Signature> for [u8; 64] {
    fn from(s: Signature) -> Self {
        s.0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct VerifyingKey([u8; 32]);
impl VerifyingKey {
    pub fn from_bytes(b: &[u8; 32]) -> Result<Self, SignatureError> {
        if symrt::orc_verify("ed25519-key", b, &[1]) || symrt::orc_bit("ed25519-point", b) {
            Ok(VerifyingKey(*b))
        } else {
            Err(SignatureError::new())
        }
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    /// keys derived from seeds are never weak in this model
    pub fn is_weak(&self) -> bool {
        !symrt::orc_verify("ed25519-key", &self.0, &[1]) && symrt::orc_bit("ed25519-weak", &self.0)
    }
    pub fn verify_strict(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.verify(msg, sig)
    }
}
impl AsRef<[u8]> for VerifyingKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl TryFrom<&[u8]> for VerifyingKey {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        let a: &[u8; 32] = b.try_into().map_err(|_| SignatureError::new())?;
        VerifyingKey::from_bytes(a)
    }
}
fn pkmsg(pk: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut v = pk.to_vec();
    v.extend_from_slice(msg);
    v
}
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        if symrt::orc_verify("ed25519", &pkmsg(&self.0, msg), &sig.0) {
            Ok(())
        } else {
            Err(SignatureError::new())
        }
    }
}
impl From<&SigningKey> for VerifyingKey {
    fn from(k: &SigningKey) -> Self {
        k.vk
    }
}

#[derive(Clone, Debug)]
pub struct SigningKey {
    seed: [u8; 32],
    vk: VerifyingKey,
}
impl SigningKey {
    pub fn from_bytes(b: &[u8; 32]) -> Self {
        let mut pk = [0u8; 32];
        symrt::orc("ed25519-pk", b, &mut pk);
        symrt::orc_sign("ed25519-key", &pk, &[1]);
        SigningKey { seed: *b, vk: VerifyingKey(pk) }
    }
    pub fn generate<R: CryptoRngCore + ?Sized>(r: &mut R) -> Self {
        let mut b = [0u8; 32];
        r.fill_bytes(&mut b);
        SigningKey::from_bytes(&b)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.seed
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.seed
    }
    pub fn to_keypair_bytes(&self) -> [u8; 64] {
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&self.seed);
        b[32..].copy_from_slice(&self.vk.0);
        b
    }
    pub fn verifying_key(&self) -> VerifyingKey {
        self.vk
    }
    pub fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.vk.verify(msg, sig)
    }
}
impl From<[u8; 32]> for SigningKey {
    fn from(b: [u8; 32]) -> Self {
        SigningKey::from_bytes(&b)
    }
}
impl From<&[u8; 32]> for SigningKey {
    fn from(b: &[u8; 32]) -> Self {
        SigningKey::from_bytes(b)
    }
}
impl TryFrom<&[u8]> for SigningKey {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        let a: &[u8; 32] = b.try_into().map_err(|_| SignatureError::new())?;
        Ok(SigningKey::from_bytes(a))
    }
}
impl Signer<Signature> for SigningKey {
    fn try_sign(&self, msg: &[u8]) -> Result<Signature, SignatureError> {
        let mut s = [0u8; 64];
        symrt::orc("ed25519-sig", &pkmsg(&self.seed, msg), &mut s);
        symrt::orc_sign("ed25519", &pkmsg(&self.vk.0, msg), &s);
        Ok(Signature(s))
    }
}
impl Verifier<Signature> for SigningKey {
    fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        Verifier::verify(&self.vk, msg, sig)
    }
}
impl AsRef<VerifyingKey> for SigningKey {
    fn as_ref(&self) -> &VerifyingKey {
        &self.vk
    }
}
impl SigningKey {
    pub fn from_keypair_bytes(b: &[u8; 64]) -> Result<Self, SignatureError> {
        let k = SigningKey::from_bytes(b[..32].try_into().unwrap());
        if k.vk.0[..] == b[32..] {
            Ok(k)
        } else {
            Err(SignatureError::new())
        }
    }
    pub fn verify_strict(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.vk.verify(msg, sig)
    }
}
