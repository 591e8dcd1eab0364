//! Ideal stand-ins for SHA-3 and Keccak.
pub use digest;
pub use digest::Digest;
use digest::consts::{U28, U32, U48, U64};
use orchash::{Name, Orc};
#[derive(Clone, Default)]
pub struct N;
impl Name for N {
    const NAME: &'static str = "sha3";
}
#[derive(Clone, Default)]
pub struct K;
impl Name for K {
    const NAME: &'static str = "keccak";
}
pub type Sha3_224 = Orc<N, U28>;
pub type Sha3_256 = Orc<N, U32>;
pub type Sha3_384 = Orc<N, U48>;
pub type Sha3_512 = Orc<N, U64>;
pub type Keccak224 = Orc<K, U28>;
pub type Keccak256 = Orc<K, U32>;
pub type Keccak384 = Orc<K, U48>;
pub type Keccak512 = Orc<K, U64>;
