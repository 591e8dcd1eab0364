//! Ideal stand-ins for SHA-2.
pub use digest;
pub use digest::Digest;
use digest::consts::{U28, U32, U48, U64};
use orchash::{Name, Orc};
#[derive(Clone, Default)]
pub struct N;
impl Name for N {
    const NAME: &'static str = "sha2";
}
#[derive(Clone, Default)]
pub struct T;
impl Name for T {
    const NAME: &'static str = "sha512t";
}
pub type Sha224 = Orc<N, U28>;
pub type Sha256 = Orc<N, U32>;
pub type Sha384 = Orc<N, U48>;
pub type Sha512 = Orc<N, U64>;
pub type Sha512_224 = Orc<T, U28>;
pub type Sha512_256 = Orc<T, U32>;
