//! Ideal stand-ins for BLAKE2.
pub use digest;
pub use digest::Digest;
use digest::consts::{U32, U64};
use orchash::{Name, Orc};
#[derive(Clone, Default)]
pub struct B;
impl Name for B {
    const NAME: &'static str = "blake2b";
}
#[derive(Clone, Default)]
pub struct S;
impl Name for S {
    const NAME: &'static str = "blake2s";
}
pub type Blake2b<O> = Orc<B, O>;
pub type Blake2s<O> = Orc<S, O>;
pub type Blake2b512 = Blake2b<U64>;
pub type Blake2s256 = Blake2s<U32>;
