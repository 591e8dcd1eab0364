//! The only change to this crate: the default hasher gives every key the same hash, so that a lookup
//! compares keys one after the other and no table position depends on a key's content.
use core::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}
pub struct Flat;
impl BuildHasher for RandomState {
    type Hasher = Flat;
    fn build_hasher(&self) -> Flat {
        Flat
    }
}
impl Hasher for Flat {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        0
    }
}
