//! A `digest`-compatible ideal hash: `Orc<Name, OutSize>`.
use digest::{generic_array::ArrayLength, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
use std::marker::PhantomData;

pub use digest;

pub trait Name: Clone + Default + 'static {
    const NAME: &'static str;
}

#[derive(Clone)]
pub struct Orc<N, S> {
    data: Vec<u8>,
    p: PhantomData<(N, S)>,
}
impl<N, S> Default for Orc<N, S> {
    fn default() -> Self {
        Orc { data: vec![], p: PhantomData }
    }
}
impl<N: Name, S: ArrayLength<u8> + 'static> OutputSizeUser for Orc<N, S> {
    type OutputSize = S;
}
impl<N: Name, S> HashMarker for Orc<N, S> {}
impl<N, S> Update for Orc<N, S> {
    fn update(&mut self, d: &[u8]) {
        self.data.extend_from_slice(d);
    }
}
impl<N: Name, S: ArrayLength<u8> + 'static> FixedOutput for Orc<N, S> {
    fn finalize_into(self, out: &mut Output<Self>) {
        let tag = format!("{}-{}", N::NAME, S::USIZE * 8);
        symrt::orc(&tag, &self.data, out.as_mut_slice());
    }
}
impl<N, S> Reset for Orc<N, S> {
    fn reset(&mut self) {
        self.data.clear();
    }
}
impl<N: Name, S: ArrayLength<u8> + 'static> FixedOutputReset for Orc<N, S> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        let tag = format!("{}-{}", N::NAME, S::USIZE * 8);
        symrt::orc(&tag, &self.data, out.as_mut_slice());
        self.data.clear();
    }
}
