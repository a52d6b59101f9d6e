//! Randomness model: every draw is an arbitrary value of the documented range.
#![allow(unused, clippy::all)]
pub struct ThreadRng;
pub fn rng() -> ThreadRng { ThreadRng }
pub trait RngCore { fn next_u64(&mut self) -> u64; }
impl RngCore for ThreadRng { fn next_u64(&mut self) -> u64 { nd::u64() } }
pub trait SampleRange { fn pick(self) -> usize; }
impl SampleRange for std::ops::Range<usize> { fn pick(self) -> usize { assert!(self.start < self.end, "cannot sample empty range"); let x = nd::usize(); nd::assume(x >= self.start && x < self.end); x } }
impl SampleRange for std::ops::RangeInclusive<usize> { fn pick(self) -> usize { assert!(self.start() <= self.end(), "cannot sample empty range"); let x = nd::usize(); nd::assume(x >= *self.start() && x <= *self.end()); x } }
pub trait Rng: RngCore { fn random_range<R: SampleRange>(&mut self, r: R) -> usize { r.pick() } fn gen_range<R: SampleRange>(&mut self, r: R) -> usize { r.pick() } fn random_bool(&mut self, _p: f64) -> bool { nd::bool() } }
impl Rng for ThreadRng {}
pub mod seq {
    /// A random permutation, one arbitrary swap per position (Fisher-Yates).
    pub trait SliceRandom { fn shuffle<R>(&mut self, r: &mut R); }
    impl<T> SliceRandom for [T] { fn shuffle<R>(&mut self, _r: &mut R) { let mut i = self.len(); while i > 1 { i -= 1; let j = nd::usize(); nd::assume(j <= i); self.swap(i, j); } } }
    pub trait IndexedRandom { type Output; fn choose<R>(&self, r: &mut R) -> Option<&Self::Output>; }
    impl<T> IndexedRandom for [T] { type Output = T; fn choose<R>(&self, _r: &mut R) -> Option<&T> { if self.is_empty() { None } else { let j = nd::usize(); nd::assume(j < self.len()); Some(&self[j]) } } }
    pub mod index { pub struct IndexVec(Vec<usize>); impl IndexVec { pub fn into_vec(self) -> Vec<usize> { self.0 } pub fn iter(&self) -> impl Iterator<Item = usize> + '_ { self.0.iter().copied() } pub fn len(&self) -> usize { self.0.len() } } impl IntoIterator for IndexVec { type Item = usize; type IntoIter = std::vec::IntoIter<usize>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
        pub fn sample<R>(_r: &mut R, length: usize, amount: usize) -> IndexVec { assert!(amount <= length); IndexVec((0..amount).collect()) } }
}
pub mod prelude { pub use super::*; pub use super::seq::*; }
