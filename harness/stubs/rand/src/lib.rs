//! Stand-in for rand: every random number is an arbitrary value of its range.
use std::ops::{Range, RangeInclusive};
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: Any>() -> T { T::any() }
pub trait Any { fn any() -> Self; }
impl Any for f32 { fn any() -> f32 { ctl::rnd_f32(|| nd::range_f32(0.0, 1.0 - f32::EPSILON / 2.0)) } }
impl Any for bool { fn any() -> bool { ctl::rnd_u64(|| nd::bool() as u64) != 0 } }
impl Any for u8 { fn any() -> u8 { ctl::rnd_u64(|| nd::u8() as u64) as u8 } }
impl Any for u32 { fn any() -> u32 { ctl::rnd_u64(|| nd::u32() as u64) as u32 } }
pub trait SampleRange<T> { fn pick(self) -> T; }
impl SampleRange<f32> for RangeInclusive<f32> { fn pick(self) -> f32 { ctl::rnd_f32(|| nd::range_f32(*self.start(), *self.end())) } }
impl SampleRange<f32> for Range<f32> { fn pick(self) -> f32 { ctl::rnd_f32(|| { let v = nd::range_f32(self.start, self.end); nd::assume(v < self.end); v }) } }
macro_rules! ints { ($($t:ty),*) => { $(
impl SampleRange<$t> for Range<$t> { fn pick(self) -> $t { assert!(self.start < self.end); (self.start as i64 + ctl::rnd_u64(|| nd::range(0, (self.end as i64 - self.start as i64 - 1) as u32) as u64) as i64) as $t } }
impl SampleRange<$t> for RangeInclusive<$t> { fn pick(self) -> $t { (*self.start() as i64 + ctl::rnd_u64(|| nd::range(0, (*self.end() as i64 - *self.start() as i64) as u32) as u64) as i64) as $t } }
)* } }
ints!(i32, u32, u8, usize, i64);
pub trait RngCore {}
impl RngCore for ThreadRng {}
impl<'a, R: RngCore> RngCore for &'a mut R {}
pub trait Rng: RngCore {
    fn gen<T: Any>(&mut self) -> T { T::any() }
    fn gen_bool(&mut self, _p: f64) -> bool { bool::any() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T { d.sample(self) }
}
impl<R: RngCore> Rng for R {}
pub mod distributions {
    pub trait Distribution<T> { fn sample<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> T; }
}
pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::{random, thread_rng, Rng, RngCore, ThreadRng};
}
