//! Stand-in for rand_distr.
pub use rand::distributions::Distribution;
#[derive(Clone, Copy, Debug)]
pub struct StandardNormal;
impl Distribution<f32> for StandardNormal { fn sample<R: rand::RngCore + ?Sized>(&self, _: &mut R) -> f32 { ctl::rnd_f32(|| nd::range_f32(-64.0, 64.0)) } }
pub mod num_traits {
    pub trait Pow<R> { type Output; fn pow(self, r: R) -> Self::Output; }
    impl Pow<f64> for f64 { type Output = f64; fn pow(self, r: f64) -> f64 { self.powf(r) } }
    impl Pow<f32> for f32 { type Output = f32; fn pow(self, r: f32) -> f32 { self.powf(r) } }
    impl Pow<f32> for f64 { type Output = f64; fn pow(self, r: f32) -> f64 { self.powf(r as f64) } }
    impl Pow<i32> for f64 { type Output = f64; fn pow(self, r: i32) -> f64 { self.powi(r) } }
    impl Pow<i32> for f32 { type Output = f32; fn pow(self, r: i32) -> f32 { self.powi(r) } }
}
