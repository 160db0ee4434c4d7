//! Environment stand-in for the random number generator: the case under check supplies the draws,
//! so that a symbolic path and its native replay see the same ones.
use std::cell::RefCell;
thread_local! { static DRAWS: RefCell<(Vec<f64>, usize)> = const { RefCell::new((Vec::new(), 0)) }; }
/// the draws handed out, cyclically (0.5 when none are given)
pub fn set_draws(v: Vec<f64>) {
    DRAWS.with(|d| *d.borrow_mut() = (v, 0));
}
fn next() -> f64 {
    DRAWS.with(|d| {
        let mut d = d.borrow_mut();
        if d.0.is_empty() {
            return 0.5;
        }
        let x = d.0[d.1 % d.0.len()];
        d.1 += 1;
        x
    })
}
pub trait FromUnit {
    fn from_unit(x: f64) -> Self;
}
impl FromUnit for f64 {
    fn from_unit(x: f64) -> f64 {
        x
    }
}
impl FromUnit for f32 {
    fn from_unit(x: f64) -> f32 {
        x as f32
    }
}
impl FromUnit for bool {
    fn from_unit(x: f64) -> bool {
        x < 0.5
    }
}
pub trait SampleRange<T> {
    fn at(self, x: f64) -> T;
}
impl SampleRange<f64> for std::ops::Range<f64> {
    fn at(self, x: f64) -> f64 {
        self.start + (self.end - self.start) * x
    }
}
impl SampleRange<f64> for std::ops::RangeInclusive<f64> {
    fn at(self, x: f64) -> f64 {
        *self.start() + (*self.end() - *self.start()) * x
    }
}
pub trait RngCore {}
pub trait Rng: RngCore {
    fn random<T: FromUnit>(&mut self) -> T {
        T::from_unit(next())
    }
    fn random_range<T, R: SampleRange<T>>(&mut self, r: R) -> T {
        r.at(next())
    }
    fn random_bool(&mut self, p: f64) -> bool {
        next() < p
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod rngs {
    #[derive(Clone, Debug)]
    pub struct ThreadRng;
    impl super::RngCore for ThreadRng {}
    #[derive(Clone, Debug)]
    pub struct StdRng;
    impl super::RngCore for StdRng {}
    #[derive(Clone, Debug)]
    pub struct SmallRng;
    impl super::RngCore for SmallRng {}
}
pub fn rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
pub fn random<T: FromUnit>() -> T {
    T::from_unit(next())
}
pub mod prelude {
    pub use super::{rngs::*, Rng, RngCore};
}
