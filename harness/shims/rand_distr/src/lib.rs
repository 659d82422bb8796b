//! Stand-in for `rand_distr` on top of the scripted `rand`.
pub use rand::distributions::{Distribution, Standard, Uniform};
use rand::Rng;

#[derive(Clone, Copy, Debug)]
pub struct Normal<F> { m: F, sd: F }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NormalError { MeanTooSmall, BadVariance }
impl std::fmt::Display for NormalError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "bad variance") } }
impl std::error::Error for NormalError {}
impl Normal<f64> {
    pub fn new(m: f64, sd: f64) -> Result<Self, NormalError> { if sd.is_finite() { Ok(Normal { m, sd }) } else { Err(NormalError::BadVariance) } }
    pub fn mean(&self) -> f64 { self.m }
    pub fn std_dev(&self) -> f64 { self.sd }
}
impl Distribution<f64> for Normal<f64> { fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { self.m + self.sd * rand::script::n01() } }
#[derive(Clone, Copy, Debug)]
pub struct StandardNormal;
impl Distribution<f64> for StandardNormal { fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { rand::script::n01() } }
