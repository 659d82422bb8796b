//! Stand-in for the `rand` crate used by the checks' harness: every draw comes from a seeded
//! generator with edge values mixed in, and is recorded, so that contracts over the ghost
//! draws U01(k), Gidx(k,n), N01(k) can be evaluated on what the real code did.
use std::cell::RefCell;

pub mod script {
    use super::*;
    pub struct St {
        pub s: u64,
        pub log: String,
        pub on: bool,
        pub n: usize,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St { s: 0x9E37_79B9_7F4A_7C15, log: String::new(), on: false, n: 0 }); }
    pub fn reset(seed: u64) {
        ST.with(|x| {
            let mut x = x.borrow_mut();
            x.s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
            x.log.clear();
            x.on = true;
            x.n = 0;
        })
    }
    pub fn take() -> (usize, String) {
        ST.with(|x| {
            let mut x = x.borrow_mut();
            let n = x.n;
            x.n = 0;
            (n, std::mem::take(&mut x.log))
        })
    }
    fn raw() -> u64 {
        ST.with(|x| {
            let mut x = x.borrow_mut();
            x.s = x.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x.s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        })
    }
    fn note(k: char, n: u64, v: u64) {
        ST.with(|x| {
            let mut x = x.borrow_mut();
            if x.on && x.n < 200_000 {
                x.n += 1;
                x.log.push_str(&format!(" {} {} {:x}", k, n, v));
            }
        })
    }
    fn unit() -> f64 {
        (raw() >> 11) as f64 / 9007199254740992.0
    }
    pub fn u01() -> f64 {
        let v = match raw() % 40 {
            0 => 0.0,
            1 => 1.0 - 1.0 / 9007199254740992.0,
            2 => 0.5,
            3 => 0.25,
            _ => unit(),
        };
        note('u', 0, v.to_bits());
        v
    }
    pub fn idx(n: u64) -> u64 {
        let v = match raw() % 8 {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => raw() % n,
        };
        note('g', n, v);
        v
    }
    pub fn n01() -> f64 {
        let a = unit().max(1e-300);
        let b = unit();
        let v = (-2.0 * a.ln()).sqrt() * (2.0 * std::f64::consts::PI * b).cos();
        note('n', 0, v.to_bits());
        v
    }
}

#[derive(Clone, Debug, Default)]
pub struct ThreadRng;

pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

pub fn random<T: distributions::Draw>() -> T {
    T::draw()
}

pub trait RngCore {}
impl RngCore for ThreadRng {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}

pub trait SampleRange<T> {
    fn pick(self) -> T;
}
macro_rules! ints { ($($t:ty),*) => { $(
impl SampleRange<$t> for std::ops::Range<$t> {
    fn pick(self) -> $t { assert!(self.start < self.end, "cannot sample empty range"); self.start + script::idx((self.end - self.start) as u64) as $t }
}
impl SampleRange<$t> for std::ops::RangeInclusive<$t> {
    fn pick(self) -> $t { assert!(self.start() <= self.end(), "cannot sample empty range"); *self.start() + script::idx((*self.end() - *self.start()) as u64 + 1) as $t }
}
impl distributions::Draw for $t { fn draw() -> $t { panic!("unscripted draw of an integer") } }
)* } }
ints!(usize, u64, u32, i32, i64, u8, u16, i16);
impl SampleRange<f64> for std::ops::Range<f64> {
    fn pick(self) -> f64 { assert!(self.start < self.end, "cannot sample empty range"); self.start + (self.end - self.start) * script::u01() }
}
impl SampleRange<f64> for std::ops::RangeInclusive<f64> {
    fn pick(self) -> f64 { *self.start() + (*self.end() - *self.start()) * script::u01() }
}

pub trait Rng: RngCore {
    fn gen<T: distributions::Draw>(&mut self) -> T { T::draw() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn gen_bool(&mut self, p: f64) -> bool { script::u01() < p }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T where Self: Sized { d.sample(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod distributions {
    use super::*;
    pub trait Draw { fn draw() -> Self; }
    impl Draw for f64 { fn draw() -> f64 { script::u01() } }
    impl Draw for bool { fn draw() -> bool { script::u01() < 0.5 } }

    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
        fn sample_iter<R: Rng>(self, rng: R) -> DistIter<Self, R, T> where Self: Sized { DistIter { d: self, r: rng, p: std::marker::PhantomData } }
    }
    impl<'a, T, D: Distribution<T>> Distribution<T> for &'a D {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T { (*self).sample(rng) }
    }
    pub struct DistIter<D, R, T> { d: D, r: R, p: std::marker::PhantomData<T> }
    impl<D: Distribution<T>, R: Rng, T> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { Some(self.d.sample(&mut self.r)) }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Standard;
    impl<T: Draw> Distribution<T> for Standard { fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> T { T::draw() } }

    #[derive(Clone, Copy, Debug)]
    pub struct Uniform<T> { lo: T, hi: T, incl: bool }
    impl<T: PartialOrd> Uniform<T> {
        pub fn new(lo: T, hi: T) -> Self { assert!(lo < hi, "Uniform::new called with `low >= high`"); Uniform { lo, hi, incl: false } }
        pub fn new_inclusive(lo: T, hi: T) -> Self { Uniform { lo, hi, incl: true } }
    }
    impl<T: PartialOrd> From<std::ops::Range<T>> for Uniform<T> { fn from(r: std::ops::Range<T>) -> Self { Uniform::new(r.start, r.end) } }
    impl<T: PartialOrd + Clone> From<std::ops::RangeInclusive<T>> for Uniform<T> { fn from(r: std::ops::RangeInclusive<T>) -> Self { Uniform::new_inclusive(r.start().clone(), r.end().clone()) } }
    impl Distribution<f64> for Uniform<f64> { fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { self.lo + (self.hi - self.lo) * script::u01() } }
    macro_rules! ui { ($($t:ty),*) => { $( impl Distribution<$t> for Uniform<$t> { fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> $t {
        if self.incl { (self.lo..=self.hi).pick() } else { (self.lo..self.hi).pick() } } } )* } }
    ui!(usize, u64, u32, i32, i64);
}

pub mod prelude {
    pub use super::distributions::Distribution;
    pub use super::{random, thread_rng, Rng, RngCore, ThreadRng};
}
pub mod rngs { pub use super::ThreadRng; }
