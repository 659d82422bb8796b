//! Value transport between the checks and the code under test (generated crate only).
use std::any::Any;
pub struct Tok<'a>(pub std::str::SplitWhitespace<'a>);
impl<'a> Tok<'a> {
    pub fn s(&mut self) -> &'a str { self.0.next().expect("HX protocol: short line") }
}
pub type Slots = Vec<Box<dyn Any>>;
pub trait Io: Sized {
    fn rd(t: &mut Tok) -> Self;
    fn wr(&self, o: &mut String);
}
impl Io for f64 {
    fn rd(t: &mut Tok) -> f64 { f64::from_bits(u64::from_str_radix(t.s(), 16).unwrap()) }
    fn wr(&self, o: &mut String) { o.push_str(&format!(" {:x}", self.to_bits())) }
}
macro_rules! ints { ($($t:ty),*) => { $( impl Io for $t {
    fn rd(t: &mut Tok) -> $t { t.s().parse().unwrap() }
    fn wr(&self, o: &mut String) { o.push_str(&format!(" {}", self)) }
} )* } }
ints!(usize, u64, u32, u16, u8, i64, i32, isize);
impl Io for bool {
    fn rd(t: &mut Tok) -> bool { t.s() == "1" }
    fn wr(&self, o: &mut String) { o.push_str(if *self { " 1" } else { " 0" }) }
}
impl Io for () {
    fn rd(_: &mut Tok) {}
    fn wr(&self, _: &mut String) {}
}
impl Io for String {
    fn rd(t: &mut Tok) -> String {
        let s = t.s();
        let b: Vec<u8> = (0..(s.len() - 1) / 2).map(|i| u8::from_str_radix(&s[1 + 2 * i..3 + 2 * i], 16).unwrap()).collect();
        String::from_utf8(b).unwrap()
    }
    fn wr(&self, o: &mut String) {
        o.push_str(" s");
        for b in self.as_bytes() { o.push_str(&format!("{:02x}", b)) }
    }
}
impl<T: Io> Io for Vec<T> {
    fn rd(t: &mut Tok) -> Vec<T> { let n: usize = t.s().parse().unwrap(); (0..n).map(|_| T::rd(t)).collect() }
    fn wr(&self, o: &mut String) { o.push_str(&format!(" {}", self.len())); for x in self { x.wr(o) } }
}
impl<T: Io + Copy + Default, const N: usize> Io for [T; N] {
    fn rd(t: &mut Tok) -> [T; N] { let mut r = [T::default(); N]; for i in 0..N { r[i] = T::rd(t) } r }
    fn wr(&self, o: &mut String) { for x in self { x.wr(o) } }
}
impl<A: Io, B: Io> Io for (A, B) {
    fn rd(t: &mut Tok) -> (A, B) { let a = A::rd(t); let b = B::rd(t); (a, b) }
    fn wr(&self, o: &mut String) { self.0.wr(o); self.1.wr(o) }
}
impl<A: Io, B: Io, C: Io> Io for (A, B, C) {
    fn rd(t: &mut Tok) -> (A, B, C) { let a = A::rd(t); let b = B::rd(t); let c = C::rd(t); (a, b, c) }
    fn wr(&self, o: &mut String) { self.0.wr(o); self.1.wr(o); self.2.wr(o) }
}
impl<T: Io> Io for Option<T> {
    fn rd(t: &mut Tok) -> Option<T> { if t.s() == "1" { Some(T::rd(t)) } else { None } }
    fn wr(&self, o: &mut String) { match self { Some(x) => { o.push_str(" 1"); x.wr(o) } None => o.push_str(" 0") } }
}
/// an open file: recreated on request at a path of the scratch directory
impl Io for std::fs::File {
    fn rd(t: &mut Tok) -> std::fs::File { let p = String::rd(t); std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap() }
    fn wr(&self, _: &mut String) {}
}
