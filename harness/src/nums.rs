//! Element types used by the oracles.
use num::{One, Zero};
use rust_light::tensor::Numeric;
use std::ops::*;

/// Integers modulo the prime 2^61-1: exact ring arithmetic, so a wrong sum of products is noticed
/// whatever the order of accumulation, and a right one never is.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Fp(pub u64);
pub const P: u64 = (1 << 61) - 1;
impl Add for Fp { type Output = Fp; fn add(self, o: Fp) -> Fp { Fp((self.0 + o.0) % P) } }
impl Sub for Fp { type Output = Fp; fn sub(self, o: Fp) -> Fp { Fp((self.0 + P - o.0) % P) } }
impl Mul for Fp { type Output = Fp; fn mul(self, o: Fp) -> Fp { Fp(((self.0 as u128 * o.0 as u128) % P as u128) as u64) } }
impl Neg for Fp { type Output = Fp; fn neg(self) -> Fp { Fp((P - self.0) % P) } }
impl AddAssign for Fp { fn add_assign(&mut self, o: Fp) { *self = *self + o } }
impl SubAssign for Fp { fn sub_assign(&mut self, o: Fp) { *self = *self - o } }
impl Zero for Fp { fn zero() -> Fp { Fp(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Fp { fn one() -> Fp { Fp(1) } }
impl Numeric for Fp {}

/// Terms up to hashing: addition is commutative and has the unit zero, but is not associative;
/// multiplication has the unit one and, when NC is set, does not commute.  Two results are equal
/// only when they were built by the same operations in the same order.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Term<const NC: bool>(pub u64);
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(17).wrapping_mul(0xBF58476D1CE4E5B9) ^ c.rotate_left(41).wrapping_mul(0x94D049BB133111EB);
    for _ in 0..2 {
        x ^= x >> 31;
        x = x.wrapping_mul(0xD6E8FEB86659FD93).wrapping_add(c ^ b.wrapping_mul(3));
    }
    x ^ (x >> 29)
}
impl<const NC: bool> Term<NC> {
    fn op(tag: u64, a: u64, b: u64, comm: bool) -> Self {
        let (x, y) = if comm && b < a { (b, a) } else { (a, b) };
        Term(mix(tag, x, y))
    }
}
impl<const NC: bool> Add for Term<NC> {
    type Output = Self;
    fn add(self, o: Self) -> Self { if self.0 == 0 { o } else if o.0 == 0 { self } else { Self::op(1, self.0, o.0, true) } }
}
impl<const NC: bool> Sub for Term<NC> { type Output = Self; fn sub(self, o: Self) -> Self { Self::op(2, self.0, o.0, false) } }
impl<const NC: bool> Mul for Term<NC> {
    type Output = Self;
    fn mul(self, o: Self) -> Self { if self.0 == 1 { o } else if o.0 == 1 { self } else { Self::op(3, self.0, o.0, !NC) } }
}
impl<const NC: bool> AddAssign for Term<NC> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<const NC: bool> SubAssign for Term<NC> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<const NC: bool> Zero for Term<NC> { fn zero() -> Self { Term(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const NC: bool> One for Term<NC> { fn one() -> Self { Term(1) } }
impl<const NC: bool> Numeric for Term<NC> {}

/// element types that can be drawn at random
pub trait Draw: Numeric {
    fn draw(r: &mut Rng) -> Self;
    fn same(a: &Self, b: &Self) -> bool { a == b }
}
impl Draw for Fp { fn draw(r: &mut Rng) -> Fp { if r.below(8) == 0 { Fp(r.below(3)) } else { Fp(r.next() % P) } } }
impl<const NC: bool> Draw for Term<NC> { fn draw(r: &mut Rng) -> Self { Term(r.next() | 2) } }
impl Draw for i64 { fn draw(r: &mut Rng) -> i64 { r.below(2001) as i64 - 1000 } }
impl Draw for u64 { fn draw(r: &mut Rng) -> u64 { r.next() } }
impl Draw for f64 {
    fn draw(r: &mut Rng) -> f64 {
        match r.below(12) { 0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => -0.0, _ => (r.below(1 << 20) as f64 - (1 << 19) as f64) / (1 << 17) as f64 }
    }
    fn same(a: &f64, b: &f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
}
/// any sign, magnitudes from 1e-9 to 1e3
pub fn wide(r: &mut Rng) -> f64 {
    let m = (1.0 + r.below(1 << 30) as f64 / (1u64 << 30) as f64) * 2f64.powi(r.range(0, 39) as i32 - 30);
    if r.coin() { m } else { -m }
}
impl Draw for f32 {
    fn draw(r: &mut Rng) -> f32 { f64::draw(r) as f32 }
    fn same(a: &f32, b: &f32) -> bool { a == b || (a.is_nan() && b.is_nan()) }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, A>(&mut self, v: &'a [A]) -> &'a A { &v[self.below(v.len() as u64) as usize] }
}
