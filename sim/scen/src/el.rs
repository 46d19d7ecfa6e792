//! The instrumented element type: integers modulo P with a ledger of which values are alive.
use alg::commutative::*;
use simcore::*;
use std::iter::{Product, Sum};
use std::ops::*;

pub const P: i64 = 10007;
const MAGIC: u64 = 0x4c45_4447_4552_2121;

pub struct E { magic: u64, id: u64, v: i64 }

pub struct Ledger { pub state: Vec<u8>, pub alive: i64, pub born: u64 }
static mut LEDGER: Ledger = Ledger { state: Vec::new(), alive: 0, born: 0 };
#[allow(static_mut_refs)]
pub fn ledger() -> &'static mut Ledger { unsafe { &mut LEDGER } }
pub fn ledger_reset() { quiet(|| { let l = ledger(); l.state.clear(); l.alive = 0; l.born = 0; }) }

pub fn md(v: i64) -> i64 { v.rem_euclid(P) }
impl E {
    pub fn new(v: i64) -> E {
        quiet(|| {
            let l = ledger();
            let id = l.state.len() as u64;
            l.state.push(1); l.alive += 1; l.born += 1;
            E { magic: MAGIC ^ id.wrapping_mul(0x9e37_79b9_7f4a_7c15), id, v: md(v) }
        })
    }
    fn sound(&self) -> bool {
        self.magic == MAGIC ^ self.id.wrapping_mul(0x9e37_79b9_7f4a_7c15) && ledger().state.get(self.id as usize) == Some(&1)
    }
    /// the value, after checking that there is one
    pub fn val(&self) -> i64 {
        if !self.sound() {
            let known = self.magic == MAGIC ^ self.id.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            violate("element-read-where-none-is", if known { "an element that was already destroyed is read".to_string() } else { "memory that holds no element is read as one".to_string() });
            return 0;
        }
        self.v
    }
}
impl Drop for E {
    fn drop(&mut self) {
        let l = ledger();
        if self.magic != MAGIC ^ self.id.wrapping_mul(0x9e37_79b9_7f4a_7c15) { violate("destroyed-where-none-is", "memory that holds no element is destroyed as one"); return; }
        match l.state.get_mut(self.id as usize) {
            Some(s) if *s == 1 => { *s = 2; l.alive -= 1; }
            Some(_) => violate("destroyed-twice", "an element is destroyed a second time"),
            None => violate("destroyed-where-none-is", "memory that holds no element is destroyed as one"),
        }
    }
}
impl Clone for E { fn clone(&self) -> E { elem_op("panic-in-clone"); E::new(self.val()) } }
impl PartialEq for E { fn eq(&self, r: &E) -> bool { elem_op("panic-in-eq"); self.val() == r.val() } }
impl PartialOrd for E { fn partial_cmp(&self, r: &E) -> Option<std::cmp::Ordering> { elem_op("panic-in-cmp"); self.val().partial_cmp(&r.val()) } }
impl Eq for E {}
impl Ord for E { fn cmp(&self, r: &E) -> std::cmp::Ordering { elem_op("panic-in-cmp"); self.val().cmp(&r.val()) } }
impl Zero for E { fn zero() -> E { elem_op("panic-in-zero"); E::new(0) } }
impl One for E { fn one() -> E { elem_op("panic-in-one"); E::new(1) } }
impl Symbol for E { fn symbol() -> String { "E".into() } }
impl Add for E { type Output = E; fn add(self, r: E) -> E { elem_op("panic-in-add"); E::new(self.val() + r.val()) } }
impl Sub for E { type Output = E; fn sub(self, r: E) -> E { elem_op("panic-in-sub"); E::new(self.val() - r.val()) } }
impl Mul for E { type Output = E; fn mul(self, r: E) -> E { elem_op("panic-in-mul"); E::new(self.val() * r.val()) } }
impl Div for E { type Output = E; fn div(self, r: E) -> E { elem_op("panic-in-div"); E::new(self.val() * inv(r.val())) } }
impl Neg for E { type Output = E; fn neg(self) -> E { elem_op("panic-in-neg"); E::new(-self.val()) } }
impl AddAssign for E { fn add_assign(&mut self, r: E) { elem_op("panic-in-add"); self.v = md(self.val() + r.val()) } }
impl SubAssign for E { fn sub_assign(&mut self, r: E) { elem_op("panic-in-sub"); self.v = md(self.val() - r.val()) } }
impl MulAssign for E { fn mul_assign(&mut self, r: E) { elem_op("panic-in-mul"); self.v = md(self.val() * r.val()) } }
impl DivAssign for E { fn div_assign(&mut self, r: E) { elem_op("panic-in-div"); self.v = md(self.val() * inv(r.val())) } }
impl Sum for E { fn sum<I: Iterator<Item = E>>(i: I) -> E { elem_op("panic-in-zero"); i.fold(E::new(0), |a, b| a + b) } }
impl Product for E { fn product<I: Iterator<Item = E>>(i: I) -> E { elem_op("panic-in-one"); i.fold(E::new(1), |a, b| a * b) } }
impl PID for E {
    fn is_prime(self) -> bool { false }
    fn n_prime_factors(self) -> usize { 0 }
    fn euclid_div(self, d: E) -> (E, E) { elem_op("panic-in-div"); (E::new(self.val() * inv(d.val())), E::new(0)) }
    fn simplify(self) -> (E, E) { if self.val() == 0 { (E::new(1), E::new(0)) } else { let v = self.val(); (E::new(v), E::new(1)) } }
}
impl Field for E {}
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { elem_op("panic-in-fmt"); write!(f, "e{}", self.val()) } }
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { elem_op("panic-in-fmt"); write!(f, "E{}", self.val()) } }
impl rand::distributions::Distribution<E> for rand::distributions::Standard {
    fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> E { let w = r.next_u64(); elem_op("panic-in-draw"); E::new((w >> 11) as i64) }
}
pub fn inv(v: i64) -> i64 {
    if md(v) == 0 { return 0; }
    let (mut r, mut b, mut e) = (1i64, md(v), P - 2);
    while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; }
    r
}
pub const ELEM_FAULTS: &[&str] = &["panic-in-clone", "panic-in-eq", "panic-in-zero", "panic-in-one", "panic-in-add", "panic-in-sub", "panic-in-mul", "panic-in-div", "panic-in-draw"];

/// Element types the matrix engine runs over; the model computes with i128 and `norm`.
pub trait El: PID + std::fmt::Debug + std::fmt::Display + 'static {
    fn mk(v: i128) -> Self;
    fn get(&self) -> Option<i128>;
    fn norm(v: i128) -> i128 { v }
    fn limit() -> i128 { 1 << 20 }
    /// model inverse of a scalar, where the type divides exactly
    fn minv(_v: i128) -> Option<i128> { None }
    fn div_view(_m: &alg::lin_alg::SubMatrix<Self>, _s: Self) -> Option<alg::lin_alg::Matrix<Self>> { None }
    fn div_owned(_m: alg::lin_alg::Matrix<Self>, _s: Self) -> Option<alg::lin_alg::Matrix<Self>> { None }
    fn div_assign_view(_m: &mut alg::lin_alg::SubMatrix<Self>, _s: Self) -> bool { false }
    fn div_assign_owned(_m: &mut alg::lin_alg::Matrix<Self>, _s: Self) -> bool { false }
    fn left_mul(_m: &alg::lin_alg::SubMatrix<Self>, _s: Self) -> Option<alg::lin_alg::Matrix<Self>> { None }
    fn random(_n: usize, _m: usize) -> Option<alg::lin_alg::Matrix<Self>> { None }
    fn random_symmetric(_n: usize) -> Option<alg::lin_alg::Matrix<Self>> { None }
}
macro_rules! field_ops { () => {
    fn div_view(m: &alg::lin_alg::SubMatrix<Self>, s: Self) -> Option<alg::lin_alg::Matrix<Self>> { Some(m / s) }
    fn div_owned(m: alg::lin_alg::Matrix<Self>, s: Self) -> Option<alg::lin_alg::Matrix<Self>> { Some(m / s) }
    fn div_assign_view(m: &mut alg::lin_alg::SubMatrix<Self>, s: Self) -> bool { *m /= s; true }
    fn div_assign_owned(m: &mut alg::lin_alg::Matrix<Self>, s: Self) -> bool { *m /= s; true }
} }
impl El for E {
    fn mk(v: i128) -> E { E::new(v.rem_euclid(P as i128) as i64) }
    fn get(&self) -> Option<i128> { Some(self.val() as i128) }
    fn norm(v: i128) -> i128 { v.rem_euclid(P as i128) }
    fn limit() -> i128 { i128::MAX }
    fn minv(v: i128) -> Option<i128> { Some(inv(v as i64) as i128) }
    field_ops!{}
    fn random(n: usize, m: usize) -> Option<alg::lin_alg::Matrix<Self>> { Some(alg::lin_alg::Matrix::random(n, m)) }
    fn random_symmetric(n: usize) -> Option<alg::lin_alg::Matrix<Self>> { Some(alg::lin_alg::Matrix::random_symmetric(n, n)) }
}
macro_rules! int_el { ($($t:ty, $lim:expr;)*) => {$(
    impl El for $t {
        fn mk(v: i128) -> $t { v as $t }
        fn get(&self) -> Option<i128> { Some(*self as i128) }
        fn limit() -> i128 { $lim }
        fn left_mul(m: &alg::lin_alg::SubMatrix<Self>, s: Self) -> Option<alg::lin_alg::Matrix<Self>> { Some(s * m) }
    }
)*} }
int_el!{ i64, 1 << 29; i32, 1 << 13; i128, 1 << 60; isize, 1 << 29; i16, 50; i8, 3; }
impl El for f64 {
    fn mk(v: i128) -> f64 { v as f64 }
    fn get(&self) -> Option<i128> { if self.fract() == 0.0 && self.abs() < 1e15 { Some(*self as i128) } else { None } }
    fn limit() -> i128 { 1 << 24 }
    fn minv(v: i128) -> Option<i128> { if v == 1 || v == -1 { Some(v) } else { None } }
    field_ops!{}
    fn left_mul(m: &alg::lin_alg::SubMatrix<Self>, s: Self) -> Option<alg::lin_alg::Matrix<Self>> { Some(s * m) }
}
impl El for Rational {
    fn mk(v: i128) -> Rational { Rational::new(v as i64, 1) }
    fn get(&self) -> Option<i128> {
        let t = format!("{}", self);
        t.parse().ok()
    }
    fn limit() -> i128 { 1 << 20 }
    fn minv(v: i128) -> Option<i128> { if v == 1 || v == -1 { Some(v) } else { None } }
    field_ops!{}
    fn left_mul(m: &alg::lin_alg::SubMatrix<Self>, s: Self) -> Option<alg::lin_alg::Matrix<Self>> { Some(s * m) }
}
