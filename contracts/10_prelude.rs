// ------------------------------------------------------------------ allocation
// std: an allocation never exceeds isize::MAX bytes.
pub mod vx_axioms {
    use vstd::prelude::*;
    pub broadcast axiom fn vx_axiom_vec_len(v: Vec<usize>) ensures #[trigger] v@.len() <= usize::MAX / 8;
}
broadcast use vx_axioms::vx_axiom_vec_len;
// ------------------------------------------------------------------ refusal mode
// vx_R() is an uninterpreted constant.  Every panic of the code is a call of vx_panic, which is
// allowed only when vx_R() holds and never returns.  A function with an acceptance condition ACC
// has `requires vx_R() || ACC` and `ensures ACC`: read with vx_R() false it says that accepted
// arguments never panic, read with vx_R() true it says that whoever returns had accepted ones.
pub uninterp spec fn vx_R() -> bool;
#[verifier::external_body]
pub fn vx_panic<A>() -> (a: A) requires vx_R() ensures false { unimplemented!() }
pub trait VxUnwrap: Sized {
    type Out;
    spec fn vx_ok(self) -> bool;
    spec fn vx_val(self) -> Self::Out;
    fn vx_unwrap(self) -> (o: Self::Out)
        requires vx_R() || self.vx_ok(),
        ensures self.vx_ok(), o == self.vx_val();
}
impl<A> VxUnwrap for Option<A> {
    type Out = A;
    open spec fn vx_ok(self) -> bool { self is Some }
    open spec fn vx_val(self) -> A { self->0 }
    fn vx_unwrap(self) -> (o: A) { match self { Some(a) => a, None => vx_panic() } }
}
impl<A, E> VxUnwrap for Result<A, E> {
    type Out = A;
    open spec fn vx_ok(self) -> bool { self is Ok }
    open spec fn vx_val(self) -> A { self->Ok_0 }
    fn vx_unwrap(self) -> (o: A) { match self { Ok(a) => a, Err(e) => vx_panic() } }
}

// ------------------------------------------------------------------ element type
// T stands for every Numeric type: its operations are uninterpreted total functions.  No algebraic
// law is assumed of them, so what is proved holds for integers and floats alike, bit for bit.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct T { x: f64 }
pub uninterp spec fn t_add(a: T, b: T) -> T;
pub uninterp spec fn t_sub(a: T, b: T) -> T;
pub uninterp spec fn t_mul(a: T, b: T) -> T;
pub uninterp spec fn t_div(a: T, b: T) -> T;
pub uninterp spec fn t_neg(a: T) -> T;
pub uninterp spec fn t_eq(a: T, b: T) -> bool;
pub uninterp spec fn t_lt(a: T, b: T) -> bool;
pub uninterp spec fn t_le(a: T, b: T) -> bool;
pub uninterp spec fn t_gt(a: T, b: T) -> bool;
pub uninterp spec fn t_ge(a: T, b: T) -> bool;
pub uninterp spec fn t_zero() -> T;
pub uninterp spec fn t_one() -> T;
pub uninterp spec fn t_tanh(a: T) -> T;
pub uninterp spec fn t_abs(a: T) -> T;
pub uninterp spec fn t_powi(a: T, n: int) -> T;
impl T {
    #[verifier::external_body] pub fn zero() -> (r: T) ensures r == t_zero() { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: T) ensures r == t_one() { unimplemented!() }
    #[verifier::external_body] pub fn tanh(self) -> (r: T) ensures r == t_tanh(self) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: T) ensures r == t_abs(self) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: T) ensures r == t_powi(self, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn neg(self) -> (r: T) ensures r == t_neg(self) { unimplemented!() }
}
macro_rules! t_bin { ($tr:ident, $sp:ident, $f:ident, $ob:ident, $rq:ident, $ss:ident, $sf:ident) => {
    verus! {
    impl vstd::std_specs::ops::$sp<T> for T {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, o: T) -> bool { true }
        open spec fn $ss(self, o: T) -> T { $sf(self, o) }
    }
    impl std::ops::$tr<T> for T { type Output = T; #[verifier::external_body] fn $f(self, o: T) -> T { unimplemented!() } }
    }
} }
t_bin!(Add, AddSpecImpl, add, obeys_add_spec, add_req, add_spec, t_add);
t_bin!(Sub, SubSpecImpl, sub, obeys_sub_spec, sub_req, sub_spec, t_sub);
t_bin!(Mul, MulSpecImpl, mul, obeys_mul_spec, mul_req, mul_spec, t_mul);
t_bin!(Div, DivSpecImpl, div, obeys_div_spec, div_req, div_spec, t_div);
impl vstd::std_specs::cmp::PartialEqSpecImpl for T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &T) -> bool { t_eq(*self, *o) }
}
impl PartialEq for T { #[verifier::external_body] fn eq(&self, o: &T) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for T {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &T) -> Option<core::cmp::Ordering> { t_cmp(*self, *o) }
}
pub uninterp spec fn t_cmp(a: T, b: T) -> Option<core::cmp::Ordering>;
impl PartialOrd for T {
    #[verifier::external_body] fn partial_cmp(&self, o: &T) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &T) -> (r: bool) ensures r == t_lt(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &T) -> (r: bool) ensures r == t_le(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &T) -> (r: bool) ensures r == t_gt(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &T) -> (r: bool) ensures r == t_ge(*self, *o) { unimplemented!() }
}
/// v.extend(w)
pub fn vx_extend<A>(v: &mut Vec<A>, w: Vec<A>)
    ensures final(v)@ == old(v)@ + w@
{ let mut w = w; v.append(&mut w); }
