// Contracts of the libraries the source uses (trusted). f64 is modelled as a real or NaN/+inf/-inf: no rounding.
pub mod fl {
use super::*;
pub enum Fl { Fin(real), PInf, NInf, NaN }
#[derive(Clone, Copy)]
pub struct F64 { pub g: Ghost<Fl> }

pub uninterp spec fn fdiv0(a: real) -> Fl;
pub uninterp spec fn ln_r(x: real) -> real;
pub uninterp spec fn sqrt_r(x: real) -> real;
pub uninterp spec fn pow_r(x: real, y: real) -> real;
pub uninterp spec fn ln_gamma_r(x: real) -> real;
pub uninterp spec fn e_r() -> real;
pub uninterp spec fn eps_r() -> real;

pub open spec fn sgn(x: real) -> int { if x > 0real { 1 } else if x < 0real { -1 } else { 0 } }
pub open spec fn fneg(a: Fl) -> Fl {
    match a { Fl::Fin(x) => Fl::Fin(-x), Fl::PInf => Fl::NInf, Fl::NInf => Fl::PInf, Fl::NaN => Fl::NaN }
}
pub open spec fn fadd(a: Fl, b: Fl) -> Fl {
    match (a, b) {
        (Fl::Fin(x), Fl::Fin(y)) => Fl::Fin(x + y),
        (Fl::NaN, _) => Fl::NaN, (_, Fl::NaN) => Fl::NaN,
        (Fl::PInf, Fl::NInf) => Fl::NaN, (Fl::NInf, Fl::PInf) => Fl::NaN,
        (Fl::Fin(_), _) => b, _ => a,
    }
}
pub open spec fn fsub(a: Fl, b: Fl) -> Fl { fadd(a, fneg(b)) }
pub open spec fn fsgn(a: Fl) -> int { match a { Fl::Fin(x) => sgn(x), Fl::PInf => 1, Fl::NInf => -1, Fl::NaN => 0 } }
pub open spec fn fmul(a: Fl, b: Fl) -> Fl {
    match (a, b) {
        (Fl::Fin(x), Fl::Fin(y)) => Fl::Fin(x * y),
        (Fl::NaN, _) => Fl::NaN, (_, Fl::NaN) => Fl::NaN,
        _ => if fsgn(a) * fsgn(b) > 0 { Fl::PInf } else if fsgn(a) * fsgn(b) < 0 { Fl::NInf } else { Fl::NaN },
    }
}
pub open spec fn fdiv(a: Fl, b: Fl) -> Fl {
    match (a, b) {
        (Fl::NaN, _) => Fl::NaN, (_, Fl::NaN) => Fl::NaN,
        (Fl::Fin(x), Fl::Fin(y)) => if y != 0real { Fl::Fin(x / y) } else if x == 0real { Fl::NaN } else { fdiv0(x) },
        (Fl::Fin(x), _) => Fl::Fin(0real),
        (_, Fl::Fin(y)) => if y > 0real { a } else if y < 0real { fneg(a) } else { fdiv0(if a is PInf { 1real } else { -1real }) },
        _ => Fl::NaN,
    }
}
pub open spec fn flt(a: Fl, b: Fl) -> bool {
    match (a, b) {
        (Fl::NaN, _) => false, (_, Fl::NaN) => false,
        (Fl::Fin(x), Fl::Fin(y)) => x < y,
        (Fl::NInf, Fl::NInf) => false, (Fl::NInf, _) => true,
        (Fl::Fin(_), Fl::PInf) => true, _ => false,
    }
}
pub open spec fn fle(a: Fl, b: Fl) -> bool { !(a is NaN) && !(b is NaN) && !flt(b, a) }
pub open spec fn fcmp(a: Fl, b: Fl) -> Option<Ordering> {
    if a is NaN || b is NaN { None } else if a == b { Some(Ordering::Equal) } else if flt(a, b) { Some(Ordering::Less) } else { Some(Ordering::Greater) }
}
pub open spec fn fabs(a: Fl) -> Fl {
    match a { Fl::Fin(x) => Fl::Fin(if x < 0real { -x } else { x }), Fl::NaN => Fl::NaN, _ => Fl::PInf }
}
pub open spec fn fln(a: Fl) -> Fl {
    match a { Fl::Fin(x) => if x > 0real { Fl::Fin(ln_r(x)) } else if x == 0real { Fl::NInf } else { Fl::NaN }, Fl::PInf => Fl::PInf, _ => Fl::NaN }
}
pub open spec fn fsqrt(a: Fl) -> Fl {
    match a { Fl::Fin(x) => if x >= 0real { Fl::Fin(sqrt_r(x)) } else { Fl::NaN }, Fl::PInf => Fl::PInf, _ => Fl::NaN }
}
pub open spec fn fmax(a: Fl, b: Fl) -> Fl { if a is NaN { b } else if b is NaN { a } else if flt(a, b) { b } else { a } }
pub open spec fn fmin(a: Fl, b: Fl) -> Fl { if a is NaN { b } else if b is NaN { a } else if flt(b, a) { b } else { a } }
pub uninterp spec fn max_r() -> real;
pub uninterp spec fn tiny_r() -> real;
pub uninterp spec fn fpow(a: Fl, b: Fl) -> Fl;
pub open spec fn flngamma(a: Fl) -> Fl { match a { Fl::Fin(x) => if x > 0real { Fl::Fin(ln_gamma_r(x)) } else { lngamma_x(a) }, _ => lngamma_x(a) } }
pub uninterp spec fn lngamma_x(a: Fl) -> Fl;

pub uninterp spec fn before<T>(a: T, b: T) -> bool;
pub broadcast axiom fn ax_ln(x: real) ensures 0real < x <= 1real ==> #[trigger] ln_r(x) <= 0real;
pub broadcast axiom fn ax_sqrt(x: real) ensures x >= 0real ==> #[trigger] sqrt_r(x) >= 0real && sqrt_r(x) * sqrt_r(x) == x, x > 0real ==> sqrt_r(x) > 0real;
pub broadcast axiom fn ax_pow(x: real, y: real) ensures #[trigger] fpow(Fl::Fin(x), Fl::Fin(y)) == (if x > 0real { Fl::Fin(pow_r(x, y)) } else { fpow(Fl::Fin(x), Fl::Fin(y)) }), x > 0real ==> pow_r(x, y) > 0real;
pub broadcast axiom fn ax_e() ensures #[trigger] e_r() > 2real;
pub broadcast axiom fn ax_eps() ensures #[trigger] eps_r() > 0real;
pub broadcast group group_fl { ax_ln, ax_sqrt, ax_pow, ax_e, ax_eps, ax_before }
pub broadcast axiom fn ax_before(a: usize, b: usize) ensures #[trigger] before(a, b) == (a < b);
}
pub use fl::*;
broadcast use fl::group_fl;

impl PartialEq<F64> for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<F64> for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { fcmp(self.g@, o.g@) == Some(Ordering::Equal) } }
impl PartialOrd<F64> for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> Option<Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl<F64> for F64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F64) -> Option<Ordering> { fcmp(self.g@, o.g@) } }
impl core::ops::Add<F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl AddSpecImpl<F64> for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F64) -> bool { true } open spec fn add_spec(self, o: F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl<'a> core::ops::Add<&'a F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: &'a F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl<'a> AddSpecImpl<&'a F64> for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'a F64) -> bool { true } open spec fn add_spec(self, o: &'a F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl core::ops::Sub<F64> for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl<'a> core::ops::Sub<&'a F64> for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: &'a F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl<'a> SubSpecImpl<&'a F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'a F64) -> bool { true } open spec fn sub_spec(self, o: &'a F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl core::ops::Mul<F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl<'a> core::ops::Mul<&'a F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: &'a F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl<'a> MulSpecImpl<&'a F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'a F64) -> bool { true } open spec fn mul_spec(self, o: &'a F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl core::ops::Div<F64> for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl DivSpecImpl<F64> for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F64) -> bool { true } open spec fn div_spec(self, o: F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl<'a> core::ops::Div<&'a F64> for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: &'a F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl<'a> DivSpecImpl<&'a F64> for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &'a F64) -> bool { true } open spec fn div_spec(self, o: &'a F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl<'a> core::ops::Add<F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl<'a> AddSpecImpl<F64> for &'a F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F64) -> bool { true } open spec fn add_spec(self, o: F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl<'a, 'b> core::ops::Add<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn add(self, o: &'b F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl<'a, 'b> AddSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b F64) -> bool { true } open spec fn add_spec(self, o: &'b F64) -> F64 { F64 { g: Ghost(fadd(self.g@, o.g@)) } } }
impl<'a> core::ops::Sub<F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl<'a> SubSpecImpl<F64> for &'a F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl<'a, 'b> core::ops::Sub<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: &'b F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl<'a, 'b> SubSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'b F64) -> bool { true } open spec fn sub_spec(self, o: &'b F64) -> F64 { F64 { g: Ghost(fsub(self.g@, o.g@)) } } }
impl<'a> core::ops::Mul<F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl<'a> MulSpecImpl<F64> for &'a F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl<'a, 'b> core::ops::Mul<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: &'b F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl<'a, 'b> MulSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b F64) -> bool { true } open spec fn mul_spec(self, o: &'b F64) -> F64 { F64 { g: Ghost(fmul(self.g@, o.g@)) } } }
impl<'a> core::ops::Div<F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl<'a> DivSpecImpl<F64> for &'a F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F64) -> bool { true } open spec fn div_spec(self, o: F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl<'a, 'b> core::ops::Div<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn div(self, o: &'b F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }
impl<'a, 'b> DivSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &'b F64) -> bool { true } open spec fn div_spec(self, o: &'b F64) -> F64 { F64 { g: Ghost(fdiv(self.g@, o.g@)) } } }

impl F64 {
    pub open spec fn fin(self) -> bool { self.g@ is Fin }
    pub open spec fn v(self) -> real { self.g@->Fin_0 }
    #[verifier::external_body] pub fn lit(g: Ghost<real>) -> (r: F64) ensures r.g@ == Fl::Fin(g@) { unimplemented!() }
    #[verifier::external_body] pub fn c_EPSILON() -> (r: F64) ensures r.g@ == Fl::Fin(eps_r()) { unimplemented!() }
    #[verifier::external_body] pub fn c_NEG_INFINITY() -> (r: F64) ensures r.g@ == Fl::NInf { unimplemented!() }
    #[verifier::external_body] pub fn c_INFINITY() -> (r: F64) ensures r.g@ == Fl::PInf { unimplemented!() }
    #[verifier::external_body] pub fn c_MAX() -> (r: F64) ensures r.g@ == Fl::Fin(max_r()) { unimplemented!() }
    #[verifier::external_body] pub fn c_MIN() -> (r: F64) ensures r.g@ == Fl::Fin(-max_r()) { unimplemented!() }
    #[verifier::external_body] pub fn c_MIN_POSITIVE() -> (r: F64) ensures r.g@ == Fl::Fin(tiny_r()) { unimplemented!() }
    #[verifier::external_body] pub fn c_NAN() -> (r: F64) ensures r.g@ == Fl::NaN { unimplemented!() }
    #[verifier::external_body] pub fn c_E() -> (r: F64) ensures r.g@ == Fl::Fin(e_r()) { unimplemented!() }
    #[verifier::external_body] pub fn neg_v(self) -> (r: F64) ensures r.g@ == fneg(self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: F64) ensures r.g@ == fln(self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F64) ensures r.g@ == fsqrt(self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures r.g@ == fabs(self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: F64) -> (r: F64) ensures r.g@ == fmax(self.g@, o.g@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: F64) -> (r: F64) ensures r.g@ == fmin(self.g@, o.g@) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: F64) ensures r.g@ == fpow(Fl::Fin(e_r()), self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: F64) ensures r.g@ == fdiv(Fl::Fin(1real), self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: F64, b: F64) -> (r: F64) ensures r.g@ == fadd(fmul(self.g@, a.g@), b.g@) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (self.g@ is PInf || self.g@ is NInf) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, o: F64) -> (r: F64) ensures r.g@ == fpow(self.g@, o.g@) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F64) ensures n == 2 ==> r.g@ == fmul(self.g@, self.g@), n == 1 ==> r == self { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == (self.g@ is NaN) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == (self.g@ is Fin) { unimplemented!() }
    #[verifier::external_body] pub fn partial_cmp_v(&self, o: &F64) -> (r: Option<Ordering>) ensures r == fcmp(self.g@, o.g@) { unimplemented!() }
}
#[verifier::external_body] pub fn ln_gamma(x: F64) -> (r: F64) ensures r.g@ == flngamma(x.g@) { unimplemented!() }

pub trait DivV<R>: Sized { type O; spec fn div_ok(self, r: R) -> bool; fn div_v(self, r: R) -> (o: Self::O) requires self.div_ok(r); }
pub trait MulV<R>: Sized { type O; spec fn mul_ok(self, r: R) -> bool; fn mul_v(self, r: R) -> (o: Self::O) requires self.mul_ok(r); }
pub trait AddV<R>: Sized { type O; spec fn add_ok(self, r: R) -> bool; fn add_v(self, r: R) -> (o: Self::O) requires self.add_ok(r); }
pub trait SubV<R>: Sized { type O; spec fn sub_ok(self, r: R) -> bool; fn sub_v(self, r: R) -> (o: Self::O) requires self.sub_ok(r); }
impl DivV<F64> for F64 { type O = F64; open spec fn div_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn div_v(self, r: F64) -> (o: F64) ensures o.g@ == fdiv(self.g@, r.g@) { unimplemented!() } }
impl DivV<&F64> for F64 { type O = F64; open spec fn div_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn div_v(self, r: &F64) -> (o: F64) ensures o.g@ == fdiv(self.g@, r.g@) { unimplemented!() } }
impl DivV<F64> for &F64 { type O = F64; open spec fn div_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn div_v(self, r: F64) -> (o: F64) ensures o.g@ == fdiv(self.g@, r.g@) { unimplemented!() } }
impl DivV<&F64> for &F64 { type O = F64; open spec fn div_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn div_v(self, r: &F64) -> (o: F64) ensures o.g@ == fdiv(self.g@, r.g@) { unimplemented!() } }
impl MulV<F64> for F64 { type O = F64; open spec fn mul_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn mul_v(self, r: F64) -> (o: F64) ensures o.g@ == fmul(self.g@, r.g@) { unimplemented!() } }
impl MulV<&F64> for F64 { type O = F64; open spec fn mul_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn mul_v(self, r: &F64) -> (o: F64) ensures o.g@ == fmul(self.g@, r.g@) { unimplemented!() } }
impl MulV<F64> for &F64 { type O = F64; open spec fn mul_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn mul_v(self, r: F64) -> (o: F64) ensures o.g@ == fmul(self.g@, r.g@) { unimplemented!() } }
impl MulV<&F64> for &F64 { type O = F64; open spec fn mul_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn mul_v(self, r: &F64) -> (o: F64) ensures o.g@ == fmul(self.g@, r.g@) { unimplemented!() } }
impl AddV<F64> for F64 { type O = F64; open spec fn add_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn add_v(self, r: F64) -> (o: F64) ensures o.g@ == fadd(self.g@, r.g@) { unimplemented!() } }
impl AddV<&F64> for F64 { type O = F64; open spec fn add_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn add_v(self, r: &F64) -> (o: F64) ensures o.g@ == fadd(self.g@, r.g@) { unimplemented!() } }
impl AddV<F64> for &F64 { type O = F64; open spec fn add_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn add_v(self, r: F64) -> (o: F64) ensures o.g@ == fadd(self.g@, r.g@) { unimplemented!() } }
impl AddV<&F64> for &F64 { type O = F64; open spec fn add_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn add_v(self, r: &F64) -> (o: F64) ensures o.g@ == fadd(self.g@, r.g@) { unimplemented!() } }
impl SubV<F64> for F64 { type O = F64; open spec fn sub_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn sub_v(self, r: F64) -> (o: F64) ensures o.g@ == fsub(self.g@, r.g@) { unimplemented!() } }
impl SubV<&F64> for F64 { type O = F64; open spec fn sub_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn sub_v(self, r: &F64) -> (o: F64) ensures o.g@ == fsub(self.g@, r.g@) { unimplemented!() } }
impl SubV<F64> for &F64 { type O = F64; open spec fn sub_ok(self, r: F64) -> bool { true } #[verifier::external_body] fn sub_v(self, r: F64) -> (o: F64) ensures o.g@ == fsub(self.g@, r.g@) { unimplemented!() } }
impl SubV<&F64> for &F64 { type O = F64; open spec fn sub_ok(self, r: &F64) -> bool { true } #[verifier::external_body] fn sub_v(self, r: &F64) -> (o: F64) ensures o.g@ == fsub(self.g@, r.g@) { unimplemented!() } }
impl AddV<usize> for usize { type O = usize; open spec fn add_ok(self, r: usize) -> bool { self + r <= usize::MAX } #[verifier::external_body] fn add_v(self, r: usize) -> (o: usize) ensures o == self + r { unimplemented!() } }
impl SubV<usize> for usize { type O = usize; open spec fn sub_ok(self, r: usize) -> bool { self >= r } #[verifier::external_body] fn sub_v(self, r: usize) -> (o: usize) ensures o == self - r { unimplemented!() } }
impl MulV<usize> for usize { type O = usize; open spec fn mul_ok(self, r: usize) -> bool { self * r <= usize::MAX } #[verifier::external_body] fn mul_v(self, r: usize) -> (o: usize) ensures o == self * r { unimplemented!() } }
impl DivV<usize> for usize { type O = usize; open spec fn div_ok(self, r: usize) -> bool { r != 0 } #[verifier::external_body] fn div_v(self, r: usize) -> (o: usize) ensures o == self as int / r as int { unimplemented!() } }

pub trait ToF64 { spec fn as_r(self) -> Fl; }
impl ToF64 for usize { open spec fn as_r(self) -> Fl { Fl::Fin(self as real) } }
impl ToF64 for u64 { open spec fn as_r(self) -> Fl { Fl::Fin(self as real) } }
impl ToF64 for i32 { open spec fn as_r(self) -> Fl { Fl::Fin(self as real) } }
impl ToF64 for F64 { open spec fn as_r(self) -> Fl { self.g@ } }
#[verifier::external_body] pub fn to_f64_v<T: ToF64>(x: T) -> (r: F64) ensures r.g@ == x.as_r() { unimplemented!() }

// ---- values
pub trait CloneV: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl<T> CloneV for T { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
pub trait ValV { type O; spec fn val_s(self) -> Self::O; fn val_v0(self) -> (r: Self::O) ensures r == self.val_s(); }
impl ValV for usize { type O = usize; open spec fn val_s(self) -> usize { self } fn val_v0(self) -> usize { self } }
impl ValV for &usize { type O = usize; open spec fn val_s(self) -> usize { *self } fn val_v0(self) -> usize { *self } }
impl ValV for F64 { type O = F64; open spec fn val_s(self) -> F64 { self } fn val_v0(self) -> F64 { self } }
impl ValV for &F64 { type O = F64; open spec fn val_s(self) -> F64 { *self } fn val_v0(self) -> F64 { *self } }
pub fn val_v<T: ValV>(x: T) -> (r: T::O) ensures r == x.val_s() { x.val_v0() }

pub trait UnwrapV { type O; spec fn ok_s(self) -> bool; spec fn un_s(self) -> Self::O; fn unwrap_v(self) -> (r: Self::O) requires self.ok_s() ensures r == self.un_s();
    fn unwrap_or_panic_v(self, c: Ghost<bool>) -> (r: Self::O) requires self.ok_s() || c@ ensures self.ok_s(), r == self.un_s(); }
impl<T> UnwrapV for Option<T> { type O = T; open spec fn ok_s(self) -> bool { self is Some } open spec fn un_s(self) -> T { self->Some_0 } #[verifier::external_body] fn unwrap_v(self) -> T { unimplemented!() } #[verifier::external_body] fn unwrap_or_panic_v(self, c: Ghost<bool>) -> T { unimplemented!() } }
impl<T, E> UnwrapV for Result<T, E> { type O = T; open spec fn ok_s(self) -> bool { self is Ok } open spec fn un_s(self) -> T { self->Ok_0 } #[verifier::external_body] fn unwrap_v(self) -> T { unimplemented!() } #[verifier::external_body] fn unwrap_or_panic_v(self, c: Ghost<bool>) -> T { unimplemented!() } }

#[verifier::external_body] pub fn panic_v<T>(c: Ghost<bool>) -> (r: T) requires c@ ensures false { unimplemented!() }
#[verifier::external_body] pub fn fmt_v() -> String { unimplemented!() }
pub uninterp spec fn dec_str(n: nat) -> Seq<char>;
pub axiom fn ax_dec_str(a: nat, b: nat) ensures dec_str(a) == dec_str(b) ==> a == b;
pub trait ToStringV { spec fn str_s(&self) -> Seq<char>; fn to_string_v(&self) -> (r: String) ensures r@ == self.str_s(); }
impl ToStringV for str { open spec fn str_s(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_string_v(&self) -> String { unimplemented!() } }
impl ToStringV for usize { open spec fn str_s(&self) -> Seq<char> { dec_str(*self as nat) } #[verifier::external_body] fn to_string_v(&self) -> String { unimplemented!() } }
pub axiom fn ax_string_ext(a: String, b: String) ensures a@ == b@ ==> a == b;
#[verifier::external_body] pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
#[verifier::external_body] pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }

// ---- vectors, iteration
pub trait LenV { spec fn len_s(&self) -> nat; fn len_v(&self) -> (r: usize) ensures r == self.len_s(); }
impl<T> LenV for Vec<T> { open spec fn len_s(&self) -> nat { self@.len() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { self.len() } }
impl LenV for Range<usize> { open spec fn len_s(&self) -> nat { if self.end >= self.start { (self.end - self.start) as nat } else { 0 } } fn len_v(&self) -> (r: usize) { if self.end >= self.start { self.end - self.start } else { 0 } } }
impl<T> LenV for Array1<T> { open spec fn len_s(&self) -> nat { self.d0() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { unimplemented!() } }
impl<T> LenV for BTreeSet<T> { open spec fn len_s(&self) -> nat { self@.len() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { unimplemented!() } }
impl<K, V> LenV for HMap<K, V> { open spec fn len_s(&self) -> nat { self@.dom().len() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { unimplemented!() } }
pub trait VecV<T> {
    spec fn vs(&self) -> Seq<T>;
    fn at_v(&self, i: usize) -> (r: T) requires i < self.vs().len() ensures r == self.vs()[i as int];
}
impl<T> VecV<T> for Vec<T> { open spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn at_v(&self, i: usize) -> (r: T) { unimplemented!() } }
pub trait PutV<T> { spec fn ps(&self) -> Seq<T>; fn put_v(&mut self, i: usize, x: T) requires i < old(self).ps().len() ensures final(self).ps() == old(self).ps().update(i as int, x); }
impl<T> PutV<T> for Vec<T> { open spec fn ps(&self) -> Seq<T> { self@ } #[verifier::external_body] fn put_v(&mut self, i: usize, x: T) { unimplemented!() } }
#[verifier::external_body] pub fn range_v(a: usize, b: usize) -> (r: Vec<usize>) ensures r@.len() == (if b >= a { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i { unimplemented!() }
#[verifier::external_body] pub fn rev_v<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn skip_v<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= v@.len() { v@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn take_v<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= v@.len() { v@.take(n as int) } else { v@ }) { unimplemented!() }
#[verifier::external_body] pub fn vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
#[verifier::external_body] pub fn vec_of_1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); v }
#[verifier::external_body] pub fn vec_of_2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); v }
pub trait ExtendV<T> { spec fn es(&self) -> Seq<T>; fn extend_v(&mut self, x: Vec<T>) ensures final(self).es() == old(self).es() + x@; }
impl<T> ExtendV<T> for Vec<T> { open spec fn es(&self) -> Seq<T> { self@ } #[verifier::external_body] fn extend_v(&mut self, x: Vec<T>) { unimplemented!() } }

/// What an iteration over a collection yields, in order.
impl<T> IterVR<T> for Vec<T> { open spec fn iv(&self, r: Seq<&T>) -> bool { r.len() == self@.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == self@[i] } #[verifier::external_body] fn iter_v<'a>(&self) -> (r: Vec<&'a T>) where T: 'a { unimplemented!() } }
pub trait IterVR<T> { spec fn iv(&self, r: Seq<&T>) -> bool; fn iter_v<'a>(&self) -> (r: Vec<&'a T>) where T: 'a ensures self.iv(r@); }
impl<T> IterVR<T> for Array1<T> { open spec fn iv(&self, r: Seq<&T>) -> bool { r.len() == self.d0() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == self.at(i) } #[verifier::external_body] fn iter_v<'a>(&self) -> (r: Vec<&'a T>) where T: 'a { unimplemented!() } }
pub open spec fn row_major<T>(a: &Array2<T>, r: Seq<&T>) -> bool {
    &&& r.len() == a.d0() * a.d1()
    &&& forall|k: int| 0 <= k < r.len() ==> a.d1() > 0 && 0 <= k / (a.d1() as int) < a.d0() && 0 <= k % (a.d1() as int) < a.d1() && *(#[trigger] r[k]) == a.at(k / (a.d1() as int), k % (a.d1() as int))
    &&& forall|i: int, j: int| 0 <= i < a.d0() && 0 <= j < a.d1() ==> 0 <= i * a.d1() + j < r.len() && *r[i * a.d1() + j] == #[trigger] a.at(i, j)
}
impl<T> IterVR<T> for Array2<T> { open spec fn iv(&self, r: Seq<&T>) -> bool { row_major(self, r) } #[verifier::external_body] fn iter_v<'a>(&self) -> (r: Vec<&'a T>) where T: 'a { unimplemented!() } }

pub open spec fn set_order<T>(s: Set<T>, r: Seq<T>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| 0 <= i < r.len() ==> s.contains(#[trigger] r[i])
    &&& forall|x: T| #[trigger] s.contains(x) ==> r.contains(x)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] before(r[i], r[j])
    &&& r.no_duplicates()
}
/// The order in which a set is iterated: a function of its elements.
pub uninterp spec fn ord_s<T>(s: Set<T>) -> Seq<T>;
pub open spec fn derefs<T>(r: Seq<&T>) -> Seq<T> { Seq::new(r.len(), |i: int| *r[i]) }
impl<T> IterVR<T> for BTreeSet<T> { open spec fn iv(&self, r: Seq<&T>) -> bool { set_order(self@, derefs(r)) && derefs(r) == ord_s(self@) } #[verifier::external_body] fn iter_v<'a>(&self) -> (r: Vec<&'a T>) where T: 'a { unimplemented!() } }
pub trait IntoIterV { type E; spec fn into_s(self, r: Seq<Self::E>) -> bool; fn into_iter_v(self) -> (r: Vec<Self::E>) ensures self.into_s(r@); }
impl<T> IntoIterV for Vec<T> { type E = T; open spec fn into_s(self, r: Seq<T>) -> bool { r == self@ } #[verifier::external_body] fn into_iter_v(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> IntoIterV for &'a Vec<T> { type E = &'a T; open spec fn into_s(self, r: Seq<&'a T>) -> bool { r.len() == self@.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == self@[i] } #[verifier::external_body] fn into_iter_v(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<T> IntoIterV for Array1<T> { type E = T; open spec fn into_s(self, r: Seq<T>) -> bool { r.len() == self.d0() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == self.at(i) } #[verifier::external_body] fn into_iter_v(self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> IntoIterV for BTreeSet<T> { type E = T; open spec fn into_s(self, r: Seq<T>) -> bool { set_order(self@, r) && r == ord_s(self@) } #[verifier::external_body] fn into_iter_v(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> IntoIterV for &'a BTreeSet<T> { type E = &'a T; open spec fn into_s(self, r: Seq<&'a T>) -> bool { set_order(self@, derefs(r)) && derefs(r) == ord_s(self@) } #[verifier::external_body] fn into_iter_v(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl IntoIterV for Range<usize> { type E = usize; open spec fn into_s(self, r: Seq<usize>) -> bool { r.len() == self.len_s() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == self.start + i } #[verifier::external_body] fn into_iter_v(self) -> (r: Vec<usize>) { unimplemented!() } }
/// Collecting.
pub trait FromVecV<T>: Sized { spec fn from_s(v: Seq<T>, r: Self) -> bool; fn fvv(v: Vec<T>) -> (r: Self) ensures Self::from_s(v@, r); }
impl<T> FromVecV<T> for Vec<T> { open spec fn from_s(v: Seq<T>, r: Vec<T>) -> bool { r@ == v } fn fvv(v: Vec<T>) -> (r: Vec<T>) { v } }
impl<T> FromVecV<T> for BTreeSet<T> { open spec fn from_s(v: Seq<T>, r: BTreeSet<T>) -> bool { r@ == v.to_set() } #[verifier::external_body] fn fvv(v: Vec<T>) -> (r: BTreeSet<T>) { unimplemented!() } }
impl<K, V> FromVecV<(K, V)> for HMap<K, V> {
    open spec fn from_s(v: Seq<(K, V)>, r: HMap<K, V>) -> bool {
        &&& forall|i: int| 0 <= i < v.len() ==> r@.contains_key((#[trigger] v[i]).0)
        &&& forall|k: K| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == k && r@[k] == v[i].1 && forall|j: int| i < j < v.len() ==> (#[trigger] v[j]).0 != k
    }
    #[verifier::external_body] fn fvv(v: Vec<(K, V)>) -> (r: HMap<K, V>) { unimplemented!() }
}
pub fn from_vec_v<T, C: FromVecV<T>>(v: Vec<T>) -> (r: C) ensures C::from_s(v@, r) { C::fvv(v) }
#[verifier::external_body] pub fn flatten_v<'a, T>(v: Vec<&'a Vec<T>>) -> (r: Vec<&'a T>)
    ensures forall|w: nat| #![trigger wid(w)] wid(w) && widths(v@, w) ==> r@.len() == v@.len() * w
        && (forall|k: int| 0 <= k < r@.len() ==> w > 0 && 0 <= k / (w as int) < v@.len() && 0 <= k % (w as int) < w && *(#[trigger] r@[k]) == v@[k / (w as int)]@[k % (w as int)])
{ unimplemented!() }
pub open spec fn wid(w: nat) -> bool { true }
pub open spec fn widths<T>(v: Seq<&Vec<T>>, w: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == w }
#[verifier::external_body] pub fn combinations_v(v: Vec<usize>, k: usize) -> (r: Vec<Vec<usize>>)
    ensures
        v@.no_duplicates() ==> {
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.no_duplicates() && r@[i]@.len() == k && r@[i]@.to_set().subset_of(v@.to_set()) && r@[i]@.to_set().len() == k
            &&& forall|s: Set<usize>| s.subset_of(v@.to_set()) && s.len() == k ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@.to_set() == s
        }
{ unimplemented!() }

// ---- BTreeSet
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct BTreeSet<T> { p: core::marker::PhantomData<T> }
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> BTreeSet<T> {
    #[verifier::external_body] pub fn new() -> (r: BTreeSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
// Vectors are equal when their elements are (as Eq and Hash see them).
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn ax_set_ext<T>(a: BTreeSet<T>, b: BTreeSet<T>) ensures a@ == b@ ==> a == b;
// ---- HashMap
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: HMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures self@.contains_key(*k) ==> r == Some(&self@[*k]), !self@.contains_key(*k) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn iter_v<'a>(&self) -> (r: Vec<(&'a K, &'a V)>) where K: 'a, V: 'a
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
    { unimplemented!() }
}

// ---- arrays
#[derive(Clone, Copy)] pub struct Axis(pub usize);
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array1<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array2<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array3<T> { p: core::marker::PhantomData<T> }
pub trait Zero: Sized { spec fn zero_s() -> Self; }
impl Zero for usize { open spec fn zero_s() -> usize { 0usize } }
impl Zero for u16 { open spec fn zero_s() -> u16 { 0u16 } }
impl Zero for F64 { open spec fn zero_s() -> F64 { F64 { g: Ghost(Fl::Fin(0real)) } } }
/// Sum of floats, as reals.
pub open spec fn fsum(s: Seq<F64>) -> Fl decreases s.len() { if s.len() == 0 { Fl::Fin(0real) } else { fadd(fsum(s.drop_last()), s.last().g@) } }
pub open spec fn nsum(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { nsum(s.drop_last()) + s.last() as nat } }
pub open spec fn nprod(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 1 } else { nprod(s.drop_last()) * s.last() as nat } }
pub trait SumV: Sized { spec fn sum_ok(s: Seq<Self>, r: Self) -> bool; spec fn sum_fits(s: Seq<Self>) -> bool; }
impl SumV for F64 { open spec fn sum_ok(s: Seq<F64>, r: F64) -> bool { r.g@ == fsum(s) } open spec fn sum_fits(s: Seq<F64>) -> bool { true } }
impl SumV for usize { open spec fn sum_ok(s: Seq<usize>, r: usize) -> bool { r == nsum(s) } open spec fn sum_fits(s: Seq<usize>) -> bool { nsum(s) <= usize::MAX } }

impl<T> Array1<T> {
    pub uninterp spec fn d0(&self) -> nat;
    pub uninterp spec fn at(&self, i: int) -> T;
    pub open spec fn seq(&self) -> Seq<T> { Seq::new(self.d0(), |i: int| self.at(i)) }
    #[verifier::external_body] pub fn shape(&self) -> (r: Vec<usize>) ensures r@.len() == 1, r@[0] == self.d0() { unimplemented!() }
    #[verifier::external_body] pub fn dim(&self) -> (r: usize) ensures r == self.d0() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.d0() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: Array1<T>) ensures r.d0() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.at(i) == v@[i] { unimplemented!() }
    #[verifier::external_body] pub fn from_flat_v(sh: usize, v: Vec<T>) -> (r: Array1<T>) requires v@.len() == sh ensures r.d0() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.at(i) == v@[i] { unimplemented!() }
    #[verifier::external_body] pub fn zeros(n: usize) -> (r: Array1<T>) where T: Zero ensures r.d0() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.at(i) == T::zero_s() { unimplemented!() }
    #[verifier::external_body] pub fn at_v(&self, i: usize) -> (r: T) requires i < self.d0() ensures r == self.at(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn put_v(&mut self, i: usize, x: T) requires i < old(self).d0() ensures final(self).d0() == old(self).d0(), forall|j: int| 0 <= j < old(self).d0() ==> #[trigger] final(self).at(j) == (if j == i { x } else { old(self).at(j) }) { unimplemented!() }
    #[verifier::external_body] pub fn fill(&mut self, x: T) ensures final(self).d0() == old(self).d0(), forall|j: int| 0 <= j < old(self).d0() ==> #[trigger] final(self).at(j) == x { unimplemented!() }
    #[verifier::external_body] pub fn sum(&self) -> (r: T) where T: SumV requires T::sum_fits(self.seq()) ensures T::sum_ok(self.seq(), r) { unimplemented!() }
    #[verifier::external_body] pub fn insert_axis(self, a: Axis) -> (r: Array2<T>) requires a.0 <= 1 ensures a.0 == 1 ==> r.d0() == self.d0() && r.d1() == 1 && forall|i: int| 0 <= i < self.d0() ==> #[trigger] r.at(i, 0) == self.at(i),
        a.0 == 0 ==> r.d1() == self.d0() && r.d0() == 1 && forall|i: int| 0 <= i < self.d0() ==> #[trigger] r.at(0, i) == self.at(i) { unimplemented!() }
    #[verifier::external_body] pub fn into_shape(self, sh: (usize, usize)) -> (r: Result<Array2<T>, ShapeError>)
        ensures r is Ok <==> sh.0 * sh.1 == self.d0(), sh.0 == self.d0() && sh.1 == 1 ==> r is Ok && r->Ok_0.d0() == self.d0() && r->Ok_0.d1() == 1 && forall|i: int| 0 <= i < self.d0() ==> #[trigger] r->Ok_0.at(i, 0) == self.at(i) { unimplemented!() }
    #[verifier::external_body] pub fn map_el<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Array1<U>)
        requires forall|i: int| 0 <= i < self.d0() ==> f.requires((&#[trigger] self.at(i),)),
        ensures r.d0() == self.d0(), forall|i: int| 0 <= i < self.d0() ==> f.ensures((&self.at(i),), #[trigger] r.at(i)) { unimplemented!() }
    #[verifier::external_body] pub fn mapv_el<U, F: Fn(T) -> U>(&self, f: F) -> (r: Array1<U>)
        requires forall|i: int| 0 <= i < self.d0() ==> f.requires((#[trigger] self.at(i),)),
        ensures r.d0() == self.d0(), forall|i: int| 0 <= i < self.d0() ==> f.ensures((self.at(i),), #[trigger] r.at(i)) { unimplemented!() }
    #[verifier::external_body] pub fn indexed_iter_v(&self) -> (r: Vec<(usize, &T)>) ensures r@.len() == self.d0(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == self.at(i) { unimplemented!() }
}
#[verifier::external_body] pub struct ShapeError { p: u8 }
pub open spec fn ndot(n: nat, a: Array1<usize>, b: Array1<usize>) -> nat decreases n { if n == 0 { 0 } else { ndot((n - 1) as nat, a, b) + a.at(n - 1) as nat * b.at(n - 1) as nat } }
impl Array1<usize> {
    #[verifier::external_body] pub fn product(&self) -> (r: usize) requires nprod(self.seq()) <= usize::MAX ensures r == nprod(self.seq()) { unimplemented!() }
    #[verifier::external_body] pub fn dot(&self, o: &Array1<usize>) -> (r: usize) requires self.d0() == o.d0(), ndot(self.d0(), *self, *o) <= usize::MAX ensures r == ndot(self.d0(), *self, *o) { unimplemented!() }
}
impl Array1<F64> {
    #[verifier::external_body] pub fn neg_v(self) -> (r: Array1<F64>) ensures r.d0() == self.d0(), forall|i: int| 0 <= i < r.d0() ==> (#[trigger] r.at(i)).g@ == fneg(self.at(i).g@) { unimplemented!() }
}
impl<T> Index<usize> for Array1<T> { type Output = T; #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures *r == self.at(i as int) { unimplemented!() } }
impl<T> IndexSpecImpl<usize> for Array1<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self.d0() } }
impl<T> IndexMut<usize> for Array1<T> { #[verifier::external_body] fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self).at(i as int), final(self).d0() == old(self).d0(), forall|j: int| 0 <= j < old(self).d0() ==> #[trigger] final(self).at(j) == (if j == i { *final(r) } else { old(self).at(j) }) { unimplemented!() } }

impl<T> Array2<T> {
    pub uninterp spec fn d0(&self) -> nat;
    pub uninterp spec fn d1(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    pub open spec fn row_s(&self, i: int) -> Seq<T> { Seq::new(self.d1(), |j: int| self.at(i, j)) }
    pub open spec fn col_s(&self, j: int) -> Seq<T> { Seq::new(self.d0(), |i: int| self.at(i, j)) }
    pub open spec fn same_dim<U>(&self, o: &Array2<U>) -> bool { self.d0() == o.d0() && self.d1() == o.d1() }
    #[verifier::external_body] pub fn shape(&self) -> (r: Vec<usize>) ensures r@.len() == 2, r@[0] == self.d0(), r@[1] == self.d1() { unimplemented!() }
    #[verifier::external_body] pub fn dim(&self) -> (r: (usize, usize)) ensures r.0 == self.d0(), r.1 == self.d1() { unimplemented!() }
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self.d0() { unimplemented!() }
    #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self.d1() { unimplemented!() }
    #[verifier::external_body] pub fn zeros<S: Shape2>(sh: S) -> (r: Array2<T>) where T: Zero ensures r.d0() == sh.s0(), r.d1() == sh.s1(), forall|i: int, j: int| 0 <= i < r.d0() && 0 <= j < r.d1() ==> #[trigger] r.at(i, j) == T::zero_s() { unimplemented!() }
    #[verifier::external_body] pub fn from_flat_v(sh: (usize, usize), v: Vec<T>) -> (r: Array2<T>) requires v@.len() == sh.0 * sh.1 ensures r.d0() == sh.0, r.d1() == sh.1, forall|i: int, j: int| 0 <= i < r.d0() && 0 <= j < r.d1() ==> 0 <= i * r.d1() + j < v@.len() && #[trigger] r.at(i, j) == v@[i * r.d1() + j] { unimplemented!() }
    #[verifier::external_body] pub fn from_shape_vec(sh: (usize, usize), v: Vec<T>) -> (r: Result<Array2<T>, ShapeError>)
        ensures r is Ok <==> v@.len() == sh.0 * sh.1,
            r is Ok ==> r->Ok_0.d0() == sh.0 && r->Ok_0.d1() == sh.1 && forall|i: int, j: int| 0 <= i < sh.0 && 0 <= j < sh.1 ==> 0 <= i * sh.1 + j < v@.len() && #[trigger] r->Ok_0.at(i, j) == v@[i * sh.1 + j] { unimplemented!() }
    #[verifier::external_body] pub fn row(&self, i: usize) -> (r: Array1<T>) requires i < self.d0() ensures r.d0() == self.d1(), forall|j: int| 0 <= j < r.d0() ==> #[trigger] r.at(j) == self.at(i as int, j) { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, i: usize) -> (r: Array1<T>) requires i < self.d1() ensures r.d0() == self.d0(), forall|j: int| 0 <= j < r.d0() ==> #[trigger] r.at(j) == self.at(j, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn index_axis(&self, a: Axis, i: usize) -> (r: Array1<T>) requires a.0 == 0 ==> i < self.d0(), a.0 == 1 ==> i < self.d1(), a.0 <= 1
        ensures a.0 == 0 ==> r.d0() == self.d1() && forall|j: int| 0 <= j < r.d0() ==> #[trigger] r.at(j) == self.at(i as int, j), a.0 == 1 ==> r.d0() == self.d0() && forall|j: int| 0 <= j < r.d0() ==> #[trigger] r.at(j) == self.at(j, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn axis_len_v(&self, a: Axis) -> (r: usize) requires a.0 <= 1 ensures r == (if a.0 == 0 { self.d0() } else { self.d1() }) { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter_v(&self, a: Axis) -> (r: Vec<Array1<T>>) requires a.0 <= 1
        ensures a.0 == 0 ==> r@.len() == self.d0() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).d0() == self.d1() && forall|j: int| 0 <= j < self.d1() ==> #[trigger] r@[i].at(j) == self.at(i, j),
            a.0 == 1 ==> r@.len() == self.d1() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).d0() == self.d0() && forall|j: int| 0 <= j < self.d0() ==> #[trigger] r@[i].at(j) == self.at(j, i) { unimplemented!() }
    #[verifier::external_body] pub fn diag(&self) -> (r: Array1<T>) ensures r.d0() == (if self.d0() <= self.d1() { self.d0() } else { self.d1() }), forall|i: int| 0 <= i < r.d0() ==> #[trigger] r.at(i) == self.at(i, i) { unimplemented!() }
    #[verifier::external_body] pub fn diag_fill_v(&mut self, x: T) ensures final(self).same_dim(old(self)), forall|i: int, j: int| 0 <= i < old(self).d0() && 0 <= j < old(self).d1() ==> #[trigger] final(self).at(i, j) == (if i == j { x } else { old(self).at(i, j) }) { unimplemented!() }
    #[verifier::external_body] pub fn diag_assign_v(&mut self, x: &Array1<T>) requires old(self).d0() == old(self).d1(), x.d0() == old(self).d0() ensures final(self).same_dim(old(self)), forall|i: int, j: int| 0 <= i < old(self).d0() && 0 <= j < old(self).d1() ==> #[trigger] final(self).at(i, j) == (if i == j { x.at(i) } else { old(self).at(i, j) }) { unimplemented!() }
    #[verifier::external_body] pub fn assign(&mut self, x: &Array2<T>) requires x.same_dim(old(self)) ensures final(self).same_dim(old(self)), forall|i: int, j: int| 0 <= i < old(self).d0() && 0 <= j < old(self).d1() ==> #[trigger] final(self).at(i, j) == x.at(i, j) { unimplemented!() }
    #[verifier::external_body] pub fn fill(&mut self, x: T) ensures final(self).same_dim(old(self)), forall|i: int, j: int| 0 <= i < old(self).d0() && 0 <= j < old(self).d1() ==> #[trigger] final(self).at(i, j) == x { unimplemented!() }
    #[verifier::external_body] pub fn sum_axis(&self, a: Axis) -> (r: Array1<T>) where T: SumV
        requires a.0 <= 1, a.0 == 1 ==> forall|i: int| 0 <= i < self.d0() ==> T::sum_fits(#[trigger] self.row_s(i)), a.0 == 0 ==> forall|i: int| 0 <= i < self.d1() ==> T::sum_fits(#[trigger] self.col_s(i))
        ensures a.0 == 1 ==> r.d0() == self.d0() && forall|i: int| 0 <= i < r.d0() ==> T::sum_ok(self.row_s(i), #[trigger] r.at(i)), a.0 == 0 ==> r.d0() == self.d1() && forall|i: int| 0 <= i < r.d0() ==> T::sum_ok(self.col_s(i), #[trigger] r.at(i)) { unimplemented!() }
    #[verifier::external_body] pub fn indexed_iter_v(&self) -> (r: Vec<((usize, usize), &T)>)
        ensures r@.len() == self.d0() * self.d1(),
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0.0 < self.d0() && r@[k].0.1 < self.d1() && *r@[k].1 == self.at(r@[k].0.0 as int, r@[k].0.1 as int),
            forall|i: int, j: int| #![trigger self.at(i, j)] 0 <= i < self.d0() && 0 <= j < self.d1() ==> 0 <= i * self.d1() + j < r@.len() && r@[i * self.d1() + j].0.0 == i && r@[i * self.d1() + j].0.1 == j { unimplemented!() }
    #[verifier::external_body] pub fn map_el<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Array2<U>)
        requires forall|i: int, j: int| 0 <= i < self.d0() && 0 <= j < self.d1() ==> f.requires((&#[trigger] self.at(i, j),)),
        ensures r.same_dim(self), forall|i: int, j: int| 0 <= i < self.d0() && 0 <= j < self.d1() ==> f.ensures((&self.at(i, j),), #[trigger] r.at(i, j)) { unimplemented!() }
    #[verifier::external_body] pub fn mapv_el<U, F: Fn(T) -> U>(&self, f: F) -> (r: Array2<U>)
        requires forall|i: int, j: int| 0 <= i < self.d0() && 0 <= j < self.d1() ==> f.requires((#[trigger] self.at(i, j),)),
        ensures r.same_dim(self), forall|i: int, j: int| 0 <= i < self.d0() && 0 <= j < self.d1() ==> f.ensures((self.at(i, j),), #[trigger] r.at(i, j)) { unimplemented!() }
}
pub open spec fn bc_ok<T>(a: &Array2<T>, b: &Array2<T>) -> bool { (b.d0() == a.d0() || b.d0() == 1) && (b.d1() == a.d1() || b.d1() == 1) }
/// Element of `b` broadcast to position (i, j).
pub open spec fn bc<T>(b: &Array2<T>, i: int, j: int) -> T { b.at(if b.d0() == 1 { 0 } else { i }, if b.d1() == 1 { 0 } else { j }) }
pub open spec fn bdim(a: nat, b: nat) -> nat { if a == 1 { b } else { a } }
pub open spec fn bc2_ok<T>(a: &Array2<T>, b: &Array2<T>) -> bool { (a.d0() == b.d0() || a.d0() == 1 || b.d0() == 1) && (a.d1() == b.d1() || a.d1() == 1 || b.d1() == 1) }
pub open spec fn bin2(a: &Array2<F64>, b: &Array2<F64>, r: &Array2<F64>, f: spec_fn(Fl, Fl) -> Fl) -> bool {
    r.d0() == bdim(a.d0(), b.d0()) && r.d1() == bdim(a.d1(), b.d1()) && forall|i: int, j: int| 0 <= i < r.d0() && 0 <= j < r.d1() ==> (#[trigger] r.at(i, j)).g@ == f(bc(a, i, j).g@, bc(b, i, j).g@)
}
impl Array2<F64> {
    #[verifier::external_body] pub fn div_assign(&mut self, o: &Array2<F64>) requires bc_ok(old(self), o) ensures final(self).same_dim(old(self)), forall|i: int, j: int| 0 <= i < old(self).d0() && 0 <= j < old(self).d1() ==> (#[trigger] final(self).at(i, j)).g@ == fdiv(old(self).at(i, j).g@, bc(o, i, j).g@) { unimplemented!() }
    #[verifier::external_body] pub fn mul_assign(&mut self, o: &Array2<F64>) requires bc_ok(old(self), o) ensures final(self).same_dim(old(self)), forall|i: int, j: int| 0 <= i < old(self).d0() && 0 <= j < old(self).d1() ==> (#[trigger] final(self).at(i, j)).g@ == fmul(old(self).at(i, j).g@, bc(o, i, j).g@) { unimplemented!() }
}
impl DivV<&Array2<F64>> for &Array2<F64> { type O = Array2<F64>;  open spec fn div_ok(self, b: &Array2<F64>) -> bool { bc2_ok(self, b) } #[verifier::external_body] fn div_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, b, &r, |x: Fl, y: Fl| fdiv(x, y)) { unimplemented!() } }
impl MulV<&Array2<F64>> for &Array2<F64> { type O = Array2<F64>;  open spec fn mul_ok(self, b: &Array2<F64>) -> bool { bc2_ok(self, b) } #[verifier::external_body] fn mul_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, b, &r, |x: Fl, y: Fl| fmul(x, y)) { unimplemented!() } }
impl AddV<&Array2<F64>> for &Array2<F64> { type O = Array2<F64>;  open spec fn add_ok(self, b: &Array2<F64>) -> bool { bc2_ok(self, b) } #[verifier::external_body] fn add_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, b, &r, |x: Fl, y: Fl| fadd(x, y)) { unimplemented!() } }
impl SubV<&Array2<F64>> for &Array2<F64> { type O = Array2<F64>;  open spec fn sub_ok(self, b: &Array2<F64>) -> bool { bc2_ok(self, b) } #[verifier::external_body] fn sub_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, b, &r, |x: Fl, y: Fl| fsub(x, y)) { unimplemented!() } }
impl DivV<&Array2<F64>> for F64 { type O = Array2<F64>; open spec fn div_ok(self, b: &Array2<F64>) -> bool { true } #[verifier::external_body] fn div_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures r.same_dim(b), forall|i: int, j: int| 0 <= i < b.d0() && 0 <= j < b.d1() ==> (#[trigger] r.at(i, j)).g@ == fdiv(self.g@, b.at(i, j).g@) { unimplemented!() } }
impl core::ops::Sub<Array2<F64>> for Array2<F64> { type Output = Array2<F64>; #[verifier::external_body] fn sub(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, &b, &r, |x: Fl, y: Fl| fsub(x, y)) { unimplemented!() } }
impl SubSpecImpl<Array2<F64>> for Array2<F64> { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Array2<F64>) -> bool { bc2_ok(&self, &o) } open spec fn sub_spec(self, o: Array2<F64>) -> Array2<F64> { arbitrary() } }
impl core::ops::Div<Array2<F64>> for Array2<F64> { type Output = Array2<F64>; #[verifier::external_body] fn div(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, &b, &r, |x: Fl, y: Fl| fdiv(x, y)) { unimplemented!() } }
impl DivSpecImpl<Array2<F64>> for Array2<F64> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: Array2<F64>) -> bool { bc2_ok(&self, &o) } open spec fn div_spec(self, o: Array2<F64>) -> Array2<F64> { arbitrary() } }
impl DivV<Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn div_ok(self, b: Array2<F64>) -> bool { bc2_ok(&self, &b) } #[verifier::external_body] fn div_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, &b, &r, |x: Fl, y: Fl| fdiv(x, y)) { unimplemented!() } }
impl DivV<&Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn div_ok(self, b: &Array2<F64>) -> bool { bc2_ok(&self, b) } #[verifier::external_body] fn div_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, b, &r, |x: Fl, y: Fl| fdiv(x, y)) { unimplemented!() } }
impl DivV<Array2<F64>> for &Array2<F64> { type O = Array2<F64>; open spec fn div_ok(self, b: Array2<F64>) -> bool { bc2_ok(self, &b) } #[verifier::external_body] fn div_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, &b, &r, |x: Fl, y: Fl| fdiv(x, y)) { unimplemented!() } }
impl MulV<Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn mul_ok(self, b: Array2<F64>) -> bool { bc2_ok(&self, &b) } #[verifier::external_body] fn mul_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, &b, &r, |x: Fl, y: Fl| fmul(x, y)) { unimplemented!() } }
impl MulV<&Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn mul_ok(self, b: &Array2<F64>) -> bool { bc2_ok(&self, b) } #[verifier::external_body] fn mul_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, b, &r, |x: Fl, y: Fl| fmul(x, y)) { unimplemented!() } }
impl MulV<Array2<F64>> for &Array2<F64> { type O = Array2<F64>; open spec fn mul_ok(self, b: Array2<F64>) -> bool { bc2_ok(self, &b) } #[verifier::external_body] fn mul_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, &b, &r, |x: Fl, y: Fl| fmul(x, y)) { unimplemented!() } }
impl AddV<Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn add_ok(self, b: Array2<F64>) -> bool { bc2_ok(&self, &b) } #[verifier::external_body] fn add_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, &b, &r, |x: Fl, y: Fl| fadd(x, y)) { unimplemented!() } }
impl AddV<&Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn add_ok(self, b: &Array2<F64>) -> bool { bc2_ok(&self, b) } #[verifier::external_body] fn add_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, b, &r, |x: Fl, y: Fl| fadd(x, y)) { unimplemented!() } }
impl AddV<Array2<F64>> for &Array2<F64> { type O = Array2<F64>; open spec fn add_ok(self, b: Array2<F64>) -> bool { bc2_ok(self, &b) } #[verifier::external_body] fn add_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, &b, &r, |x: Fl, y: Fl| fadd(x, y)) { unimplemented!() } }
impl SubV<Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn sub_ok(self, b: Array2<F64>) -> bool { bc2_ok(&self, &b) } #[verifier::external_body] fn sub_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, &b, &r, |x: Fl, y: Fl| fsub(x, y)) { unimplemented!() } }
impl SubV<&Array2<F64>> for Array2<F64> { type O = Array2<F64>; open spec fn sub_ok(self, b: &Array2<F64>) -> bool { bc2_ok(&self, b) } #[verifier::external_body] fn sub_v(self, b: &Array2<F64>) -> (r: Array2<F64>) ensures bin2(&self, b, &r, |x: Fl, y: Fl| fsub(x, y)) { unimplemented!() } }
impl SubV<Array2<F64>> for &Array2<F64> { type O = Array2<F64>; open spec fn sub_ok(self, b: Array2<F64>) -> bool { bc2_ok(self, &b) } #[verifier::external_body] fn sub_v(self, b: Array2<F64>) -> (r: Array2<F64>) ensures bin2(self, &b, &r, |x: Fl, y: Fl| fsub(x, y)) { unimplemented!() } }
impl DivV<Array1<F64>> for Array1<F64> { type O = Array1<F64>; open spec fn div_ok(self, b: Array1<F64>) -> bool { self.d0() == b.d0() } #[verifier::external_body] fn div_v(self, b: Array1<F64>) -> (r: Array1<F64>) ensures r.d0() == self.d0() && forall|i: int| 0 <= i < r.d0() ==> (#[trigger] r.at(i)).g@ == fdiv(self.at(i).g@, b.at(i).g@) { unimplemented!() } }
impl DivV<&Array1<F64>> for &Array1<F64> { type O = Array1<F64>; open spec fn div_ok(self, b: &Array1<F64>) -> bool { self.d0() == b.d0() } #[verifier::external_body] fn div_v(self, b: &Array1<F64>) -> (r: Array1<F64>) ensures r.d0() == self.d0() && forall|i: int| 0 <= i < r.d0() ==> (#[trigger] r.at(i)).g@ == fdiv(self.at(i).g@, b.at(i).g@) { unimplemented!() } }
pub trait Shape2 { spec fn s0(self) -> nat; spec fn s1(self) -> nat; }
impl Shape2 for (usize, usize) { open spec fn s0(self) -> nat { self.0 as nat } open spec fn s1(self) -> nat { self.1 as nat } }
pub trait ShapeF { type O; spec fn f_s(self) -> Self::O; fn f(self) -> (r: Self::O) ensures r == self.f_s(); }
impl ShapeF for (usize, usize) { type O = (usize, usize); open spec fn f_s(self) -> (usize, usize) { self } #[verifier::external_body] fn f(self) -> (usize, usize) { self } }
impl<T> Index<[usize; 2]> for Array2<T> { type Output = T; #[verifier::external_body] fn index(&self, i: [usize; 2]) -> (r: &T) ensures *r == self.at(i[0] as int, i[1] as int) { unimplemented!() } }
impl<T> IndexSpecImpl<[usize; 2]> for Array2<T> { open spec fn index_req(&self, i: &[usize; 2]) -> bool { i[0] < self.d0() && i[1] < self.d1() } }
impl<T> IndexMut<[usize; 2]> for Array2<T> { #[verifier::external_body] fn index_mut(&mut self, i: [usize; 2]) -> (r: &mut T) ensures *r == old(self).at(i[0] as int, i[1] as int), final(self).same_dim(old(self)),
    forall|a: int, b: int| 0 <= a < old(self).d0() && 0 <= b < old(self).d1() ==> #[trigger] final(self).at(a, b) == (if a == i[0] && b == i[1] { *final(r) } else { old(self).at(a, b) }) { unimplemented!() } }

impl<T> Array3<T> {
    pub uninterp spec fn d0(&self) -> nat;
    pub uninterp spec fn d1(&self) -> nat;
    pub uninterp spec fn d2(&self) -> nat;
    pub uninterp spec fn at(&self, u: int, i: int, j: int) -> T;
    pub open spec fn row_s(&self, u: int, i: int) -> Seq<T> { Seq::new(self.d2(), |j: int| self.at(u, i, j)) }
    pub open spec fn same_dim<U>(&self, o: &Array3<U>) -> bool { self.d0() == o.d0() && self.d1() == o.d1() && self.d2() == o.d2() }
    pub open spec fn inb(&self, u: int, i: int, j: int) -> bool { 0 <= u < self.d0() && 0 <= i < self.d1() && 0 <= j < self.d2() }
    #[verifier::external_body] pub fn shape(&self) -> (r: Vec<usize>) ensures r@.len() == 3, r@[0] == self.d0(), r@[1] == self.d1(), r@[2] == self.d2() { unimplemented!() }
    #[verifier::external_body] pub fn dim(&self) -> (r: (usize, usize, usize)) ensures r.0 == self.d0(), r.1 == self.d1(), r.2 == self.d2() { unimplemented!() }
    #[verifier::external_body] pub fn zeros(sh: (usize, usize, usize)) -> (r: Array3<T>) where T: Zero ensures r.d0() == sh.0, r.d1() == sh.1, r.d2() == sh.2, forall|u: int, i: int, j: int| r.inb(u, i, j) ==> #[trigger] r.at(u, i, j) == T::zero_s() { unimplemented!() }
    #[verifier::external_body] pub fn from_flat_v(sh: (usize, usize, usize), v: Vec<T>) -> (r: Array3<T>) requires v@.len() == sh.0 * sh.1 * sh.2
        ensures r.d0() == sh.0, r.d1() == sh.1, r.d2() == sh.2, forall|u: int, i: int, j: int| r.inb(u, i, j) ==> 0 <= flat3(r.d1(), r.d2(), u, i, j) < v@.len() && #[trigger] r.at(u, i, j) == v@[flat3(r.d1(), r.d2(), u, i, j)] { unimplemented!() }
    #[verifier::external_body] pub fn index_axis(&self, a: Axis, k: usize) -> (r: Array2<T>)
        requires a.0 <= 2, a.0 == 0 ==> k < self.d0(), a.0 == 1 ==> k < self.d1(), a.0 == 2 ==> k < self.d2()
        ensures is_slice(self, a.0, k as int, &r) { unimplemented!() }
    #[verifier::external_body] pub fn axis_len_v(&self, a: Axis) -> (r: usize) requires a.0 <= 2 ensures r == (if a.0 == 0 { self.d0() } else if a.0 == 1 { self.d1() } else { self.d2() }) { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter_v(&self, a: Axis) -> (r: Vec<Array2<T>>) requires a.0 <= 2
        ensures r@.len() == (if a.0 == 0 { self.d0() } else if a.0 == 1 { self.d1() } else { self.d2() }), forall|k: int| 0 <= k < r@.len() ==> is_slice(self, a.0, k, &#[trigger] r@[k]) { unimplemented!() }
    #[verifier::external_body] pub fn put_axis_v(&mut self, a: Axis, k: usize, x: Array2<T>)
        requires a.0 <= 2, a.0 == 0 ==> k < old(self).d0() && x.d0() == old(self).d1() && x.d1() == old(self).d2(), a.0 == 1 ==> k < old(self).d1() && x.d0() == old(self).d0() && x.d1() == old(self).d2(), a.0 == 2 ==> k < old(self).d2() && x.d0() == old(self).d0() && x.d1() == old(self).d1()
        ensures final(self).same_dim(old(self)), forall|u: int, i: int, j: int| old(self).inb(u, i, j) ==> #[trigger] final(self).at(u, i, j) ==
            (if a.0 == 0 && u == k { x.at(i, j) } else if a.0 == 1 && i == k { x.at(u, j) } else if a.0 == 2 && j == k { x.at(u, i) } else { old(self).at(u, i, j) }) { unimplemented!() }
    #[verifier::external_body] pub fn sum_axis(&self, a: Axis) -> (r: Array2<T>) where T: SumV
        requires a.0 == 2, forall|u: int, i: int| 0 <= u < self.d0() && 0 <= i < self.d1() ==> T::sum_fits(#[trigger] self.row_s(u, i))
        ensures r.d0() == self.d0(), r.d1() == self.d1(), forall|u: int, i: int| 0 <= u < r.d0() && 0 <= i < r.d1() ==> T::sum_ok(self.row_s(u, i), #[trigger] r.at(u, i)) { unimplemented!() }
    #[verifier::external_body] pub fn slice_iia(&self, u: usize, i: usize) -> (r: Array1<T>) requires u < self.d0(), i < self.d1() ensures r.d0() == self.d2(), forall|j: int| 0 <= j < r.d0() ==> #[trigger] r.at(j) == self.at(u as int, i as int, j) { unimplemented!() }
    #[verifier::external_body] pub fn mapv_el<U, F: Fn(T) -> U>(&self, f: F) -> (r: Array3<U>)
        requires forall|u: int, i: int, j: int| self.inb(u, i, j) ==> f.requires((#[trigger] self.at(u, i, j),)),
        ensures r.same_dim(self), forall|u: int, i: int, j: int| self.inb(u, i, j) ==> f.ensures((self.at(u, i, j),), #[trigger] r.at(u, i, j)) { unimplemented!() }
}
// Arrays are determined by their shape and elements.
pub axiom fn ax_array3_ext<T>(a: Array3<T>, b: Array3<T>) ensures a.same_dim(&b) && (forall|u: int, i: int, j: int| a.inb(u, i, j) ==> #[trigger] a.at(u, i, j) == b.at(u, i, j)) ==> a == b;
pub axiom fn ax_array2_ext<T>(a: Array2<T>, b: Array2<T>) ensures a.same_dim(&b) && (forall|i: int, j: int| 0 <= i < a.d0() && 0 <= j < a.d1() ==> #[trigger] a.at(i, j) == b.at(i, j)) ==> a == b;
pub axiom fn ax_array1_ext<T>(a: Array1<T>, b: Array1<T>) ensures a.d0() == b.d0() && (forall|i: int| 0 <= i < a.d0() ==> #[trigger] a.at(i) == b.at(i)) ==> a == b;
pub open spec fn flat3(d1: nat, d2: nat, u: int, i: int, j: int) -> int { (u * d1 + i) * d2 + j }
pub open spec fn is_slice<T>(a: &Array3<T>, ax: usize, k: int, r: &Array2<T>) -> bool {
    if ax == 0 { r.d0() == a.d1() && r.d1() == a.d2() && forall|i: int, j: int| 0 <= i < r.d0() && 0 <= j < r.d1() ==> #[trigger] r.at(i, j) == a.at(k, i, j) }
    else if ax == 1 { r.d0() == a.d0() && r.d1() == a.d2() && forall|i: int, j: int| 0 <= i < r.d0() && 0 <= j < r.d1() ==> #[trigger] r.at(i, j) == a.at(i, k, j) }
    else { r.d0() == a.d0() && r.d1() == a.d1() && forall|i: int, j: int| 0 <= i < r.d0() && 0 <= j < r.d1() ==> #[trigger] r.at(i, j) == a.at(i, j, k) }
}
impl<T> Index<[usize; 3]> for Array3<T> { type Output = T; #[verifier::external_body] fn index(&self, i: [usize; 3]) -> (r: &T) ensures *r == self.at(i[0] as int, i[1] as int, i[2] as int) { unimplemented!() } }
impl<T> IndexSpecImpl<[usize; 3]> for Array3<T> { open spec fn index_req(&self, i: &[usize; 3]) -> bool { i[0] < self.d0() && i[1] < self.d1() && i[2] < self.d2() } }
impl<T> IndexMut<[usize; 3]> for Array3<T> { #[verifier::external_body] fn index_mut(&mut self, i: [usize; 3]) -> (r: &mut T) ensures *r == old(self).at(i[0] as int, i[1] as int, i[2] as int), final(self).same_dim(old(self)),
    forall|a: int, b: int, c: int| old(self).inb(a, b, c) ==> #[trigger] final(self).at(a, b, c) == (if a == i[0] && b == i[1] && c == i[2] { *final(r) } else { old(self).at(a, b, c) }) { unimplemented!() } }
pub struct Array { }
pub trait ArrZeros<S>: Sized { spec fn z_s(s: S, r: Self) -> bool; fn z_v(s: S) -> (r: Self) ensures Self::z_s(s, r); }
impl<T: Zero> ArrZeros<usize> for Array1<T> { open spec fn z_s(s: usize, r: Array1<T>) -> bool { r.d0() == s && forall|i: int| 0 <= i < s ==> #[trigger] r.at(i) == T::zero_s() } #[verifier::external_body] fn z_v(s: usize) -> (r: Array1<T>) { unimplemented!() } }
impl<T: Zero> ArrZeros<(usize, usize)> for Array2<T> { open spec fn z_s(s: (usize, usize), r: Array2<T>) -> bool { r.d0() == s.0 && r.d1() == s.1 && forall|i: int, j: int| 0 <= i < s.0 && 0 <= j < s.1 ==> #[trigger] r.at(i, j) == T::zero_s() } #[verifier::external_body] fn z_v(s: (usize, usize)) -> (r: Array2<T>) { unimplemented!() } }
impl<T: Zero> ArrZeros<(usize, usize, usize)> for Array3<T> { open spec fn z_s(s: (usize, usize, usize), r: Array3<T>) -> bool { r.d0() == s.0 && r.d1() == s.1 && r.d2() == s.2 && forall|u: int, i: int, j: int| r.inb(u, i, j) ==> #[trigger] r.at(u, i, j) == T::zero_s() } #[verifier::external_body] fn z_v(s: (usize, usize, usize)) -> (r: Array3<T>) { unimplemented!() } }
impl Array {
    pub fn zeros<S, A: ArrZeros<S>>(s: S) -> (r: A) ensures A::z_s(s, r) { A::z_v(s) }
    pub fn from_vec<T>(v: Vec<T>) -> (r: Array1<T>) ensures r.d0() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.at(i) == v@[i] { Array1::from_vec(v) }
}
pub trait ShapeSize: Sized { spec fn size_s(self) -> nat; type I; fn size_v(self) -> (r: usize) requires self.size_s() <= usize::MAX ensures r == self.size_s(); fn unflat_v0(self, k: usize) -> Self::I; }
impl ShapeSize for usize { open spec fn size_s(self) -> nat { self as nat } type I = usize; #[verifier::external_body] fn size_v(self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn unflat_v0(self, k: usize) -> (r: usize) ensures r == k { unimplemented!() } }
impl ShapeSize for (usize, usize, usize) { open spec fn size_s(self) -> nat { self.0 as nat * self.1 as nat * self.2 as nat } type I = (usize, usize, usize); #[verifier::external_body] fn size_v(self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn unflat_v0(self, k: usize) -> (r: (usize, usize, usize)) { unimplemented!() } }
pub fn shape_size_v<S: ShapeSize>(s: S) -> (r: usize) requires s.size_s() <= usize::MAX ensures r == s.size_s() { s.size_v() }

// ---- random numbers: every draw is a function of the generator's state
#[verifier::external_body] pub struct Rng8 { p: u8 }
pub type RS = int;
pub uninterp spec fn rs_seed(seed: u64) -> RS;
pub uninterp spec fn rs_next(s: RS) -> RS;
pub uninterp spec fn unit_half_open(s: RS) -> real;
pub uninterp spec fn draw_f(s: RS, a: Fl, b: Fl) -> real;
pub uninterp spec fn draw_f_incl(s: RS, a: Fl, b: Fl) -> real;
pub uninterp spec fn draw_n(s: RS, a: nat, b: nat) -> nat;
pub uninterp spec fn draw_bool(s: RS, p: real) -> bool;
// A draw lies in the interval it is drawn from.
pub axiom fn ax_draw_incl(s: RS, a: real, b: real) ensures a <= b ==> a <= draw_f_incl(s, Fl::Fin(a), Fl::Fin(b)) <= b;
pub axiom fn ax_draw_n(s: RS, a: nat, b: nat) ensures a < b ==> a <= draw_n(s, a, b) < b;
pub trait Draw: Sized { spec fn d_ok(a: Self, b: Self) -> bool; spec fn d_s(s: RS, a: Self, b: Self, r: Self) -> bool; spec fn di_ok(a: Self, b: Self) -> bool; spec fn di_s(s: RS, a: Self, b: Self, r: Self) -> bool; }
impl Draw for usize {
    open spec fn d_ok(a: usize, b: usize) -> bool { a < b }
    open spec fn d_s(s: RS, a: usize, b: usize, r: usize) -> bool { a <= r < b && r == draw_n(s, a as nat, b as nat) }
    open spec fn di_ok(a: usize, b: usize) -> bool { a <= b }
    open spec fn di_s(s: RS, a: usize, b: usize, r: usize) -> bool { a <= r <= b && r == draw_n(s, a as nat, (b + 1) as nat) }
}
impl Draw for F64 {
    open spec fn d_ok(a: F64, b: F64) -> bool { a.fin() && b.fin() && a.v() < b.v() }
    open spec fn d_s(s: RS, a: F64, b: F64, r: F64) -> bool { r.fin() && a.v() <= r.v() < b.v() && r.v() == draw_f(s, a.g@, b.g@) }
    open spec fn di_ok(a: F64, b: F64) -> bool { a.fin() && b.fin() && a.v() <= b.v() }
    open spec fn di_s(s: RS, a: F64, b: F64, r: F64) -> bool { r.fin() && a.v() <= r.v() <= b.v() && r.v() == draw_f_incl(s, a.g@, b.g@) }
}
pub trait DrawAny: Sized { spec fn any_s(s: RS, r: Self) -> bool; }
impl DrawAny for F64 { open spec fn any_s(s: RS, r: F64) -> bool { r.fin() && 0real <= r.v() < 1real && r.v() == unit_half_open(s) } }
impl Rng8 {
    pub uninterp spec fn s(&self) -> RS;
    #[verifier::external_body] pub fn seed_from_u64(seed: u64) -> (r: Rng8) ensures r.s() == rs_seed(seed) { unimplemented!() }
    #[verifier::external_body] pub fn from_entropy(allowed: Ghost<bool>) -> (r: Rng8) requires allowed@ { unimplemented!() }
    #[verifier::external_body] pub fn gen_range_v<T: Draw>(&mut self, a: T, b: T) -> (r: T) requires T::d_ok(a, b) ensures T::d_s(old(self).s(), a, b, r), final(self).s() == rs_next(old(self).s()) { unimplemented!() }
    #[verifier::external_body] pub fn gen_range_r_v<T: Draw>(&mut self, a: Range<T>) -> (r: T) requires T::d_ok(a.start, a.end) ensures T::d_s(old(self).s(), a.start, a.end, r), final(self).s() == rs_next(old(self).s()) { unimplemented!() }
    #[verifier::external_body] pub fn gen_range_incl_v<T: Draw>(&mut self, a: T, b: T) -> (r: T) requires T::di_ok(a, b) ensures T::di_s(old(self).s(), a, b, r), final(self).s() == rs_next(old(self).s()) { unimplemented!() }
    #[verifier::external_body] pub fn gen_v<T: DrawAny>(&mut self) -> (r: T) ensures T::any_s(old(self).s(), r), final(self).s() == rs_next(old(self).s()) { unimplemented!() }
    #[verifier::external_body] pub fn gen_bool_v(&mut self, p: F64) -> (r: bool) requires p.fin(), 0real <= p.v() <= 1real
        ensures r == draw_bool(old(self).s(), p.v()), p.v() == 0real ==> !r, p.v() == 1real ==> r, final(self).s() == rs_next(old(self).s()) { unimplemented!() }
}

// ---- distributions
pub uninterp spec fn cdf_f(d1: Fl, d2: Fl, x: Fl) -> Fl;
pub uninterp spec fn cdf_chi(k: Fl, x: Fl) -> Fl;
pub uninterp spec fn cdf_norm(x: Fl) -> Fl;
#[verifier::external_body] pub struct StatsError { p: u8 }
pub struct FisherSnedecor { pub a: F64, pub b: F64 }
impl FisherSnedecor {
    #[verifier::external_body] pub fn new(a: F64, b: F64) -> (r: Result<FisherSnedecor, StatsError>) ensures r is Ok <==> (a.fin() && b.fin() && a.v() > 0real && b.v() > 0real), r is Ok ==> r->Ok_0.a == a && r->Ok_0.b == b { unimplemented!() }
    #[verifier::external_body] pub fn cdf(&self, x: F64) -> (r: F64) ensures r.g@ == cdf_f(self.a.g@, self.b.g@, x.g@) { unimplemented!() }
}
pub struct ChiSquared { pub k: F64 }
impl ChiSquared {
    #[verifier::external_body] pub fn new(k: F64) -> (r: Result<ChiSquared, StatsError>) ensures k.fin() ==> (r is Ok <==> k.v() > 0real), r is Ok ==> r->Ok_0.k == k { unimplemented!() }
    #[verifier::external_body] pub fn cdf(&self, x: F64) -> (r: F64) ensures r.g@ == cdf_chi(self.k.g@, x.g@) { unimplemented!() }
}
pub struct Normal { pub m: F64, pub s: F64 }
impl Normal {
    #[verifier::external_body] pub fn new(m: F64, s: F64) -> (r: Result<Normal, StatsError>) ensures m.fin() && s.fin() && s.v() > 0real ==> r is Ok && r->Ok_0.m == m && r->Ok_0.s == s { unimplemented!() }
    #[verifier::external_body] pub fn cdf(&self, x: F64) -> (r: F64) ensures self.m.g@ == Fl::Fin(0real) && self.s.g@ == Fl::Fin(1real) ==> r.g@ == cdf_norm(x.g@) { unimplemented!() }
}

// ---- further std items that a change may use; those whose result is an uninterpreted value are only known to be functions
pub uninterp spec fn bits_s(k: int, a: int) -> int;
pub assume_specification [ usize::pow ](a: usize, b: u32) -> (r: usize) requires vstd::arithmetic::power::pow(a as int, b as nat) <= usize::MAX ensures r == vstd::arithmetic::power::pow(a as int, b as nat);
pub assume_specification [ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification [ usize::leading_zeros ](a: usize) -> (r: u32) ensures r == bits_s(0, a as int), r <= 64;
pub assume_specification [ usize::trailing_zeros ](a: usize) -> (r: u32) ensures r == bits_s(1, a as int), r <= 64;
pub assume_specification [ usize::count_ones ](a: usize) -> (r: u32) ensures r == bits_s(2, a as int), r <= 64;
pub assume_specification [ usize::ilog2 ](a: usize) -> (r: u32) requires a > 0 ensures r == bits_s(3, a as int), r < 64;
pub assume_specification [ usize::is_power_of_two ](a: usize) -> (r: bool) ensures r == (bits_s(2, a as int) == 1);
pub assume_specification [ usize::next_power_of_two ](a: usize) -> (r: usize) requires 2 * a <= usize::MAX ensures r == bits_s(4, a as int), r >= a;
pub assume_specification [ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification [ usize::rem_euclid ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a as int % b as int;
pub assume_specification<T> [ Option::<T>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T> [ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U> [ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T, U> [ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->Some_0, b->Some_0)) } else { None });
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ](a: Result<T, E>, b: T) -> (r: T) ensures r == (if a is Ok { a->Ok_0 } else { b });
pub assume_specification<T> [ <[T]>::reverse ](a: &mut [T]) ensures final(a)@ == old(a)@.reverse();
pub assume_specification<T> [ <[T]>::swap ](a: &mut [T], i: usize, j: usize) requires i < old(a)@.len(), j < old(a)@.len() ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]);
pub assume_specification<T: PartialEq> [ <[T]>::contains ](a: &[T], x: &T) -> (r: bool) ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < a@.len() && #[trigger] a@[i].eq_spec(x);
pub assume_specification<T: Ord> [ <[T]>::sort ](a: &mut [T]) ensures final(a)@.to_multiset() == old(a)@.to_multiset();
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { if a <= b { b } else { a } }
impl<T> Default for BTreeSet<T> { #[verifier::external_body] fn default() -> (r: BTreeSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() } }
impl<K, V> Default for HMap<K, V> { #[verifier::external_body] fn default() -> (r: HMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() } }
pub trait DefS: Sized { spec fn is_d(r: Self) -> bool; }
impl<T> DefS for Vec<T> { open spec fn is_d(r: Vec<T>) -> bool { r@ == Seq::<T>::empty() } }
impl<T> DefS for BTreeSet<T> { open spec fn is_d(r: BTreeSet<T>) -> bool { r@ == Set::<T>::empty() } }
impl<K, V> DefS for HMap<K, V> { open spec fn is_d(r: HMap<K, V>) -> bool { r@ == Map::<K, V>::empty() } }
impl<T> DefS for Option<T> { open spec fn is_d(r: Option<T>) -> bool { r is None } }
impl DefS for usize { open spec fn is_d(r: usize) -> bool { r == 0 } }
impl DefS for F64 { open spec fn is_d(r: F64) -> bool { r.g@ == Fl::Fin(0real) } }
#[verifier::external_body] pub fn take<T: DefS>(a: &mut T) -> (r: T) ensures r == *old(a), T::is_d(*final(a)) { unimplemented!() }
pub uninterp spec fn f32_r(x: Fl) -> Fl;
#[verifier::external_body] pub fn to_f32_v<T: ToF64>(x: T) -> (r: F64) ensures r.g@ == f32_r(x.as_r()) { unimplemented!() }
#[verifier::external_body] pub fn f_to_usize_v(x: F64) -> (r: usize) ensures x.fin() && 0real <= x.v() && x.v() < (usize::MAX as real) ==> r as real <= x.v() && x.v() < r as real + 1real, x.g@ is NaN || flt(x.g@, Fl::Fin(0real)) ==> r == 0, x.g@ is PInf ==> r == usize::MAX { unimplemented!() }
pub uninterp spec fn whole_r(k: int, x: real) -> int;
pub uninterp spec fn fun_r(k: int, x: Fl, y: Fl) -> Fl;
impl F64 {
    #[verifier::external_body] pub fn floor(self) -> (r: F64) ensures !self.fin() ==> r == self, self.fin() ==> r.fin() && r.v() == whole_r(0, self.v()) as real && r.v() <= self.v() && self.v() < r.v() + 1real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F64) ensures !self.fin() ==> r == self, self.fin() ==> r.fin() && r.v() == whole_r(1, self.v()) as real && r.v() - 1real < self.v() && self.v() <= r.v() { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F64) ensures !self.fin() ==> r == self, self.fin() ==> r.fin() && r.v() == whole_r(2, self.v()) as real && r.v() - 0.5real <= self.v() && self.v() <= r.v() + 0.5real { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: F64) ensures !self.fin() ==> r == self, self.fin() ==> r.fin() && r.v() == whole_r(3, self.v()) as real, self.fin() && self.v() >= 0real ==> r.v() <= self.v() && self.v() < r.v() + 1real { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: F64) ensures self.fin() ==> r.fin() && r.v() == self.v() - whole_r(3, self.v()) as real { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: F64) ensures self.g@ is NaN ==> r.g@ is NaN, fsgn(self.g@) > 0 ==> r.g@ == Fl::Fin(1real), fsgn(self.g@) < 0 ==> r.g@ == Fl::Fin(-1real) { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, a: F64, b: F64) -> (r: F64) requires fle(a.g@, b.g@) ensures r == (if flt(self.g@, a.g@) { a } else if flt(b.g@, self.g@) { b } else { self }) { unimplemented!() }
    #[verifier::external_body] pub fn log2(self) -> (r: F64) ensures r.g@ == fun_r(0, self.g@, self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn log10(self) -> (r: F64) ensures r.g@ == fun_r(1, self.g@, self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn ln_1p(self) -> (r: F64) ensures r.g@ == fln(fadd(Fl::Fin(1real), self.g@)) { unimplemented!() }
    #[verifier::external_body] pub fn exp_m1(self) -> (r: F64) ensures r.g@ == fsub(fpow(Fl::Fin(e_r()), self.g@), Fl::Fin(1real)) { unimplemented!() }
    #[verifier::external_body] pub fn hypot(self, o: F64) -> (r: F64) ensures r.g@ == fsqrt(fadd(fmul(self.g@, self.g@), fmul(o.g@, o.g@))) { unimplemented!() }
    #[verifier::external_body] pub fn rem_euclid(self, o: F64) -> (r: F64) ensures r.g@ == fun_r(2, self.g@, o.g@) { unimplemented!() }
    #[verifier::external_body] pub fn cbrt(self) -> (r: F64) ensures r.g@ == fun_r(3, self.g@, self.g@) { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures flt(self.g@, Fl::Fin(0real)) ==> r, flt(Fl::Fin(0real), self.g@) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_positive(self) -> (r: bool) ensures flt(self.g@, Fl::Fin(0real)) ==> !r, flt(Fl::Fin(0real), self.g@) ==> r { unimplemented!() }
}
impl<T> BTreeSet<T> {
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<&T>) ensures r is None <==> self@.len() == 0, r is Some ==> self@.contains(*r->Some_0) && forall|x: T| #[trigger] self@.contains(x) ==> x == *r->Some_0 || before(*r->Some_0, x) { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&T>) ensures r is None <==> self@.len() == 0, r is Some ==> self@.contains(*r->Some_0) && forall|x: T| #[trigger] self@.contains(x) ==> x == *r->Some_0 || before(x, *r->Some_0) { unimplemented!() }
    #[verifier::external_body] pub fn is_subset(&self, o: &BTreeSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body] pub fn is_superset(&self, o: &BTreeSet<T>) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_disjoint(&self, o: &BTreeSet<T>) -> (r: bool) ensures r == (forall|x: T| !(#[trigger] self@.contains(x) && o@.contains(x))) { unimplemented!() }
}
impl<K, V> HMap<K, V> {
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
}
impl<T> Array1<T> {
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self.seq() { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<&T>) ensures r is None <==> self.d0() == 0, r is Some ==> *r->Some_0 == self.at(0) { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&T>) ensures r is None <==> self.d0() == 0, r is Some ==> *r->Some_0 == self.at(self.d0() - 1) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < self.d0(), r is Some ==> *r->Some_0 == self.at(i as int) { unimplemented!() }
}
impl<T> LenV for Array2<T> { open spec fn len_s(&self) -> nat { self.d0() * self.d1() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { unimplemented!() } }
impl<T> LenV for Array3<T> { open spec fn len_s(&self) -> nat { self.d0() * self.d1() * self.d2() } #[verifier::external_body] fn len_v(&self) -> (r: usize) { unimplemented!() } }

/// Reachability probes (extract --vacuity): never called by the code under proof.
pub uninterp spec fn vac_v(l: int) -> bool;
#[verifier::external_body] pub fn unreached_v<A>() -> (r: A) requires false { unimplemented!() }
