//! needs core cursor integer
use crate::core::*;
use crate::integer::*;
use crate::integer::Integer;
use vstd::std_specs::ops::*;
// f64, with its finite numbers taken for real ones: no operation rounds or overflows
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl(f64);
/// a finite number (and, for zero, whether its sign is the negative one), an infinity (and whether it is the negative one) or none
pub enum FV { Fin(bool, real), Inf(bool), Nan }
impl View for Fl { type V = FV; uninterp spec fn view(&self) -> FV; }
impl Fl {
    pub open spec fn fin(self) -> bool { self@ is Fin }
    pub open spec fn num(self) -> real { self@->Fin_1 }
    pub open spec fn neg(self) -> bool { v_is_neg(self@) }
}
pub open spec fn v_is_neg(v: FV) -> bool { match v { FV::Fin(n, x) => x < 0real || x == 0real && n, FV::Inf(n) => n, FV::Nan => false } }
pub uninterp spec fn fl(v: FV) -> Fl;
pub broadcast axiom fn axiom_fl(v: FV) ensures #[trigger] fl(v)@ == v;
pub open spec fn v_neg(v: FV) -> FV { match v { FV::Fin(n, x) => FV::Fin(!n, 0real - x), FV::Inf(n) => FV::Inf(!n), FV::Nan => FV::Nan } }
pub uninterp spec fn v_other(a: FV, b: FV, op: int) -> FV;
pub open spec fn v_add(a: FV, b: FV) -> FV { match (a, b) { (FV::Fin(n, x), FV::Fin(m, y)) => FV::Fin(v_is_neg(a) && v_is_neg(b), x + y), _ => v_other(a, b, 0) } }
pub open spec fn v_mul(a: FV, b: FV) -> FV { match (a, b) { (FV::Fin(n, x), FV::Fin(m, y)) => FV::Fin(v_is_neg(a) != v_is_neg(b), x * y), _ => v_other(a, b, 1) } }
pub open spec fn v_div(a: FV, b: FV) -> FV {
    match (a, b) { (FV::Fin(n, x), FV::Fin(m, y)) => if y != 0real { FV::Fin(v_is_neg(a) != v_is_neg(b), x / y) } else if x != 0real { FV::Inf(v_is_neg(a) != v_is_neg(b)) } else { FV::Nan }, _ => v_other(a, b, 2) }
}
impl core::ops::Neg for Fl { type Output = Fl; #[verifier::external_body] fn neg(self) -> (r: Fl) { Fl(-self.0) } }
impl NegSpecImpl for Fl { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fl { fl(v_neg(self@)) } }
impl core::ops::Add for Fl { type Output = Fl; #[verifier::external_body] fn add(self, o: Fl) -> (r: Fl) { Fl(self.0 + o.0) } }
impl AddSpecImpl for Fl { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fl) -> bool { true } open spec fn add_spec(self, o: Fl) -> Fl { fl(v_add(self@, o@)) } }
impl core::ops::Sub for Fl { type Output = Fl; #[verifier::external_body] fn sub(self, o: Fl) -> (r: Fl) { Fl(self.0 - o.0) } }
impl SubSpecImpl for Fl { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Fl) -> bool { true } open spec fn sub_spec(self, o: Fl) -> Fl { fl(v_add(self@, v_neg(o@))) } }
impl core::ops::Mul for Fl { type Output = Fl; #[verifier::external_body] fn mul(self, o: Fl) -> (r: Fl) { Fl(self.0 * o.0) } }
impl MulSpecImpl for Fl { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fl) -> bool { true } open spec fn mul_spec(self, o: Fl) -> Fl { fl(v_mul(self@, o@)) } }
impl core::ops::Div for Fl { type Output = Fl; #[verifier::external_body] fn div(self, o: Fl) -> (r: Fl) { Fl(self.0 / o.0) } }
impl DivSpecImpl for Fl { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Fl) -> bool { true } open spec fn div_spec(self, o: Fl) -> Fl { fl(v_div(self@, o@)) } }

// trigonometry, of which what school teaches is assumed
pub uninterp spec fn sin(x: real) -> real;
pub uninterp spec fn cos(x: real) -> real;
pub uninterp spec fn pi() -> real;
pub axiom fn axiom_shift_at(x: real)
    ensures sin(x - pi()) == 0real - sin(x), sin(x + pi()) == 0real - sin(x), cos(x - pi()) == 0real - cos(x), cos(x + pi()) == 0real - cos(x),
        sin(0real - x) == 0real - sin(x), cos(0real - x) == cos(x), sin(pi() - x) == sin(x), cos(pi() - x) == 0real - cos(x), sin(x) * sin(x) + cos(x) * cos(x) == 1real;
pub broadcast axiom fn axiom_pi() ensures #![trigger pi()] 3real < pi() < 4real, sin(0real) == 0real, cos(0real) == 1real, sin(pi()) == 0real, cos(pi()) == 0real - 1real;
pub open spec fn sq(x: real) -> real { x * x }
/// (x, y) lies in the direction a
pub open spec fn towards(a: real, x: real, y: real) -> bool { forall|h: real| h >= 0real && #[trigger] sq(h) == sq(x) + sq(y) ==> h * cos(a) == x && h * sin(a) == y }
#[verifier::external_body]
pub fn pi_() -> (r: Fl) ensures r@ == FV::Fin(false, pi()) { Fl(core::f64::consts::PI) }
#[verifier::external_body]
pub fn half_pi() -> (r: Fl) ensures r@ == FV::Fin(false, pi() / 2real) { Fl(core::f64::consts::FRAC_PI_2) }
impl Fl {
    #[verifier::external_body]
    pub fn abs(self) -> (r: Fl) ensures self@ is Fin ==> r@ == FV::Fin(false, if self.num() < 0real { 0real - self.num() } else { self.num() }), self@ is Inf ==> r@ == FV::Inf(false), self@ is Nan ==> r@ is Nan { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_negative(self) -> (r: bool) ensures self@ is Fin ==> r == self.neg(), self@ is Inf ==> r == self@->Inf_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_positive(self) -> (r: bool) ensures self@ is Fin ==> r == !self.neg(), self@ is Inf ==> r == !self@->Inf_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn hypot(self, o: Fl) -> (r: Fl) ensures self.fin() && o.fin() ==> r@ is Fin && !r.neg() && r.num() >= 0real && sq(r.num()) == sq(self.num()) + sq(o.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: Fl) ensures self.fin() && self.num() >= 0real ==> r@ is Fin && r.num() >= 0real && sq(r.num()) == self.num() { unimplemented!() }
    #[verifier::external_body]
    pub fn sin(self) -> (r: Fl) ensures self.fin() ==> r.fin() && r.num() == sin(self.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn cos(self) -> (r: Fl) ensures self.fin() ==> r.fin() && r.num() == cos(self.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn sin_cos(self) -> (r: (Fl, Fl)) ensures self.fin() ==> r.0.fin() && r.0.num() == sin(self.num()) && r.1.fin() && r.1.num() == cos(self.num()) { unimplemented!() }
    // the direction of a point
    #[verifier::external_body]
    pub fn atan2(self, o: Fl) -> (r: Fl)
        ensures self.fin() && o.fin() ==> r.fin() && r.neg() == self.neg() && 0real - pi() <= r.num() <= pi() && towards(r.num(), o.num(), self.num()) && (!o.neg() ==> 0real - pi() / 2real <= r.num() <= pi() / 2real) { unimplemented!() }
    // the direction of (1, self)
    #[verifier::external_body]
    pub fn atan(self) -> (r: Fl)
        ensures self.fin() ==> r.fin() && r.neg() == self.neg() && 0real - pi() / 2real <= r.num() <= pi() / 2real && (forall|h: real, x: real, y: real| #![trigger sq(h), sq(x), sq(y)] x > 0real && y == self.num() * x && h >= 0real && sq(h) == sq(x) + sq(y) ==> h * cos(r.num()) == x && h * sin(r.num()) == y),
            self@ is Inf ==> r.fin() && r.neg() == self@->Inf_0 && r.num() == (if self@->Inf_0 { 0real - pi() / 2real } else { pi() / 2real }) && cos(r.num()) == 0real && sin(r.num()) == (if self@->Inf_0 { 0real - 1real } else { 1real }),
            self@ is Nan ==> r@ is Nan { unimplemented!() }
}
//@src crates/sourisdb/src/types/integer.rs
//@item - | enum FloatToIntegerConversionError
//@src crates/sourisdb/src/types/imaginary.rs
//@item - | enum Imaginary real=>re f64=>Fl
pub open spec fn eps() -> real { 1real / 4503599627370496real }
/// what P04 is about: a number which is not whole (by more than the epsilon), or out of the range of an Integer
pub open spec fn frac(x: real) -> real { if x >= 0real { x - x.floor() as real } else { 0real - ((0real - x) - (0real - x).floor() as real) } }
pub open spec fn whole_enough(x: real) -> bool { 0real - eps() <= frac(x) <= eps() }
pub open spec fn in_range(x: real) -> bool { 0real - pow256(15) as real * 128real <= x < pow256(16) as real }
impl Integer {
    // From<Integer> for f64: the number itself (Kani, P04: the nearest float)
    #[verifier::external_body]
    pub fn float(self) -> (r: Fl) requires self.wf(), ensures r.fin(), r.num() == self.value() as real, r.neg() == self.neg() { unimplemented!() }
}
// TryFrom<f64> for Integer (Kani, P04)
#[verifier::external_body]
pub fn int_of_float(x: Fl) -> (r: Result<Integer, FloatToIntegerConversionError>)
    ensures r is Ok ==> x.fin() && r->Ok_0.wf() && whole_enough(x.num()) && r->Ok_0.value() as real == x.num() - frac(x.num()), x.fin() && whole_enough(x.num()) && in_range(x.num()) ==> r is Ok { unimplemented!() }
impl Imaginary {
    pub open spec fn wf(&self) -> bool { match self { Imaginary::CartesianForm { re, imaginary } => re.wf() && imaginary.wf(), Imaginary::PolarForm { modulus, argument } => modulus.fin() && argument.fin() } }
    /// the point which the number denotes
    pub open spec fn x(&self) -> real { match self { Imaginary::CartesianForm { re, imaginary } => re.value() as real, Imaginary::PolarForm { modulus, argument } => modulus.num() * cos(argument.num()) } }
    pub open spec fn y(&self) -> real { match self { Imaginary::CartesianForm { re, imaginary } => imaginary.value() as real, Imaginary::PolarForm { modulus, argument } => modulus.num() * sin(argument.num()) } }
    pub open spec fn normal(&self) -> bool { self is PolarForm && self->modulus.fin() && self->modulus.num() >= 0real && self->argument.fin() && 0real - pi() <= self->argument.num() <= pi() }
//@fn impl Imaginary | polar_from_cartesian sig `fn polar_from_cartesian(re: Fl, imaginary: Fl) -> (r: Self)`
        requires re.fin(), imaginary.fin(),
        ensures r.normal(), r.x() == re.num(), r.y() == imaginary.num(),
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `PI` => `pi_()`
//@rw? `FRAC_PI_2` => `half_pi()`
//@entry
        proof { broadcast use axiom_fl, axiom_pi; lemma_squares(re.num(), imaginary.num()); }
//@tail
        proof {
            broadcast use axiom_fl, axiom_pi;
            let (x, y) = (re.num(), imaginary.num()); let (p, q) = (if x < 0real { 0real - x } else { x }, if y < 0real { 0real - y } else { y });
            let (m, a) = (out_->modulus.num(), out_->argument.num());
            axiom_shift_at(a); axiom_shift_at(a + pi()); axiom_shift_at(pi() - a); axiom_shift_at(0real - a);
            lemma_turn(m, a, p, q); lemma_ratio(m, p, q);
        }
//@end
//@fn impl Imaginary | to_polar_form
        requires self.wf(),
        ensures r is PolarForm, r.x() == self.x(), r.y() == self.y(), self is PolarForm ==> r == self, self is CartesianForm ==> r.normal(),
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `.into()` => `.float()` -- From<Integer> for f64
//@rw? `f64::from($x)` => `$x.float()` -- From<Integer> for f64
//@end
//@fn impl Imaginary | to_cartesian_form
        requires self.wf(),
        ensures self is CartesianForm ==> r is Ok && r->Ok_0 == self,
            r is Ok ==> r->Ok_0 is CartesianForm && r->Ok_0.wf() && near(r->Ok_0.x(), self.x()) && near(r->Ok_0.y(), self.y()),
            whole_enough(self.x()) && whole_enough(self.y()) && in_range(self.x()) && in_range(self.y()) ==> r is Ok,
            r is Err ==> r->Err_0.0 == self,
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `Integer::try_from($x)` => `int_of_float($x)` -- TryFrom<f64> for Integer
//@entry
        proof { broadcast use axiom_fl; }
//@end
}
pub open spec fn near(x: real, y: real) -> bool { 0real - eps() <= x - y <= eps() }
pub proof fn lemma_squares(x: real, y: real) ensures sq(0real - x) == sq(x), sq(0real - y) == sq(y) { assert((0real - x) * (0real - x) == x * x) by(nonlinear_arith); assert((0real - y) * (0real - y) == y * y) by(nonlinear_arith); }
pub proof fn lemma_turn(m: real, a: real, p: real, q: real) ensures m * (0real - cos(a)) == 0real - m * cos(a), m * (0real - sin(a)) == 0real - m * sin(a)
{ assert(m * (0real - cos(a)) == 0real - m * cos(a)) by(nonlinear_arith); assert(m * (0real - sin(a)) == 0real - m * sin(a)) by(nonlinear_arith); }
/// for a direction found from a quotient
pub proof fn lemma_ratio(m: real, p: real, q: real)
    requires m >= 0real, p >= 0real, q >= 0real, sq(m) == sq(p) + sq(q)
    ensures p > 0real ==> q == (q / p) * p, p == 0real ==> m == q && m * 0real == 0real && m * 1real == m
{
    if p > 0real { assert(q == (q / p) * p) by(nonlinear_arith) requires p > 0real; }
    else { assert(p * p == 0real) by(nonlinear_arith) requires p == 0real; assert(m == q) by(nonlinear_arith) requires m * m == q * q, m >= 0real, q >= 0real; assert(m * 0real == 0real) by(nonlinear_arith); assert(m * 1real == m) by(nonlinear_arith); }
}
