// ---------------------------------------------------------------- trusted: the value type V
// V is any type whose +, -, *, /, %, ==, < and From<i32> are those of the integers (no overflow):
// machine arithmetic is treated as mathematical.
pub mod numax {
use vstd::prelude::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Num { pub x: i64 }
impl Num { pub uninterp spec fn v(self) -> int; }
pub uninterp spec fn num(x: int) -> Num;
pub broadcast axiom fn axiom_num_eq(a: Num, b: Num) ensures #![trigger a.v(), b.v()] a.v() == b.v() ==> a == b;
pub broadcast axiom fn axiom_num(x: int) ensures (#[trigger] num(x)).v() == x;
}
pub use numax::*;
// division and remainder truncate toward zero
#[verifier::opaque]
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / (-b)) } } else { if b >= 0 { -((-a) / b) } else { (-a) / (-b) } } }
#[verifier::opaque]
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }
#[verifier::opaque]
pub open spec fn imul(a: int, b: int) -> int { a * b }
pub proof fn lemma_imul() ensures forall|a: int, b: int| #[trigger] imul(a, b) == imul(b, a) { reveal(imul); assert forall|a: int, b: int| #[trigger] imul(a, b) == imul(b, a) by { assert(a * b == b * a) by (nonlinear_arith); } }
pub open spec fn vx_ordering(a: int, b: int) -> std::cmp::Ordering { if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
impl std::ops::Add for Num { type Output = Num; #[verifier::external_body] fn add(self, o: Num) -> (r: Num) { Num { x: self.x + o.x } } }
impl vstd::std_specs::ops::AddSpecImpl for Num {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Num) -> bool { true }
    open spec fn add_spec(self, o: Num) -> Num { num(self.v() + o.v()) }
}
impl std::ops::Sub for Num { type Output = Num; #[verifier::external_body] fn sub(self, o: Num) -> (r: Num) { Num { x: self.x - o.x } } }
impl vstd::std_specs::ops::SubSpecImpl for Num {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Num) -> bool { true }
    open spec fn sub_spec(self, o: Num) -> Num { num(self.v() - o.v()) }
}
impl std::ops::Mul for Num { type Output = Num; #[verifier::external_body] fn mul(self, o: Num) -> (r: Num) { Num { x: self.x * o.x } } }
impl vstd::std_specs::ops::MulSpecImpl for Num {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Num) -> bool { true }
    open spec fn mul_spec(self, o: Num) -> Num { num(imul(self.v(), o.v())) }
}
impl std::ops::Div for Num { type Output = Num; #[verifier::external_body] fn div(self, o: Num) -> (r: Num) { Num { x: self.x / o.x } } }
impl vstd::std_specs::ops::DivSpecImpl for Num {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Num) -> bool { o.v() != 0 }
    open spec fn div_spec(self, o: Num) -> Num { num(tdiv(self.v(), o.v())) }
}
impl std::ops::Rem for Num { type Output = Num; #[verifier::external_body] fn rem(self, o: Num) -> (r: Num) { Num { x: self.x % o.x } } }
impl vstd::std_specs::ops::RemSpecImpl for Num {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: Num) -> bool { o.v() != 0 }
    open spec fn rem_spec(self, o: Num) -> Num { num(trem(self.v(), o.v())) }
}
impl PartialEq for Num { #[verifier::external_body] fn eq(&self, o: &Num) -> (r: bool) { self.x == o.x } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Num {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Num) -> bool { self.v() == o.v() }
}
impl Eq for Num {}
impl PartialOrd for Num { #[verifier::external_body] fn partial_cmp(&self, o: &Num) -> (r: Option<std::cmp::Ordering>) { self.x.partial_cmp(&o.x) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Num {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Num) -> Option<std::cmp::Ordering> { Some(vx_ordering(self.v(), o.v())) }
}
impl From<i32> for Num { #[verifier::external_body] fn from(x: i32) -> (r: Num) { Num { x: x as i64 } } }
impl vstd::std_specs::convert::FromSpecImpl<i32> for Num {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: i32) -> Num { num(x as int) }
}
impl KeyView for Num { type V = int; open spec fn kv(self) -> int { self.v() } }
impl VxOrd for Num { open spec fn ov(self) -> int { self.v() } }
