// ---------------------------------------------------------------- trusted: the number type T of counts and probabilities
// T is any type whose +, -, * and embedding of literals are those of the reals (no overflow, no rounding).
pub mod realax {
use vstd::prelude::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Rn { pub x: f64 }
impl Rn { pub uninterp spec fn v(self) -> real; }
pub uninterp spec fn rn(x: real) -> Rn;
pub broadcast axiom fn axiom_rn_eq(a: Rn, b: Rn) ensures #![trigger a.v(), b.v()] a.v() == b.v() ==> a == b;
pub broadcast axiom fn axiom_rn(x: real) ensures (#[trigger] rn(x)).v() == x;
}
pub use realax::*;
#[verifier::opaque]
pub open spec fn rmul(a: real, b: real) -> real { a * b }
impl std::ops::Add for Rn { type Output = Rn; #[verifier::external_body] fn add(self, o: Rn) -> (r: Rn) { Rn { x: self.x + o.x } } }
impl vstd::std_specs::ops::AddSpecImpl for Rn {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Rn) -> bool { true }
    open spec fn add_spec(self, o: Rn) -> Rn { rn(self.v() + o.v()) }
}
impl std::ops::Sub for Rn { type Output = Rn; #[verifier::external_body] fn sub(self, o: Rn) -> (r: Rn) { Rn { x: self.x - o.x } } }
impl vstd::std_specs::ops::SubSpecImpl for Rn {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Rn) -> bool { true }
    open spec fn sub_spec(self, o: Rn) -> Rn { rn(self.v() - o.v()) }
}
impl std::ops::Mul for Rn { type Output = Rn; #[verifier::external_body] fn mul(self, o: Rn) -> (r: Rn) { Rn { x: self.x * o.x } } }
impl vstd::std_specs::ops::MulSpecImpl for Rn {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Rn) -> bool { true }
    open spec fn mul_spec(self, o: Rn) -> Rn { rn(rmul(self.v(), o.v())) }
}
impl From<i32> for Rn { #[verifier::external_body] fn from(x: i32) -> (r: Rn) { Rn { x: x as f64 } } }
impl vstd::std_specs::convert::FromSpecImpl<i32> for Rn {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: i32) -> Rn { rn(x as int as real) }
}
impl From<u32> for Rn { #[verifier::external_body] fn from(x: u32) -> (r: Rn) { Rn { x: x as f64 } } }
impl vstd::std_specs::convert::FromSpecImpl<u32> for Rn {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u32) -> Rn { rn(x as int as real) }
}
