use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Mul, Sub, Neg};
verus!{
// ---- the field (contracts established by C01, C02)
pub uninterp spec fn p() -> int;
pub broadcast axiom fn axiom_p() ensures 2 < #[trigger] p();
#[verifier::external_body]
pub struct Fe { x: u64 }
impl Fe { pub uninterp spec fn v(self) -> int; }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Fe {}
pub broadcast axiom fn axiom_v(a: Fe) ensures 0 <= #[trigger] a.v() < p();
pub uninterp spec fn fe(x: int) -> Fe;
pub broadcast axiom fn axiom_fe(x: int) ensures (#[trigger] fe(x)).v() == x % p();
macro_rules! op { ($tr:ident, $f:ident, $st:ident, $ob:ident, $rq:ident, $sp:ident, $a:ident, $b:ident, $e:expr) => { verus!{
    impl $st for Fe {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        open spec fn $sp(self, rhs: Self) -> Self { let $a = self.v(); let $b = rhs.v(); fe($e) }
    }
    impl $tr for Fe { type Output = Fe; #[verifier::external_body] fn $f(self, rhs: Fe) -> Fe { unimplemented!() } }
}}}
op!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, a, b, a + b);
op!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, a, b, a - b);
op!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, a, b, a * b);
impl NegSpecImpl for Fe {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Self { fe(-self.v()) }
}
impl Neg for Fe { type Output = Fe; #[verifier::external_body] fn neg(self) -> Fe { unimplemented!() } }
impl Fe {
    #[verifier::external_body] pub fn is_in_lower_half(&self) -> (r: bool) ensures r == (self.v() <= (p() - 1) / 2) { unimplemented!() }
}
#[verifier::external_body] pub struct Ref { x: u64 }
//@GSUB '\bAlgebraicExpression<T, R>' => 'AlgebraicExpression'
//@GSUB '\bAlgebraicExpression<T, V>' => 'AlgebraicExpression'
//@GSUB '\bAlgebraicBinaryOperation<T, R>' => 'AlgebraicBinaryOperation'
//@GSUB '\bAlgebraicUnaryOperation<T, R>' => 'AlgebraicUnaryOperation'
//@GSUB '#\[serde[^\]]*\]' => ''
//@GSUB '<\s*E: Add<E, Output = E> \+ Sub<E, Output = E> \+ Mul<E, Output = E> \+ Neg<Output = E>,?\s*>' => ''
//@GSUB '<T: FieldElement, V: Clone \+ Ord>' => ''
//@GSUB '<T: FieldElement, V>' => ''
//@GSUB '<T, V>' => ''
//@GSUB 'where\s+T: FieldElement,\s*(V: Ord \+ Clone,)?' => ''
//@GSUB '\bT\b' => 'Fe'
//@GSUB '\bE\b' => 'Fe'
//@GSUB '\bR\b' => 'Ref'
//@GSUB 'Self::Output' => 'Self'
//@ENUM AlgebraicBinaryOperator from expression/src/lib.rs
//@ENUM AlgebraicUnaryOperator from expression/src/lib.rs
//@ENUM AlgebraicExpression from expression/src/lib.rs
//@STRUCT AlgebraicBinaryOperation from expression/src/lib.rs
//@STRUCT AlgebraicUnaryOperation from expression/src/lib.rs
broadcast group g { axiom_p, axiom_v, axiom_fe }
/// an arbitrary environment (uninterpreted, so what is proved of it holds for every one)
pub uninterp spec fn some_env(r: Ref) -> int;
pub type Env = spec_fn(Ref) -> int;
pub open spec fn bin(op: AlgebraicBinaryOperator, a: int, b: int) -> int {
    match op { AlgebraicBinaryOperator::Add => (a + b) % p(), AlgebraicBinaryOperator::Sub => (a - b) % p(), AlgebraicBinaryOperator::Mul => (a * b) % p() }
}
impl AlgebraicExpression {
    /// the value under an environment
    pub open spec fn ev(self, env: Env) -> int decreases self {
        match self {
            AlgebraicExpression::Reference(r) => env(r),
            AlgebraicExpression::Number(n) => n.v(),
            AlgebraicExpression::BinaryOperation(b) => bin(b.op, b.left.ev(env), b.right.ev(env)),
            AlgebraicExpression::UnaryOperation(u) => (-u.expr.ev(env)) % p(),
        }
    }
//@FN new_binary in "impl<T, R> AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == bin(op, left.ev(env), right.ev(env)), r is BinaryOperation, *r->BinaryOperation_0.left == left, *r->BinaryOperation_0.right == right, r->BinaryOperation_0.op == op
//@END
//@FN new_unary in "impl<T, R> AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (-expr.ev(env)) % p(), r is UnaryOperation, *r->UnaryOperation_0.expr == expr, r->UnaryOperation_0.op == op
//@END
//@FN from in "impl<T, R> From<T> for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == value.v()
//@END
//@FN to_expression in "impl<T, R> ExpressionConvertible<T, R> for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret res
//@contract requires forall|n: &Fe| #[trigger] number_converter.requires((n,)), forall|r: &Ref| #[trigger] var_converter.requires((r,)),
//@contract  forall|n: &Fe, x: Fe| #[trigger] number_converter.ensures((n,), x) ==> x.v() == n.v(), forall|r: &Ref, x: Fe| #[trigger] var_converter.ensures((r,), x) ==> x.v() == some_env(*r)
//@contract ensures res.v() == self.ev(|r: Ref| some_env(r))
//@contract decreases self
//@start broadcast use g;
//@END
}
macro_rules! nospec { ($st:ident, $ob:ident, $rq:ident, $sp:ident) => { verus!{
    impl $st for AlgebraicExpression {
        open spec fn $ob() -> bool { false }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        uninterp spec fn $sp(self, rhs: Self) -> AlgebraicExpression;
    } } } }
nospec!(AddSpecImpl, obeys_add_spec, add_req, add_spec);
nospec!(SubSpecImpl, obeys_sub_spec, sub_req, sub_spec);
nospec!(MulSpecImpl, obeys_mul_spec, mul_req, mul_spec);
impl NegSpecImpl for AlgebraicExpression { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> AlgebraicExpression; }
impl Add for AlgebraicExpression { type Output = Self;
//@FN add in "impl<T, R> ops::Add for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (self.ev(env) + rhs.ev(env)) % p()
//@END
}
impl Sub for AlgebraicExpression { type Output = Self;
//@FN sub in "impl<T, R> ops::Sub for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (self.ev(env) - rhs.ev(env)) % p()
//@END
}
impl Mul for AlgebraicExpression { type Output = Self;
//@FN mul in "impl<T, R> ops::Mul for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (self.ev(env) * rhs.ev(env)) % p()
//@END
}
impl Neg for AlgebraicExpression { type Output = Self;
//@FN neg in "impl<T, R> ops::Neg for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (-self.ev(env)) % p()
//@END
}
// ---- autoprecompiles: the helpers of the conversion back
//@FN extract_negation_if_possible from autoprecompiles/src/expression_conversion.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] e.ev(env) == (if r.1 { (-r.0.ev(env)) % p() } else { r.0.ev(env) })
//@END
//@FN field_element_to_algebraic_expression from autoprecompiles/src/expression_conversion.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == v.v()
//@start broadcast use g; proof { lemma_nn(v.v()); }
//@sub 'AlgebraicExpression::from(v)' => 'AlgebraicExpression::from(v)'
//@END
proof fn lemma_nn(x: int) requires 0 <= x < p() ensures (-((-x) % p())) % p() == x
{ broadcast use axiom_p; let q = p();
  if x == 0 { assert(0int % q == 0) by (nonlinear_arith) requires q > 0; } else {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x, q, -1, q - x);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x - q, q, -1, x);
  } }
} // verus
fn main() {}
