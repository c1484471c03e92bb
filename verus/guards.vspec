use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Mul, Sub, Neg};
verus!{
// ---- the field (contracts established by C01, C02)
pub uninterp spec fn p() -> int;
pub broadcast axiom fn axiom_p() ensures 2 < #[trigger] p();
#[verifier::external_body]
pub struct Fe { x: u64 }
impl Fe { pub uninterp spec fn v(self) -> int; }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Fe {}
pub broadcast axiom fn axiom_v(a: Fe) ensures 0 <= #[trigger] a.v() < p();
pub uninterp spec fn fe(x: int) -> Fe;
pub broadcast axiom fn axiom_fe(x: int) ensures (#[trigger] fe(x)).v() == x % p();
macro_rules! op { ($tr:ident, $f:ident, $st:ident, $ob:ident, $rq:ident, $sp:ident, $a:ident, $b:ident, $e:expr) => { verus!{
    impl $st for Fe {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        open spec fn $sp(self, rhs: Self) -> Self { let $a = self.v(); let $b = rhs.v(); fe($e) }
    }
    impl $tr for Fe { type Output = Fe; #[verifier::external_body] fn $f(self, rhs: Fe) -> Fe { unimplemented!() } }
}}}
op!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, a, b, a + b);
op!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, a, b, a - b);
op!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, a, b, a * b);
impl NegSpecImpl for Fe {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Self { fe(-self.v()) }
}
impl Neg for Fe { type Output = Fe; #[verifier::external_body] fn neg(self) -> Fe { unimplemented!() } }
impl From<u64> for Fe { #[verifier::external_body] fn from(x: u64) -> (r: Fe) ensures r.v() == (x as int) % p() { unimplemented!() } }
/// p is prime (trusted)
pub axiom fn axiom_domain(a: int, b: int) requires (a * b) % p() == 0 ensures a % p() == 0 || b % p() == 0;
#[verifier::external_body] pub struct Ref { x: u64 }
//@GSUB '\bAlgebraicExpression<T>' => 'AlgebraicExpression'
//@GSUB '<T: FieldElement>' => ''
//@GSUB '\bAlgebraicExpression<T, R>' => 'AlgebraicExpression'
//@GSUB '\bAlgebraicExpression<T, V>' => 'AlgebraicExpression'
//@GSUB '\bAlgebraicBinaryOperation<T, R>' => 'AlgebraicBinaryOperation'
//@GSUB '\bAlgebraicUnaryOperation<T, R>' => 'AlgebraicUnaryOperation'
//@GSUB '#\[serde[^\]]*\]' => ''
//@GSUB '<\s*E: Add<E, Output = E> \+ Sub<E, Output = E> \+ Mul<E, Output = E> \+ Neg<Output = E>,?\s*>' => ''
//@GSUB '<T: FieldElement, V: Clone \+ Ord>' => ''
//@GSUB '<T: FieldElement, V>' => ''
//@GSUB '<T, V>' => ''
//@GSUB 'where\s+T: FieldElement,\s*(V: Ord \+ Clone,)?' => ''
//@GSUB '\bT\b' => 'Fe'
//@GSUB '\bE\b' => 'Fe'
//@GSUB '\bR\b' => 'Ref'
//@GSUB 'Self::Output' => 'Self'
//@ENUM AlgebraicBinaryOperator from expression/src/lib.rs
//@ENUM AlgebraicUnaryOperator from expression/src/lib.rs
//@ENUM AlgebraicExpression from expression/src/lib.rs
//@STRUCT AlgebraicBinaryOperation from expression/src/lib.rs
//@STRUCT AlgebraicUnaryOperation from expression/src/lib.rs
broadcast group g { axiom_p, axiom_v, axiom_fe }
impl Clone for AlgebraicExpression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Env = spec_fn(Ref) -> int;
/// the row of zeros
pub open spec fn zeros() -> Env { |r: Ref| 0int }
pub open spec fn bin(op: AlgebraicBinaryOperator, a: int, b: int) -> int {
    match op { AlgebraicBinaryOperator::Add => (a + b) % p(), AlgebraicBinaryOperator::Sub => (a - b) % p(), AlgebraicBinaryOperator::Mul => (a * b) % p() }
}
impl AlgebraicExpression {
    /// the value under an environment
    pub open spec fn ev(self, env: Env) -> int decreases self {
        match self {
            AlgebraicExpression::Reference(r) => env(r),
            AlgebraicExpression::Number(n) => n.v(),
            AlgebraicExpression::BinaryOperation(b) => bin(b.op, b.left.ev(env), b.right.ev(env)),
            AlgebraicExpression::UnaryOperation(u) => (-u.expr.ev(env)) % p(),
        }
    }
//@FN new_binary in "impl<T, R> AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == bin(op, left.ev(env), right.ev(env)), r is BinaryOperation, *r->BinaryOperation_0.left == left, *r->BinaryOperation_0.right == right, r->BinaryOperation_0.op == op
//@END
//@FN new_unary in "impl<T, R> AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (-expr.ev(env)) % p(), r is UnaryOperation, *r->UnaryOperation_0.expr == expr, r->UnaryOperation_0.op == op
//@END
//@FN from in "impl<T, R> From<T> for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == value.v()
//@END
}
macro_rules! nospec { ($st:ident, $ob:ident, $rq:ident, $sp:ident) => { verus!{
    impl $st for AlgebraicExpression {
        open spec fn $ob() -> bool { false }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        uninterp spec fn $sp(self, rhs: Self) -> AlgebraicExpression;
    } } } }
nospec!(AddSpecImpl, obeys_add_spec, add_req, add_spec);
nospec!(SubSpecImpl, obeys_sub_spec, sub_req, sub_spec);
nospec!(MulSpecImpl, obeys_mul_spec, mul_req, mul_spec);
impl NegSpecImpl for AlgebraicExpression { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> AlgebraicExpression; }
impl Add for AlgebraicExpression { type Output = Self;
//@FN add in "impl<T, R> ops::Add for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (self.ev(env) + rhs.ev(env)) % p()
//@END
}
impl Sub for AlgebraicExpression { type Output = Self;
//@FN sub in "impl<T, R> ops::Sub for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (self.ev(env) - rhs.ev(env)) % p()
//@END
}
impl Mul for AlgebraicExpression { type Output = Self;
//@FN mul in "impl<T, R> ops::Mul for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (self.ev(env) * rhs.ev(env)) % p()
//@END
}
impl Neg for AlgebraicExpression { type Output = Self;
//@FN neg in "impl<T, R> ops::Neg for AlgebraicExpression<T, R>" from expression/src/lib.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ev(env) == (-self.ev(env)) % p()
//@END
}

// ---- autoprecompiles: guards.  What satisfies_zero_witness and canonicalize mean is assumed
// here and checked on the real functions by the bounded contracts ap_guard_* and ap_conv_*.
#[verifier::external_body]
fn satisfies_zero_witness(expr: &AlgebraicExpression) -> (r: bool) ensures r == (expr.ev(zeros()) == 0) { unimplemented!() }
pub open spec fn in_field(env: Env) -> bool { forall|r: Ref| 0 <= #[trigger] env(r) < p() }
pub proof fn lemma_ev(e: AlgebraicExpression, env: Env) requires in_field(env) ensures 0 <= e.ev(env) < p() decreases e
{
    broadcast use g;
    match e {
        AlgebraicExpression::BinaryOperation(b) => { lemma_mod(b.left.ev(env) + b.right.ev(env)); lemma_mod(b.left.ev(env) - b.right.ev(env)); lemma_mod(b.left.ev(env) * b.right.ev(env)); }
        AlgebraicExpression::UnaryOperation(u) => { lemma_mod(-u.expr.ev(env)); }
        _ => {}
    }
}
pub proof fn lemma_mod(x: int) ensures 0 <= x % p() < p() { broadcast use axiom_p; assert(0 <= x % p() < p()) by (nonlinear_arith) requires p() > 2; }
pub proof fn lemma_small(x: int) requires 0 <= x < p() ensures x % p() == x { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p() as nat); }
/// the guarded expression is the original one on a valid row, and zero on the row of zeros
pub open spec fn guarded(r: AlgebraicExpression, e: AlgebraicExpression, is_valid: AlgebraicExpression) -> bool {
    &&& forall|env: Env| #![trigger r.ev(env)] in_field(env) && is_valid.ev(env) == 1 ==> r.ev(env) == e.ev(env)
    &&& r.ev(zeros()) == 0
}
//@FN add_guards_constraint from autoprecompiles/src/lib.rs
//@ret r
//@contract requires is_valid.ev(zeros()) == 0,
//@contract ensures guarded(r, expr, *is_valid),
//@contract decreases expr,
//@start broadcast use g; proof { lemma_guard(expr, *is_valid); }
//@END
/// what one step needs of the arithmetic
pub proof fn lemma_guard(e: AlgebraicExpression, v: AlgebraicExpression)
    ensures 0int % p() == 0,
        forall|env: Env, x: int| #![trigger e.ev(env), v.ev(env), x % p()] in_field(env) && 0 <= x < p() ==> x % p() == x,
        forall|env: Env| #![trigger e.ev(env)] in_field(env) ==> 0 <= e.ev(env) < p(),
        in_field(zeros()),
        forall|x: int| #![trigger 0 * x] 0 * x == 0,
        forall|x: int| #![trigger x * 1] x * 1 == x,
{
    broadcast use g;
    assert forall|env: Env| in_field(env) implies 0 <= #[trigger] e.ev(env) < p() by { lemma_ev(e, env); }
    assert forall|x: int| 0 <= x < p() implies #[trigger] (x % p()) == x by { lemma_small(x); }
    lemma_small(0);
}
//@FN make_bool from autoprecompiles/src/powdr.rs
//@ret r
//@contract ensures forall|env: Env| #![trigger r.ev(env)] in_field(env) ==> (r.ev(env) == 0 <==> expr.ev(env) == 0 || expr.ev(env) == 1),
//@start broadcast use g; proof { assert forall|env: Env| in_field(env) implies lemma_bool_at(expr, env) by { lemma_bool(expr, env); } lemma_small(1); }
//@END
pub open spec fn lemma_bool_at(e: AlgebraicExpression, env: Env) -> bool {
    let x = e.ev(env);
    (x * ((x - 1) % p())) % p() == 0 <==> x == 0 || x == 1
}
pub proof fn lemma_bool(e: AlgebraicExpression, env: Env) requires in_field(env) ensures lemma_bool_at(e, env)
{
    broadcast use axiom_p;
    lemma_ev(e, env);
    let x = e.ev(env); let q = p();
    if (x * ((x - 1) % q)) % q == 0 {
        axiom_domain(x, (x - 1) % q);
        lemma_small(x);
        if x > 0 { lemma_small(x - 1); }
    }
    lemma_small(0);
    if x == 0 { assert(0 * ((x - 1) % q) == 0); }
    if x == 1 { assert(1 * (0int % q) == 0); }
}
} // verus
fn main() {}
