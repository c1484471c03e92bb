use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Mul, Sub, Neg, Div};
use core::cmp::Ordering;
use std::sync::Arc;
verus!{
// ---- The field: any prime p > 2 (contracts established for the concrete fields by C01, C02).
pub uninterp spec fn p() -> int;
pub broadcast axiom fn axiom_p() ensures 2 < #[trigger] p();
#[verifier::external_body]
pub struct Fe { x: u64 }
impl Fe { pub uninterp spec fn v(self) -> int; }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Fe {}
pub broadcast axiom fn axiom_v(a: Fe) ensures 0 <= #[trigger] a.v() < p();
pub uninterp spec fn fe(x: int) -> Fe;
pub broadcast axiom fn axiom_fe(x: int) ensures (#[trigger] fe(x)).v() == x % p();
/// the unique quotient
pub uninterp spec fn dv(a: int, b: int) -> int;
pub broadcast axiom fn axiom_dv(a: int, b: int) ensures (0 <= a < p() && 0 < b < p()) ==> 0 <= #[trigger] dv(a, b) < p() && (dv(a, b) * b) % p() == a;
pub axiom fn axiom_dv_unique(a: int, b: int, r: int) requires 0 <= a < p(), 0 < b < p(), 0 <= r < p(), (r * b) % p() == a ensures r == dv(a, b);
macro_rules! op { ($tr:ident, $f:ident, $st:ident, $ob:ident, $rq:ident, $sp:ident, $a:ident, $b:ident, $e:expr, $q:expr) => { verus!{
    impl $st for Fe {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: Self) -> bool { let $b = rhs.v(); $q }
        open spec fn $sp(self, rhs: Self) -> Self { let $a = self.v(); let $b = rhs.v(); fe($e) }
    }
    impl $tr for Fe { type Output = Fe; #[verifier::external_body] fn $f(self, rhs: Fe) -> Fe { unimplemented!() } }
}}}
op!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, a, b, a + b, true);
op!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, a, b, a - b, true);
op!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, a, b, a * b, true);
op!(Div, div, DivSpecImpl, obeys_div_spec, div_req, div_spec, a, b, dv(a, b), b != 0);
impl NegSpecImpl for Fe {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Self { fe(-self.v()) }
}
impl Neg for Fe { type Output = Fe; #[verifier::external_body] fn neg(self) -> Fe { unimplemented!() } }
impl PartialEqSpecImpl for Fe {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fe) -> bool { self.v() == o.v() }
}
impl PartialEq for Fe { #[verifier::external_body] fn eq(&self, o: &Fe) -> bool { unimplemented!() } }
impl Fe {
    #[verifier::external_body] pub fn from_i(x: i64) -> (r: Fe) ensures r.v() == (x as int) % p() { unimplemented!() }
    #[verifier::external_body] pub fn from_k(x: u64) -> (r: Fe) ensures r.v() == (x as int) % p() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1) { unimplemented!() }
}
// ---- range constraints: their contracts (proved in range_constraint.vspec)
#[verifier::external_body]
pub struct RangeConstraint { x: u64 }
impl Clone for RangeConstraint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RangeConstraint {}
impl RangeConstraint {
    pub uninterp spec fn has(self, x: int) -> bool;
    #[verifier::external_body] pub fn from_value(v: Fe) -> (r: Self) ensures r.has(v.v()) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures forall|x: int| 0 <= x < p() ==> #[trigger] r.has(x) { unimplemented!() }
    #[verifier::external_body] pub fn allows_value(&self, v: Fe) -> (r: bool) ensures r == self.has(v.v()) { unimplemented!() }
    #[verifier::external_body] pub fn try_to_single_value(&self) -> (r: Option<Fe>) ensures r matches Some(v) ==> forall|x: int| #[trigger] self.has(x) ==> x == v.v() { unimplemented!() }
    #[verifier::external_body] pub fn combine_sum(&self, o: &Self) -> (r: Self) ensures forall|x: int, y: int| #[trigger] self.has(x) && #[trigger] o.has(y) ==> r.has((x + y) % p()) { unimplemented!() }
    #[verifier::external_body] pub fn combine_product(&self, o: &Self) -> (r: Self) ensures forall|x: int, y: int| #[trigger] self.has(x) && #[trigger] o.has(y) ==> r.has((x * y) % p()) { unimplemented!() }
    #[verifier::external_body] pub fn multiple(&self, f: Fe) -> (r: Self) ensures forall|x: int| #[trigger] self.has(x) ==> r.has((x * f.v()) % p()) { unimplemented!() }
    #[verifier::external_body] pub fn neg(self) -> (r: Self) ensures forall|x: int| #[trigger] self.has(x) ==> r.has((-x) % p()) { unimplemented!() }
}
pub broadcast axiom fn axiom_has(r: RangeConstraint, x: int) ensures #[trigger] r.has(x) ==> 0 <= x < p();

// ---- symbols: any type with an equality
#[verifier::external_body] pub struct Sy { x: u64 }
impl Clone for Sy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for Sy {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Sy) -> bool { *self == *o }
}
impl PartialEq for Sy { #[verifier::external_body] fn eq(&self, o: &Sy) -> bool { unimplemented!() } }

//@ENUM BinaryOperator from constraint-solver/src/symbolic_expression.rs
//@ENUM UnaryOperator from constraint-solver/src/symbolic_expression.rs
//@GSUB '<T: FieldElement, S>' => ''
//@GSUB '\bT::from\((-?\d+)\)' => 'Fe::from_i(\1)'
//@GSUB '\bT::from\(k\)' => 'Fe::from_k(k)'
//@GSUB '\bT\b' => 'Fe'
//@GSUB '\bS\b' => 'Sy'
//@GSUB 'RangeConstraint<Fe>' => 'RangeConstraint'
//@GSUB 'RangeConstraint<Self::FieldType>' => 'RangeConstraint'
//@GSUB 'Self::FieldType::from\(1\)' => 'Fe::from_i(1)'
//@GSUB 'Self::FieldType' => 'Fe'
//@GSUB 'Self::Output' => 'SymbolicExpression'
//@GSUB '\bassert!\(([^;]*)\);' => 'if !(\1) { vpanic(); }'
//@GSUB '(\w+)\.as_ref\(\)' => '(&**\1)'
//@ENUM SymbolicExpression from constraint-solver/src/symbolic_expression.rs
#[verifier::external_body] fn vpanic() ensures false { panic!() }
impl Clone for BinaryOperator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BinaryOperator {}
impl Clone for SymbolicExpression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// derived equality (assumed structural)
impl PartialEqSpecImpl for SymbolicExpression {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for SymbolicExpression { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }

// ---- meaning: the value under an environment, and validity of every stored range constraint
pub open spec fn bin(op: BinaryOperator, a: int, b: int) -> int {
    match op { BinaryOperator::Add => (a + b) % p(), BinaryOperator::Sub => (a - b) % p(), BinaryOperator::Mul => (a * b) % p(), BinaryOperator::Div => dv(a, b) }
}
impl SymbolicExpression {
    pub open spec fn ev(self, env: spec_fn(Sy) -> int) -> int decreases self {
        match self {
            SymbolicExpression::Concrete(n) => n.v(),
            SymbolicExpression::Symbol(s, _) => env(s),
            SymbolicExpression::BinaryOperation(l, op, r, _) => bin(op, l.ev(env), r.ev(env)),
            SymbolicExpression::UnaryOperation(_, e, _) => (-e.ev(env)) % p(),
        }
    }
    pub open spec fn ok(self, env: spec_fn(Sy) -> int) -> bool decreases self {
        match self {
            SymbolicExpression::Concrete(n) => true,
            SymbolicExpression::Symbol(s, rc) => rc.has(env(s)),
            SymbolicExpression::BinaryOperation(l, op, r, rc) => l.ok(env) && r.ok(env) && (op == BinaryOperator::Div ==> r.ev(env) != 0) && rc.has(self.ev(env)),
            SymbolicExpression::UnaryOperation(_, e, rc) => e.ok(env) && rc.has(self.ev(env)),
        }
    }
}
impl SymbolicExpression {
    pub open spec fn occ(self, v: Sy) -> bool decreases self {
        match self {
            SymbolicExpression::Concrete(n) => false,
            SymbolicExpression::Symbol(s, rc) => s == v,
            SymbolicExpression::BinaryOperation(l, op, r, rc) => l.occ(v) || r.occ(v),
            SymbolicExpression::UnaryOperation(_, e, rc) => e.occ(v),
        }
    }
}
pub open spec fn un(a: Arc<SymbolicExpression>) -> SymbolicExpression { *a }
broadcast proof fn lemma_noocc(e: SymbolicExpression, env: Env, v: Sy, x: int)
    requires !e.occ(v)
    ensures #[trigger] e.ok(upd(env, v, x)) == e.ok(env), e.ev(upd(env, v, x)) == e.ev(env)
    decreases e
{ match e {
    SymbolicExpression::BinaryOperation(l, op, r, rc) => { lemma_noocc(un(l), env, v, x); lemma_noocc(un(r), env, v, x); }
    SymbolicExpression::UnaryOperation(_, l, rc) => { lemma_noocc(un(l), env, v, x); }
    _ => {}
} }
broadcast group g { axiom_p, axiom_v, axiom_fe, axiom_has, axiom_dv }
pub type Env = spec_fn(Sy) -> int;
broadcast proof fn lemma_ok(e: SymbolicExpression, env: Env) requires #[trigger] e.ok(env) ensures 0 <= e.ev(env) < p()
{ broadcast use g; }
/// one unfolding, usable under quantifiers
proof fn lemma_unfold(e: SymbolicExpression)
    ensures
      e matches SymbolicExpression::BinaryOperation(l, op, r, rc) ==> (forall|env: Env| #[trigger] e.ev(env) == bin(op, l.ev(env), r.ev(env)))
        && (forall|env: Env| #[trigger] e.ok(env) == (l.ok(env) && r.ok(env) && (op == BinaryOperator::Div ==> r.ev(env) != 0) && rc.has(e.ev(env)))),
      e matches SymbolicExpression::UnaryOperation(_, l, rc) ==> (forall|env: Env| #[trigger] e.ev(env) == (-l.ev(env)) % p()) && (forall|env: Env| #[trigger] e.ok(env) == (l.ok(env) && rc.has(e.ev(env)))),
{}
proof fn lemma_id(x: int) requires 0 <= x < p() ensures x % p() == x, (0 + x) % p() == x, (x + 0) % p() == x, (x - 0) % p() == x, (1 * x) % p() == x, (x * 1) % p() == x, (0 * x) % p() == 0, (x * 0) % p() == 0, 0int % p() == 0
{ broadcast use g; let q = p(); assert(x % q == x) by (nonlinear_arith) requires 0 <= x < q; assert(0int % q == 0) by (nonlinear_arith) requires 0 < q; }
proof fn lemma_m1() ensures (1int) % p() == 1, 0int % p() == 0, (-1int) % p() == p() - 1
{ broadcast use g; let q = p(); lemma_id(0); assert(1int % q == 1) by (nonlinear_arith) requires 1 < q; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-1, q, -1, q - 1); }
proof fn lemma_negmul(x: int) ensures (x * (p() - 1)) % p() == (-x) % p(), ((p() - 1) * x) % p() == (-x) % p()
{ broadcast use g; let q = p(); assert(x * (q - 1) == q * x + (-x)) by (nonlinear_arith); assert((q - 1) * x == q * x + (-x)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(x, -x, q); }
proof fn lemma_neg(x: int, y: int)
    ensures ((-x) % p() + x) % p() == 0, (x + (-x) % p()) % p() == 0, (-((-x) % p())) % p() == x % p(), ((-x) % p() + (-y) % p()) % p() == (-((x + y) % p())) % p(),
        (-((x - y) % p())) % p() == (y - x) % p(), (-((x * y) % p())) % p() == (((-x) % p()) * y) % p(), (-((x * y) % p())) % p() == (x * ((-y) % p())) % p(), (x + (-y) % p()) % p() == (x - y) % p(), (-((-x) % p())) % p() == x % p()
{ broadcast use g; let q = p();
  use_mod(-x); use_mod(-y); use_mod(x + y); use_mod(x - y); use_mod(x * y);
  let (nx, ny, s, d, m) = ((-x) / q, (-y) / q, (x + y) / q, (x - y) / q, (x * y) / q);
  let (mx, my, ms, md, mm) = ((-x) % q, (-y) % q, (x + y) % q, (x - y) % q, (x * y) % q);
  assert(mx + x == 0 + (-nx) * q) by (nonlinear_arith) requires -x == nx * q + mx;
  assert(-mx == x + nx * q) by (nonlinear_arith) requires -x == nx * q + mx;
  lemma_same(mx + x, 0, -nx); lemma_id(0); lemma_same(x + mx, 0, -nx); lemma_same(-mx, x, nx);
  assert(mx + my == -ms + (-nx - ny - s) * q) by (nonlinear_arith) requires -x == nx * q + mx, -y == ny * q + my, x + y == s * q + ms;
  lemma_same(mx + my, -ms, -nx - ny - s);
  assert(-md == (y - x) + d * q) by (nonlinear_arith) requires x - y == d * q + md;
  lemma_same(-md, y - x, d);
  assert(-mm == mx * y + (nx * y + m) * q) by (nonlinear_arith) requires x * y == m * q + mm, -x == nx * q + mx;
  lemma_same(-mm, mx * y, nx * y + m);
  assert(-mm == x * my + (ny * x + m) * q) by (nonlinear_arith) requires x * y == m * q + mm, -y == ny * q + my;
  lemma_same(-mm, x * my, ny * x + m);
  assert(x + my == (x - y) + (-ny) * q) by (nonlinear_arith) requires -y == ny * q + my;
  lemma_same(x + my, x - y, -ny);
}
proof fn use_mod(x: int) ensures x == (x / p()) * p() + x % p()
{ broadcast use g; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p()); assert(p() * (x / p()) == (x / p()) * p()) by (nonlinear_arith); }
proof fn lemma_same(a: int, b: int, k: int) requires a == b + k * p() ensures a % p() == b % p()
{ broadcast use g; let q = p(); assert(k * q == q * k) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, b, q); assert(q * k + b == a); }
proof fn lemma_div(x: int, y: int)
    requires 0 <= x < p(), 0 < y < p()
    ensures dv(x, 1) == x, dv(x, p() - 1) == (-x) % p(), dv(0, y) == 0, x != 0 ==> dv(x, y) != 0, x != 0 ==> dv(1, dv(x, y)) == dv(y, x), dv(x, y) % p() == dv(x, y)
{ broadcast use g; let q = p();
  lemma_id(x); lemma_id(y); lemma_m1(); lemma_id(dv(x, y));
  axiom_dv_unique(x, 1, x);
  lemma_negmul((-x) % q); lemma_neg(x, 0);
  axiom_dv_unique(x, q - 1, (-x) % q);
  axiom_dv_unique(0, y, 0);
  if x != 0 {
    let (r, k) = (dv(y, x), dv(x, y));
    if k == 0 { assert((k * y) % q == 0) by { lemma_id(y); } }
    // r*x = y, k*y = x, so (r*k)*y = y, so r*k = 1
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(r, k * y, q);
    assert(r * (k * y) == (r * k) * y) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(r * k, y, q);
    let e = (r * k) % q;
    axiom_dv_unique(y, y, e);
    axiom_dv_unique(y, y, 1);
    axiom_dv_unique(1, k, r);
  }
}
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,))
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);

impl SymbolicExpression {
    #[verifier::external_body] fn from(n: Fe) -> (r: Self) ensures r == SymbolicExpression::Concrete(n) { unimplemented!() }
//@FN from_symbol in "impl<T: FieldElement, S> SymbolicExpression<T, S>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] rc.has(env(symbol)) ==> r.ok(env) && r.ev(env) == env(symbol)
//@END
//@FN try_to_number in "impl<T: FieldElement, V: Clone + Eq> RuntimeConstant for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures r matches Some(n) ==> *self == SymbolicExpression::Concrete(n), r is None ==> !(*self is Concrete)
//@END
//@FN range_constraint in "impl<T: FieldElement, V: Clone + Eq> RuntimeConstant for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) ==> r.has(self.ev(env))
//@END
//@FN is_known_zero from constraint-solver/src/runtime_constant.rs
//@ret r
//@contract ensures r == (*self matches SymbolicExpression::Concrete(n) && n.v() == 0)
//@sub '|n| n.is_zero()' => '|n: Fe| -> (b: bool) ensures b == (n.v() == 0) { n.is_zero() }'
//@END
//@FN is_known_one from constraint-solver/src/runtime_constant.rs
//@ret r
//@contract ensures r == (*self matches SymbolicExpression::Concrete(n) && n.v() == 1)
//@sub '|n| n.is_one()' => '|n: Fe| -> (b: bool) ensures b == (n.v() == 1) { n.is_one() }'
//@END
//@FN is_known_minus_one from constraint-solver/src/runtime_constant.rs
//@ret r
//@contract ensures r == (*self matches SymbolicExpression::Concrete(n) && n.v() == p() - 1)
//@sub '|n| n == -Fe::from_i(1)' => '|n: Fe| -> (b: bool) ensures b == (n.v() == p() - 1) { proof { lemma_m1(); } broadcast use g; n == -Fe::from_i(1) }'
//@END
//@FN is_known_nonzero from constraint-solver/src/runtime_constant.rs
//@ret r
//@contract ensures r ==> forall|env: Env| #[trigger] self.ok(env) ==> self.ev(env) != 0
//@sub '0.into()' => 'Fe::from_i(0)'
//@start proof { lemma_m1(); }
//@END
//@FN field_div in "impl<T: FieldElement, V: Clone + Eq> RuntimeConstant for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) && rhs.ev(env) != 0 ==> r.ok(env) && r.ev(env) == dv(self.ev(env), rhs.ev(env))
//@start broadcast use {g, lemma_ok}; proof { lemma_m1(); assert forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) && rhs.ev(env) != 0 implies dv(self.ev(env), 1) == self.ev(env) && dv(self.ev(env), p() - 1) == (-self.ev(env)) % p() && dv(0, rhs.ev(env)) == 0 && 0 <= dv(self.ev(env), rhs.ev(env)) < p() && dv(self.ev(env), rhs.ev(env)) % p() == dv(self.ev(env), rhs.ev(env)) by { lemma_div(self.ev(env), rhs.ev(env)); } }
//@sub 'Default::default()' => 'RangeConstraint::default()'
//@END
//@FN field_inverse in "impl<T: FieldElement, V: Clone + Eq> RuntimeConstant for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && self.ev(env) != 0 ==> r.ok(env) && r.ev(env) == dv(1, self.ev(env))
//@start broadcast use {g, lemma_ok}; proof { reveal_with_fuel(SymbolicExpression::ok, 3); reveal_with_fuel(SymbolicExpression::ev, 3); lemma_m1(); lemma_unfold(*self); lemma_inv(*self); }
//@sub 'Default::default()' => 'RangeConstraint::default()'
//@END
//@FN from_u64 in "impl<T: FieldElement, V: Clone + Eq> RuntimeConstant for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] r.ok(env) && r.ev(env) == (k as int) % p()
//@END
//@FN compute_substitution in "impl<T: FieldElement, S: Clone + Eq> SymbolicExpression<T, S>" from constraint-solver/src/symbolic_expression.rs
//@ret res
//@contract ensures res is None ==> !self.occ(*variable),
//@contract   res matches Some(r) ==> forall|env: Env| #[trigger] substitution.ok(env) && self.ok(upd(env, *variable, substitution.ev(env))) ==> r.ok(env) && r.ev(env) == self.ev(upd(env, *variable, substitution.ev(env)))
//@contract decreases self
//@start broadcast use {g, lemma_ok, lemma_noocc}; proof { lemma_unfold(*self); }
//@sub '(v == variable).then(|| substitution.clone())' => '(v == variable).then(|| -> (q: Self) ensures q == *substitution { substitution.clone() })'
//@END
}
pub open spec fn upd(env: Env, v: Sy, x: int) -> Env { |s: Sy| if s == v { x } else { env(s) } }
proof fn lemma_inv(e: SymbolicExpression)
    ensures forall|env: Env| #[trigger] e.ok(env) && e.ev(env) != 0 ==> 0 <= dv(1, e.ev(env)) < p() && dv(1, e.ev(env)) % p() == dv(1, e.ev(env)),
       e matches SymbolicExpression::BinaryOperation(x, op, y, _) ==> op == BinaryOperator::Div ==> forall|env: Env| #[trigger] e.ok(env) && e.ev(env) != 0 ==> x.ev(env) != 0 && dv(1, e.ev(env)) == dv(y.ev(env), x.ev(env)) && 0 <= dv(y.ev(env), x.ev(env)) < p()
{ broadcast use {g, lemma_ok};
  lemma_m1();
  assert forall|env: Env| #[trigger] e.ok(env) && e.ev(env) != 0 implies 0 <= dv(1, e.ev(env)) < p() && dv(1, e.ev(env)) % p() == dv(1, e.ev(env)) by { lemma_div(1, e.ev(env)); }
  if let SymbolicExpression::BinaryOperation(x, op, y, _) = e { if op == BinaryOperator::Div {
    assert forall|env: Env| #[trigger] e.ok(env) && e.ev(env) != 0 implies x.ev(env) != 0 && dv(1, e.ev(env)) == dv(y.ev(env), x.ev(env)) && 0 <= dv(y.ev(env), x.ev(env)) < p() by {
      assert(x.ok(env) && y.ok(env)); lemma_div(x.ev(env), y.ev(env)); lemma_div(y.ev(env), 1);
    }
  } }
}
macro_rules! nospec { ($st:ident, $t:ty, $ob:ident, $rq:ident, $sp:ident) => { verus!{
    impl $st for $t {
        open spec fn $ob() -> bool { false }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        uninterp spec fn $sp(self, rhs: Self) -> SymbolicExpression;
    } } } }
nospec!(AddSpecImpl, SymbolicExpression, obeys_add_spec, add_req, add_spec);
nospec!(SubSpecImpl, SymbolicExpression, obeys_sub_spec, sub_req, sub_spec);
nospec!(MulSpecImpl, SymbolicExpression, obeys_mul_spec, mul_req, mul_spec);
nospec!(AddSpecImpl, &SymbolicExpression, obeys_add_spec, add_req, add_spec);
nospec!(SubSpecImpl, &SymbolicExpression, obeys_sub_spec, sub_req, sub_spec);
nospec!(MulSpecImpl, &SymbolicExpression, obeys_mul_spec, mul_req, mul_spec);
impl NegSpecImpl for SymbolicExpression { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> SymbolicExpression; }
impl NegSpecImpl for &SymbolicExpression { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> SymbolicExpression; }
impl Add for &SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN add in "impl<T: FieldElement, V: Clone + Eq> Add for &SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) ==> r.ok(env) && r.ev(env) == (self.ev(env) + rhs.ev(env)) % p()
//@start broadcast use {g, lemma_ok}; proof { lemma_m1(); lemma_addall(*self, *rhs); }
//@sub 'Fe::from_i(0).into()' => 'SymbolicExpression::from(Fe::from_i(0))'
//@END
}
impl Add for SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN add in "impl<T: FieldElement, V: Clone + Eq> Add for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) ==> r.ok(env) && r.ev(env) == (self.ev(env) + rhs.ev(env)) % p()
//@END
}
impl Sub for &SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN sub in "impl<T: FieldElement, V: Clone + Eq> Sub for &SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) ==> r.ok(env) && r.ev(env) == (self.ev(env) - rhs.ev(env)) % p()
//@start broadcast use {g, lemma_ok}; proof { lemma_m1(); lemma_addall(*self, *rhs); }
//@sub 'Fe::from_i(0).into()' => 'SymbolicExpression::from(Fe::from_i(0))'
//@END
}
impl Sub for SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN sub in "impl<T: FieldElement, V: Clone + Eq> Sub for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) ==> r.ok(env) && r.ev(env) == (self.ev(env) - rhs.ev(env)) % p()
//@END
}
impl Mul for &SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN mul in "impl<T: FieldElement, V: Clone + Eq> Mul for &SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) ==> r.ok(env) && r.ev(env) == (self.ev(env) * rhs.ev(env)) % p()
//@start broadcast use {g, lemma_ok}; proof { lemma_m1(); lemma_addall(*self, *rhs); }
//@END
}
impl Mul for SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN mul in "impl<T: FieldElement, V: Clone + Eq> Mul for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) && #[trigger] rhs.ok(env) ==> r.ok(env) && r.ev(env) == (self.ev(env) * rhs.ev(env)) % p()
//@sub '-> Self' => '-> SymbolicExpression'
//@END
}
impl Neg for &SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN neg in "impl<T: FieldElement, V: Clone + Eq> Neg for &SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) ==> r.ok(env) && r.ev(env) == (-self.ev(env)) % p()
//@start broadcast use {g, lemma_ok}; proof { lemma_m1(); lemma_unfold(*self); lemma_negall(*self); }
//@END
}
impl Neg for SymbolicExpression { type Output = SymbolicExpression;
#[verifier::exec_allows_no_decreases_clause]
//@FN neg in "impl<T: FieldElement, V: Clone + Eq> Neg for SymbolicExpression<T, V>" from constraint-solver/src/symbolic_expression.rs
//@ret r
//@contract ensures forall|env: Env| #[trigger] self.ok(env) ==> r.ok(env) && r.ev(env) == (-self.ev(env)) % p()
//@END
}
proof fn lemma_addall(a: SymbolicExpression, b: SymbolicExpression)
    ensures forall|env: Env| #[trigger] a.ok(env) && #[trigger] b.ok(env) ==> ({ let (x, y) = (a.ev(env), b.ev(env));
        x % p() == x && y % p() == y && (0 + x) % p() == x && (x + 0) % p() == x && (0 + y) % p() == y && (y + 0) % p() == y && (x - 0) % p() == x
        && ((-y) % p() + y) % p() == 0 && (x + (-x) % p()) % p() == 0 && (x + (-y) % p()) % p() == (x - y) % p() && (0 - y) % p() == (-y) % p()
        && (1 * y) % p() == y && (x * 1) % p() == x && (0 * y) % p() == 0 && (x * 0) % p() == 0 && (x * (p() - 1)) % p() == (-x) % p() && ((p() - 1) * y) % p() == (-y) % p() && (x - x) % p() == 0
        && 0 <= (x + y) % p() < p() && 0 <= (x - y) % p() < p() && 0 <= (x * y) % p() < p() })
{ broadcast use {g, lemma_ok};
  assert forall|env: Env| #[trigger] a.ok(env) && #[trigger] b.ok(env) implies ({ let (x, y) = (a.ev(env), b.ev(env));
        x % p() == x && y % p() == y && (0 + x) % p() == x && (x + 0) % p() == x && (0 + y) % p() == y && (y + 0) % p() == y && (x - 0) % p() == x
        && ((-y) % p() + y) % p() == 0 && (x + (-x) % p()) % p() == 0 && (x + (-y) % p()) % p() == (x - y) % p() && (0 - y) % p() == (-y) % p()
        && (1 * y) % p() == y && (x * 1) % p() == x && (0 * y) % p() == 0 && (x * 0) % p() == 0 && (x * (p() - 1)) % p() == (-x) % p() && ((p() - 1) * y) % p() == (-y) % p() && (x - x) % p() == 0
        && 0 <= (x + y) % p() < p() && 0 <= (x - y) % p() < p() && 0 <= (x * y) % p() < p() }) by {
    let (x, y) = (a.ev(env), b.ev(env));
    lemma_id(x); lemma_id(y); lemma_neg(x, y); lemma_neg(y, x); lemma_negmul(x); lemma_negmul(y);
  }
}
proof fn lemma_negall(a: SymbolicExpression)
    ensures forall|env: Env| #[trigger] a.ok(env) ==> (a.ev(env) * (p() - 1)) % p() == (-a.ev(env)) % p() && 0 <= (-a.ev(env)) % p() < p(),
      a matches SymbolicExpression::UnaryOperation(_, e, _) ==> forall|env: Env| #[trigger] a.ok(env) ==> (-a.ev(env)) % p() == e.ev(env),
      a matches SymbolicExpression::BinaryOperation(l, op, r, _) ==> forall|env: Env| #[trigger] a.ok(env) ==> ({ let (x, y) = (l.ev(env), r.ev(env));
         (op == BinaryOperator::Add ==> ((-x) % p() + (-y) % p()) % p() == (-a.ev(env)) % p()) && (op == BinaryOperator::Sub ==> (y - x) % p() == (-a.ev(env)) % p())
         && (op == BinaryOperator::Mul ==> (((-x) % p()) * y) % p() == (-a.ev(env)) % p() && (x * ((-y) % p())) % p() == (-a.ev(env)) % p()) })
{ broadcast use {g, lemma_ok};
  assert forall|env: Env| #[trigger] a.ok(env) implies (a.ev(env) * (p() - 1)) % p() == (-a.ev(env)) % p() && 0 <= (-a.ev(env)) % p() < p() by { lemma_negmul(a.ev(env)); }
  match a {
    SymbolicExpression::UnaryOperation(_, e, _) => { assert forall|env: Env| #[trigger] a.ok(env) implies (-a.ev(env)) % p() == e.ev(env) by { assert(e.ok(env)); lemma_neg(e.ev(env), 0); lemma_id(e.ev(env)); } }
    SymbolicExpression::BinaryOperation(l, op, r, _) => { assert forall|env: Env| #[trigger] a.ok(env) implies ({ let (x, y) = (l.ev(env), r.ev(env));
         (op == BinaryOperator::Add ==> ((-x) % p() + (-y) % p()) % p() == (-a.ev(env)) % p()) && (op == BinaryOperator::Sub ==> (y - x) % p() == (-a.ev(env)) % p())
         && (op == BinaryOperator::Mul ==> (((-x) % p()) * y) % p() == (-a.ev(env)) % p() && (x * ((-y) % p())) % p() == (-a.ev(env)) % p()) }) by { lemma_neg(l.ev(env), r.ev(env)); } }
    _ => {}
  }
}
} // verus
fn main() {}
