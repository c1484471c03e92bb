//! Expressions over a few variables of a small field, with an independent evaluator: the oracle
//! of every contract about expressions and constraint systems is evaluation at all assignments.
use crate::gen::*;
use num_traits::{One, Zero};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::runtime_constant::RuntimeConstant;
use powdr_constraint_solver::symbolic_expression::{BinaryOperator, SymbolicExpression, UnaryOperator};
use powdr_number::*;

pub type V = u32;
pub type GE<F> = GroupedExpression<F, V>;
pub type SE<F> = SymbolicExpression<F, V>;
pub type QE<F> = GroupedExpression<SE<F>, V>;

pub fn p<F: FieldElement>() -> u32 {
    F::modulus().try_into_u32().unwrap()
}
pub fn el<F: FieldElement>(s: &mut dyn Src) -> F {
    let q = p::<F>();
    if q <= 300 { F::from(s.choose(q)) } else { F::from(s.big(q as u64 - 1)) }
}
/// coefficients: mostly the interesting ones
pub fn coeff<F: FieldElement>(s: &mut dyn Src) -> F {
    match s.choose(6) {
        0 | 1 => F::from(1u64),
        2 => -F::from(1u64),
        3 => F::from(2u64),
        _ => el(s),
    }
}
pub fn eval<F: FieldElement>(e: &GE<F>, env: &[F]) -> F {
    let mut r = *e.constant_offset();
    for (l, q) in e.quadratic_components() {
        r += eval(l, env) * eval(q, env);
    }
    for (v, c) in e.linear_components() {
        r += *c * env[*v as usize];
    }
    r
}
/// value of a symbolic expression; None where it divides by zero
pub fn seval<F: FieldElement>(e: &SE<F>, env: &[F]) -> Option<F> {
    Some(match e {
        SE::Concrete(c) => *c,
        SE::Symbol(v, _) => env[*v as usize],
        SE::UnaryOperation(UnaryOperator::Neg, x, _) => -seval(x, env)?,
        SE::BinaryOperation(a, op, b, _) => {
            let (a, b) = (seval(a, env)?, seval(b, env)?);
            match op {
                BinaryOperator::Add => a + b,
                BinaryOperator::Sub => a - b,
                BinaryOperator::Mul => a * b,
                BinaryOperator::Div => {
                    if b.is_zero() { return None; }
                    a / b
                }
            }
        }
    })
}
pub fn qeval<F: FieldElement>(e: &QE<F>, env: &[F]) -> Option<F> {
    let mut r = seval(e.constant_offset(), env)?;
    for (l, q) in e.quadratic_components() {
        r += qeval(l, env)? * qeval(q, env)?;
    }
    for (v, c) in e.linear_components() {
        r += seval(c, env)? * env[*v as usize];
    }
    Some(r)
}
/// every assignment of n variables
pub fn envs<F: FieldElement>(n: usize) -> Vec<Vec<F>> {
    let q = p::<F>();
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r.into_iter().flat_map(|e: Vec<F>| (0..q).map(move |x| { let mut e = e.clone(); e.push(F::from(x)); e })).collect();
    }
    r
}
/// all assignments for tiny fields, chosen ones otherwise
pub fn some_envs<F: FieldElement>(s: &mut dyn Src, n: usize) -> Vec<Vec<F>> {
    if (p::<F>() as u128).pow(n as u32) <= 2500 {
        return envs(n);
    }
    (0..6).map(|_| (0..n).map(|_| el(s)).collect()).collect()
}
/// affine expression
pub fn affine<F: FieldElement>(s: &mut dyn Src, n: u32) -> GE<F> {
    let mut e = GE::from_number(if s.flip() { el(s) } else { F::from(0u64) });
    for v in 0..n {
        if s.choose(3) > 0 {
            e += GE::from_unknown_variable(v) * coeff::<F>(s);
        }
    }
    e
}
/// arbitrary expression over variables 0..n built through the public operators
pub fn expr<F: FieldElement>(s: &mut dyn Src, n: u32, depth: u32) -> GE<F> {
    match s.choose(if depth == 0 { 3 } else { 8 }) {
        0 => GE::from_number(el(s)),
        1 => GE::from_unknown_variable(s.choose(n)),
        2 => affine(s, n),
        3 => expr(s, n, depth - 1) + expr(s, n, depth - 1),
        4 => expr(s, n, depth - 1) - expr(s, n, depth - 1),
        5 | 6 => expr(s, n, depth - 1) * expr(s, n, depth - 1),
        _ => -expr(s, n, depth - 1),
    }
}
pub fn rc<F: FieldElement>(s: &mut dyn Src) -> RangeConstraint<F> {
    let q = p::<F>() as u64;
    match s.choose(7) {
        0 => RangeConstraint::unconstrained(),
        1 => RangeConstraint::from_mask(s.big(if q < 1 << 20 { q.next_power_of_two() - 1 } else { 0xffff })),
        2 => RangeConstraint::from_value(el(s)),
        3 | 4 => { let lo = el::<F>(s); RangeConstraint::from_range(lo, lo + F::from(s.choose(4))) }
        _ => { let hi = el::<F>(s); RangeConstraint::from_range(F::from(0u64), hi) }
    }
}
/// no division
pub fn sym0<F: FieldElement>(s: &mut dyn Src, n: u32, depth: u32, rcs: &[RangeConstraint<F>]) -> SE<F> {
    match s.choose(if depth == 0 { 2 } else { 6 }) {
        0 => SE::from(el::<F>(s)),
        1 => { let v = s.choose(n); SE::from_symbol(v, rcs[v as usize]) }
        2 => sym0(s, n, depth - 1, rcs) + sym0(s, n, depth - 1, rcs),
        3 => sym0(s, n, depth - 1, rcs) - sym0(s, n, depth - 1, rcs),
        4 => sym0(s, n, depth - 1, rcs) * sym0(s, n, depth - 1, rcs),
        _ => -sym0(s, n, depth - 1, rcs),
    }
}
pub fn sym<F: FieldElement>(s: &mut dyn Src, n: u32, depth: u32, rcs: &[RangeConstraint<F>]) -> SE<F> {
    match s.choose(if depth == 0 { 2 } else { 7 }) {
        0 => SE::from(el::<F>(s)),
        1 => { let v = s.choose(n); SE::from_symbol(v, rcs[v as usize]) }
        2 => sym(s, n, depth - 1, rcs) + sym(s, n, depth - 1, rcs),
        3 => sym(s, n, depth - 1, rcs) - sym(s, n, depth - 1, rcs),
        4 => sym(s, n, depth - 1, rcs) * sym(s, n, depth - 1, rcs),
        5 => {
            let (a, b) = (sym(s, n, depth - 1, rcs), sym(s, n, depth - 1, rcs));
            if b.is_known_zero() { a } else { a.field_div(&b) }
        }
        _ => -sym(s, n, depth - 1, rcs),
    }
}
