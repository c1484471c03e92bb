//! Constraint systems over a tiny field, their exact meaning by enumeration, and a bus with a
//! known table behind it.
use crate::ex::*;
use crate::gen::*;
use powdr_constraint_solver::bus_interaction_handler::BusInteractionHandler;
use powdr_constraint_solver::constraint_system::*;
use powdr_constraint_solver::grouped_expression::{GroupedExpression, RangeConstraintProvider};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{FieldElement, LargeInt};

pub type CS<F> = ConstraintSystem<F, u32>;
pub type Bus<F> = BusInteraction<GE<F>>;

#[derive(Clone)]
pub struct Rcs<F: FieldElement>(pub Vec<RangeConstraint<F>>);
impl<F: FieldElement> RangeConstraintProvider<F, u32> for Rcs<F> {
    fn get(&self, v: &u32) -> RangeConstraint<F> {
        self.0.get(*v as usize).copied().unwrap_or_default()
    }
}
pub fn holds_rcs<F: FieldElement>(r: &[RangeConstraint<F>], env: &[F]) -> bool {
    r.iter().zip(env).all(|(r, x)| r.allows_value(*x))
}

/// bus 1: byte-like check, payload [x] with x < 4.  bus 2: table [x, y, z], x < 4, y < 4,
/// z = x xor y.  bus 3: [x, b], b <= 2 and x < 2^b.  bus 4: memory-like, anything goes.
/// Rules apply whenever the multiplicity is non-zero.
#[derive(Clone, Default)]
pub struct Table;
pub fn n<F: FieldElement>(x: F) -> u64 {
    x.to_integer().try_into_u64().unwrap()
}
pub fn table_ok<F: FieldElement>(id: F, mult: F, pl: &[F]) -> bool {
    if mult.is_zero() {
        return true;
    }
    match (n(id), pl) {
        (1, [x]) => n(*x) < 4,
        (2, [x, y, z]) => n(*x) < 4 && n(*y) < 4 && n(*z) == n(*x) ^ n(*y),
        (3, [x, b]) => n(*b) <= 2 && n(*x) < 1 << n(*b),
        _ => true,
    }
}
/// the best range constraints implied by the table (the hull of all rows allowed by the input)
impl<F: FieldElement> BusInteractionHandler<F> for Table {
    fn handle_bus_interaction(&self, b: BusInteraction<RangeConstraint<F>>) -> BusInteraction<RangeConstraint<F>> {
        let Some(id) = b.bus_id.try_to_single_value() else { return b };
        if b.multiplicity.allows_value(F::from(0u64)) {
            return b;
        }
        let q = p::<F>();
        let (k, rows): (usize, Vec<Vec<u64>>) = match n(id) {
            1 => (1, (0..4).map(|x| vec![x]).collect()),
            2 => (3, (0..16).map(|i| vec![i & 3, i >> 2, (i & 3) ^ (i >> 2)]).collect()),
            3 => (2, [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (3, 2)].iter().map(|(x, b)| vec![*x, *b]).collect()),
            _ => return b,
        };
        if b.payload.len() != k {
            return b;
        }
        let _ = q;
        let rows: Vec<Vec<F>> = rows.iter().map(|r| r.iter().map(|x| F::from(*x)).collect::<Vec<F>>()).filter(|r: &Vec<F>| r.iter().zip(&b.payload).all(|(x, c)| c.allows_value(*x))).collect();
        let mut out = b.clone();
        for i in 0..k {
            out.payload[i] = rows.iter().map(|r| RangeConstraint::from_value(r[i])).reduce(|a, c| a.disjunction(&c)).unwrap_or_else(|| {
                // contradiction: report something disjoint from the input if possible
                match k { 1 => RangeConstraint::from_mask(3u64), _ => RangeConstraint::from_mask(3u64) }
            });
        }
        out
    }
}

pub fn holds<F: FieldElement>(s: &CS<F>, env: &[F]) -> bool {
    s.algebraic_constraints.iter().all(|c| eval(&c.expression, env).is_zero()) && s.bus_interactions.iter().all(|b| bus_holds(b, env))
}
pub fn bus_holds<F: FieldElement>(b: &Bus<F>, env: &[F]) -> bool {
    let pl: Vec<F> = b.payload.iter().map(|e| eval(e, env)).collect();
    table_ok(eval(&b.bus_id, env), eval(&b.multiplicity, env), &pl)
}
pub fn num<F: FieldElement>(x: u64) -> GE<F> {
    GE::from_number(F::from(x))
}
pub fn var<F: FieldElement>(v: u32) -> GE<F> {
    GE::from_unknown_variable(v)
}
/// an algebraic constraint of one of the shapes the solver knows
pub fn constr<F: FieldElement>(s: &mut dyn Src, nv: u32) -> GE<F> {
    match s.choose(10) {
        0 => { let v = s.choose(nv); var::<F>(v) * (var::<F>(v) - num(1)) }
        1 => { let v = s.choose(nv); (var::<F>(v) - GE::from_number(el(s))) * (var::<F>(v) - GE::from_number(el(s))) }
        2 => var::<F>(s.choose(nv)) - var::<F>(s.choose(nv)),
        3 | 4 => affine(s, nv),
        5 => affine::<F>(s, nv) * affine::<F>(s, nv),
        6 => { let e = affine::<F>(s, nv); e.clone() * (e + GE::from_number(el(s))) }
        7 => affine::<F>(s, nv) * affine::<F>(s, nv) + affine::<F>(s, nv),
        8 => var::<F>(s.choose(nv)) * coeff::<F>(s) + GE::from_number(el(s)),
        _ => expr(s, nv, 2),
    }
}
pub fn field<F: FieldElement>(s: &mut dyn Src, nv: u32) -> GE<F> {
    match s.choose(6) {
        0 => GE::from_number(el(s)),
        1 | 2 | 3 => var(s.choose(nv)),
        4 => affine(s, nv),
        _ => var::<F>(s.choose(nv)) * coeff::<F>(s) + num(s.choose(4) as u64),
    }
}
pub fn bus<F: FieldElement>(s: &mut dyn Src, nv: u32) -> Bus<F> {
    let id = 1 + s.choose(4);
    let multiplicity = match s.choose(5) { 0 => var(s.choose(nv)), 1 => num(0), 2 => -num::<F>(1), _ => num(1) };
    let k = match id { 1 => 1, 2 => 3, _ => 2 };
    BusInteraction { bus_id: num(id as u64), multiplicity, payload: (0..k).map(|_| field(s, nv)).collect() }
}
pub fn system<F: FieldElement>(s: &mut dyn Src, nv: u32, maxc: u32, maxb: u32) -> CS<F> {
    let (c, b) = (s.choose(maxc + 1), s.choose(maxb + 1));
    CS { algebraic_constraints: (0..c).map(|_| AlgebraicConstraint::assert_zero(constr(s, nv))).collect(), bus_interactions: (0..b).map(|_| bus(s, nv)).collect(), derived_variables: vec![] }
}
pub fn solutions<F: FieldElement>(s: &CS<F>, nv: u32) -> Vec<Vec<F>> {
    envs::<F>(nv as usize).into_iter().filter(|e| holds(s, e)).collect()
}
