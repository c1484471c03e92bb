//! Systems at a production field, built around a chosen ("planted") solution: whatever a pass
//! claims about every solution must hold for this one, and a pass that must not change the
//! solutions must agree with the original on it and on assignments close to it.
use crate::ex::*;
use crate::gen::*;
use crate::sys::*;
use powdr_constraint_solver::bus_interaction_handler::BusInteractionHandler;
use powdr_constraint_solver::constraint_system::*;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{FieldElement, LargeInt};

/// bus 1: [x], x < 256.  bus 2: [x, y, z], bytes with z = x xor y.  bus 3: [x, b], b <= 17 and
/// x < 2^b.  others: stateful, anything goes.
#[derive(Clone, Default)]
pub struct Bytes;
pub fn bytes_ok<F: FieldElement>(id: F, mult: F, pl: &[F]) -> bool {
    mult.is_zero() || match (n(id), pl) {
        (1, [x]) => n(*x) < 256,
        (2, [x, y, z]) => n(*x) < 256 && n(*y) < 256 && n(*z) == n(*x) ^ n(*y),
        (3, [x, b]) => n(*b) <= 17 && n(*x) < 1 << n(*b),
        _ => true,
    }
}
impl<F: FieldElement> BusInteractionHandler<F> for Bytes {
    fn handle_bus_interaction(&self, b: BusInteraction<RangeConstraint<F>>) -> BusInteraction<RangeConstraint<F>> {
        let Some(id) = b.bus_id.try_to_single_value() else { return b };
        if b.multiplicity.allows_value(F::from(0u64)) {
            return b;
        }
        let byte = RangeConstraint::from_mask(255u64);
        let one = |r: &RangeConstraint<F>| r.try_to_single_value().map(n).filter(|x| *x < 256);
        let mut out = b.clone();
        match (n(id), b.payload.len()) {
            (1, 1) => out.payload[0] = byte,
            (2, 3) => {
                out.payload = vec![byte; 3];
                for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 2, 0)] {
                    if let (Some(x), Some(y)) = (one(&b.payload[i]), one(&b.payload[j])) {
                        out.payload[k] = RangeConstraint::from_value(F::from(x ^ y));
                    } else {
                        let m = |r: &RangeConstraint<F>| r.mask().try_into_u64().unwrap() & 255;
                        out.payload[k] = RangeConstraint::from_mask(m(&b.payload[i]) | m(&b.payload[j]));
                    }
                }
            }
            (3, 2) => {
                out.payload[1] = RangeConstraint::from_range(F::from(0u64), F::from(17u64));
                let w = b.payload[1].try_to_single_value().map(n).filter(|w| *w <= 17).unwrap_or(17);
                out.payload[0] = RangeConstraint::from_mask((1u64 << w) - 1);
            }
            _ => {}
        }
        out
    }
}
pub fn bholds<F: FieldElement>(s: &CS<F>, env: &[F]) -> bool {
    s.algebraic_constraints.iter().all(|c| eval(&c.expression, env).is_zero()) && s.bus_interactions.iter().all(|b| bus_bholds(b, env))
}
pub fn bus_bholds<F: FieldElement>(b: &Bus<F>, env: &[F]) -> bool {
    let pl: Vec<F> = b.payload.iter().map(|e| eval(e, env)).collect();
    bytes_ok(eval(&b.bus_id, env), eval(&b.multiplicity, env), &pl)
}

pub const NV: u32 = 8;
/// v0, v1: bytes or other small values; v2 = v0 + 256 v1 (+ something); v3: a bit, whether
/// v0 != v1 or free; v4: a bit; v5: anything; v6: inverse of v0 - v1; v7: v3 ? v0 : v1
pub fn planted<F: FieldElement>(s: &mut dyn Src) -> Vec<F> {
    let small = |s: &mut dyn Src| match s.choose(5) { 0 => s.choose(3) as u64, 1 => 255, 2 => s.choose(16) as u64, _ => s.choose(256) as u64 };
    let (a, b) = (small(s), small(s));
    let b = if s.choose(4) == 0 { a } else { b };
    let f = |x: u64| F::from(x);
    let flag = if s.flip() { (a != b) as u64 } else { s.choose(2) as u64 };
    let any = match s.choose(4) { 0 => f(s.choose(4) as u64), 1 => f(s.choose(65536) as u64), 2 => -f(s.choose(300) as u64), _ => el(s) };
    let d = f(a) - f(b);
    let inv = if d.is_zero() { f(s.choose(2) as u64) } else { f(1) / d };
    vec![f(a), f(b), f(a) + f(256) * f(b) + f(if s.flip() { 0 } else { s.choose(3) as u64 }), f(flag), f(s.choose(2) as u64), any, inv, f(if flag == 1 { a } else { b })]
}
fn pc<F: FieldElement>(s: &mut dyn Src) -> F {
    let c = match s.choose(6) { 0 | 1 => F::from(1u64), 2 => F::from(256u64), 3 => F::from(1u64 << s.choose(25)), 4 => F::from(1 + s.choose(12)), _ => el(s) };
    let c = if s.choose(3) == 0 { -c } else { c };
    if s.choose(8) == 0 && !c.is_zero() { F::from(1u64) / c } else { c }
}
/// affine in one to four variables
pub fn paff<F: FieldElement>(s: &mut dyn Src) -> GE<F> {
    let mut e = num(0);
    for _ in 0..1 + s.choose(4) {
        e += var::<F>(s.choose(NV)) * pc::<F>(s);
    }
    e
}
/// shifted to have the given value at the planted solution
pub fn at<F: FieldElement>(e: GE<F>, env: &[F], x: F) -> GE<F> {
    let k = x - eval(&e, env);
    e + GE::from_number(k)
}
fn wish<F: FieldElement>(s: &mut dyn Src, env: &[F]) -> GE<F> {
    let e = if s.choose(3) == 0 { paff(s) } else { var(s.choose(NV)) };
    if s.choose(3) == 0 { e.clone() * paff(s) + GE::from_number(-eval(&e, env)) } else { e }
}
pub fn pconstr<F: FieldElement>(s: &mut dyn Src, env: &[F]) -> GE<F> {
    let z = F::from(0u64);
    let v = |i: u32| var::<F>(i);
    let e = match s.choose(13) {
        0 => { let b = v(3 + s.choose(2)); b.clone() * (b - num(1)) }
        1 | 2 => paff(s),
        3 => { let a = at(paff(s), env, z); let b = paff(s) + GE::from_number(pc(s)); if s.flip() { a * b } else { b * a } }
        4 => v(2) - v(0) - v(1) * F::from(256u64),
        5 => (v(0) - v(1)) * v(6) - v(3),
        6 => (v(0) - v(1)) * (num::<F>(1) - v(3)),
        7 => v(7) - v(3) * v(0) - (num::<F>(1) - v(3)) * v(1),
        8 => v(s.choose(NV)) * paff(s) + paff(s),
        9 => v(s.choose(NV)),
        10 => { let x = v(s.choose(NV)); let k = 1 + s.choose(3); (0..k).fold(at(x.clone(), env, z), |p, _| { let q = x.clone() + GE::from_number(pc(s)); if s.flip() { p * q } else { q * p } }) }
        11 => { let a = at(paff(s), env, z); a.clone() * (a + GE::from_number(pc(s))) }
        _ => paff::<F>(s) * paff(s) + paff(s),
    };
    at(e, env, z)
}
/// an interaction the planted solution satisfies
pub fn pbus<F: FieldElement>(s: &mut dyn Src, env: &[F]) -> Bus<F> {
    let multiplicity = match s.choose(6) { 0 => var(3 + s.choose(2)), 1 => -num::<F>(1), _ => num(1) };
    let fit = |s: &mut dyn Src, bits: u32| { let e = wish::<F>(s, env); if n(eval(&e, env)) < 1 << bits { e } else { let x = F::from(s.choose(1 << bits) as u64); at(e, env, x) } };
    let (id, payload) = match s.choose(5) {
        0 => (1, vec![fit(s, 8)]),
        1 => {
            let (x, y) = (fit(s, 8), if s.choose(3) == 0 { num(s.choose(256) as u64) } else { fit(s, 8) });
            let z = F::from(n(eval(&x, env)) ^ n(eval(&y, env)));
            let e = wish(s, env);
            let mut pl = vec![x, y, at(e, env, z)];
            let i = s.choose(3) as usize;
            pl.swap(i, 2);
            (2, pl)
        }
        2 => { let w = s.choose(18); let x = fit(s, w); (3, vec![x, num(w as u64)]) }
        3 => { let x = fit(s, 8); let w = 8 + s.choose(10) as u64; let e = var(s.choose(NV)); (3, vec![x, at(e, env, F::from(w))]) }
        _ => (4, vec![wish(s, env), wish(s, env)]),
    };
    BusInteraction { bus_id: num(id), multiplicity, payload }
}
pub fn prc<F: FieldElement>(s: &mut dyn Src, x: F) -> RangeConstraint<F> {
    match s.choose(5) {
        0 => RangeConstraint::from_value(x),
        1 => RangeConstraint::from_range(x - F::from(s.choose(5)), x + F::from(s.choose(300))),
        2 => { let m = s.choose(65536) as u64; if n(x) < 65536 { RangeConstraint::from_mask(n(x) | m) } else { RangeConstraint::unconstrained() } }
        3 if n(x) < 256 => RangeConstraint::from_mask(255u64),
        _ => RangeConstraint::unconstrained(),
    }
}
pub fn psystem<F: FieldElement>(s: &mut dyn Src, env: &[F], maxc: u32, maxb: u32) -> CS<F> {
    let (c, b) = (s.choose(maxc + 1), s.choose(maxb + 1));
    CS { algebraic_constraints: (0..c).map(|_| AlgebraicConstraint::assert_zero(pconstr(s, env))).collect(), bus_interactions: (0..b).map(|_| pbus(s, env)).collect(), derived_variables: vec![] }
}
/// the planted solution and assignments next to it
pub fn nearby<F: FieldElement>(s: &mut dyn Src, env: &[F]) -> Vec<Vec<F>> {
    let mut r = vec![env.to_vec()];
    let one = F::from(1u64);
    for i in 0..env.len() {
        let x = env[i];
        for y in [F::from(0u64), one, x + one, x - one, -x, one - x, F::from(255u64), F::from(256u64), x + F::from(256u64), F::from(2u64), el(s)] {
            let mut e = env.to_vec();
            e[i] = y;
            r.push(e.clone());
            let j = s.choose(env.len() as u32) as usize;
            e[j] = match s.choose(4) { 0 => env[i], 1 => env[j] + one, 2 => one - env[j], _ => F::from(0u64) };
            r.push(e);
        }
    }
    r
}

/// pure range constraints, and interactions implementing them (bus 1 and bus 3)
#[cfg(feature = "apc")]
mod apc {
    use super::*;
    use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
    use powdr_autoprecompiles::range_constraint_optimizer::*;
    use powdr_constraint_solver::grouped_expression::GroupedExpression;
    use std::fmt::Display;
    use std::hash::Hash;
    impl<F: FieldElement> IsBusStateful<F> for Bytes {
        fn is_stateful(&self, id: F) -> bool {
            n(id) >= 4
        }
    }
    impl<F: FieldElement> RangeConstraintHandler<F> for Bytes {
        fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, b: &BusInteraction<GroupedExpression<F, V>>) -> Option<RangeConstraints<F, V>> {
            let byte = RangeConstraint::from_mask(255u64);
            match (n(b.bus_id.try_to_number()?), &b.payload[..]) {
                (1, [x]) => Some(vec![(x.clone(), byte)]),
                (2, [x, y, z]) if z.try_to_number() == Some(F::from(0u64)) && x == y => Some(vec![(x.clone(), byte)]),
                (2, [x, z, y]) | (2, [z, x, y]) if z.try_to_number() == Some(F::from(0u64)) && x == y => Some(vec![(x.clone(), byte)]),
                (3, [x, w]) => match n(w.try_to_number()?) {
                    w @ 0..=17 => Some(vec![(x.clone(), RangeConstraint::from_mask((1u64 << w) - 1))]),
                    _ => None,
                },
                _ => None,
            }
        }
        fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, rcs: RangeConstraints<F, V>) -> Result<Vec<BusInteraction<GroupedExpression<F, V>>>, MakeRangeConstraintsError> {
            let num = |x: u64| GroupedExpression::from_number(F::from(x));
            rcs.into_iter().enumerate().map(|(i, (e, rc))| {
                let w = (0..=17u64).find(|w| rc == RangeConstraint::from_mask((1u64 << w) - 1)).ok_or_else(|| MakeRangeConstraintsError(format!("{rc}")))?;
                Ok(if w == 8 && i % 2 == 0 { BusInteraction { bus_id: num(1), multiplicity: num(1), payload: vec![e] } } else { BusInteraction { bus_id: num(3), multiplicity: num(1), payload: vec![e, num(w)] } })
            }).collect()
        }
    }
}
