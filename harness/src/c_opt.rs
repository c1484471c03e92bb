//! C12, C13, C14: the optimizer's passes keep what the rest of the VM can observe.
use crate::ensure;
use crate::ex::*;
use crate::field::*;
use crate::gen::*;
use crate::plant;
use crate::sys::*;
use powdr_autoprecompiles::constraint_optimizer::*;
use powdr_autoprecompiles::low_degree_bus_interaction_optimizer::LowDegreeBusInteractionOptimizer;
use powdr_autoprecompiles::memory_optimizer::*;
use powdr_autoprecompiles::range_constraint_optimizer::*;
use powdr_constraint_solver::constraint_system::*;
use powdr_constraint_solver::grouped_expression::{GroupedExpression, RangeConstraintProvider};
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::inliner::*;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::rule_based_optimizer::rule_based_optimization;
use powdr_constraint_solver::runtime_constant::VarTransformable;
use powdr_constraint_solver::solver::{new_solver, Solver};
use powdr_number::{FieldElement, LargeInt};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Display;
use std::hash::Hash;

/// bus 5: memory, payload [address, data, timestamp]
#[derive(Clone)]
pub struct Mem<F: FieldElement>(Vec<GE<F>>, bool);
impl<F: FieldElement> MemoryBusInteraction<F, u32> for Mem<F> {
    type Address = [GE<F>; 1];
    fn try_from_bus_interaction(b: &Bus<F>, id: u64) -> Result<Option<Self>, MemoryBusInteractionConversionError> {
        match b.bus_id.try_to_number() {
            None => return Err(MemoryBusInteractionConversionError),
            Some(i) if n(i) != id => return Ok(None),
            _ => {}
        }
        match b.multiplicity.try_to_number() {
            Some(m) if m == F::from(1u64) => Ok(Some(Mem(b.payload.clone(), true))),
            Some(m) if m == -F::from(1u64) => Ok(Some(Mem(b.payload.clone(), false))),
            _ => Err(MemoryBusInteractionConversionError),
        }
    }
    fn addr(&self) -> [GE<F>; 1] {
        [self.0[0].clone()]
    }
    fn data(&self) -> &[GE<F>] {
        &self.0[1..2]
    }
    fn timestamp_limbs(&self) -> &[GE<F>] {
        &self.0[2..]
    }
    fn op(&self) -> MemoryOp {
        if self.1 { MemoryOp::SetNew } else { MemoryOp::GetPrevious }
    }
}

/// what the rest of the VM sees: the net messages on the stateful buses
type Obs = BTreeMap<Vec<u64>, u64>;
fn obs<F: FieldElement>(s: &CS<F>, env: &[F]) -> Obs {
    let mut r = Obs::new();
    for b in &s.bus_interactions {
        let id = eval(&b.bus_id, env);
        if n(id) >= 4 {
            let m = n(eval(&b.multiplicity, env));
            let key: Vec<u64> = std::iter::once(n(id)).chain(b.payload.iter().map(|e| n(eval(e, env)))).collect();
            let x = r.entry(key).or_default();
            *x = (*x + m) % p::<F>() as u64;
        }
    }
    r.retain(|_, m| *m != 0);
    r
}
fn vars_of<F: FieldElement>(s: &CS<F>) -> BTreeSet<u32> {
    s.referenced_unknown_variables().copied().collect()
}
/// all solutions, over the variables the system mentions (the others are 0)
fn sols<F: FieldElement>(s: &CS<F>, total: u32) -> Vec<Vec<F>> {
    let vs: Vec<u32> = vars_of(s).into_iter().collect();
    envs::<F>(vs.len()).into_iter().map(|e| {
        let mut full = vec![F::from(0u64); total as usize];
        for (v, x) in vs.iter().zip(e) {
            full[*v as usize] = x;
        }
        full
    }).filter(|e| holds(s, e)).collect()
}
fn project<F: FieldElement>(s: &CS<F>, total: u32) -> BTreeSet<Obs> {
    sols(s, total).iter().map(|e| obs(s, e)).collect()
}
fn sh<F: FieldElement>(s: &CS<F>) -> String {
    let f = |e: &GE<F>| e.transform_var_type(&mut |v| format!("v{v}")).to_string();
    s.algebraic_constraints.iter().map(|c| f(&c.expression) + " = 0").chain(s.bus_interactions.iter().map(|b| format!("bus {} x {} [{}]", f(&b.bus_id), f(&b.multiplicity), b.payload.iter().map(&f).collect::<Vec<_>>().join(", ")))).collect::<Vec<_>>().join("; ")
}
/// the systems allow exactly the same observations
macro_rules! same_obs {
    ($b:expr, $a:expr, $tot:expr, $what:literal) => {{
        let (pb, pa) = (project($b, $tot), project($a, $tot));
        ensure!(pa.is_subset(&pb), "the result admits something the original rules out", $what, sh($b), sh($a), pa.difference(&pb).next());
        ensure!(pb.is_subset(&pa), "the result rules out something the original admits", $what, sh($b), sh($a), pb.difference(&pa).next());
    }};
}
/// same solutions and observations, assignment by assignment
macro_rules! same_env {
    ($b:expr, $a:expr, $tot:expr, $what:literal) => {{
        ensure!(vars_of($a).is_subset(&vars_of($b)), "new variables", $what, sh($b), sh($a));
        for env in envs::<_>($tot as usize) {
            let (hb, ha) = (holds($b, &env), holds($a, &env));
            ensure!(hb || !ha, "the result admits a non-solution", $what, sh($b), sh($a), env);
            ensure!(!hb || ha, "the result excludes a solution", $what, sh($b), sh($a), env);
            if hb {
                ensure!(obs($b, &env) == obs($a, &env), "the messages differ", $what, sh($b), sh($a), env);
            }
        }
    }};
}

fn stateful<F: FieldElement>(s: &mut dyn Src, nv: u32) -> Bus<F> {
    let multiplicity = match s.choose(6) { 0 => var(s.choose(nv)), 1 => -num::<F>(1), _ => num(1) };
    BusInteraction { bus_id: num(4), multiplicity, payload: (0..2).map(|_| if s.choose(4) == 0 { field(s, nv) } else { var(s.choose(nv)) }).collect() }
}
/// groups of constraints shaped like the ones the rules look for
fn pattern<F: FieldElement>(s: &mut dyn Src, nv: u32, out: &mut Vec<GE<F>>) {
    let v = |s: &mut dyn Src| var::<F>(s.choose(nv));
    match s.choose(8) {
        0 => { let (x, a, b) = (affine::<F>(s, nv), field::<F>(s, nv), field::<F>(s, nv)); out.push(x.clone() * a); out.push(x * b); }
        1 => {
            let (e, f) = (affine::<F>(s, nv), F::from(s.choose(4) as u64));
            let (a, b, o) = (v(s), v(s), GE::<F>::from_number(el(s)));
            for x in [a, b] {
                let l = e.clone() + x * f;
                out.push(l.clone() * (l + o.clone()));
            }
        }
        2 => { let x = (0..2 + s.choose(2)).map(|_| v(s)).reduce(|a, b| a + b).unwrap(); out.push(x - num(1)); out.push(v(s) * coeff::<F>(s) + v(s) * coeff::<F>(s) - GE::from_number(el(s))); }
        3 => { let (a, b) = (v(s), v(s)); out.push(a * field::<F>(s, nv) + b * field::<F>(s, nv) + field(s, nv)); }
        4 => { let x = v(s); out.push(x.clone() * (x - num(1))); }
        5 => { let (x, y) = (v(s), affine::<F>(s, nv)); out.push(x.clone() * x * y.clone()); out.push(y * v(s)); }
        6 => { let x = v(s); out.push(x.clone() * (x.clone() - num(1))); out.push((x - num(1)) * field(s, nv)); }
        _ => { let e = constr::<F>(s, nv); out.push(e.clone()); out.push(e * coeff::<F>(s)); }
    }
}
fn opt_system<F: FieldElement>(s: &mut dyn Src, nv: u32, maxc: u32, maxb: u32) -> CS<F> {
    let mut cs = vec![];
    for _ in 0..s.choose(maxc + 1) {
        if s.flip() { pattern(s, nv, &mut cs) } else { cs.push(constr(s, nv)) }
    }
    let mut bs: Vec<Bus<F>> = vec![];
    for _ in 0..s.choose(maxb + 1) {
        let mut b = if s.flip() { stateful(s, nv) } else { bus(s, nv) };
        if s.choose(6) == 0 {
            let k = b.payload.len() as u32;
            let i = s.choose(k) as usize;
            b.payload[i] = var::<F>(s.choose(nv)) * affine::<F>(s, nv) + b.payload[i].clone();
        }
        if s.choose(6) == 0 { bs.push(b.clone()) }
        bs.push(b);
    }
    CS { algebraic_constraints: cs.into_iter().map(AlgebraicConstraint::assert_zero).collect(), bus_interactions: bs, derived_variables: vec![] }
}
fn solved<F: FieldElement>(sys: &CS<F>) -> Option<(CS<F>, impl Solver<F, u32>)> {
    let mut solver = new_solver(sys.clone(), Table);
    let a = solver.solve().ok()?;
    let mut ics = IndexedConstraintSystem::from(sys.clone());
    ics.apply_substitutions(a);
    Some((ics.into(), solver))
}
fn bound(s: &mut dyn Src) -> DegreeBound {
    DegreeBound { identities: 2 + s.choose(3) as usize, bus_interactions: 1 + s.choose(2) as usize }
}
fn degrees_ok<F: FieldElement>(s: &CS<F>, b: DegreeBound) -> bool {
    s.algebraic_constraints.iter().all(|c| c.expression.degree() <= b.identities) && s.bus_interactions.iter().all(|i| i.fields().all(|e| e.degree() <= b.bus_interactions))
}

// ------------------------------------------------------------------ C12
/// range constraints move between bus interactions and polynomials, nothing is gained or lost
fn ranges<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let mut sys = opt_system::<F>(s, N, 2, 2);
    for _ in 0..1 + s.choose(4) {
        let e = match s.choose(5) { 0 => affine(s, N), 1 => var::<F>(s.choose(N)) * coeff::<F>(s) + num(s.choose(4) as u64), 2 if sys.bus_interactions.len() > 0 => { let k = sys.bus_interactions.len() as u32; sys.bus_interactions[s.choose(k) as usize].payload[0].clone() } _ => var(s.choose(N)) };
        let multiplicity = if s.choose(6) == 0 { var(s.choose(N)) } else { num(1) };
        let at = s.choose(sys.bus_interactions.len() as u32 + 1) as usize;
        sys.bus_interactions.insert(at, if s.flip() { BusInteraction { bus_id: num(1), multiplicity, payload: vec![e] } } else { BusInteraction { bus_id: num(3), multiplicity, payload: vec![e, num(s.choose(3) as u64)] } });
    }
    s.assume(!sols(&sys, N).is_empty())?;
    let b = DegreeBound { identities: 1 + s.choose(4) as usize, bus_interactions: 1 + s.choose(2) as usize };
    let after = optimize_range_constraints(sys.clone(), Table, b);
    same_env!(&sys, &after, N, "range constraints");
    if degrees_ok(&sys, b) {
        ensure!(degrees_ok(&after, b), "the degree bound is exceeded", sh(&sys), sh(&after), b);
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
fn mem_addr<F: FieldElement>(s: &mut dyn Src, nv: u32) -> GE<F> {
    match s.choose(6) {
        0 => num(s.choose(2) as u64),
        1 => var(0),
        2 => var::<F>(0) + num(1 + s.choose(2) as u64),
        3 => var(1),
        4 => affine(s, 2),
        _ => var(s.choose(nv)),
    }
}
/// accesses in chronological order, each reading the previous message and writing a new one
fn mem_system<F: FieldElement>(s: &mut dyn Src, nv: u32) -> CS<F> {
    let mut sys = CS { algebraic_constraints: (0..s.choose(3)).map(|_| AlgebraicConstraint::assert_zero(constr(s, nv))).collect(), bus_interactions: vec![], derived_variables: vec![] };
    let f = |s: &mut dyn Src| -> GE<F> { match s.choose(4) { 0 => num(s.choose(3) as u64), 1 => var::<F>(s.choose(nv)) + num(1), _ => var(s.choose(nv)) } };
    for i in 0..1 + s.choose(3) {
        let a = mem_addr::<F>(s, nv);
        let m = if s.choose(8) == 0 { var(s.choose(nv)) } else { num(1) };
        let (d, t) = (f(s), f(s));
        let d2 = if s.flip() { d.clone() } else { f(s) };
        sys.bus_interactions.push(BusInteraction { bus_id: num(5), multiplicity: -m.clone(), payload: vec![a.clone(), d, t] });
        if s.choose(6) == 0 { sys.bus_interactions.push(if s.flip() { bus(s, nv) } else { stateful(s, nv) }) }
        sys.bus_interactions.push(BusInteraction { bus_id: num(5), multiplicity: m, payload: vec![a, d2, num(i as u64 + 1)] });
        if s.choose(8) == 0 { sys.bus_interactions.push(if s.flip() { bus(s, nv) } else { stateful(s, nv) }) }
    }
    sys
}
/// a run of a memory: reads yield the last value written in this block (if any), every access
/// is a read of the previous message followed by a write of the next one
fn honest<F: FieldElement>(sys: &CS<F>, env: &[F]) -> bool {
    let mut mem: BTreeMap<u64, Option<(u64, u64)>> = BTreeMap::new();
    for b in &sys.bus_interactions {
        if n(eval(&b.bus_id, env)) != 5 { continue; }
        let m = eval(&b.multiplicity, env);
        let pl: Vec<u64> = b.payload.iter().map(|e| n(eval(e, env))).collect();
        if m.is_zero() {
        } else if m == -F::from(1u64) {
            match mem.get(&pl[0]) {
                None => {}
                Some(Some(x)) if *x == (pl[1], pl[2]) => {}
                _ => return false,
            }
            mem.insert(pl[0], None);
        } else if m == F::from(1u64) {
            if mem.insert(pl[0], Some((pl[1], pl[2]))) != Some(None) { return false; }
        } else {
            return false;
        }
    }
    true
}
fn memory<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 4;
    let sys = mem_system::<F>(s, N);
    let all = solutions(&sys, N);
    let runs: Vec<_> = all.iter().filter(|e| honest(&sys, e)).collect();
    s.assume(!runs.is_empty())?;
    let mut solver = new_solver(sys.clone(), Table);
    if s.choose(4) > 0 { ensure!(solver.solve().is_ok(), "the solver rejects a satisfiable system", sh(&sys)); }
    let bus = if s.choose(12) == 0 { None } else { Some(5) };
    let after = optimize_memory::<F, u32, Mem<F>>(sys.clone(), &mut solver, bus);
    if bus.is_none() { ensure!(sh(&sys) == sh(&after), "no memory bus, no change", sh(&sys), sh(&after)); }
    let before: HashSet<&Vec<F>> = all.iter().collect();
    for env in solutions(&after, N) {
        ensure!(before.contains(&env), "the result admits what the original rules out", sh(&sys), sh(&after), env);
        ensure!(obs(&sys, &env) == obs(&after, &env), "the messages differ", sh(&sys), sh(&after), env);
    }
    for env in runs {
        ensure!(holds(&after, env), "a run of an honest memory is ruled out", sh(&sys), sh(&after), env);
        for v in 0..N { ensure!(solver.get(&v).allows_value(env[v as usize]), "the solver excludes a run of an honest memory", sh(&sys), v, env); }
    }
    Ok(())
}
/// the OpenVM view of a memory bus interaction
#[cfg(feature = "ovm")]
fn ov_view(s: &mut dyn Src) -> R {
    use powdr_number::BabyBearField as B;
    use powdr_openvm_bus_interaction_handler::memory_bus_interaction::*;
    let id = s.choose(3) as u64;
    let bus_id = if s.choose(5) == 0 { var::<B>(0) } else { num(s.choose(3) as u64) };
    let multiplicity = match s.choose(6) { 0 => var::<B>(1), 1 => num(0), 2 => GE::from_number(el(s)), 3 => num(1), _ => -num::<B>(1) };
    let k = 1 + s.choose(4);
    let mut payload: Vec<GE<B>> = vec![num(s.choose(4) as u64), expr(s, 4, 1)];
    payload.extend((0..k).map(|_| field(s, 4)));
    payload.push(field(s, 4));
    let b = BusInteraction { bus_id: bus_id.clone(), multiplicity: multiplicity.clone(), payload: payload.clone() };
    let r = OpenVmMemoryBusInteraction::<B, u32>::try_from_bus_interaction(&b, id);
    let known = bus_id.try_to_number();
    let m = multiplicity.try_to_number();
    match r {
        Err(_) => ensure!(known.is_none() || (known == Some(B::from(id)) && m != Some(B::from(1u64)) && m != Some(-B::from(1u64))), "a memory interaction is rejected", format!("{b:?}")),
        Ok(None) => ensure!(known.is_some() && known != Some(B::from(id)), "a memory interaction is ignored", format!("{b:?}")),
        Ok(Some(i)) => {
            ensure!(known == Some(B::from(id)), "not the memory bus", format!("{b:?}"));
            let op = match i.op() { MemoryOp::SetNew => B::from(1u64), MemoryOp::GetPrevious => -B::from(1u64) };
            ensure!(m == Some(op), "operation", format!("{b:?}"));
            let all: Vec<GE<B>> = i.addr().into_iter().chain(i.data().iter().cloned()).chain(i.timestamp_limbs().iter().cloned()).collect();
            ensure!(all == payload, "address, data and timestamp are the payload", format!("{b:?}"));
            ensure!(i.data().len() == k as usize && i.timestamp_limbs().len() == 1, "lengths", format!("{b:?}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
/// the polynomial passes that must not change the solutions at all
#[cfg(feature = "private")]
fn exact<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = opt_system::<F>(s, N, 3, 3);
    s.assume(!sols(&sys, N).is_empty())?;
    let mut log = powdr_autoprecompiles::stats_logger::StatsLogger::start(&sys);
    let after: CS<F> = trivial_simplifications(IndexedConstraintSystem::from(sys.clone()), Table, &mut log).into();
    same_env!(&sys, &after, N, "trivial simplifications");
    Ok(())
}
fn after_solver<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = opt_system::<F>(s, N, 3, 3);
    let all = sols(&sys, N);
    s.assume(!all.is_empty())?;
    let mut solver = new_solver(sys.clone(), Table);
    ensure!(solver.solve().is_ok(), "the solver rejects a satisfiable system", sh(&sys));
    let after: CS<F> = simplify_constraints_using_exhaustive_search(IndexedConstraintSystem::from(sys.clone()), &solver).into();
    same_env!(&sys, &after, N, "exhaustive search simplification");
    let b = bound(s);
    // fields known to be constant have been replaced by numbers before this pass runs
    s.assume(sys.bus_interactions.iter().all(|i| i.payload.iter().all(|e| e.try_to_number().is_some() || solver.range_constraint_for_expression(e).try_to_single_value().is_none())))?;
    let after = LowDegreeBusInteractionOptimizer::new(&mut solver, Table, b).optimize(sys.clone());
    same_env!(&sys, &after, N, "low degree bus interactions");
    Ok(())
}
fn inline<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = opt_system::<F>(s, N, 3, 2);
    let b = bound(s);
    let (after, subs) = replace_constrained_witness_columns(IndexedConstraintSystem::from(sys.clone()), inline_everything_below_degree_bound(b));
    let after: CS<F> = after.into();
    if degrees_ok(&sys, b) {
        ensure!(degrees_ok(&after, b), "inlining exceeds the degree bound", sh(&sys), sh(&after), b);
    }
    ensure!(vars_of(&after).iter().all(|v| !subs.contains_key(v)), "an inlined variable is left", sh(&sys), sh(&after));
    same_obs!(&sys, &after, N, "inlining");
    Ok(())
}
fn rules<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = opt_system::<F>(s, N, 3, 2);
    s.assume(!sols(&sys, N).is_empty())?;
    let Some((sys, solver)) = solved(&sys) else { ensure!(false, "the solver rejects a satisfiable system", sh(&sys)); unreachable!() };
    let mut next = N;
    let bnd = if s.flip() { None } else { Some(bound(s)) };
    let (after, assigned) = rule_based_optimization(IndexedConstraintSystem::from(sys.clone()), &solver, Table, &mut |_| { next += 1; next - 1 }, bnd);
    let after: CS<F> = after.into();
    s.assume(next <= N + 2)?;
    // completeness with the derived variables computed as stated
    for mut env in sols(&sys, next) {
        for d in &after.derived_variables {
            env[d.variable as usize] = match &d.computation_method {
                ComputationMethod::Constant(c) => *c,
                ComputationMethod::QuotientOrZero(a, b) => { let (a, b) = (eval(a, &env), eval(b, &env)); if b.is_zero() { b } else { a / b } }
            };
        }
        for (v, e) in &assigned {
            ensure!(env[*v as usize] == eval(e, &env), "a rule's assignment is not implied", sh(&sys), v, format!("{e}"), env);
        }
        let o = obs(&sys, &env);
        ensure!(holds(&after, &env), "rules: the computed new variables do not satisfy the result", sh(&sys), sh(&after), env);
        ensure!(o == obs(&after, &env), "rules: the messages differ", sh(&sys), sh(&after), env);
    }
    same_obs!(&sys, &after, next, "rules");
    Ok(())
}
fn disconnected<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 4;
    let sys = opt_system::<F>(s, N, 3, 3);
    s.assume(!sols(&sys, N).is_empty())?;
    let mut solver = new_solver(sys.clone(), Table);
    ensure!(solver.solve().is_ok(), "the solver rejects a satisfiable system", sh(&sys));
    let after: CS<F> = remove_disconnected_columns(IndexedConstraintSystem::from(sys.clone()), &mut solver, Table).into();
    same_obs!(&sys, &after, N, "removing disconnected columns");
    Ok(())
}
/// every lookup is used: it is satisfied with a non-zero multiplicity in some solution
fn lookups_used<F: FieldElement>(s: &CS<F>, all: &[Vec<F>]) -> bool {
    s.bus_interactions.iter().all(|b| all.iter().any(|e| !eval(&b.multiplicity, e).is_zero()))
}
#[cfg(feature = "private")]
fn free<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 4;
    let sys = opt_system::<F>(s, N, 3, 3);
    let all = sols(&sys, N);
    s.assume(!all.is_empty() && lookups_used(&sys, &all))?;
    let mut solver = new_solver(sys.clone(), Table);
    let after: CS<F> = remove_free_variables(IndexedConstraintSystem::from(sys.clone()), &mut solver, Table).into();
    same_obs!(&sys, &after, N, "removing free variables");
    Ok(())
}
#[cfg(feature = "private")]
fn steps<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = opt_system::<F>(s, N, 3, 3);
    s.assume(!sols(&sys, N).is_empty())?;
    let mut solver = new_solver(sys.clone(), Table);
    let r = solver_based_optimization(IndexedConstraintSystem::from(sys.clone()), &mut solver, &mut Default::default());
    ensure!(r.is_ok(), "the solver rejects a satisfiable system", sh(&sys));
    let after: CS<F> = r.unwrap().into();
    same_obs!(&sys, &after, N, "solver based optimization");
    let third = substitute_bus_interaction_fields(&mut solver, after.clone());
    same_env!(&after, &third, N, "substituting bus fields");
    Ok(())
}
/// the whole loop body
#[cfg(feature = "private")]
fn whole<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = opt_system::<F>(s, N, 3, 3);
    let all = sols(&sys, N);
    s.assume(!all.is_empty() && lookups_used(&sys, &all))?;
    let mut solver = new_solver(sys.clone(), Table);
    let mut next = N;
    let mut log = powdr_autoprecompiles::stats_logger::StatsLogger::start(&sys);
    let r = optimize_constraints::<F, u32, Mem<F>>(IndexedConstraintSystem::from(sys.clone()), &mut solver, Table, &mut log, Some(5), bound(s), &mut |_| { next += 1; next - 1 }, &mut Default::default());
    ensure!(r.is_ok(), "the optimizer rejects a satisfiable system", sh(&sys));
    let after = r.unwrap();
    s.assume(vars_of(&after).len() <= 4)?;
    same_obs!(&sys, &after, next, "optimize_constraints");
    Ok(())
}
/// every pass ends: the OpenVM handler, a known zero on a bus and expressions with a known range
#[cfg(feature = "ovm")]
fn ends(s: &mut dyn Src) -> R {
    use powdr_openvm_bus_interaction_handler::{bus_map::*, OpenVmBusInteractionHandler};
    type B = powdr_number::BabyBearField;
    const N: u32 = 4;
    let lim = |s: &mut dyn Src| match s.choose(3) { 0 => num::<B>(0), 1 => num(s.choose(256) as u64), _ => var(s.choose(N)) };
    let mut sys: CS<B> = CS { algebraic_constraints: vec![], bus_interactions: vec![], derived_variables: vec![] };
    for _ in 0..s.choose(4) {
        let (v, x) = (var::<B>(s.choose(N)), num::<B>(1 + s.choose(3) as u64));
        let e = match s.choose(4) { 0 => v.clone() * (v - x), 1 => v * var::<B>(s.choose(N)), 2 => v * (var::<B>(s.choose(N)) - x.clone()) + var::<B>(s.choose(N)) * x, _ => v - var::<B>(s.choose(N)) * x };
        sys.algebraic_constraints.push(AlgebraicConstraint::assert_zero(e));
    }
    for _ in 0..1 + s.choose(3) {
        let (id, m, payload) = match s.choose(4) {
            0 => (DEFAULT_MEMORY, -num::<B>(1), vec![num(1 + s.choose(2) as u64), num(4), lim(s), lim(s), lim(s), lim(s), var(s.choose(N))]),
            1 => (DEFAULT_VARIABLE_RANGE_CHECKER, num(1), vec![lim(s), num(s.choose(18) as u64)]),
            2 => (DEFAULT_TUPLE_RANGE_CHECKER, num(1), vec![lim(s), lim(s)]),
            _ => (DEFAULT_BITWISE_LOOKUP, num(1), vec![lim(s), lim(s), lim(s), num(1)]),
        };
        sys.bus_interactions.push(BusInteraction { bus_id: num(id), multiplicity: m, payload });
    }
    let bnd = if s.flip() { None } else { Some(bound(s)) };
    let what = sh(&sys);
    // with everything the solver knows, or with nothing but the interactions themselves
    let solve = s.flip();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut solver = new_solver(sys.clone(), OpenVmBusInteractionHandler::<B>::default());
        if solve && solver.solve().is_err() {
            let _ = tx.send(());
            return;
        }
        let mut next = N;
        let _ = rule_based_optimization(IndexedConstraintSystem::from(sys), &solver, OpenVmBusInteractionHandler::<B>::default(), &mut |_| { next += 1; next - 1 }, bnd);
        let _ = tx.send(());
    });
    let done = !matches!(rx.recv_timeout(std::time::Duration::from_secs(20)), Err(std::sync::mpsc::RecvTimeoutError::Timeout));
    ensure!(done, "the rule based optimizer does not end (20 s) on this small system", what);
    Ok(())
}
// ------------------------------------------------------------------ at a production field
/// the passes that must not change the solutions agree on a known solution and next to it
macro_rules! same_near {
    ($s:expr, $b:expr, $a:expr, $env:expr, $what:literal) => {{
        ensure!(vars_of($a).is_subset(&vars_of($b)), "new variables", $what, sh($b), sh($a));
        for env in plant::nearby($s, $env) {
            let (hb, ha) = (plant::bholds($b, &env), plant::bholds($a, &env));
            ensure!(hb || !ha, "the result admits a non-solution", $what, sh($b), sh($a), env);
            ensure!(!hb || ha, "the result excludes a solution", $what, sh($b), sh($a), env);
            if hb {
                ensure!(obs($b, &env) == obs($a, &env), "the messages differ", $what, sh($b), sh($a), env);
            }
        }
    }};
}
/// a known solution still solves the result, with the same messages
macro_rules! keeps {
    ($b:expr, $a:expr, $env:expr, $what:literal) => {{
        ensure!(plant::bholds($a, $env), "the result excludes a solution", $what, sh($b), sh($a), $env);
        ensure!(obs($b, $env) == obs($a, $env), "the messages differ", $what, sh($b), sh($a), $env);
    }};
}
fn near_ranges<F: FieldElement>(s: &mut dyn Src) -> R {
    let env: Vec<F> = plant::planted(s);
    let sys = plant::psystem::<F>(s, &env, 3, 8);
    let b = DegreeBound { identities: 1 + s.choose(4) as usize, bus_interactions: 1 + s.choose(2) as usize };
    let after = optimize_range_constraints(sys.clone(), plant::Bytes, b);
    same_near!(s, &sys, &after, &env, "range constraints");
    if degrees_ok(&sys, b) {
        ensure!(degrees_ok(&after, b), "the degree bound is exceeded", sh(&sys), sh(&after), b);
    }
    Ok(())
}
fn computed<F: FieldElement>(a: &CS<F>, env: &[F], total: u32) -> Vec<F> {
    let mut env = env.to_vec();
    env.resize(total as usize, F::from(0u64));
    for d in &a.derived_variables {
        env[d.variable as usize] = match &d.computation_method {
            ComputationMethod::Constant(c) => *c,
            ComputationMethod::QuotientOrZero(a, b) => { let (a, b) = (eval(a, &env), eval(b, &env)); if b.is_zero() { b } else { a / b } }
        };
    }
    env
}
fn near_passes<F: FieldElement>(s: &mut dyn Src) -> R {
    let env: Vec<F> = plant::planted(s);
    let mut sys = plant::psystem::<F>(s, &env, 6, 5);
    if s.choose(4) == 0 && !sys.bus_interactions.is_empty() {
        let k = s.choose(sys.bus_interactions.len() as u32) as usize;
        let b = sys.bus_interactions[k].clone();
        sys.bus_interactions.push(b);
    }
    ensure!(plant::bholds(&sys, &env), "the planted solution", sh(&sys), env);
    let mut solver = new_solver(sys.clone(), plant::Bytes);
    let r = solver.solve();
    ensure!(r.is_ok(), "the solver rejects a satisfiable system", sh(&sys), env);
    match s.choose(5) {
        0 => {
            let after: CS<F> = simplify_constraints_using_exhaustive_search(IndexedConstraintSystem::from(sys.clone()), &solver).into();
            same_near!(s, &sys, &after, &env, "exhaustive search simplification");
        }
        1 => {
            s.assume(sys.bus_interactions.iter().all(|i| i.payload.iter().all(|e| e.try_to_number().is_some() || solver.range_constraint_for_expression(e).try_to_single_value().is_none())))?;
            let after = LowDegreeBusInteractionOptimizer::new(&mut solver, plant::Bytes, bound(s)).optimize(sys.clone());
            same_near!(s, &sys, &after, &env, "low degree bus interactions");
        }
        2 => {
            let b = bound(s);
            let (after, subs) = replace_constrained_witness_columns(IndexedConstraintSystem::from(sys.clone()), inline_everything_below_degree_bound(b));
            let after: CS<F> = after.into();
            keeps!(&sys, &after, &env, "inlining");
            for (v, e) in &subs {
                ensure!(env[*v as usize] == eval(e, &env), "an inlined value is not implied", sh(&sys), v, format!("{e}"), env);
            }
            // and back: computing the inlined variables gives a solution of the original
            for mut e in plant::nearby(s, &env) {
                for _ in 0..subs.len() {
                    for (v, x) in &subs { e[*v as usize] = eval(x, &e) }
                }
                let o = obs(&after, &e);
                if plant::bholds(&after, &e) {
                    ensure!(plant::bholds(&sys, &e), "inlining admits a non-solution", sh(&sys), sh(&after), e);
                    ensure!(obs(&sys, &e) == o, "the messages differ", sh(&sys), sh(&after), e);
                }
            }
        }
        3 => {
            let mut ics = IndexedConstraintSystem::from(sys.clone());
            ics.apply_substitutions(r.unwrap());
            let sys: CS<F> = ics.clone().into();
            let mut next = plant::NV;
            let bnd = if s.flip() { None } else { Some(bound(s)) };
            let (after, assigned) = rule_based_optimization(ics, &solver, plant::Bytes, &mut |_| { next += 1; next - 1 }, bnd);
            let after: CS<F> = after.into();
            let e = computed(&after, &env, next);
            for (v, x) in &assigned {
                ensure!(e[*v as usize] == eval(x, &e), "a rule's assignment is not implied", sh(&sys), v, format!("{x}"), e);
            }
            keeps!(&sys, &after, &e, "rules");
        }
        _ => {
            let after: CS<F> = remove_disconnected_columns(IndexedConstraintSystem::from(sys.clone()), &mut solver, plant::Bytes).into();
            keeps!(&sys, &after, &env, "removing disconnected columns");
        }
    }
    Ok(())
}
#[cfg(feature = "private")]
fn near_whole<F: FieldElement>(s: &mut dyn Src) -> R {
    let env: Vec<F> = plant::planted(s);
    let sys = plant::psystem::<F>(s, &env, 7, 6);
    if s.flip() {
        let mut log = powdr_autoprecompiles::stats_logger::StatsLogger::start(&sys);
        let after: CS<F> = trivial_simplifications(IndexedConstraintSystem::from(sys.clone()), plant::Bytes, &mut log).into();
        same_near!(s, &sys, &after, &env, "trivial simplifications");
    }
    let mut solver = new_solver(sys.clone(), plant::Bytes);
    let mut next = plant::NV;
    let mut log = powdr_autoprecompiles::stats_logger::StatsLogger::start(&sys);
    let r = optimize_constraints::<F, u32, Mem<F>>(IndexedConstraintSystem::from(sys.clone()), &mut solver, plant::Bytes, &mut log, Some(5), bound(s), &mut |_| { next += 1; next - 1 }, &mut Default::default());
    ensure!(r.is_ok(), "the optimizer rejects a satisfiable system", sh(&sys), env);
    let after = r.unwrap();
    keeps!(&sys, &after, &computed(&after, &env, next), "optimize_constraints");
    Ok(())
}
macro_rules! inst { ($f:ident: $($n:ident = $t:ty),*) => { $(pub fn $n(s: &mut dyn Src) -> R { $f::<$t>(s) })* } }
type P5 = Fp<5>;
type P7 = Fp<7>;
type P11 = Fp<11>;
type P13 = Fp<13>;
inst!(ranges: op_ranges_7 = P7, op_ranges_11 = P11);
inst!(memory: op_mem_5 = P5, op_mem_7 = P7);
type BB = powdr_number::BabyBearField;
inst!(near_ranges: op_nranges_bb = BB);
#[cfg(feature = "ovm")]
fn op_ends(s: &mut dyn Src) -> R { ends(s) }
inst!(near_passes: op_npass_bb = BB);
contracts!(contracts_c12: op_nranges_bb, op_ranges_7, op_ranges_11);
#[cfg(feature = "ovm")]
contracts!(contracts_c13: op_mem_5, op_mem_7, ov_view);
inst!(after_solver: op_solv_11 = P11, op_solv_13 = P13);
inst!(inline: op_inline_5 = P5, op_inline_7 = P7);
inst!(rules: op_rules_5 = P5, op_rules_7 = P7);
inst!(disconnected: op_disc_5 = P5, op_disc_7 = P7);
#[cfg(feature = "c14")]
contracts!(contracts_c14: op_ends, op_npass_bb, op_solv_11, op_solv_13, op_inline_5, op_inline_7, op_rules_5, op_rules_7, op_disc_5, op_disc_7);
#[cfg(feature = "private")]
mod pinst {
    use super::*;
    inst!(free: op_free_5 = P5, op_free_7 = P7);
    inst!(steps: op_steps_5 = P5, op_steps_7 = P7);
    inst!(exact: op_exact_5 = P5, op_exact_7 = P7);
    inst!(near_whole: op_nwhole_bb = BB);
    inst!(whole: op_whole_11 = P11, op_whole_13 = P13);
    contracts!(contracts_c14p: op_nwhole_bb, op_exact_5, op_exact_7, op_whole_11, op_whole_13, op_free_5, op_free_7, op_steps_5, op_steps_7);
}
#[cfg(feature = "private")]
pub use pinst::contracts_c14p;
