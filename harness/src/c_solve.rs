//! C08, C09, C10: solving algebraic constraints, splitting them, and the system solver.
use crate::ensure;
use crate::ex::*;
use crate::field::*;
use crate::gen::*;
use crate::plant;
use crate::sys::*;
use powdr_constraint_solver::algebraic_constraint::solve::Error as AErr;
use powdr_constraint_solver::constraint_system::*;
use powdr_constraint_solver::effect::{Condition, Effect};
use powdr_constraint_solver::grouped_expression::RangeConstraintProvider;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::solver::{new_solver, solve_system, Solver};
use powdr_number::{FieldElement, LargeInt};
use std::collections::{BTreeSet, HashMap, HashSet};

fn effect_holds<F: FieldElement>(e: &Effect<F, u32>, env: &[F]) -> bool {
    match e {
        Effect::Assignment(v, x) => env[*v as usize] == *x,
        Effect::RangeConstraint(v, r) => r.allows_value(env[*v as usize]),
        Effect::Assertion(a) => (a.lhs == a.rhs) == a.expected_equal,
        Effect::ConditionalAssignment { variable, condition: Condition { value, condition }, in_range_value, out_of_range_value } => {
            env[*variable as usize] == if condition.allows_value(*value) { *in_range_value } else { *out_of_range_value }
        }
    }
}
fn show<F: FieldElement>(e: &Effect<F, u32>) -> String {
    match e {
        Effect::Assignment(v, x) => format!("{v} := {x}"),
        Effect::RangeConstraint(v, r) => format!("{v}: {r}"),
        Effect::Assertion(_) => "assertion".into(),
        Effect::ConditionalAssignment { variable, .. } => format!("conditional {variable}"),
    }
}

/// everything solving one constraint claims is implied by it (and the range constraints), and a
/// complete result implies it
fn alg<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let e = constr::<F>(s, N);
    let rcs = Rcs((0..N).map(|_| rc::<F>(s)).collect());
    let c = AlgebraicConstraint::assert_zero(&e);
    let all: Vec<Vec<F>> = envs::<F>(N as usize).into_iter().filter(|x| holds_rcs(&rcs.0, x)).collect();
    match c.solve(&rcs) {
        Err(_) => {
            for env in &all {
                ensure!(!eval(&e, env).is_zero(), "reported unsatisfiable, but it has a solution", format!("{e}"), env);
            }
        }
        Ok(r) => {
            for env in &all {
                if eval(&e, env).is_zero() {
                    for f in &r.effects {
                        ensure!(effect_holds(f, env), "an effect excludes a solution", format!("{e}"), show(f), env, rcs.0);
                    }
                } else if r.complete {
                    ensure!(!r.effects.iter().all(|f| effect_holds(f, env)), "a complete result admits a non-solution", format!("{e}"), env, rcs.0);
                }
            }
        }
    }
    Ok(())
}
/// solving for a variable or an affine expression is an equivalent transformation
fn solve_for<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let e = constr::<F>(s, N);
    let c = AlgebraicConstraint::assert_zero(&e);
    let v = s.choose(N);
    let target = affine::<F>(s, N);
    let (r1, r2) = (c.try_solve_for(&v), c.try_solve_for_expr(&target));
    if let Some(r) = &r1 {
        ensure!(!r.referenced_unknown_variables().any(|x| *x == v), "the solution mentions the variable", format!("{e}"), format!("{r}"));
    }
    if let Some(r) = &r2 {
        let t: BTreeSet<_> = target.referenced_unknown_variables().collect();
        ensure!(!r.referenced_unknown_variables().any(|x| t.contains(x)), "the solution mentions the expression's variables", format!("{e}"), format!("{r}"));
    }
    for env in envs::<F>(N as usize) {
        let z = eval(&e, &env).is_zero();
        if let Some(r) = &r1 {
            ensure!((env[v as usize] == eval(r, &env)) == z, "solving for a variable is not equivalent", format!("{e}"), v, format!("{r}"), env);
        }
        if let Some(r) = &r2 {
            if z {
                ensure!(eval(&target, &env) == eval(r, &env), "solving for an expression is not implied", format!("{e}"), format!("{target}"), format!("{r}"), env);
            }
        }
    }
    Ok(())
}
/// a bus interaction's derived effects are implied by the table and the range constraints
fn bus_solve<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let b = bus::<F>(s, N);
    let rcs = Rcs((0..N).map(|_| rc::<F>(s)).collect());
    let sols: Vec<Vec<F>> = envs::<F>(N as usize).into_iter().filter(|x| holds_rcs(&rcs.0, x) && bus_holds(&b, x)).collect();
    match b.solve(&Table, &rcs) {
        Err(_) => ensure!(sols.is_empty(), "reported as violating the bus rules, but it can be satisfied", format!("{b}"), sols[0]),
        Ok(effects) => {
            for env in &sols {
                for f in &effects {
                    ensure!(effect_holds(f, env), "a bus effect excludes a possible assignment", format!("{b}"), show(f), env, rcs.0);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10: the system solver
fn solver_sound<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let sys = system::<F>(s, N, 4, 2);
    let rcs: Vec<RangeConstraint<F>> = (0..N).map(|_| if s.flip() { rc::<F>(s) } else { RangeConstraint::unconstrained() }).collect();
    let mut sols: Vec<Vec<F>> = solutions(&sys, N).into_iter().filter(|e| holds_rcs(&rcs, e)).collect();
    let mut solver = new_solver(sys.clone(), Table);
    for (i, r) in rcs.iter().enumerate() {
        if !r.is_unconstrained() {
            solver.add_range_constraint(&(i as u32), *r);
        }
    }
    let desc = format!("{sys} with {}", rcs.iter().map(|r| format!("{r}")).collect::<Vec<_>>().join(" "));
    let mut assigned = vec![];
    for round in 0..2 {
        match solver.solve() {
            Err(e) => {
                ensure!(sols.is_empty(), "the solver reports a contradiction, but the system has a solution", desc, e, sols[0]);
                return Ok(());
            }
            Ok(a) => assigned.extend(a),
        }
        for (v, e) in &assigned {
            for env in &sols {
                ensure!(env[*v as usize] == eval(e, env), "a derived assignment is not implied", desc, v, format!("{e}"), env, round);
            }
        }
        for v in 0..N {
            let r = solver.get(&v);
            for env in &sols {
                ensure!(r.allows_value(env[v as usize]), "a derived range constraint excludes a solution", desc, v, format!("{r}"), env, round);
            }
        }
        for _ in 0..2 {
            // also ask about expressions with a part the solver has seen
            let seen: Vec<&GE<F>> = sys.algebraic_constraints.iter().map(|c| &c.expression).chain(sys.bus_interactions.iter().flat_map(|b| &b.payload)).collect();
            let a = match s.choose(4) {
                0 => affine::<F>(s, N),
                1 => expr::<F>(s, N, 1),
                k if seen.is_empty() => GE::from_number(F::from(k as u64)),
                2 => seen[s.choose(seen.len() as u32) as usize].clone() * coeff::<F>(s),
                _ => seen[s.choose(seen.len() as u32) as usize].clone() + affine::<F>(s, N),
            };
            let b = if s.flip() { field::<F>(s, N) } else { a.clone() + affine::<F>(s, N) };
            let (r, k, d) = (solver.range_constraint_for_expression(&a), solver.try_to_equivalent_constant(&a), solver.are_expressions_known_to_be_different(&a, &b));
            for env in &sols {
                let (x, y) = (eval(&a, env), eval(&b, env));
                ensure!(r.allows_value(x), "the range constraint of an expression excludes a solution", desc, format!("{a}"), format!("{r}"), env, round);
                ensure!(k.is_none() || k == Some(x), "the equivalent constant is wrong for a solution", desc, format!("{a}"), k, env, round);
                ensure!(!d || x != y, "expressions claimed to differ are equal in a solution", desc, format!("{a}"), format!("{b}"), env, round);
            }
        }
        if round == 1 {
            break;
        }
        // change the system and solve again
        match s.choose(5) {
            0 => {
                let c = constr::<F>(s, N);
                sols.retain(|e| eval(&c, e).is_zero());
                solver.add_algebraic_constraints([AlgebraicConstraint::assert_zero(c)]);
            }
            1 => {
                let b = bus::<F>(s, N);
                sols.retain(|e| bus_holds(&b, e));
                solver.add_bus_interactions([b]);
            }
            2 => {
                let (v, r) = (s.choose(N), rc::<F>(s));
                sols.retain(|e| r.allows_value(e[v as usize]));
                solver.add_range_constraint(&v, r);
            }
            3 => {
                let keep: HashSet<u32> = (0..N).filter(|_| s.flip()).collect();
                solver.retain_variables(&keep);
            }
            _ => {}
        }
        assigned.clear();
    }
    Ok(())
}
/// exhaustive search over a set of variables only excludes impossible values
fn search<F: FieldElement>(s: &mut dyn Src) -> R {
    use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
    use powdr_constraint_solver::solver::exhaustive_search::*;
    const N: u32 = 3;
    let sys = system::<F>(s, N, 3, 2);
    let rcs = Rcs((0..N).map(|_| rc::<F>(s)).collect());
    let sols: Vec<Vec<F>> = solutions(&sys, N).into_iter().filter(|e| holds_rcs(&rcs.0, e)).collect();
    let desc = format!("{sys}");
    let ics = IndexedConstraintSystem::from(sys);
    let mut sets: Vec<BTreeSet<u32>> = get_brute_force_candidates(&ics, &rcs).collect();
    sets.push((0..N).filter(|_| s.flip()).collect());
    for set in sets.into_iter().filter(|x| !x.is_empty()) {
        match exhaustive_search_on_variable_set(&ics, &set, &rcs, &Table) {
            Err(_) => ensure!(sols.is_empty(), "exhaustive search reports a contradiction, but there is a solution", desc, set, sols[0]),
            Ok(m) => {
                for (v, r) in &m {
                    for env in &sols {
                        ensure!(r.allows_value(env[*v as usize]), "exhaustive search excludes a solution", desc, set, v, format!("{r}"), env);
                    }
                }
            }
        }
    }
    Ok(())
}
/// the same at a production field: every claim holds for a known solution of a larger system
fn planted<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = plant::NV;
    let env: Vec<F> = plant::planted(s);
    let sys = plant::psystem::<F>(s, &env, 6, 5);
    ensure!(plant::bholds(&sys, &env), "the planted solution", format!("{sys}"), env);
    let mut solver = new_solver(sys.clone(), plant::Bytes);
    let mut desc = format!("{sys}");
    for (i, x) in env.iter().enumerate() {
        if s.choose(3) == 0 {
            let r = plant::prc(s, *x);
            desc += &format!(" v{i}: {r}");
            solver.add_range_constraint(&(i as u32), r);
        }
    }
    let mut exprs: Vec<GE<F>> = sys.algebraic_constraints.iter().map(|c| c.expression.clone()).chain(sys.bus_interactions.iter().flat_map(|b| b.payload.iter().cloned())).collect();
    for round in 0..3 {
        let r = solver.solve();
        ensure!(r.is_ok(), "the solver reports a contradiction, but the system has a solution", desc, env, round);
        for (v, e) in r.unwrap() {
            ensure!(env[v as usize] == eval(&e, &env), "a derived assignment is not implied", desc, v, format!("{e}"), env, round);
        }
        for v in 0..N {
            let r = solver.get(&v);
            ensure!(r.allows_value(env[v as usize]), "a derived range constraint excludes a solution", desc, v, format!("{r}"), env, round);
        }
        exprs.push(plant::paff(s));
        for _ in 0..3 {
            let a = exprs[s.choose(exprs.len() as u32) as usize].clone();
            let b = if s.flip() { exprs[s.choose(exprs.len() as u32) as usize].clone() } else { a.clone() + plant::paff(s) };
            let b = if s.flip() { let x = eval(&a, &env); plant::at(b, &env, x) } else { b };
            let (r, k, d) = (solver.range_constraint_for_expression(&a), solver.try_to_equivalent_constant(&a), solver.are_expressions_known_to_be_different(&a, &b));
            let (x, y) = (eval(&a, &env), eval(&b, &env));
            ensure!(r.allows_value(x), "the range constraint of an expression excludes a solution", desc, format!("{a}"), format!("{r}"), env, round);
            ensure!(k.is_none() || k == Some(x), "the equivalent constant is wrong for a solution", desc, format!("{a}"), k, env, round);
            ensure!(!d || x != y, "expressions claimed to differ are equal in a solution", desc, format!("{a}"), format!("{b}"), env, round);
        }
        match s.choose(4) {
            0 => { let c = plant::pconstr(s, &env); desc += &format!("; {c} = 0"); solver.add_algebraic_constraints([AlgebraicConstraint::assert_zero(c)]) }
            1 => { let b = plant::pbus(s, &env); desc += &format!("; {b}"); solver.add_bus_interactions([b]) }
            2 => { let v = s.choose(N); let r = plant::prc(s, env[v as usize]); desc += &format!("; v{v}: {r}"); solver.add_range_constraint(&v, r) }
            _ => { let keep: HashSet<u32> = (0..N).filter(|_| s.choose(3) > 0).collect(); solver.retain_variables(&keep) }
        }
    }
    Ok(())
}
/// one constraint or interaction at a production field
fn planted_one<F: FieldElement>(s: &mut dyn Src) -> R {
    let env: Vec<F> = plant::planted(s);
    let rcs = Rcs(env.iter().map(|x| plant::prc(s, *x)).collect());
    let c = plant::pconstr(s, &env);
    match AlgebraicConstraint::assert_zero(&c).solve(&rcs) {
        Err(_) => ensure!(false, "reported unsatisfiable, but it has a solution", format!("{c}"), env, rcs.0),
        Ok(r) => {
            for f in &r.effects {
                ensure!(effect_holds(f, &env), "an effect excludes a solution", format!("{c}"), show(f), env, rcs.0);
            }
            if r.complete {
                for e in plant::nearby(s, &env).iter().filter(|e| holds_rcs(&rcs.0, e) && !eval(&c, e).is_zero()) {
                    ensure!(!r.effects.iter().all(|f| effect_holds(f, e)), "a complete result admits a non-solution", format!("{c}"), e, rcs.0);
                }
            }
        }
    }
    let b = plant::pbus(s, &env);
    match b.solve(&plant::Bytes, &rcs) {
        Err(_) => ensure!(false, "reported as violating the bus rules, but it can be satisfied", format!("{b}"), env, rcs.0),
        Ok(effects) => {
            for f in &effects {
                ensure!(effect_holds(f, &env), "a bus effect excludes a possible assignment", format!("{b}"), show(f), env, rcs.0);
            }
        }
    }
    Ok(())
}
macro_rules! inst { ($f:ident: $($n:ident = $t:ty),*) => { $(pub fn $n(s: &mut dyn Src) -> R { $f::<$t>(s) })* } }
type P3 = Fp<3>;
type P5 = Fp<5>;
type P7 = Fp<7>;
type P11 = Fp<11>;
type P13 = Fp<13>;
inst!(alg: so_alg_5 = P5, so_alg_7 = P7, so_alg_13 = P13);
inst!(solve_for: so_for_5 = P5, so_for_7 = P7, so_for_11 = P11);
inst!(bus_solve: so_bus_5 = P5, so_bus_7 = P7, so_bus_11 = P11);
inst!(solver_sound: so_sys_5 = P5, so_sys_7 = P7, so_sys_11 = P11);
inst!(search: so_search_5 = P5, so_search_7 = P7, so_search_11 = P11);
type BB = powdr_number::BabyBearField;
inst!(planted_one: so_one_bb = BB);
inst!(planted: so_plant_bb = BB);
contracts!(contracts_c08: so_one_bb, so_alg_5, so_alg_7, so_alg_13, so_for_5, so_for_7, so_for_11, so_bus_5, so_bus_7, so_bus_11);
contracts!(contracts_c10: so_plant_bb, so_sys_5, so_sys_7, so_sys_11, so_search_5, so_search_7, so_search_11);

// ------------------------------------------------------------------ C09: rewriting a constraint
/// variables in small ranges: the assignments allowed by the range constraints
fn small_rc<F: FieldElement>(s: &mut dyn Src, max: u32) -> RangeConstraint<F> {
    match s.choose(6) {
        0 => RangeConstraint::from_mask(1u64),
        1 => RangeConstraint::from_mask((1u64 << (1 + s.choose(3))) - 1),
        2 => RangeConstraint::from_mask((2 * s.choose(8) + 1) as u64),
        3 => { let w = s.choose(max); let lo = el::<F>(s); RangeConstraint::from_range(lo, lo + F::from(w)) }
        4 => { let w = s.choose(max); RangeConstraint::from_range(-F::from(w / 2), F::from(w - w / 2)) }
        _ => RangeConstraint::from_range(F::from(0u64), F::from(s.choose(max))),
    }
}
fn small_coeff<F: FieldElement>(s: &mut dyn Src) -> F {
    let c = match s.choose(5) { 0 => F::from(1u64), 1 => F::from(1u64 << s.choose(if p::<F>() > 1000 { 20 } else { 5 })), 2 => F::from(1 + s.choose(12)), 3 => F::from(3u64) * F::from(1u64 << s.choose(8)), _ => el(s) };
    if s.flip() { c } else { -c }
}
fn allowed<F: FieldElement>(rcs: &[RangeConstraint<F>]) -> Vec<Vec<F>> {
    let mut r: Vec<Vec<F>> = vec![vec![]];
    for c in rcs {
        let vals: Vec<F> = if p::<F>() <= 300 { (0..p::<F>()).map(F::from).filter(|x: &F| c.allows_value(*x)).collect() } else {
            let (lo, hi) = c.range();
            let w = n(hi - lo);
            (0..=w).map(|i| lo + F::from(i)).filter(|x| c.allows_value(*x)).collect()
        };
        r = r.into_iter().flat_map(|e| vals.iter().map(move |x| { let mut e = e.clone(); e.push(*x); e })).collect();
    }
    r
}
#[cfg(feature = "private")]
mod private {
    use super::*;
    use powdr_constraint_solver::solver::boolean_extractor::BooleanExtractor;
    use powdr_constraint_solver::solver::constraint_splitter::try_split_constraint;
    use powdr_constraint_solver::solver::linearizer::Linearizer;
    /// splitting a constraint gives an equivalent list of constraints
    pub fn split<F: FieldElement>(s: &mut dyn Src) -> R {
        const N: u32 = 4;
        let k = 2 + s.choose(3);
        let w = if k == 4 { 6 } else { 12 };
        let rcs = Rcs((0..N).map(|_| small_rc::<F>(s, w)).collect());
        let envs = allowed(&rcs.0[..k as usize]);
        s.assume(envs.len() > 0 && envs.len() <= 4096)?;
        let mut e = (0..k).map(|v| var::<F>(v) * small_coeff::<F>(s)).reduce(|a, b| a + b).unwrap();
        // a constant for which it has a solution, or any
        e = if s.choose(4) > 0 {
            let env = &envs[s.choose(envs.len() as u32) as usize];
            let x = eval(&e, env);
            e - GE::from_number(x)
        } else {
            e + GE::from_number(el::<F>(s))
        };
        let c = AlgebraicConstraint::assert_zero(&e);
        if let Some(parts) = try_split_constraint(&c, &rcs) {
            for env in &envs {
                let z = eval(&e, env).is_zero();
                let all = parts.iter().all(|q| eval(&q.expression, env).is_zero());
                ensure!(z == all, "the parts are not equivalent to the constraint", format!("{e}"), parts.iter().map(|q| format!("{q}")).collect::<Vec<_>>(), env, rcs.0);
            }
        }
        Ok(())
    }
    /// the constraint holds exactly if some boolean z satisfies the extracted one
    pub fn boolean<F: FieldElement>(s: &mut dyn Src) -> R {
        const N: u32 = 2;
        let mut b = BooleanExtractor::default();
        let mut next = N;
        for _ in 0..2 {
            let e = match s.choose(3) {
                0 => constr::<F>(s, N),
                1 => { let x = affine::<F>(s, N); x.clone() * (x * coeff::<F>(s) + GE::from_number(el::<F>(s))) }
                _ => { let x = expr::<F>(s, N, 1); x.clone() * (x + GE::from_number(el::<F>(s))) }
            };
            let r = b.try_extract_boolean(AlgebraicConstraint::assert_zero(&e), || { next += 1; next - 1 });
            if let Some(r) = r {
                let z = r.new_unconstrained_boolean_variable;
                for env in envs::<F>(N as usize) {
                    let sat = (0..2u32).any(|x| {
                        let mut env = env.clone();
                        env.resize(next as usize, F::from(x));
                        if let Some(z) = z { env[z as usize] = F::from(x); }
                        eval(&r.constraint.expression, &env).is_zero()
                    });
                    ensure!(sat == eval(&e, &env).is_zero(), "boolean extraction changed the solutions", format!("{e}"), format!("{}", r.constraint), env);
                }
            }
        }
        Ok(())
    }
    /// linearization: with every new variable equal to what it stands for, the new constraints
    /// hold and the result has the value of the expression; also after applying assignments
    pub fn linear<F: FieldElement>(s: &mut dyn Src) -> R {
        const N: u32 = 3;
        let mut l = Linearizer::<F, u32>::default();
        let mut next = N;
        let mut cs: Vec<AlgebraicConstraint<GE<F>>> = vec![];
        let mut done: Vec<(GE<F>, GE<F>)> = vec![];
        for _ in 0..2 {
            let e = expr::<F>(s, N, 3);
            let r = if s.flip() {
                let r = l.linearize_expression(e.clone(), &mut || { next += 1; next - 1 }, &mut cs);
                ensure!(r.is_affine(), "the linearized expression is not affine", format!("{e}"), format!("{r}"));
                r
            } else {
                l.substitute_by_var(e.clone(), &mut || { next += 1; next - 1 }, &mut cs)
            };
            done.push((e, r));
        }
        let total = next as usize;
        // every new variable is determined by its constraint
        let extend = |env: &[F]| -> Option<Vec<F>> {
            let mut full = env.to_vec();
            full.resize(total, F::from(0u64));
            let mut known = N as usize;
            for _ in 0..total {
                for c in &cs {
                    let vars: BTreeSet<u32> = c.referenced_unknown_variables().copied().collect();
                    let new: Vec<u32> = vars.into_iter().filter(|v| *v as usize >= known).collect();
                    if let [v] = new[..] {
                        if v as usize == known {
                            let r = AlgebraicConstraint::assert_zero(&c.expression).try_solve_for(&v)?;
                            full[v as usize] = eval(&r, &full);
                            known += 1;
                        }
                    }
                }
            }
            (known == total).then_some(full)
        };
        let q = expr::<F>(s, N, 2);
        let v = s.choose(N);
        let by = if s.flip() { GE::from_number(el::<F>(s)) } else { var::<F>((v + 1) % N) };
        let versions: Vec<GE<F>> = done.iter().map(|x| x.0.clone()).chain([q.clone()]).flat_map(|e| l.internalized_versions_of_expression(&e).collect::<Vec<_>>()).collect();
        let _ = versions;
        let ask: Vec<(GE<F>, Vec<GE<F>>)> = done.iter().map(|x| x.0.clone()).chain([q.clone()]).map(|e| { let i = l.internalized_versions_of_expression(&e).collect(); (e, i) }).collect();
        l.apply_assignments(&[(v, by.clone())]);
        let ask2: Vec<(GE<F>, Vec<GE<F>>)> = done.iter().map(|x| x.0.clone()).chain([q.clone()]).map(|mut e| { e.substitute_by_unknown(&v, &by); let i = l.internalized_versions_of_expression(&e).collect(); (e, i) }).collect();
        for env in envs::<F>(N as usize) {
            let Some(full) = extend(&env) else { ensure!(false, "a new variable is not determined by the new constraints", cs.iter().map(|c| format!("{c}")).collect::<Vec<_>>()); unreachable!() };
            for c in &cs {
                ensure!(eval(&c.expression, &full).is_zero(), "the new constraints exclude an assignment of the original variables", format!("{c}"), env);
            }
            for (e, r) in &done {
                ensure!(eval(e, &full) == eval(r, &full), "linearization changed the value", format!("{e}"), format!("{r}"), env);
            }
            for (e, i) in &ask {
                for r in i {
                    ensure!(eval(e, &full) == eval(r, &full), "an internalized version has another value", format!("{e}"), format!("{r}"), env);
                }
            }
            if full[v as usize] == eval(&by, &full) {
                for (e, i) in &ask2 {
                    for r in i {
                        ensure!(eval(e, &full) == eval(r, &full), "an internalized version has another value after an assignment", format!("{e}"), format!("{r}"), v, format!("{by}"), env);
                    }
                }
            }
        }
        Ok(())
    }
}
/// the same through the public solver: small-range constraints
fn split_pub<F: FieldElement>(s: &mut dyn Src) -> R {
    let k = 2 + s.choose(3);
    let w = if k == 4 { 6 } else { 12 };
    let rcs = Rcs((0..k).map(|_| small_rc::<F>(s, w)).collect());
    let envs = allowed(&rcs.0);
    s.assume(envs.len() > 0 && envs.len() <= 2048)?;
    let e = (0..k).map(|v| var::<F>(v) * small_coeff::<F>(s)).reduce(|a, b| a + b).unwrap();
    let env = &envs[s.choose(envs.len() as u32) as usize];
    let x = eval(&e, env);
    let e = e - GE::from_number(x);
    let mut solver = new_solver(CS { algebraic_constraints: vec![AlgebraicConstraint::assert_zero(e.clone())], bus_interactions: vec![], derived_variables: vec![] }, Table);
    for (i, r) in rcs.0.iter().enumerate() {
        solver.add_range_constraint(&(i as u32), *r);
    }
    let sols: Vec<&Vec<F>> = envs.iter().filter(|x| eval(&e, x).is_zero()).collect();
    let r = solver.solve();
    ensure!(r.is_ok(), "the solver reports a contradiction, but there is a solution", format!("{e}"), rcs.0, sols[0]);
    for (v, x) in r.unwrap() {
        for env in &sols {
            ensure!(env[v as usize] == eval(&x, env), "a derived assignment is not implied", format!("{e}"), v, format!("{x}"), env, rcs.0);
        }
    }
    for v in 0..k {
        let r = solver.get(&v);
        for env in &sols {
            ensure!(r.allows_value(env[v as usize]), "a derived range constraint excludes a solution", format!("{e}"), v, format!("{r}"), env, rcs.0);
        }
    }
    Ok(())
}
type P31 = Fp<31>;
type P61 = Fp<61>;
type P251 = Fp<251>;
type Bb = Fp<0x7800_0001>;
inst!(split_pub: so_spub_31 = P31, so_spub_251 = P251, so_spub_bb = Bb);
contracts!(contracts_c09: so_spub_31, so_spub_251, so_spub_bb);
#[cfg(feature = "private")]
mod pinst {
    use super::*;
    use super::private::*;
    inst!(split: so_split_31 = P31, so_split_61 = P61, so_split_251 = P251, so_split_bb = Bb);
    inst!(boolean: so_bool_5 = P5, so_bool_7 = P7, so_bool_13 = P13);
    inst!(linear: so_lin_5 = P5, so_lin_7 = P7);
    contracts!(contracts_c09p: so_split_31, so_split_61, so_split_251, so_split_bb, so_bool_5, so_bool_7, so_bool_13, so_lin_5, so_lin_7);
}
#[cfg(feature = "private")]
pub use pinst::contracts_c09p;
