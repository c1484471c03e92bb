//! C15: from instruction tables to a guarded autoprecompile.
use crate::ensure;
use crate::ex::*;
use crate::field::*;
use crate::gen::*;
use crate::sys::n;
use crate::ta::*;
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::blocks::*;
use powdr_autoprecompiles::expression::*;
use powdr_autoprecompiles::expression_conversion::*;
use powdr_autoprecompiles::powdr::*;
use powdr_autoprecompiles::symbolic_machine::*;
use powdr_autoprecompiles::symbolic_machine_generator::*;
use powdr_autoprecompiles::*;
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_number::FieldElement;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// a machine over columns 0..nv
pub fn machine<F: FieldElement>(s: &mut dyn Src, nv: u32, maxc: u32, maxb: u32) -> SM<F> {
    let (c, b, d) = (s.choose(maxc + 1), s.choose(maxb + 1), s.choose(3));
    SymbolicMachine {
        constraints: (0..c).map(|_| { let k = s.choose(3); aexpr::<F>(s, nv, 1 + k).into() }).collect(),
        bus_interactions: (0..b).map(|_| SymbolicBusInteraction { id: s.choose(if p::<F>() < 8 { p::<F>() } else { 8 }) as u64, mult: aexpr(s, nv, 1), args: (0..s.choose(4)).map(|_| aexpr(s, nv, 2)).collect() }).collect(),
        derived_columns: (0..d / 2).map(|_| DerivedVariable::new(rf(s.choose(nv) as u64), if s.flip() { ComputationMethod::Constant(el(s)) } else { ComputationMethod::QuotientOrZero(aexpr(s, nv, 2), aexpr(s, nv, 2)) })).collect(),
    }
}
fn derived<F: FieldElement>(d: &DerivedVariable<F, AlgebraicReference, AE<F>>, env: &dyn Fn(u64) -> F) -> (u64, F, F, bool) {
    match &d.computation_method {
        ComputationMethod::Constant(c) => (d.variable.id, *c, *c, false),
        ComputationMethod::QuotientOrZero(a, b) => (d.variable.id, aeval(a, env), aeval(b, env), true),
    }
}
fn conv<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let e = aexpr::<F>(s, N, 4);
    let g = algebraic_to_grouped_expression(&e);
    let back = grouped_expression_to_algebraic(g.clone());
    for v in some_envs::<F>(s, N as usize) {
        let env = |i: u64| v[i as usize];
        let want = aeval(&e, &env);
        ensure!(geval(&g, &env) == want, "grouping changes the value", format!("{e}"), format!("{g}"), v);
        ensure!(aeval(&back, &env) == want, "ungrouping changes the value", format!("{g}"), format!("{back}"), v);
    }
    ensure!(e.degree() == adeg(&e) && adeg(&back) <= adeg(&e), "conversion raises the degree", format!("{e}"), format!("{back}"));
    let m = machine::<F>(s, N, 2, 2);
    let m2 = constraint_system_to_symbolic_machine(symbolic_machine_to_constraint_system(m.clone()));
    let u = convert_machine_field_type(m.clone(), &|x: F| n(x));
    ensure!(m2.constraints.len() == m.constraints.len() && m2.bus_interactions.len() == m.bus_interactions.len() && m2.derived_columns.len() == m.derived_columns.len(), "parts are lost", shm(&m), shm(&m2));
    let m3 = convert_machine_field_type(u, &|x: u64| F::from(x));
    for v in some_envs::<F>(s, N as usize) {
        let env = |i: u64| v[i as usize];
        for (a, b) in m.constraints.iter().zip(&m2.constraints) {
            let (a, b) = (aeval(&a.expr, &env), aeval(&b.expr, &env));
            ensure!(a.is_zero() == b.is_zero(), "a constraint changes", shm(&m), shm(&m2), v);
        }
        ensure!(m.constraints.iter().map(|c| aeval(&c.expr, &env)).eq(m3.constraints.iter().map(|c| aeval(&c.expr, &env))), "field conversion changes a constraint", shm(&m), v);
        for m2 in [&m2, &m3] {
            ensure!(msgs(&m, &env) == msgs(m2, &env), "the messages change", shm(&m), shm(m2), v);
            ensure!(m.derived_columns.iter().map(|d| derived(d, &env)).eq(m2.derived_columns.iter().map(|d| derived(d, &env))), "derived columns change", shm(&m), v);
        }
        // the evaluators
        let row: Vec<F> = v.clone();
        let e1 = RowEvaluator::new(&row).eval_expr(&e);
        ensure!(e1 == aeval(&e, &env), "row evaluator", format!("{e}"), v);
        let idx: BTreeMap<u64, usize> = (0..N as u64).map(|i| (i, (N as u64 - 1 - i) as usize)).collect();
        let rev: Vec<F> = v.iter().rev().copied().collect();
        let e2 = MappingRowEvaluator::new(&rev, &idx);
        ensure!(e2.eval_expr(&e) == aeval(&e, &env), "mapping row evaluator", format!("{e}"), v);
        let wit: BTreeMap<u64, F> = (0..N as u64).map(|i| (i, v[i as usize])).collect();
        let e3: WitnessEvaluator<F, F, F> = WitnessEvaluator::new(&wit);
        ensure!(e3.eval_expr(&e) == aeval(&e, &env), "witness evaluator", format!("{e}"), v);
        for b in &m.bus_interactions {
            let c = e2.eval_bus_interaction(b);
            let got = (c.id, c.mult, c.args.collect::<Vec<F>>());
            ensure!(got == msg(b, &env), "evaluated message", format!("{b}"), v);
        }
    }
    Ok(())
}
/// references, names, offsets
fn globalize<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let mut m = machine::<F>(s, N, 3, 2);
    m.derived_columns.clear();
    let used = mrefs(&m);
    let refs: Vec<AlgebraicReference> = m.main_columns().collect();
    ensure!(refs.iter().map(|r| r.id).eq(used.iter().copied()), "the columns are the ids used, ascending, once each", shm(&m));
    s.assume(!used.is_empty() && used.iter().copied().eq(0..used.len() as u64))?;
    let (off, suf) = (s.choose(20) as u64, s.choose(5) as usize);
    let (next, subs, g) = globalize_references(m.clone(), off, suf);
    let k = used.len() as u64;
    ensure!(next == off + k && subs.iter().copied().eq(off..off + k), "ids issued", off, next, subs);
    ensure!(mrefs(&g).into_iter().eq(off..off + k), "ids of the result", shm(&g));
    for r in g.main_columns() {
        ensure!(*r.name == format!("c{}_{}", r.id - off, suf), "names of the result", r.name, off, suf);
    }
    ensure!(g.constraints.len() == m.constraints.len(), "constraints lost", shm(&g));
    for v in some_envs::<F>(s, N as usize) {
        let env = |i: u64| v[i as usize];
        let glob = |i: u64| v[(i - off) as usize];
        ensure!(m.constraints.iter().map(|c| aeval(&c.expr, &env)).eq(g.constraints.iter().map(|c| aeval(&c.expr, &glob))), "constraints change", shm(&m), shm(&g));
        ensure!(msgs(&m, &env) == msgs(&g, &glob), "messages change", shm(&m), shm(&g));
    }
    // zeroing and substituting
    let e = aexpr::<F>(s, N, 3);
    let mut z = e.clone();
    make_refs_zero(&mut z);
    let mut left = BTreeSet::new();
    arefs(&z, &mut left);
    ensure!(left.is_empty() && aeval(&z, &|_| F::from(9999u64 % p::<F>() as u64)) == aeval(&e, &|_| F::from(0u64)), "make_refs_zero", format!("{e}"), format!("{z}"));
    let (from, to) = (s.choose(N) as u64, AE::<F>::Number(el(s)));
    let mut sub = e.clone();
    substitute_subexpressions(&mut sub, &BTreeMap::from([(ar::<F>(from), to.clone())]));
    for v in some_envs::<F>(s, N as usize) {
        let env = |i: u64| v[i as usize];
        ensure!(aeval(&sub, &env) == aeval(&e, &|i| if i == from { aeval(&to, &env) } else { v[i as usize] }), "substitution", format!("{e}"), format!("{sub}"));
        let b = aeval(&make_bool(e.clone()), &env);
        let x = aeval(&e, &env);
        ensure!(b.is_zero() == (x.is_zero() || x == F::from(1u64)), "make_bool", format!("{e}"));
    }
    Ok(())
}
fn names(s: &mut dyn Src) -> R {
    let parts = ["a", "@", "x@3", "", "é", "\"", "b_0"];
    let name: String = (0..s.choose(4)).map(|_| parts[s.choose(parts.len() as u32) as usize]).collect();
    let r = AlgebraicReference { name: Arc::new(name.clone()), id: s.u64() };
    let j = serde_json::to_string(&r).unwrap();
    let b: AlgebraicReference = serde_json::from_str(&j).unwrap();
    ensure!(b.id == r.id && *b.name == name, "a reference does not survive serialization", j, b.id, b.name);
    let o = AlgebraicReference { name: Arc::new("other".into()), id: s.u64() };
    ensure!((r == o) == (r.id == o.id) && r.cmp(&o) == r.id.cmp(&o.id), "references are compared by id", r.id, o.id);
    Ok(())
}
#[cfg(feature = "private")]
fn guards<F: FieldElement>(s: &mut dyn Src) -> R {
    const N: u32 = 3;
    let m = machine::<F>(s, N, 3, 3);
    let m = constraint_system_to_symbolic_machine(symbolic_machine_to_constraint_system(m));
    let deg = |m: &SM<F>| m.constraints.iter().map(|c| adeg(&c.expr)).chain(m.bus_interactions.iter().flat_map(|b| std::iter::once(&b.mult).chain(&b.args)).map(|e| adeg(e))).max().unwrap_or(0);
    let before = deg(&m);
    ensure!(m.degree() == before, "machine degree", shm(&m));
    // the multiplicities have room for the guard
    s.assume(m.bus_interactions.is_empty() || m.bus_interactions.iter().all(|b| adeg(&b.mult) < before))?;
    let next = mrefs(&m).into_iter().max().unwrap_or(0) + 1 + s.choose(3) as u64;
    let mut alloc = ColumnAllocator::from_max_poly_id_of_machine(&m);
    while alloc.next_poly_id < next { alloc.issue_next_poly_id(); }
    let (g, alloc) = add_guards(m.clone(), alloc);
    ensure!(alloc.next_poly_id == next + 1, "one new column", alloc.next_poly_id, next);
    let d = g.derived_columns.last().unwrap();
    ensure!(g.derived_columns.len() == m.derived_columns.len() + 1 && d.variable.id == next && matches!(&d.computation_method, ComputationMethod::Constant(c) if *c == F::from(1u64)), "is_valid is derived to be one");
    ensure!(g.bus_interactions.len() == m.bus_interactions.len(), "interactions lost", shm(&m), shm(&g));
    ensure!(deg(&g) <= before.max(2), "guards raise the degree", shm(&m), shm(&g));
    for v in envs::<F>(N as usize) {
        for valid in 0..p::<F>() as u64 {
            let env = |i: u64| if i == next { F::from(valid) } else { v[i as usize] };
            let plain = |i: u64| v[i as usize];
            let ok = sat(&g, &env);
            let zero = v.iter().all(|x| x.is_zero());
            match valid {
                1 => {
                    ensure!(ok == sat(&m, &plain), "a valid row means something else", shm(&m), shm(&g), v);
                    ensure!(msgs(&m, &plain) == msgs(&g, &env), "a valid row sends something else", shm(&m), shm(&g), v);
                }
                0 => {
                    ensure!(!zero || ok, "the all-zero row is rejected", shm(&m), shm(&g));
                    ensure!(!ok || msgs(&g, &env).iter().all(|x| x.1.is_zero()), "a padding row sends", shm(&m), shm(&g), v);
                    if zero { ensure!(msgs(&g, &env).iter().all(|x| x.1.is_zero()), "the all-zero row sends", shm(&m), shm(&g)); }
                }
                _ => ensure!(!ok, "is_valid is not boolean", shm(&m), shm(&g), v, valid),
            }
        }
    }
    Ok(())
}
/// an instruction table: columns 0 is_valid, 1 pc, 2 timestamp, 3 immediate, then its own
pub fn air<F: FieldElement>(s: &mut dyn Src, op: u32, extra: u32) -> SM<F> {
    let nv = 4 + extra;
    let mut m = machine::<F>(s, nv, 2, 1);
    m.derived_columns.clear();
    for b in &mut m.bus_interactions { b.id = 1 + b.id % 4; if b.id == 2 || b.id == 4 { b.id = 3; } }
    let bus = |id: u64, mult: AE<F>, args: Vec<AE<F>>| SymbolicBusInteraction { id, mult, args };
    m.bus_interactions.push(bus(6, -ar::<F>(0), vec![ar(1), ar(2)]));
    m.bus_interactions.push(bus(6, ar(0), vec![ar::<F>(1) + an(4), ar::<F>(2) + an(1)]));
    m.bus_interactions.push(bus(0, ar(0), vec![ar(1), if s.flip() { an(op as u64) } else { ar::<F>(0) * an(op as u64) }, ar(3)]));
    for i in 4..nv { m.constraints.push((ar::<F>(i as u64) * (ar::<F>(i as u64) - an(1))).into()); }
    m
}
pub fn bus_map() -> BusMap<String> {
    BusMap::from_id_type_pairs([(6, BusType::ExecutionBridge), (5, BusType::Memory), (0, BusType::PcLookup), (1, BusType::Other("bytes".into())), (2, BusType::Other("xor".into())), (3, BusType::Other("var".into()))])
}
#[cfg(feature = "private")]
fn assemble(s: &mut dyn Src) -> R {
    type F = Fp<11>;
    const E: u32 = 1;
    let h = TH::<F> { airs: (0..2).map(|i| { let x = s.choose(2); air(s, i, x * E) }).collect(), bound: DegreeBound { identities: 5, bus_interactions: 5 } };
    let nb = 1 + s.choose(2);
    let mut pc = 0;
    let blocks: Vec<BasicBlock<TI>> = (0..nb).map(|_| {
        let k = 1 + s.choose(2);
        pc = s.choose(3) as u64;
        BasicBlock { start_pc: pc, instructions: (0..k).map(|_| TI { op: s.choose(2), imm: s.choose(4), branching: false, allowed: true }).collect() }
    }).collect();
    let block = SuperBlock::from(blocks.clone());
    let (m, alloc) = statements_to_symbolic_machine::<TA<11>>(&block, &h, &bus_map());
    let flat: Vec<(u64, &TI)> = blocks.iter().flat_map(|b| b.instructions.iter().enumerate().map(move |(i, x)| (b.start_pc + 4 * i as u64, x))).collect();
    // the columns of the instructions are disjoint
    let mut off = vec![0u64];
    for (_, i) in &flat { off.push(off.last().unwrap() + mrefs(&h.airs[i.op as usize]).len() as u64); }
    ensure!(alloc.next_poly_id == *off.last().unwrap(), "ids issued", alloc.next_poly_id, off);
    ensure!(alloc.subs.len() == flat.len() && (0..flat.len()).all(|i| alloc.subs[i].iter().copied().eq(off[i]..off[i + 1])), "substitutions", alloc.subs, off);
    let total = *off.last().unwrap() as usize;
    for _ in 0..24 {
        // a random row, repaired towards validity so that both answers occur
        let fix = s.choose(4) > 0;
        let mut v: Vec<F> = (0..total).map(|_| el(s)).collect();
        if fix {
            for (k, (pc, i)) in flat.iter().enumerate() {
                let o = off[k] as usize;
                v[o] = F::from(1u64);
                v[o + 1] = F::from(*pc);
                v[o + 3] = F::from(i.imm as u64);
                for x in &mut v[o + 4..off[k + 1] as usize] { *x = F::from(n(*x) % 2); }
            }
        }
        let env = |i: u64| v[i as usize];
        let want = flat.iter().enumerate().all(|(k, (pc, i))| {
            let a = &h.airs[i.op as usize];
            let loc = |j: u64| v[(off[k] + j) as usize];
            let row: Vec<F> = vec![F::from(*pc), F::from(i.op as u64), F::from(i.imm as u64)];
            sat(a, &loc) && a.bus_interactions.iter().filter(|b| b.id == 6).next().map(|b| aeval(&b.mult, &loc)) == Some(-F::from(1u64)) && a.bus_interactions.iter().filter(|b| b.id == 0).all(|b| msg(b, &loc).2 == row)
        });
        ensure!(sat(&m, &env) == want, "the block's machine is not the conjunction of its instructions", shm(&m), want, v);
        let sent: Vec<_> = flat.iter().enumerate().flat_map(|(k, (_, i))| msgs(&h.airs[i.op as usize], &|j| v[(off[k] + j) as usize])).collect();
        ensure!(msgs(&m, &env) == sent, "the block's machine sends something else", shm(&m), v);
    }
    // the substitutions kept in the apc are those of the columns still used
    let keep = s.choose(1 << m.constraints.len().min(10));
    let mut r = m.clone();
    let mut k = 0;
    r.constraints.retain(|_| { k += 1; keep >> (k - 1) & 1 == 1 });
    if s.flip() { r.bus_interactions.truncate(1); }
    let used = mrefs(&r);
    let apc: Apc<F, TI, u8, u64> = Apc::new(block, r, execution::OptimisticConstraints::empty(), &alloc);
    ensure!(apc.subs.len() == flat.len(), "one substitution list per instruction");
    for (i, l) in apc.subs.iter().enumerate() {
        let got: Vec<(usize, u64)> = l.iter().map(|x| (x.original_poly_index, x.apc_poly_id)).collect();
        let want: Vec<(usize, u64)> = (off[i]..off[i + 1]).filter(|x| used.contains(x)).map(|x| ((x - off[i]) as usize, x)).collect();
        ensure!(got == want, "substitutions of an apc", got, want);
    }
    Ok(())
}
macro_rules! inst { ($f:ident: $($n:ident = $t:ty),*) => { $(pub fn $n(s: &mut dyn Src) -> R { $f::<$t>(s) })* } }
inst!(conv: ap_conv_5 = Fp<5>, ap_conv_bb = powdr_number::BabyBearField);
inst!(globalize: ap_glob_5 = Fp<5>);
pub fn ap_names(s: &mut dyn Src) -> R { names(s) }
contracts!(contracts_c15: ap_conv_5, ap_conv_bb, ap_glob_5, ap_names);
#[cfg(feature = "private")]
mod pinst {
    use super::*;
    inst!(guards: ap_guard_5 = Fp<5>, ap_guard_7 = Fp<7>);
    pub fn ap_assemble(s: &mut dyn Src) -> R { assemble(s) }
    contracts!(contracts_c15p: ap_guard_5, ap_guard_7, ap_assemble);
}
#[cfg(feature = "private")]
pub use pinst::contracts_c15p;
