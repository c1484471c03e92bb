//! C17: selecting the calls of autoprecompiles during an execution.  C18: constraints learned
//! from executions.  C19: the rows of an autoprecompile's trace.
use crate::ensure;
#[cfg(not(kani))]
use crate::ex::*;
use crate::gen::*;
#[cfg(not(kani))]
use crate::ta::*;
use powdr_autoprecompiles::execution::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C17
/// the state the scalar contracts are instantiated at
#[cfg(kani)]
pub struct TS;
#[cfg(kani)]
impl ExecutionState for TS {
    type RegisterAddress = u8;
    type Value = u64;
    fn pc(&self) -> u64 { 0 }
    fn value_limb(v: u64, _: usize) -> u64 { v }
    fn reg(&self, _: &u8) -> u64 { 0 }
    fn global_clk(&self) -> usize { 0 }
}
pub struct A7 { c: OptimisticConstraints<u8, u64>, cycles: usize, prio: usize }
impl Apc<TS> for A7 {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u8, u64> { &self.c }
    fn cycle_count(&self) -> usize { self.cycles }
    fn priority(&self) -> usize { self.prio }
}
/// two half-open ranges overlap exactly when some cycle is in both
#[cfg(any(kani, feature = "private"))]
pub fn xc_overlap<S: Src + ?Sized>(s: &mut S) -> R {
    let mut r = || { let a = s.u64() as usize; (a, s.u64() as usize) };
    let (a, b) = (r(), r());
    s.assume(a.0 < a.1 && b.0 < b.1)?;
    let got = ApcCandidates::<TS, A7, usize>::ranges_overlap(a, b);
    ensure!(got == (a.0.max(b.0) < a.1.min(b.1)), "overlap", a, b);
    let t = s.u64() as usize;
    if a.0 <= t && t < a.1 && b.0 <= t && t < b.1 { ensure!(got, "a common cycle", a, b, t); }
    ensure!(got == ApcCandidates::<TS, A7, usize>::ranges_overlap(b, a), "symmetric", a, b);
    Ok(())
}
/// a strict order: priority, then length, then the earlier candidate
#[cfg(any(kani, feature = "private"))]
pub fn xc_rank<S: Src + ?Sized>(s: &mut S) -> R {
    use powdr_autoprecompiles::execution::candidates::CandidateRank;
    use std::cmp::Ordering;
    let mut r = || CandidateRank { priority: s.u64() as usize, len: s.u64() as usize, candidate_id: s.u64() as usize };
    let (a, b) = (r(), r());
    let want = if a.priority != b.priority { a.priority > b.priority } else if a.len != b.len { a.len > b.len } else { a.candidate_id < b.candidate_id };
    let c = a.cmp(&b);
    ensure!((c == Ordering::Greater) == want, "rank", a, b);
    ensure!((c == Ordering::Equal) == (a == b) && b.cmp(&a) == c.reverse() && a.partial_cmp(&b) == Some(c), "an order", a, b);
    Ok(())
}
#[cfg(all(feature = "private", feature = "c17"))]
contracts!(contracts_c17p: xc_overlap, xc_rank);
proofs!(2: xc_overlap, xc_rank);

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::field::*;
    use crate::sys::n;
    use powdr_autoprecompiles::blocks::*;
    use powdr_autoprecompiles::empirical_constraints::*;
    use powdr_autoprecompiles::optimistic::algebraic_references::*;
    use powdr_autoprecompiles::optimistic::execution_constraint_generator::*;
    use powdr_autoprecompiles::symbolic_machine::*;
    use powdr_autoprecompiles::trace_handler::*;
    use powdr_autoprecompiles::{Apc as AutoPc, DegreeBound, Substitution};
    use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
    use rayon::iter::{IntoParallelIterator, ParallelIterator};
    use std::collections::HashMap;

    fn literal(s: &mut dyn Src, cycles: u32) -> OptimisticLiteral<u8> {
        OptimisticLiteral { instr_idx: s.choose(cycles + 1) as usize, val: if s.choose(3) == 0 { LocalOptimisticLiteral::Pc } else { LocalOptimisticLiteral::RegisterLimb(s.choose(2) as u8, s.choose(2) as usize) } }
    }
    fn oexpr(s: &mut dyn Src, cycles: u32) -> OptimisticExpression<u8, u64> {
        if s.choose(3) == 0 { OptimisticExpression::Number(s.choose(4) as u64) } else { OptimisticExpression::Literal(literal(s, cycles)) }
    }
    type OC = OptimisticConstraint<u8, u64>;
    fn oconstr(s: &mut dyn Src, cycles: u32, max: u32) -> Vec<OC> {
        (0..s.choose(max + 1)).map(|_| OptimisticConstraint { left: oexpr(s, cycles), right: oexpr(s, cycles) }).collect()
    }
    fn state(s: &mut dyn Src, clk: &mut usize) -> TS {
        *clk += 1 + s.choose(3) as usize;
        TS { pc: s.choose(2) as u64, regs: [s.choose(16) as u64, if s.flip() { 0 } else { s.choose(16) as u64 }], clk: *clk }
    }
    /// the value in a history of states, None when it is in the future
    fn val(e: &OptimisticExpression<u8, u64>, h: &[TS]) -> Option<u64> {
        match e {
            OptimisticExpression::Number(v) => Some(*v),
            OptimisticExpression::Literal(l) => h.get(l.instr_idx).map(|st| match l.val {
                LocalOptimisticLiteral::Pc => st.pc,
                LocalOptimisticLiteral::RegisterLimb(a, k) => TS::value_limb(st.regs[a as usize], k),
            }),
        }
    }
    /// every constraint that can be decided from this history holds
    fn fine(cs: &[OC], h: &[TS]) -> bool {
        cs.iter().all(|c| match (val(&c.left, h), val(&c.right, h)) { (Some(a), Some(b)) => a == b, _ => true })
    }
    /// a step is refused exactly when a constraint it makes decidable fails
    pub fn xc_eval(s: &mut dyn Src) -> R {
        let cycles = 1 + s.choose(3);
        let cs = oconstr(s, cycles, 4);
        let oc = OptimisticConstraints::from_constraints(cs.clone());
        let mut ev = OptimisticConstraintEvaluator::<u8, u64>::new();
        let (mut h, mut clk) = (vec![], 0);
        for k in 0..=cycles as usize {
            ensure!(ev.instruction_index() == k, "steps taken", k, ev.instruction_index());
            h.push(state(s, &mut clk));
            let ok = ev.try_next_execution_step(h.last().unwrap(), &oc).is_ok();
            ensure!(ok == fine(&cs, &h), "the verdict on a history", cs, h, ok);
            if !ok { break; }
        }
        let back: OptimisticConstraints<u8, u64> = serde_json::from_str(&serde_json::to_string(&oc).unwrap()).unwrap();
        ensure!(back == oc, "constraints survive serialization", cs);
        Ok(())
    }
    /// a tracker against the history of the execution
    pub fn xc_calls(s: &mut dyn Src) -> R {
        struct M { apc: usize, start: usize, end: Option<usize> }
        let apcs: Vec<(Vec<OC>, usize, usize)> = (0..1 + s.choose(3)).map(|_| { let k = 1 + s.choose(3); (if s.choose(3) == 0 { oconstr(s, k, 2) } else { vec![] }, k as usize, s.choose(3) as usize) }).collect();
        let mut real = ApcCandidates::<TS, A7, usize>::new(apcs.iter().map(|(c, k, q)| A7 { c: OptimisticConstraints::from_constraints(c.clone()), cycles: *k, prio: *q }).collect());
        let (mut model, mut h, mut clk): (Vec<M>, Vec<TS>, usize) = (vec![], vec![], 0);
        for _ in 0..3 + s.choose(7) {
            h.push(state(s, &mut clk));
            let now = h.len() - 1;
            let st = h[now].clone();
            real.check_conditions(&st, || st.clk + 1000);
            model.retain_mut(|m| {
                if m.end.is_some() { return true; }
                if !fine(&apcs[m.apc].0, &h[m.start..]) { return false; }
                if now - m.start == apcs[m.apc].1 { m.end = Some(now); }
                true
            });
            match s.choose(10) {
                0 | 1 => {
                    let mut got = real.extract_calls();
                    if model.iter().any(|m| m.end.is_none()) {
                        ensure!(got.is_empty(), "calls are returned while a candidate is in progress", got);
                    } else {
                        let all = std::mem::take(&mut model);
                        let r = judge(&apcs, &all.iter().map(|m| (m.apc, h[m.start].clk, h[m.end.unwrap()].clk)).collect::<Vec<_>>(), &got);
                        ensure!(r.is_ok(), "the calls extracted", r);
                        got.clear();
                    }
                }
                2 => {
                    let got = real.abort_in_progress();
                    let want: Vec<usize> = model.iter().filter(|m| m.end.is_none()).map(|m| m.apc).collect();
                    model.retain(|m| m.end.is_some());
                    ensure!(got == want, "the candidates aborted", got, want);
                }
                _ => {}
            }
            for a in 0..apcs.len() {
                if s.choose(3) > 0 { continue; }
                let ok = real.try_insert(&st, a, || st.clk + 1000).is_ok();
                ensure!(ok == fine(&apcs[a].0, &h[now..]), "the candidates admitted", apcs[a].0, st);
                if ok { model.push(M { apc: a, start: now, end: None }); }
            }
        }
        Ok(())
    }
    fn judge(apcs: &[(Vec<OC>, usize, usize)], all: &[(usize, usize, usize)], got: &[ApcCall<usize>]) -> Result<(), String> {
        // which candidates were kept, in order
        let mut at = 0;
        let mut kept = vec![];
        for g in got {
            let Some(i) = (at..all.len()).find(|i| { let c = &all[*i]; (c.0, c.1 + 1000, c.2 + 1000) == (g.apc_id, g.from, g.to) }) else { return Err(format!("{g:?} is not a candidate that is done, or out of order: {all:?}")) };
            kept.push(i);
            at = i + 1;
        }
        let over = |i: usize, j: usize| all[i].1.max(all[j].1) < all[i].2.min(all[j].2);
        let rank = |i: usize| (apcs[all[i].0].2, all[i].2 - all[i].1, usize::MAX - i);
        for (x, i) in kept.iter().enumerate() {
            if let Some(j) = kept[..x].iter().find(|j| over(*i, **j)) { return Err(format!("calls {:?} and {:?} overlap", all[*i], all[*j])); }
        }
        for i in 0..all.len() {
            if kept.contains(&i) { continue; }
            // equal entries are interchangeable
            // pairs are compared from the oldest on: by then, j had lost against any kept call older than both
            if !(0..all.len()).any(|j| j != i && over(i, j) && rank(j) > rank(i) && !kept.iter().any(|k| *k < i.min(j) && over(*k, j) && rank(*k) > rank(j))) { return Err(format!("{:?} is dropped though everything that beats it lost before: {all:?}", all[i])); }
        }
        Ok(())
    }
    contracts!(contracts_c17: xc_eval, xc_calls);

    // -------------------------------------------------------------- C18
    type Part = Partition<u32>;
    fn same<T: PartialEq + Clone + Eq + std::hash::Hash>(p: &Partition<T>, a: &T, b: &T) -> bool {
        a == b || p.to_classes().iter().any(|c| c.contains(a) && c.contains(b))
    }
    fn part(s: &mut dyn Src, nv: u32, k: u32) -> (Vec<u32>, Part) {
        let label: Vec<u32> = (0..nv).map(|_| s.choose(k)).collect();
        let p = (0..k).map(|c| (0..nv).filter(|i| label[*i as usize] == c).collect::<Vec<u32>>()).collect::<Part>();
        (label, p)
    }
    /// a partition is the equivalence relation it was built from
    pub fn em_part(s: &mut dyn Src) -> R {
        const N: u32 = 6;
        macro_rules! is { ($p:expr, $f:expr, $what:literal) => {{
            let p: &Part = $p;
            let cl = p.to_classes();
            ensure!(cl.iter().all(|c| c.len() > 1) && cl.iter().flatten().collect::<BTreeSet<_>>().len() == cl.iter().map(Vec::len).sum::<usize>(), "classes are disjoint and have several elements", $what, cl);
            for a in 0..N { for b in 0..N { ensure!(same(p, &a, &b) == $f(a as usize, b as usize), $what, cl, a, b); } }
        }} }
        let (la, a) = part(s, N, 3);
        let (lb, b) = part(s, N, 2);
        is!(&a, |x: usize, y: usize| la[x] == la[y], "a partition from its classes");
        is!(&a.clone().intersected_with(b.clone()), |x: usize, y: usize| la[x] == la[y] && lb[x] == lb[y], "intersection");
        let mut ps: Vec<(Vec<u32>, Part)> = vec![(la.clone(), a.clone()), (lb.clone(), b.clone())];
        for _ in 0..s.choose(3) { let k = 1 + s.choose(2); ps.push(part(s, N, k)); }
        let long = if s.choose(4) == 0 { let (all, k) = ([60usize, 63, 64, 65, 128, 129, 200], s.choose(7)); all[k as usize] } else { ps.len() };
        let at = s.choose(long as u32) as usize;
        // mostly the coarsest partition, with the interesting ones placed from `at` on
        let one = (vec![0; N as usize], (0..1).map(|_| (0..N).collect::<Vec<u32>>()).collect::<Part>());
        let list: Vec<(Vec<u32>, Part)> = (0..long).map(|i| ps.get((i + long - at) % long).unwrap_or(&one).clone()).collect();
        let all = |x: usize, y: usize| list.iter().all(|(l, _)| l[x] == l[y]);
        is!(&Part::intersect_many(list.iter().map(|x| x.1.clone())), all, "intersection of many");
        is!(&Part::parallel_intersect(list.iter().map(|x| x.1.clone()).collect::<Vec<_>>().into_par_iter()), all, "parallel intersection");
        let m = b.clone().map_elements(|x| x + N);
        let c = a.clone().combine(m);
        for x in 0..2 * N { for y in 0..2 * N {
            let want = x / N == y / N && if x < N { la[x as usize] == la[y as usize] } else { lb[(x - N) as usize] == lb[(y - N) as usize] };
            ensure!(same(&c, &x, &y) == want, "combination of disjoint partitions", x, y, la, lb);
        } }
        let back: Part = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
        ensure!(back == c, "serialization", la, lb);
        let eq = (0..N as usize).all(|x| (0..N as usize).all(|y| (la[x] == la[y]) == (lb[x] == lb[y])));
        ensure!((a == b) == eq, "equality", la, lb);
        Ok(())
    }
    type Ranges = BTreeMap<u32, Vec<(u32, u32)>>;
    type Classes = BTreeMap<u64, Partition<BlockCell>>;
    const COLS: usize = 2;
    fn cells(k: usize) -> Vec<BlockCell> {
        (0..k).flat_map(|i| (0..COLS).map(move |c| BlockCell::new(i, c))).collect()
    }
    /// learned about blocks of two instructions at pc 0, 8 and 16
    fn learned(s: &mut dyn Src) -> EmpiricalConstraints {
        let mut e = EmpiricalConstraints::default();
        for pc in [0u32, 4, 8, 12, 16, 20] {
            if s.choose(4) > 0 {
                let r = (0..if s.choose(5) == 0 { 1 } else { COLS }).map(|_| { let lo = s.choose(3); (lo, lo + if s.flip() { 0 } else { s.choose(3) }) }).collect();
                e.column_ranges_by_pc.insert(pc, r);
            }
            if s.choose(4) > 0 { e.pc_counts.insert(pc, [0u64, 1, 99, 100, 101, 500][s.choose(6) as usize]); }
        }
        for pc in [0u64, 8, 16] {
            if s.choose(4) > 0 {
                let l: Vec<u32> = (0..2 * COLS).map(|_| s.choose(2)).collect();
                let cs = cells(2);
                e.equivalence_classes_by_block.insert(pc, (0..2).map(|k| (0..cs.len()).filter(|i| l[*i] == k).map(|i| cs[i]).collect::<Vec<_>>()).collect());
            }
        }
        e.debug_info.air_id_by_pc.insert(s.choose(2), 7);
        e.debug_info.column_names_by_air_id.insert(7, vec!["a".into()]);
        e
    }
    /// learning from several executions: nothing is claimed that one of them refutes
    pub fn em_combine(s: &mut dyn Src) -> R {
        let k = 1 + s.choose(3) as usize;
        let parts: Vec<(Ranges, Classes, BTreeMap<u32, u64>, EmpiricalConstraints)> = (0..k).map(|_| { let e = learned(s); (e.column_ranges_by_pc.clone(), e.equivalence_classes_by_block.clone(), e.pc_counts.clone(), e) }).collect();
        let mut all = EmpiricalConstraints::default();
        let mut keep = vec![];
        for (r, c, n, e) in parts { keep.push((r, c, n)); all.combine_with(e); }
        for pc in [0u32, 4, 8, 12, 16, 20] {
            let rs: Vec<&Vec<(u32, u32)>> = keep.iter().filter_map(|x| x.0.get(&pc)).collect();
            let got = all.column_ranges_by_pc.get(&pc);
            ensure!(got.is_some() == !rs.is_empty(), "a range is lost or made up", pc);
            for (i, (lo, hi)) in got.into_iter().flatten().enumerate() {
                let have: Vec<&(u32, u32)> = rs.iter().filter_map(|r| r.get(i)).collect();
                ensure!(have.iter().map(|x| x.0).min() == Some(*lo) && have.iter().map(|x| x.1).max() == Some(*hi), "a range is not the hull of what was seen", pc, i, lo, hi, rs);
            }
            ensure!(all.pc_counts.get(&pc).copied().unwrap_or(0) == keep.iter().map(|x| x.2.get(&pc).copied().unwrap_or(0)).sum::<u64>(), "counts", pc);
        }
        for pc in [0u64, 8, 16] {
            let ps: Vec<&Partition<BlockCell>> = keep.iter().filter_map(|x| x.1.get(&pc)).collect();
            let got = all.equivalence_classes_by_block.get(&pc);
            ensure!(got.is_some() == !ps.is_empty(), "classes are lost or made up", pc);
            for a in cells(2) { for b in cells(2) {
                ensure!(got.map_or(true, |p| same(p, &a, &b) == ps.iter().all(|p| same(p, &a, &b))), "an equality that an execution refutes, or a common one lost", pc, a, b);
            } }
        }
        let counts = all.pc_counts.clone();
        let (r, c) = (all.column_ranges_by_pc.clone(), all.equivalence_classes_by_block.clone());
        let t = all.apply_pc_threshold();
        let often = |pc: u32| counts.get(&pc).copied().unwrap_or(0) >= 100;
        ensure!(t.column_ranges_by_pc == r.into_iter().filter(|(pc, _)| often(*pc)).collect::<Ranges>(), "threshold on ranges", counts);
        ensure!(t.equivalence_classes_by_block == c.into_iter().filter(|(pc, _)| often(*pc as u32)).collect::<Classes>() && t.pc_counts == counts, "threshold on classes", counts);
        let back: EmpiricalConstraints = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
        ensure!(back.column_ranges_by_pc == t.column_ranges_by_pc && back.equivalence_classes_by_block == t.equivalence_classes_by_block && back.pc_counts == t.pc_counts && back.debug_info.air_id_by_pc == t.debug_info.air_id_by_pc, "serialization");
        Ok(())
    }
    /// what is learned about blocks, applied to a superblock, filtered, and turned into constraints
    pub fn em_block(s: &mut dyn Src) -> R {
        type F = Fp<11>;
        let e = learned(s);
        let parts: Vec<BasicBlock<TI>> = (0..1 + s.choose(3)).map(|_| BasicBlock { start_pc: 8 * s.choose(3) as u64, instructions: (0..2).map(|i| TI { op: 0, imm: i, branching: false, allowed: true }).collect() }).collect();
        let block = SuperBlock::from(parts.clone());
        let k = 2 * parts.len();
        let cs = cells(k);
        let pcs: Vec<u32> = parts.iter().flat_map(|b| [b.start_pc as u32, b.start_pc as u32 + 4]).collect();
        // column c of instruction i has id 3 * i + 7 * c, in no particular order
        let id = |c: &BlockCell| { let i = cs.iter().position(|x| x == c).unwrap(); (i * 5 % (2 * k + 1)) as u64 };
        s.assume(cs.iter().map(id).collect::<BTreeSet<_>>().len() == cs.len())?;
        let subs: Vec<Vec<u64>> = (0..k).map(|i| (0..COLS).map(|c| id(&BlockCell::new(i, c))).collect()).collect();
        // some columns no longer occur in the machine
        let gone: BTreeSet<u64> = if s.flip() { (0..s.choose(3)).map(|_| s.choose(2 * k as u32 + 1) as u64).collect() } else { Default::default() };
        let mapper = BlockCellAlgebraicReferenceMapper::new(&subs, cs.iter().map(id).filter(|i| !gone.contains(i)).map(rf));
        for c in &cs {
            let here = !gone.contains(&id(c));
            ensure!(mapper.has_block_cell(c) == here && mapper.get_algebraic_reference(c).map(|r| r.id) == here.then(|| id(c)), "the column of a cell", c, subs);
        }
        let b = e.for_block(&block);
        let drop: Vec<BTreeSet<BlockCell>> = (0..s.choose(3)).map(|_| (0..s.choose(4)).map(|_| cs[s.choose(cs.len() as u32) as usize]).collect()).collect();
        let mut keep: BTreeSet<BlockCell> = cs.iter().copied().collect();
        let mut b = b;
        for d in &drop {
            b = b.filtered(|c| !d.contains(c));
            keep.retain(|c| !d.contains(c));
        }
        // cells without a column must be filtered out before constraints are generated
        if !gone.is_empty() {
            b = b.filtered(|c| mapper.has_block_cell(c));
            keep.retain(|c| mapper.has_block_cell(c));
        }
        let got: Vec<EqualityConstraint<F>> = ConstraintGenerator::<TA<11>>::new(b, mapper, &block).generate_constraints();
        let mut want_n: BTreeSet<(u64, u64)> = BTreeSet::new();
        for (i, pc) in pcs.iter().enumerate() {
            for (c, (lo, hi)) in e.column_ranges_by_pc.get(pc).into_iter().flatten().enumerate() {
                // a range is shared by all instances of an instruction
                if lo == hi && (0..k).all(|j| pcs[j] != *pc || keep.contains(&BlockCell::new(j, c))) { want_n.insert((id(&BlockCell::new(i, c)), *lo as u64 % 11)); }
            }
        }
        let mut got_n: BTreeSet<(u64, u64)> = BTreeSet::new();
        let mut comp: BTreeMap<u64, u64> = cs.iter().map(|c| (id(c), id(c))).collect();
        for c in &got {
            match (&c.left, &c.right) {
                (EqualityExpression::Reference(a), EqualityExpression::Number(v)) => { got_n.insert((a.id, n(*v))); }
                (EqualityExpression::Reference(a), EqualityExpression::Reference(b)) => {
                    let (x, y) = (comp[&a.id], comp[&b.id]);
                    for v in comp.values_mut() { if *v == y { *v = x; } }
                }
                _ => ensure!(false, "an unexpected constraint"),
            }
        }
        ensure!(got_n == want_n, "the columns claimed to be constant", got_n, want_n, pcs);
        for a in &cs { for b in &cs {
            let (i, j) = (cs.iter().position(|x| x == a).unwrap(), cs.iter().position(|x| x == b).unwrap());
            let (bi, bj) = (i / (2 * COLS), j / (2 * COLS));
            let local = |x: usize| cells(2)[x % (2 * COLS)];
            let want = a == b || (bi == bj && keep.contains(a) && keep.contains(b) && e.equivalence_classes_by_block.get(&parts[bi].start_pc).is_some_and(|p| same(p, &local(i), &local(j))));
            ensure!((comp[&id(a)] == comp[&id(b)]) == want, "the columns claimed to be equal", a, b, pcs);
        } }
        // the constraints as polynomials, and as checks on the execution
        let lits: BTreeMap<_, OptimisticLiteral<Vec<F>>> = cs.iter().enumerate().map(|(i, c)| (rf(id(c)), OptimisticLiteral { instr_idx: i / COLS, val: LocalOptimisticLiteral::RegisterLimb(vec![F::from(id(c))], i) })).collect();
        let ex = generate_execution_constraints(&got, &lits);
        ensure!(ex.len() == got.len(), "one check per constraint");
        let same_e = |x: &EqualityExpression<F>, y: &OptimisticExpression<Vec<F>, u32>| match (x, y) {
            (EqualityExpression::Number(v), OptimisticExpression::Number(w)) => n(*v) == *w as u64,
            (EqualityExpression::Reference(r), OptimisticExpression::Literal(l)) => lits[r] == *l,
            _ => false,
        };
        for (g, x) in got.iter().zip(&ex) { ensure!(same_e(&g.left, &x.left) && same_e(&g.right, &x.right), "a check is not its constraint", x); }
        let v: Vec<F> = (0..2 * k + 1).map(|_| el(s)).collect();
        let env = |i: u64| v[i as usize];
        for g in got {
            let side = |x: &EqualityExpression<F>| match x { EqualityExpression::Number(v) => *v, EqualityExpression::Reference(r) => env(r.id) };
            let eq = side(&g.left) == side(&g.right);
            let c: SymbolicConstraint<F> = g.into();
            let zero = aeval(&c.expr, &env) == F::from(0u64);
            ensure!(zero == eq, "an equality as a polynomial", format!("{}", c.expr));
        }
        Ok(())
    }
    contracts!(contracts_c18: em_part, em_combine, em_block);

    // -------------------------------------------------------------- C19
    struct Tab { w: usize, rows: Vec<u64> }
    impl TraceTrait<Fp<11>> for Tab {
        type Values = Vec<u64>;
        fn width(&self) -> usize { self.w }
        fn values(&self) -> &Vec<u64> { &self.rows }
    }
    /// the records of the original instructions, appended to their tables as the calls execute,
    /// are found where the trace of the autoprecompile looks for them
    pub fn tr_rows(s: &mut dyn Src) -> R {
        type F = Fp<11>;
        let width: Vec<usize> = (0..2).map(|_| 1 + s.choose(3) as usize).collect();
        let airs: Vec<SM<F>> = width.iter().map(|w| SymbolicMachine { constraints: (0..*w).map(|c| ar::<F>(c as u64).into()).collect(), bus_interactions: vec![], derived_columns: vec![] }).collect();
        let h = TH::<F> { airs, bound: DegreeBound { identities: 3, bus_interactions: 2 } };
        let blocks: Vec<BasicBlock<TI>> = (0..1 + s.choose(2)).map(|b| BasicBlock { start_pc: 40 * b as u64, instructions: (0..1 + s.choose(3)).map(|i| TI { op: s.choose(2), imm: i, branching: false, allowed: true }).collect() }).collect();
        let code: Vec<TI> = blocks.iter().flat_map(|b| b.instructions.clone()).collect();
        // which columns survive, under which (increasing) ids
        let mut next = s.choose(3) as u64;
        let mut subs: Vec<Vec<Substitution>> = vec![];
        for i in &code {
            let none = s.choose(3) == 0;
            let mut l = vec![];
            for c in 0..width[i.op as usize] {
                if !none && s.choose(3) > 0 { l.push(Substitution { original_poly_index: c, apc_poly_id: next }); }
                next += 1 + s.choose(2) as u64;
            }
            subs.push(l);
        }
        let mut cols: BTreeSet<u64> = subs.iter().flatten().map(|x| x.apc_poly_id).collect();
        let valid = next + 3;
        cols.insert(valid);
        let machine: SM<F> = SymbolicMachine { constraints: cols.iter().rev().map(|c| ar::<F>(*c).into()).collect(), bus_interactions: vec![], derived_columns: vec![DerivedVariable::new(rf(valid), ComputationMethod::Constant(F::from(1u64)))] };
        let apc: AutoPc<F, TI, u8, u64> = AutoPc { block: SuperBlock::from(blocks), machine, subs: subs.clone(), optimistic_constraints: OptimisticConstraints::empty() };
        let calls = s.choose(4) as usize;
        let mut tabs: HashMap<u32, Tab> = (0..2).map(|o| (o, Tab { w: width[o as usize], rows: vec![] })).collect();
        for call in 0..calls {
            for (i, ins) in code.iter().enumerate() {
                if subs[i].is_empty() { continue; }
                let t = tabs.get_mut(&ins.op).unwrap();
                for c in 0..t.w { t.rows.push((call * 100 + i * 10 + c) as u64); }
            }
        }
        let d = generate_trace::<TH<F>, Tab, u8, u64>(&tabs, &h, calls, &apc);
        let index: BTreeMap<u64, usize> = cols.iter().copied().enumerate().map(|(i, c)| (c, i)).collect();
        ensure!(d.apc_poly_id_to_index == index, "column indices", d.apc_poly_id_to_index, index);
        ensure!(d.columns_to_compute.len() == 1 && d.columns_to_compute[0].variable.id == valid, "columns to compute");
        let kept: Vec<usize> = (0..code.len()).filter(|i| !subs[*i].is_empty()).collect();
        ensure!(d.dummy_values.len() == calls && d.dummy_trace_index_to_apc_index_by_instruction.len() == kept.len(), "one row per call, one mapping per instruction");
        for (call, row) in d.dummy_values.iter().enumerate() {
            ensure!(row.len() == kept.len(), "one record per instruction");
            for (k, r) in row.iter().enumerate() {
                let i = kept[k];
                ensure!(r.length == width[code[i].op as usize], "record length");
                let rec = &r.data[r.start..r.start + r.length];
                ensure!((0..r.length).all(|c| rec[c] == (call * 100 + i * 10 + c) as u64), "not the record of this instruction in this call", call, i, rec);
                let want: Vec<(usize, usize)> = subs[i].iter().map(|x| (x.original_poly_index, index[&x.apc_poly_id])).collect();
                ensure!(d.dummy_trace_index_to_apc_index_by_instruction[k] == want, "mapping", i);
            }
        }
        Ok(())
    }
    contracts!(contracts_c19: tr_rows);
}
#[cfg(not(kani))]
pub use native::*;
