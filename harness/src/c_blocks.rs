//! C16: basic blocks and superblocks.  C20: selection of the blocks to accelerate.
use crate::ensure;
use crate::field::*;
use crate::gen::*;
use crate::ta::*;
use powdr_autoprecompiles::adapter::*;
use powdr_autoprecompiles::blocks::*;
use powdr_autoprecompiles::bus_map::BusType;
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::evaluation::*;
use powdr_autoprecompiles::execution_profile::ExecutionProfile;
use powdr_autoprecompiles::pgo::*;
use powdr_autoprecompiles::symbolic_machine::*;
use powdr_autoprecompiles::*;
use rayon::iter::ParallelIterator;
use std::collections::{BTreeMap, BTreeSet, HashMap};
type A11 = TA<11>;
type F = Fp<11>;

fn ti(op: u32, imm: u32) -> TI {
    TI { op, imm, branching: false, allowed: true }
}
pub fn bl_collect(s: &mut dyn Src) -> R {
    let base = s.big(u32::MAX as u64);
    let k = s.choose(8);
    let code: Vec<TI> = (0..k).map(|i| TI { op: s.choose(2), imm: i, branching: s.choose(4) == 0, allowed: s.choose(5) > 0 }).collect();
    let targets: BTreeSet<u64> = (0..s.choose(4)).map(|_| base.wrapping_add(s.choose(44) as u64)).collect();
    let p = TP { base, code: code.clone() };
    let blocks = collect_basic_blocks::<A11>(&p, &targets);
    let flat: Vec<(u64, TI)> = blocks.iter().flat_map(|b| b.instructions.iter().enumerate().map(move |(i, x)| (b.start_pc + 4 * i as u64, x.clone()))).collect();
    let want: Vec<(u64, TI)> = code.iter().enumerate().map(|(i, x)| (base + 4 * i as u64, x.clone())).collect();
    ensure!(flat == want, "the blocks are not the program, in order, each at its address", flat, want);
    for b in &blocks {
        ensure!(!b.instructions.is_empty(), "an empty block");
        ensure!(b.instructions.len() == 1 || b.instructions.iter().all(|i| i.allowed), "an instruction that may not be accelerated shares a block", b);
        for (j, i) in b.instructions.iter().enumerate() {
            ensure!(j == 0 || !targets.contains(&(b.start_pc + 4 * j as u64)), "a jump target inside a block", b, targets);
            ensure!(j + 1 == b.instructions.len() || !i.branching, "a branch inside a block", b);
        }
        let sb = b.pcs().collect::<Vec<_>>();
        ensure!(sb.iter().copied().eq((0..b.instructions.len() as u64).map(|j| b.start_pc + 4 * j)), "pcs of a block", sb);
    }
    for w in blocks.windows(2) {
        let (l, r) = (w[0].instructions.last().unwrap(), &w[1].instructions[0]);
        ensure!(l.branching || !l.allowed || !r.allowed || targets.contains(&w[1].start_pc), "blocks are split without reason", w);
    }
    Ok(())
}
pub fn bl_find(s: &mut dyn Src) -> R {
    let hay: Vec<u32> = (0..s.choose(12)).map(|_| s.choose(2)).collect();
    let needle: Vec<u32> = (0..1 + s.choose(3)).map(|_| s.choose(2)).collect();
    let got = find_non_overlapping(&hay, &needle);
    let k = needle.len();
    let mut free = 0;
    for g in &got {
        ensure!(*g >= free && *g + k <= hay.len() && hay[*g..*g + k] == needle[..], "not an occurrence, or overlapping", hay, needle, got);
        ensure!((free..*g).all(|i| hay[i..i + k] != needle[..]), "an occurrence is skipped", hay, needle, got);
        free = g + k;
    }
    ensure!((free..hay.len()).all(|i| i + k > hay.len() || hay[i..i + k] != needle[..]), "an occurrence at the end is skipped", hay, needle, got);
    Ok(())
}
/// occurrences left to right, not overlapping
fn count(hay: &[u64], needle: &[u64]) -> u32 {
    let (mut i, mut c) = (0, 0);
    while i + needle.len() <= hay.len() {
        if &hay[i..i + needle.len()] == needle { c += 1; i += needle.len() } else { i += 1 }
    }
    c
}
fn program(s: &mut dyn Src) -> Vec<BasicBlock<TI>> {
    let mut pc = s.choose(5) as u64 * 4;
    (0..1 + s.choose(4)).map(|_| {
        let k = if s.choose(4) == 0 { 1 } else { 2 + s.choose(2) };
        let b = BasicBlock { start_pc: pc, instructions: (0..k).map(|i| ti(s.choose(2), i)).collect() };
        pc += 4 * (k as u64 + s.choose(2) as u64);
        b
    }).collect()
}
/// a run of the program, block by block
fn execution(s: &mut dyn Src, blocks: &[BasicBlock<TI>]) -> (Vec<u64>, Vec<u64>) {
    let walk: Vec<usize> = (0..s.choose(14)).map(|_| s.choose(blocks.len() as u32) as usize).collect();
    let pcs = walk.iter().flat_map(|i| blocks[*i].pcs().collect::<Vec<_>>()).collect();
    (walk.iter().map(|i| blocks[*i].start_pc).collect(), pcs)
}
fn runs_of(walk: &[u64], blocks: &[BasicBlock<TI>]) -> BTreeMap<Vec<u64>, u32> {
    let long: BTreeSet<u64> = blocks.iter().filter(|b| b.instructions.len() > 1).map(|b| b.start_pc).collect();
    let mut runs: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
    for r in walk.split(|p| !long.contains(p)).filter(|r| !r.is_empty()) { *runs.entry(r.to_vec()).or_default() += 1; }
    runs
}
pub fn bl_detect(s: &mut dyn Src) -> R {
    let blocks = program(s);
    let (walk, pcs) = execution(s, &blocks);
    let max = 1 + s.choose(4) as u8;
    let (limit, cutoff) = (if s.flip() { None } else { Some(2 + s.choose(6)) }, if s.flip() { None } else { Some(s.choose(4)) });
    let cfg = PowdrConfig::new(3, 0, DegreeBound { identities: 3, bus_interactions: 2 }).with_superblocks(max, limit, cutoff);
    let mut shuffled = blocks.clone();
    if s.flip() { shuffled.reverse(); }
    let got = detect_superblocks(&cfg, &pcs, shuffled);
    let runs = runs_of(&walk, &blocks);
    let seen: BTreeMap<Vec<u64>, u32> = got.execution_bb_runs.iter().map(|(r, c)| (r.0.clone(), *c)).collect();
    ensure!(seen == runs && got.execution_bb_runs.len() == runs.len(), "the runs of the execution", seen, runs);
    let mut want: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
    let subs: BTreeSet<Vec<u64>> = runs.keys().flat_map(|r| (1..=(max as usize).min(r.len())).flat_map(move |k| r.windows(k).map(|w| w.to_vec()))).collect();
    for b in subs {
        let c: u32 = runs.iter().map(|(r, n)| n * count(r, &b)).sum();
        let len: usize = b.iter().map(|p| blocks.iter().find(|x| x.start_pc == *p).unwrap().instructions.len()).sum();
        if c >= cutoff.unwrap_or(1) && len <= limit.unwrap_or(u32::MAX) as usize { want.insert(b, c); }
    }
    let have: BTreeMap<Vec<u64>, u32> = got.blocks.iter().map(|b| (b.block.start_pcs(), b.count)).collect();
    ensure!(have == want && have.len() == got.blocks.len(), "the superblocks and how often each can run", have, want);
    for b in &got.blocks {
        for x in b.block.blocks() {
            let o = blocks.iter().find(|y| y.start_pc == x.start_pc).unwrap();
            ensure!(o.instructions == x.instructions, "a block's instructions", x.start_pc);
        }
    }
    Ok(())
}
pub fn bl_super(s: &mut dyn Src) -> R {
    let pool = program(s);
    let parts: Vec<BasicBlock<TI>> = (0..1 + s.choose(4)).map(|_| pool[s.choose(pool.len() as u32) as usize].clone()).collect();
    let sb = SuperBlock::from(parts.clone());
    let flat: Vec<(u64, TI)> = parts.iter().flat_map(|b| b.instructions.iter().enumerate().map(move |(i, x)| (b.start_pc + 4 * i as u64, x.clone()))).collect();
    ensure!(sb.instructions().map(|(p, i)| (p, i.clone())).collect::<Vec<_>>() == flat, "instructions");
    ensure!(sb.par_instructions().map(|(p, i)| (p, i.clone())).collect::<Vec<_>>() == flat, "parallel instructions");
    ensure!(sb.pcs().eq(flat.iter().map(|x| x.0)), "pcs");
    ensure!(sb.start_pcs().into_iter().eq(parts.iter().map(|b| b.start_pc)), "start pcs");
    ensure!(sb.is_basic_block() == (parts.len() == 1) && sb.try_as_basic_block().is_some() == (parts.len() == 1), "basic block");
    let idx = sb.instruction_indexed_start_pcs();
    ensure!(idx.len() == parts.len(), "one entry per block");
    let mut at = 0;
    for (k, (i, pc)) in idx.into_iter().enumerate() {
        ensure!(i == at && pc == parts[k].start_pc && flat[i].0 == pc, "index of a block's first instruction", i, at, pc);
        at += parts[k].instructions.len();
    }
    let m = sb.clone().map_instructions(|i| ti(i.op + 7, i.imm * 2));
    ensure!(m.start_pcs() == sb.start_pcs() && m.instructions().map(|(p, i)| (p, i.op, i.imm)).eq(flat.iter().map(|(p, i)| (*p, i.op + 7, i.imm * 2))), "mapped instructions");
    Ok(())
}

// ------------------------------------------------------------------ selection
/// a chain of tables, wider for higher opcodes, with a free jump
fn airs() -> Vec<SM<F>> {
    (0..2u64).map(|op| {
        let bus = |id: u64, mult: AE<F>, args: Vec<AE<F>>| SymbolicBusInteraction { id, mult, args };
        let mut m = SM { constraints: vec![], derived_columns: vec![], bus_interactions: vec![
            bus(6, -ar::<F>(0), vec![ar(1), ar(2)]),
            bus(6, ar(0), vec![ar(2 * op + 5), ar::<F>(2) + an(1)]),
            bus(0, ar(0), vec![ar(1), an(op), ar(3)]),
        ] };
        for i in 0..2 * op + 1 { m.bus_interactions.push(bus(4, ar(0), vec![ar(4 + i), an(i)])); }
        m
    }).collect()
}
/// cost and value made up from the block, so that they are known in advance
pub struct Cand(AdapterApcWithStats<A11>);
fn cost(pcs: &[u64]) -> usize { 1 + pcs.iter().map(|p| (p / 4 * 7 % 5) as usize).sum::<usize>() }
fn value(pcs: &[u64]) -> usize { 1 + pcs.iter().map(|p| (p / 4 * 3 % 4) as usize).sum::<usize>() * pcs.len() }
impl ApcCandidate<A11> for Cand {
    fn create(a: AdapterApcWithStats<A11>) -> Self { Cand(a) }
    fn inner(&self) -> &AdapterApcWithStats<A11> { &self.0 }
    fn into_inner(self) -> AdapterApcWithStats<A11> { self.0 }
    fn cost_before_opt(&self) -> usize { 100 }
    fn cost_after_opt(&self) -> usize { cost(&self.0.apc().start_pcs()) }
    fn value_per_use(&self) -> usize { value(&self.0.apc().start_pcs()) }
}
/// remove the occurrences of a block from the runs
fn strip(runs: &[(Vec<u64>, u32)], b: &[u64]) -> (u32, Vec<(Vec<u64>, u32)>) {
    let (mut c, mut out) = (0, vec![]);
    for (r, m) in runs {
        let (mut i, mut cur) = (0, vec![]);
        while i < r.len() {
            if i + b.len() <= r.len() && r[i..i + b.len()] == b[..] {
                c += m;
                i += b.len();
                out.push((std::mem::take(&mut cur), *m));
            } else { cur.push(r[i]); i += 1 }
        }
        out.push((cur, *m));
    }
    out.retain(|x| !x.0.is_empty());
    (c, out)
}
/// a greedy choice: at each step the best ratio of value to cost among the blocks that still fit
/// and still occur in what is left of the execution; nothing that fits and occurs is left at the end
fn greedy_ok(all: &[(Vec<u64>, u32)], runs: &BTreeMap<Vec<u64>, u32>, budget: usize, max: usize, sel: &[Vec<u64>]) -> Result<(), String> {
    let mut rest: Vec<Vec<u64>> = all.iter().map(|x| x.0.clone()).collect();
    let mut ex: Vec<(Vec<u64>, u32)> = runs.iter().map(|(r, n)| (r.clone(), *n)).collect();
    let mut spent = 0;
    if sel.len() > max { return Err("too many".into()); }
    for (k, b) in sel.iter().map(Some).chain([None]).enumerate() {
        let live: Vec<(Vec<u64>, u64, u64)> = rest.iter().filter(|x| spent + cost(x) <= budget).map(|x| (x.clone(), strip(&ex, x).0 as u64 * value(x) as u64, cost(x) as u64)).filter(|x| x.1 > 0).collect();
        let Some(b) = b else {
            if k < max && !live.is_empty() { return Err(format!("{:?} is left out", live[0].0)); }
            break;
        };
        let Some(me) = live.iter().find(|x| x.0 == *b) else { return Err(format!("{b:?} does not fit, does not occur or is chosen twice")) };
        if let Some(o) = live.iter().find(|o| o.1 * me.2 > me.1 * o.2) { return Err(format!("{:?} is better than {b:?}", o.0)); }
        spent += cost(b);
        ex = strip(&ex, b).1;
        rest.retain(|x| x != b);
    }
    Ok(())
}
fn handler() -> TH<F> {
    TH { airs: airs(), bound: DegreeBound { identities: 3, bus_interactions: 2 } }
}
fn vm(h: &TH<F>) -> AdapterVmConfig<'_, A11> {
    VmConfig { instruction_handler: h, bus_interaction_handler: crate::sys::Table, bus_map: crate::c_apc::bus_map() }
}
fn profile(pcs: &[u64]) -> ExecutionProfile {
    let mut pc_count = HashMap::new();
    for p in pcs { *pc_count.entry(*p).or_insert(0) += 1; }
    ExecutionProfile { pc_count, pc_list: pcs.to_vec() }
}
/// the three modes, from the basic blocks of a program and an execution to the blocks accelerated
pub fn pg_modes(s: &mut dyn Src) -> R {
    let blocks = program(s);
    let (walk, pcs) = execution(s, &blocks);
    let (num, skip) = (s.choose(4) as u64, s.choose(3) as u64);
    let mode = s.choose(3);
    let sup = if mode == 0 { 1 + s.choose(3) as u8 } else { 1 };
    let cutoff = if s.flip() { 1 } else { 1 + s.choose(3) };
    let cfg = PowdrConfig::new(num, skip, DegreeBound { identities: 3, bus_interactions: 2 }).with_superblocks(sup, None, Some(cutoff));
    let h = handler();
    let budget = if s.flip() { None } else { Some(s.choose(12) as usize) };
    let runs = runs_of(&walk, &blocks);
    let all: Vec<(Vec<u64>, u32)> = detect_superblocks(&cfg, &pcs, blocks.clone()).blocks.iter().map(|b| (b.block.start_pcs(), b.count)).collect();
    let (lb, emp) = (BTreeMap::new(), EmpiricalConstraints::default());
    let got = match mode {
        0 => CellPgo::<A11, Cand>::with_pgo_data_and_max_columns(profile(&pcs), budget).filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &cfg, vm(&h), lb, emp),
        1 => InstructionPgo::<A11>::with_pgo_data(profile(&pcs)).filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &cfg, vm(&h), lb, emp),
        _ => NonePgo::<A11>::default().filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &cfg, vm(&h), lb, emp),
    };
    let sel: Vec<Vec<u64>> = got.iter().map(|a| a.apc().start_pcs()).collect();
    ensure!(sel.len() <= num as usize, "more autoprecompiles than asked for", sel, num);
    if num == 0 { return Ok(()); }
    let len = |b: &[u64]| -> usize { b.iter().map(|p| blocks.iter().find(|x| x.start_pc == *p).unwrap().instructions.len()).sum() };
    match mode {
        0 => {
            // the skipped ones are those an unskipped selection would return first
            let mut c0 = cfg.clone();
            c0.autoprecompiles = num + skip;
            c0.skip_autoprecompiles = 0;
            let full: Vec<Vec<u64>> = CellPgo::<A11, Cand>::with_pgo_data_and_max_columns(profile(&pcs), budget).filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &c0, vm(&h), BTreeMap::new(), EmpiricalConstraints::default()).iter().map(|a| a.apc().start_pcs()).collect();
            ensure!(sel[..] == full[(skip as usize).min(full.len())..], "the first ones are skipped", sel, full, skip);
            let r = greedy_ok(&all, &runs, budget.unwrap_or(usize::MAX / 2), (num + skip) as usize, &full);
            ensure!(r.is_ok(), "not a greedy choice within the budget", r, full, all, runs, budget);
        }
        _ => {
            let weight = |b: &Vec<u64>| if mode == 1 { len(b) as u32 * all.iter().find(|x| x.0 == *b).unwrap().1 } else { len(b) as u32 };
            let mut cands: Vec<Vec<u64>> = if mode == 1 { all.iter().map(|x| x.0.clone()).collect() } else { blocks.iter().filter(|b| b.instructions.len() > 1).map(|b| vec![b.start_pc]).collect() };
            cands.sort_by_key(|b| std::cmp::Reverse(weight(b)));
            let want: Vec<u32> = cands.iter().skip(skip as usize).take(num as usize).map(|b| weight(b)).collect();
            ensure!(sel.iter().map(|b| weight(b)).eq(want.iter().copied()), "not the blocks with the highest value", sel, cands, want);
            ensure!(sel.iter().collect::<BTreeSet<_>>().len() == sel.len(), "a block is chosen twice", sel);
        }
    }
    for a in &got {
        let e = a.evaluation_result();
        let b = &a.apc().block;
        let before: AirStats = b.instructions().map(|(_, i)| AirStats::new(&h.airs[i.op as usize])).sum();
        ensure!(e.before == before && e.after.main_columns == mrefs(a.apc().machine()).len() && e.after.constraints == a.apc().machine().constraints.len() && e.after.bus_interactions == a.apc().machine().bus_interactions.len(), "statistics of an autoprecompile");
        let o: Vec<TI> = b.instructions().map(|(_, i)| i.clone()).collect();
        let w: Vec<TI> = b.start_pcs().iter().flat_map(|p| blocks.iter().find(|x| x.start_pc == *p).unwrap().instructions.clone()).collect();
        ensure!(o == w, "the block of an autoprecompile");
    }
    Ok(())
}
contracts!(contracts_c16: bl_collect, bl_find, bl_detect, bl_super);
contracts!(contracts_c20: pg_modes);
