//! A small VM: the test adapter at which the generic autoprecompile code is run.
use crate::ex::*;
use crate::field::*;
use crate::gen::*;
use crate::sys::*;
use powdr_autoprecompiles::adapter::*;
use powdr_autoprecompiles::blocks::*;
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::ExecutionState;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::memory_optimizer::*;
use powdr_autoprecompiles::symbolic_machine::*;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::range_constraint_optimizer::*;
use powdr_autoprecompiles::*;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use std::fmt::Display;
use powdr_constraint_solver::constraint_system::*;
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_expression::{AlgebraicBinaryOperator as BinOp, AlgebraicUnaryOperator};
use powdr_number::FieldElement;
use serde::{Deserialize, Serialize};
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;
use std::sync::Arc;

pub type AE<F> = AlgebraicExpression<F>;
pub type SM<F> = SymbolicMachine<F>;

pub fn rf(id: u64) -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(format!("c{id}")), id }
}
pub fn ar<F: FieldElement>(id: u64) -> AE<F> {
    AE::Reference(rf(id))
}
pub fn an<F: FieldElement>(x: u64) -> AE<F> {
    AE::Number(F::from(x))
}
/// the meaning of an algebraic expression
pub fn aeval<F: FieldElement>(e: &AE<F>, env: &dyn Fn(u64) -> F) -> F {
    match e {
        AE::Number(n) => *n,
        AE::Reference(r) => env(r.id),
        AE::BinaryOperation(b) => {
            let (x, y) = (aeval(&b.left, env), aeval(&b.right, env));
            match b.op { BinOp::Add => x + y, BinOp::Sub => x - y, BinOp::Mul => x * y }
        }
        AE::UnaryOperation(u) => match u.op { AlgebraicUnaryOperator::Minus => -aeval(&u.expr, env) },
    }
}
pub fn geval<F: FieldElement>(e: &GroupedExpression<F, AlgebraicReference>, env: &dyn Fn(u64) -> F) -> F {
    let mut r = *e.constant_offset();
    for (a, b) in e.quadratic_components() { r += geval(a, env) * geval(b, env); }
    for (v, c) in e.linear_components() { r += *c * env(v.id); }
    r
}
/// the degree of an expression as written
pub fn adeg<F: FieldElement>(e: &AE<F>) -> usize {
    match e {
        AE::Number(_) => 0,
        AE::Reference(_) => 1,
        AE::BinaryOperation(b) => { let (x, y) = (adeg(&b.left), adeg(&b.right)); if b.op == BinOp::Mul { x + y } else { x.max(y) } }
        AE::UnaryOperation(u) => adeg(&u.expr),
    }
}
pub fn arefs<F: FieldElement>(e: &AE<F>, out: &mut std::collections::BTreeSet<u64>) {
    match e {
        AE::Number(_) => {}
        AE::Reference(r) => { out.insert(r.id); }
        AE::BinaryOperation(b) => { arefs(&b.left, out); arefs(&b.right, out) }
        AE::UnaryOperation(u) => arefs(&u.expr, out),
    }
}
pub fn mrefs<F: FieldElement>(m: &SM<F>) -> std::collections::BTreeSet<u64> {
    let mut o = Default::default();
    for c in &m.constraints { arefs(&c.expr, &mut o); }
    for b in &m.bus_interactions { arefs(&b.mult, &mut o); for a in &b.args { arefs(a, &mut o); } }
    o
}
/// any expression over columns 0..nv
pub fn aexpr<F: FieldElement>(s: &mut dyn Src, nv: u32, depth: u32) -> AE<F> {
    match s.choose(if depth == 0 { 3 } else { 8 }) {
        0 => AE::Number(el(s)),
        1 | 2 => ar(s.choose(nv) as u64),
        3 => aexpr(s, nv, depth - 1) + aexpr(s, nv, depth - 1),
        4 => aexpr(s, nv, depth - 1) - aexpr(s, nv, depth - 1),
        5 | 6 => aexpr(s, nv, depth - 1) * aexpr(s, nv, depth - 1),
        _ => -aexpr(s, nv, depth - 1),
    }
}
/// the message of a bus interaction under an assignment
pub fn msg<F: FieldElement>(b: &SymbolicBusInteraction<F>, env: &dyn Fn(u64) -> F) -> (u64, F, Vec<F>) {
    (b.id, aeval(&b.mult, env), b.args.iter().map(|a| aeval(a, env)).collect())
}
pub fn msgs<F: FieldElement>(m: &SM<F>, env: &dyn Fn(u64) -> F) -> Vec<(u64, F, Vec<F>)> {
    m.bus_interactions.iter().map(|b| msg(b, env)).collect()
}
pub fn sat<F: FieldElement>(m: &SM<F>, env: &dyn Fn(u64) -> F) -> bool {
    m.constraints.iter().all(|c| aeval(&c.expr, env).is_zero())
}
pub fn shm<F: FieldElement>(m: &SM<F>) -> String {
    format!("{m}").replace('\n', "; ")
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct TI {
    /// which instruction table it belongs to
    pub op: u32,
    pub imm: u32,
    pub branching: bool,
    pub allowed: bool,
}
impl fmt::Display for TI {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "I{} {}", self.op, self.imm) }
}
impl PcStep for TI { fn pc_step() -> u32 { 4 } }
impl<F: FieldElement> Instruction<F> for TI {
    fn pc_lookup_row(&self, pc: u64) -> Vec<F> { vec![F::from(pc), F::from(self.op as u64), F::from(self.imm as u64)] }
}
pub struct TP { pub base: u64, pub code: Vec<TI> }
impl Program<TI> for TP {
    fn base_pc(&self) -> u64 { self.base }
    fn instructions(&self) -> Box<dyn Iterator<Item = TI> + '_> { Box::new(self.code.iter().cloned()) }
    fn length(&self) -> u32 { self.code.len() as u32 }
}
pub struct TH<F: FieldElement> { pub airs: Vec<SM<F>>, pub bound: DegreeBound }
impl<F: FieldElement> InstructionHandler for TH<F> {
    type Field = F;
    type Instruction = TI;
    type AirId = u32;
    fn degree_bound(&self) -> DegreeBound { self.bound }
    fn get_instruction_air_and_id(&self, i: &TI) -> (u32, &SM<F>) { (i.op, &self.airs[i.op as usize]) }
    fn get_instruction_air_stats(&self, i: &TI) -> AirStats { AirStats::new(&self.airs[i.op as usize]) }
}
/// bus 5: memory, payload [address, data, timestamp]
#[derive(Clone)]
pub struct TMem<F: FieldElement, V>(Vec<GroupedExpression<F, V>>, bool);
impl<F: FieldElement, V: Ord + Clone + Eq + fmt::Display + Hash> MemoryBusInteraction<F, V> for TMem<F, V> {
    type Address = [GroupedExpression<F, V>; 1];
    fn try_from_bus_interaction(b: &BusInteraction<GroupedExpression<F, V>>, id: u64) -> Result<Option<Self>, MemoryBusInteractionConversionError> {
        match b.bus_id.try_to_number() {
            None => return Err(MemoryBusInteractionConversionError),
            Some(i) if n(i) != id => return Ok(None),
            _ => {}
        }
        match b.multiplicity.try_to_number() {
            Some(m) if m == F::from(1u64) => Ok(Some(TMem(b.payload.clone(), true))),
            Some(m) if m == -F::from(1u64) => Ok(Some(TMem(b.payload.clone(), false))),
            _ => Err(MemoryBusInteractionConversionError),
        }
    }
    fn addr(&self) -> Self::Address { [self.0[0].clone()] }
    fn data(&self) -> &[GroupedExpression<F, V>] { &self.0[1..2] }
    fn timestamp_limbs(&self) -> &[GroupedExpression<F, V>] { &self.0[2..] }
    fn op(&self) -> MemoryOp { if self.1 { MemoryOp::SetNew } else { MemoryOp::GetPrevious } }
}
#[derive(Clone, Debug)]
pub struct TS { pub pc: u64, pub regs: [u64; 2], pub clk: usize }
impl ExecutionState for TS {
    type RegisterAddress = u8;
    type Value = u64;
    fn pc(&self) -> u64 { self.pc }
    fn value_limb(v: u64, limb: usize) -> u64 { (v >> (2 * limb)) & 3 }
    fn reg(&self, a: &u8) -> u64 { self.regs[*a as usize] }
    fn global_clk(&self) -> usize { self.clk }
}
pub struct TA<const P: u32>;
impl<const P: u32> Adapter for TA<P> {
    type Field = Fp<P>;
    type PowdrField = Fp<P>;
    type InstructionHandler = TH<Fp<P>>;
    type BusInteractionHandler = Table;
    type Program = TP;
    type Instruction = TI;
    type MemoryBusInteraction<V: Ord + Clone + Eq + fmt::Display + Hash> = TMem<Fp<P>, V>;
    type CustomBusTypes = String;
    type ApcStats = ();
    type AirId = u32;
    type ExecutionState = TS;
    fn into_field(e: Fp<P>) -> Fp<P> { e }
    fn from_field(e: Fp<P>) -> Fp<P> { e }
    fn apc_stats(_: Arc<AdapterApc<Self>>, _: &TH<Fp<P>>) {}
    fn is_branching(i: &TI) -> bool { i.branching }
    fn is_allowed(i: &TI) -> bool { i.allowed }
}
impl<F: FieldElement> IsBusStateful<F> for Table {
    fn is_stateful(&self, id: F) -> bool {
        n(id) >= 4
    }
}
impl<F: FieldElement> RangeConstraintHandler<F> for Table {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, b: &BusInteraction<GroupedExpression<F, V>>) -> Option<RangeConstraints<F, V>> {
        match (n(b.bus_id.try_to_number()?), &b.payload[..]) {
            (1, [x]) => Some(vec![(x.clone(), RangeConstraint::from_mask(3u64))]),
            (3, [x, w]) => match n(w.try_to_number()?) {
                w @ 0..=2 => Some(vec![(x.clone(), RangeConstraint::from_mask((1u64 << w) - 1))]),
                _ => None,
            },
            _ => None,
        }
    }
    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, rcs: RangeConstraints<F, V>) -> Result<Vec<BusInteraction<GroupedExpression<F, V>>>, MakeRangeConstraintsError> {
        let num = |x: u64| GroupedExpression::from_number(F::from(x));
        rcs.into_iter().enumerate().map(|(i, (e, rc))| {
            let w = (0..=2u64).find(|w| rc == RangeConstraint::from_mask((1u64 << w) - 1)).ok_or_else(|| MakeRangeConstraintsError(format!("{rc}")))?;
            Ok(if w == 2 && i % 2 == 0 { BusInteraction { bus_id: num(1), multiplicity: num(1), payload: vec![e] } } else { BusInteraction { bus_id: num(3), multiplicity: num(1), payload: vec![e, num(w)] } })
        }).collect()
    }
}
