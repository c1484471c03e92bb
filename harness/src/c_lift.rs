//! C21/C22, contracts over the lifter's own functions (private items, made visible in the copies):
//! decoding, one and two instruction lifting, address map, operands, jump target scan.
use crate::c_riscv::*;
use crate::ensure;
use crate::gen::*;
use powdr_riscv_elf::*;
use raki::instruction::{Extensions, Instruction as Ins, OpcodeKind as Op};
fn u(x: Option<usize>) -> Option<u32> { match x { Some(v) => Some(v as u32), None => None } }
pub fn same(i: &Ins, d: &D) -> bool {
    let imm = match (d.op, d.imm) {
        // fence: the predecessor/successor sets do not matter; atomics: the decoder reports the ordering bits
        (37, _) | (48.., _) => true,
        (_, x) => i.imm == x,
    };
    code(&i.opc) == d.op && (d.op == 37 || (u(i.rd) == d.rd && u(i.rs1) == d.rs1 && u(i.rs2) == d.rs2)) && imm
}
fn at<S: Src + ?Sized>(s: &mut S) -> u32 { s.u32() & 0xffff_fffc }
/// a 32-bit word is read at its address, with the operation and operands the manual gives
pub fn rv_word<S: Src + ?Sized>(s: &mut S) -> R {
    let w = if s.symbolic() { s.u32() } else { word(s) };
    let d = decode32(w);
    s.assume(d.is_some())?;
    let d = d.unwrap();
    let a = at(s);
    s.assume(a < u32::MAX - 8)?;
    let data = w.to_le_bytes();
    let mut it = RiscVInstructionIterator::new(a, &data);
    let m = it.next();
    ensure!(m.is_some(), "an instruction is there", w);
    let m = m.unwrap();
    ensure!(m.address == a, "its address", w);
    ensure!(m.insn.len() == 4, "its length", w);
    let UnimpOrInstruction::Instruction(i) = m.insn else { ensure!(false, "decoded as unimplemented", w, d); return Ok(()) };
    ensure!(same(&i, &d), "not the instruction of the manual", w, d, i);
    ensure!(it.curr_address == a + 4 && it.remaining_data.is_empty(), "advance", w);
    Ok(())
}
/// a compressed instruction becomes the 32-bit instruction the manual says it expands to
pub fn rv_half<S: Src + ?Sized>(s: &mut S) -> R {
    let h = if s.symbolic() { s.u32() as u16 } else { s.choose(65536) as u16 };
    let e = if h & 3 == 3 { None } else { expand16(h) };
    s.assume(e.is_some())?;
    let d = decode32(e.unwrap()).unwrap();
    let a = at(s);
    s.assume(a < u32::MAX - 8)?;
    let data = h.to_le_bytes();
    let mut it = RiscVInstructionIterator::new(a, &data);
    let m = it.next();
    ensure!(m.is_some(), "an instruction is there", h);
    let m = m.unwrap();
    ensure!(m.address == a && m.insn.len() == 2, "its address and length", h);
    let UnimpOrInstruction::Instruction(i) = m.insn else { ensure!(false, "decoded as unimplemented", h, d); return Ok(()) };
    ensure!(same(&i, &d), "not the expansion of the manual", h, d, i);
    ensure!(it.curr_address == a + 2 && it.remaining_data.is_empty(), "advance", h);
    Ok(())
}
/// one instruction lifted alone keeps its operation, its registers and its immediate
pub fn rv_single<S: Src + ?Sized>(s: &mut S) -> R {
    let w = if s.symbolic() { s.u32() } else { word(s) };
    let d = decode32(w);
    s.assume(d.is_some())?;
    let d = d.unwrap();
    let a = at(s) & 0x7fff_fffc;
    // the manual's target must be an address (no wrap around the address space)
    s.assume(a >= 0x20_0000 && a < 0x7fd0_0000)?;
    s.assume(d.op != 3 || d.imm == Some(0))?;
    let i = Ins { opc: op_of(d.op), rd: d.rd.map(|x| x as usize), rs1: d.rs1.map(|x| x as usize), rs2: d.rs2.map(|x| x as usize), imm: d.imm,
                  extension: if d.op >= 48 { Extensions::A } else if s.flip() { Extensions::C } else { Extensions::BaseI }, inst_format: raki::instruction::InstFormat::Iformat };
    let size = if matches!(i.extension, Extensions::C) { 2 } else { 4 };
    let set = std::collections::BTreeSet::new();
    let none = std::collections::BTreeSet::new();
    let map = AddressMap(std::collections::BTreeMap::new());
    let mut l = InstructionLifter { rellocs_set: &none, address_map: &map, referenced_text_addrs: ReadOrWrite::Read(&set) };
    let h = l.map_one(MaybeInstruction { address: a, insn: UnimpOrInstruction::Instruction(i) });
    ensure!(h.loc.address == a && h.loc.size == size, "location", h);
    ensure!(h.args.rd == d.rd, "rd", h, d);
    if d.op == 1 {
        ensure!(h.args.rs1.is_none() && h.args.rs2.is_none(), "auipc becomes li", h);
        ensure!(matches!(h.args.imm, HighLevelImmediate::Value(v) if v == d.imm.unwrap().wrapping_add(a as i32)), "auipc's value", h);
        #[cfg(not(kani))]
        ensure!(h.op == "li", "auipc becomes li", h);
        return Ok(());
    }
    ensure!(h.args.rs1 == d.rs1 && h.args.rs2 == d.rs2, "source registers", h, d);
    let good = match (d.op, &h.args.imm) {
        (2 | 4..=9, HighLevelImmediate::CodeLabel(t)) => *t == (a as i64 + d.imm.unwrap() as i64) as u32,
        (0, HighLevelImmediate::Value(v)) => v << 12 == d.imm.unwrap(),
        (48.., HighLevelImmediate::None) => true,
        (0 | 2 | 4..=9 | 48.., _) => false,
        (_, HighLevelImmediate::Value(v)) => d.imm == Some(*v),
        (_, HighLevelImmediate::None) => d.imm.is_none(),
        _ => false,
    };
    ensure!(good, "immediate", h, d);
    #[cfg(not(kani))]
    ensure!(h.op == NAMES[d.op as usize], "operation", h, d);
    Ok(())
}
fn op_of(c: u8) -> Op {
    match c {
        0 => Op::LUI, 1 => Op::AUIPC, 2 => Op::JAL, 3 => Op::JALR, 4 => Op::BEQ, 5 => Op::BNE, 6 => Op::BLT, 7 => Op::BGE, 8 => Op::BLTU,
        9 => Op::BGEU, 10 => Op::LB, 11 => Op::LH, 12 => Op::LW, 13 => Op::LBU, 14 => Op::LHU, 15 => Op::SB, 16 => Op::SH, 17 => Op::SW,
        18 => Op::ADDI, 19 => Op::SLTI, 20 => Op::SLTIU, 21 => Op::XORI, 22 => Op::ORI, 23 => Op::ANDI, 24 => Op::SLLI, 25 => Op::SRLI,
        26 => Op::SRAI, 27 => Op::ADD, 28 => Op::SUB, 29 => Op::SLL, 30 => Op::SLT, 31 => Op::SLTU, 32 => Op::XOR, 33 => Op::SRL,
        34 => Op::SRA, 35 => Op::OR, 36 => Op::AND, 37 => Op::FENCE, 38 => Op::ECALL, 39 => Op::EBREAK, 40 => Op::MUL, 41 => Op::MULH,
        42 => Op::MULHSU, 43 => Op::MULHU, 44 => Op::DIV, 45 => Op::DIVU, 46 => Op::REM, 47 => Op::REMU, 48 => Op::LR_W, 49 => Op::SC_W,
        50 => Op::AMOSWAP_W, 51 => Op::AMOADD_W, 52 => Op::AMOXOR_W, 53 => Op::AMOAND_W, 54 => Op::AMOOR_W, 55 => Op::AMOMIN_W,
        56 => Op::AMOMAX_W, 57 => Op::AMOMINU_W, _ => Op::AMOMAXU_W,
    }
}
/// two instructions joined into one pseudo-instruction: the value, the destination and the label
/// are those of the pair, and nothing else changes
pub fn rv_pair_lui<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 0) }
pub fn rv_pair_auipc<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 1) }
pub fn rv_pair_load<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 2) }
pub fn rv_pair_store<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 3) }
pub fn rv_pair_call<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 4) }
pub fn rv_pair_tail<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 5) }
pub fn rv_pair_sys<S: Src + ?Sized>(s: &mut S) -> R { pair(s, 6) }
fn pair<S: Src + ?Sized>(s: &mut S, kind: u32) -> R {
    let a = at(s);
    s.assume(a < u32::MAX - 8)?;
    let (hi, lo) = ((s.u32() & 0xffff_f000) as i32, sx(s.u32() & 0xfff, 12));
    let (r1, r2) = (reg(s), if s.flip() { 32 } else { reg(s) });
    let r2 = if r2 == 32 { r1 } else { r2 };
    s.assume(r1 != 0)?;
    let c = s.flip();
    let reloc = s.flip();
    let jumped = s.flip();
    let f = raki::instruction::InstFormat::Iformat;
    let ui = Ins { opc: if kind == 0 { Op::LUI } else { Op::AUIPC }, rd: Some(r1), rs1: None, rs2: None, imm: Some(hi), extension: Extensions::BaseI, inst_format: f };
    let ins = |opc, rd, rs1, rs2, imm| Ins { opc, rd, rs1, rs2, imm, extension: if c { Extensions::C } else { Extensions::BaseI }, inst_format: raki::instruction::InstFormat::Iformat };
    let (first, second) = match kind {
        0 | 1 => (ui, ins(Op::ADDI, Some(r2), Some(r1), None, Some(lo))),
        2 => (ui, ins([Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU][s.choose(5) as usize].clone_op(), Some(r1), Some(r1), None, Some(lo))),
        3 => (ui, ins([Op::SB, Op::SH, Op::SW][s.choose(3) as usize].clone_op(), None, Some(r1), Some(r2), Some(lo))),
        4 => (ui, ins(Op::JALR, Some(r1), Some(r1), None, Some(lo))),
        5 => (Ins { rd: Some(6), ..ui }, ins(Op::JALR, Some(0), Some(6), None, Some(lo))),
        _ => (ins(Op::ADDI, Some(5), Some(0), None, Some(lo)), ins(Op::ECALL, None, None, None, None)),
    };
    let r1 = if kind == 5 { 6 } else { r1 };
    let (len1, len2) = (if matches!(first.extension, Extensions::C) { 2 } else { 4 }, if c { 2 } else { 4 });
    let a2 = a + len1;
    // kind 6 with one compressed size: both are marked compressed
    let mut rel = std::collections::BTreeSet::new();
    rel.insert(if reloc { a } else { a ^ 1 });
    let mut refs = std::collections::BTreeSet::new();
    refs.insert(if jumped { a2 } else { a2 ^ 1 });
    let ph = goblin_text();
    let mut map = AddressMap(std::collections::BTreeMap::new());
    map.0.insert(TEXT, &ph);
    let mut l = InstructionLifter { rellocs_set: &rel, address_map: &map, referenced_text_addrs: ReadOrWrite::Read(&refs) };
    let base = if kind == 0 { 0u32 } else { a };
    let value = base.wrapping_add(hi as u32).wrapping_add(lo as u32);
    let in_text = TEXT <= value && value < TEXT + SIZE;
    // the end address itself belongs to nobody
    s.assume(value != TEXT + SIZE)?;
    // code is neither read nor written (the lifter refuses)
    s.assume(!(matches!(kind, 2 | 3) && in_text))?;
    let i1 = MaybeInstruction { address: a, insn: UnimpOrInstruction::Instruction(first) };
    let i2 = MaybeInstruction { address: a2, insn: UnimpOrInstruction::Instruction(second) };
    let got = l.try_map_two(&i1, &i2);
    let is_addr = kind == 1 || (kind == 0 && reloc);
    match kind {
        0 | 1 => {
            let text = is_addr && in_text && r2 != 3;
            if let Some(h) = &got {
                ensure!(h.args.rs1.is_none() && h.args.rs2.is_none(), "no sources", h);
                ensure!(h.args.rd == Some(r2 as u32), "the joined instruction sets another register than the pair's result", h, r1, r2);
                match h.args.imm {
                    HighLevelImmediate::CodeLabel(t) => ensure!(text && t == value, "a label for a value that is no code address", h, value, text),
                    HighLevelImmediate::Value(v) => {
                        ensure!(!text && v as u32 == value, "another value than the pair computes", h, value, text);
                        ensure!(r1 == r2, "the other register is lost", h, r1, r2);
                        ensure!(!jumped, "joined across a jump target", h);
                    }
                    HighLevelImmediate::None => ensure!(false, "no value", h),
                }
            }
            ensure!(got.is_some() || !text, "a code address must become a label", value);
        }
        2 => {
            ensure!(got.is_some(), "not joined");
            let h = got.as_ref().unwrap();
            ensure!(h.args.rd == Some(r1 as u32) && h.args.rs1 == Some(0) && h.args.rs2.is_none(), "registers", h, r1);
            ensure!(matches!(h.args.imm, HighLevelImmediate::Value(v) if v as u32 == value), "address", h, value);
        }
        3 => ensure!(got.is_none(), "stores are not joined"),
        4 | 5 => {
            ensure!(got.is_some(), "not joined");
            let h = got.as_ref().unwrap();
            ensure!(h.args.rd == if kind == 4 { Some(r1 as u32) } else { None }, "link register", h, r1);
            ensure!(h.args.rs1.is_none() && h.args.rs2.is_none(), "no sources", h);
            ensure!(matches!(h.args.imm, HighLevelImmediate::CodeLabel(v) if v == value), "target", h, value);
        }
        _ => {
            ensure!(got.is_some() == (1..=15).contains(&lo), "known system calls are joined, unknown ones are not", lo);
            if let Some(h) = &got {
                ensure!(h.args.rd.is_none() && h.args.rs1.is_none() && h.args.rs2.is_none() && matches!(h.args.imm, HighLevelImmediate::None), "no arguments", h);
            }
        }
    }
    if let Some(h) = &got {
        ensure!(h.loc.address == a && h.loc.size == len1 + len2, "location", h);
    }
    Ok(())
}
pub const TEXT: u32 = 0x1_0000;
pub const SIZE: u32 = 0x2_0000;
fn goblin_text() -> goblin::elf::ProgramHeader {
    goblin::elf::ProgramHeader { p_type: 1, p_flags: 5, p_offset: 0, p_vaddr: TEXT as u64, p_paddr: 0, p_filesz: SIZE as u64, p_memsz: SIZE as u64, p_align: 4 }
}
pub trait CloneOp { fn clone_op(&self) -> Op; }
impl CloneOp for Op { fn clone_op(&self) -> Op { op_of(code(self)) } }
/// the address space: inside the last segment that starts at or before the address, or nowhere
pub fn rv_section<S: Src + ?Sized>(s: &mut S) -> R {
    let mut seg = |exec: bool| goblin::elf::ProgramHeader { p_type: 1, p_flags: if exec { 5 } else { 6 }, p_offset: 0, p_vaddr: (s.u32() >> 1) as u64, p_paddr: 0, p_filesz: 0, p_memsz: (s.u32() >> 2) as u64, p_align: 4 };
    let (t, d) = (seg(true), seg(false));
    s.assume(t.p_vaddr + t.p_memsz < d.p_vaddr || d.p_vaddr + d.p_memsz < t.p_vaddr)?;
    let mut map = AddressMap(std::collections::BTreeMap::new());
    map.0.insert(t.p_vaddr as u32, &t);
    map.0.insert(d.p_vaddr as u32, &d);
    let x = match s.choose(4) { 0 => t.p_vaddr as u32 + (s.u32() % (t.p_memsz as u32 + 1)), 1 => (d.p_vaddr as u32).wrapping_sub(s.choose(3)), 2 => d.p_vaddr as u32 + s.choose(3), _ => s.u32() };
    s.assume(x as u64 != t.p_vaddr + t.p_memsz && x as u64 != d.p_vaddr + d.p_memsz)?;
    let inside = |p: &goblin::elf::ProgramHeader| p.p_vaddr <= x as u64 && (x as u64) < p.p_vaddr + p.p_memsz;
    ensure!(map.is_in_text_section(x) == inside(&t), "text", x, t, d);
    ensure!(map.is_in_data_section(x) == inside(&d), "data", x, t, d);
    Ok(())
}
/// the same for a single segment (symbolic bounds), proved
pub fn rv_section1<S: Src + ?Sized>(s: &mut S) -> R {
    let exec = s.flip();
    let p = goblin::elf::ProgramHeader { p_type: 1, p_flags: if exec { 5 } else { 6 }, p_offset: 0, p_vaddr: (s.u32() >> 1) as u64, p_paddr: 0, p_filesz: 0, p_memsz: (s.u32() >> 2) as u64, p_align: 4 };
    let mut map = AddressMap(std::collections::BTreeMap::new());
    map.0.insert(p.p_vaddr as u32, &p);
    let x = s.u32();
    s.assume(x as u64 != p.p_vaddr + p.p_memsz)?;
    let inside = p.p_vaddr <= x as u64 && (x as u64) < p.p_vaddr + p.p_memsz;
    ensure!(map.is_in_text_section(x) == (inside && exec), "text", x);
    ensure!(map.is_in_data_section(x) == (inside && !exec), "data", x);
    Ok(())
}
/// system call numbers and names are a bijection
pub fn rv_syscalls<S: Src + ?Sized>(s: &mut S) -> R {
    use powdr_syscalls::Syscall;
    let n = s.choose(256) as u8;
    let m = s.choose(256) as u8;
    match (Syscall::try_from(n), Syscall::try_from(m)) {
        (Ok(a), Ok(b)) => {
            ensure!(u8::from(a) == n, "number", n);
            ensure!((a == b) == (n == m), "distinct", n, m);
            #[cfg(not(kani))]
            {
                ensure!(a.name().parse::<Syscall>() == Ok(a), "name round trip", n);
                ensure!(a.to_string() == a.name(), "display", n);
            }
        }
        (Err(()), _) => ensure!(!(1..=15).contains(&n), "a known number is rejected", n),
        _ => {}
    }
    Ok(())
}
/// the operands an operation reads are those of the instruction, in the documented order; any
/// other shape is refused
pub fn rv_args<S: Src + ?Sized>(s: &mut S) -> R {
    use powdr_riscv_types::InstructionArgs;
    let mut o = |s: &mut S| if s.flip() { Some(s.choose(32)) } else { None };
    let (rd, rs1, rs2) = (o(s), o(s), o(s));
    let v = if s.flip() { Some(s.u32() as i32) } else { None };
    let k = s.choose(8);
    let shape = (rd.is_some(), rs1.is_some(), rs2.is_some(), v.is_some());
    let good = match k {
        0 => shape == (false, true, false, false),
        1 => shape == (true, true, false, true),
        2 | 3 => shape == (true, true, true, false),
        4 => shape == (true, false, false, true),
        5 => shape == (true, true, false, false),
        6 => shape == (true, true, false, true) || shape == (false, true, true, true),
        _ => shape == (false, false, false, false),
    };
    let h = HighLevelArgs { rd, rs1, rs2, imm: match v { Some(v) => HighLevelImmediate::Value(v), None => HighLevelImmediate::None } };
    let tab = debug_info::SymbolTable::default();
    let a = WrappedArgs { args: &h, symbol_table: &tab };
    let n = |r: powdr_riscv_types::Register| r.addr() as u32;
    let (d, x, y, i) = (rd.unwrap_or(99), rs1.unwrap_or(99), rs2.unwrap_or(99), v.unwrap_or(0) as u32);
    let got = match k {
        0 => a.r().ok().map(|r| n(r) == x),
        1 => a.rri().ok().map(|r| n(r.0) == d && n(r.1) == x && r.2 == i),
        2 => a.rrr().ok().map(|r| n(r.0) == d && n(r.1) == x && n(r.2) == y),
        3 => a.rrr2().ok().map(|r| n(r.0) == d && n(r.1) == y && n(r.2) == x),
        4 => a.ri().ok().map(|r| n(r.0) == d && r.1 == i),
        5 => a.rr().ok().map(|r| n(r.0) == d && n(r.1) == x),
        6 => a.rro().ok().map(|r| n(r.0) == if rd.is_some() { d } else { y } && n(r.1) == x && r.2 == i),
        _ => a.empty().ok().map(|_| true),
    };
    ensure!(got.is_some() == good, "accepted shape", h, k);
    if let Some(g) = got { ensure!(g, "another operand", h, k); }
    Ok(())
}
contracts!(contracts_c21s: rv_args, rv_word, rv_half, rv_single, rv_pair_lui, rv_pair_auipc, rv_pair_load, rv_pair_store, rv_pair_call, rv_pair_tail, rv_pair_sys, rv_section, rv_section1, rv_syscalls);
proofs!(22: rv_word, rv_half, rv_single, rv_syscalls);
/// C22: every direct jump, branch and auipc+jalr pair reports its target, and nothing else does
pub fn rv_scan1<S: Src + ?Sized>(s: &mut S) -> R {
    let w = if s.symbolic() { s.u32() } else { word(s) };
    let d = decode32(w);
    s.assume(d.is_some())?;
    let d = d.unwrap();
    scan(s, &w.to_le_bytes(), if matches!(d.op, 2 | 4..=9) { Some((0, d.imm.unwrap() as i64)) } else { None })
}
pub fn rv_scan2<S: Src + ?Sized>(s: &mut S) -> R {
    let (r1, r2, rd) = (reg(s) as u32, reg(s) as u32, reg(s) as u32);
    let r2 = if s.flip() { r1 } else { r2 };
    let (hi, lo) = (s.u32() & 0xffff_f000, s.u32() & 0xffe);
    s.assume(r1 != 0)?;
    let (a, b) = (e_u(0x17, r1, hi).to_le_bytes(), e_i(0x67, 0, rd, r2, lo).to_le_bytes());
    let data = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
    scan(s, &data, if r1 == r2 { Some((4, hi as i32 as i64 + sx(lo, 12) as i64)) } else { None })
}
fn scan<S: Src + ?Sized>(s: &mut S, data: &[u8], want: Option<(u64, i64)>) -> R {
    let base = s.u64() & 0xffff_ffff_fffc;
    s.assume(base > 1 << 33)?;
    let labelled = s.flip();
    let target = want.map(|w| (base as i64 + w.1) as u64);
    let (mut dests, mut info, mut labels) = (std::collections::BTreeSet::new(), std::collections::BTreeMap::new(), std::collections::BTreeSet::new());
    labels.insert(if labelled { target.unwrap_or(7) } else { 5 });
    rv64::scan_for_jump_targets(base, data, &mut dests, &mut info, &labels);
    ensure!(dests.len() == target.is_some() as usize && dests.first() == target.as_ref(), "jump destinations", dests, target);
    let known = target.is_some() && !labelled;
    ensure!(info.len() == known as usize, "jumps to places without a symbol", info, target, labels);
    if let (true, Some((t, v))) = (known, info.first_key_value()) {
        ensure!(Some(*t) == target && v.len() == 1 && v[0].from_addr == base + want.unwrap().0, "where the jump comes from", t, v);
    }
    Ok(())
}
contracts!(contracts_c22s: rv_scan1, rv_scan2);
/// stand-ins used by the proofs below: a caller is checked against the callee's contract
#[cfg(kani)]
pub mod stubbed {
    use super::*;
    /// contract of AddressMap::is_in_text_section for the one-segment map of `pair` (evaluated on
    /// the real function by rv_section and natively by the same contract)
    pub fn in_text<'a: 'a>(_: &AddressMap<'a>, x: u32) -> bool { TEXT <= x && x < TEXT + SIZE }
    pub fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }
    macro_rules! st {
        ($($n:ident),*) => { $(
            #[kani::proof]
            #[kani::unwind(3)]
            #[kani::stub(powdr_riscv_elf::AddressMap::is_in_text_section, in_text)]
            #[kani::stub(std::fmt::format, no_text)]
            pub fn $n() {
                let _ = super::$n(&mut crate::gen::Sym);
                kani::cover!(true, "precondition reachable");
            }
        )* };
    }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn rv_section1() {
        let _ = super::rv_section1(&mut crate::gen::Sym);
        kani::cover!(true, "precondition reachable");
    }
    st!(rv_args, rv_pair_lui, rv_pair_auipc, rv_pair_load, rv_pair_store, rv_pair_call, rv_pair_tail, rv_pair_sys);
}
