//! C21: lifting RISC-V instructions preserves their meaning (scalar part; the whole-program
//! contracts are in c_elf.rs).  The oracle below is written from the ISA manual's encoding
//! tables (RV32IMA, RV32C); it shares nothing with the decoder the code uses.
use crate::ensure;
use crate::gen::*;
use powdr_riscv_elf::*;
use raki::instruction::{Extensions, Instruction as Ins, OpcodeKind as Op};

pub const NAMES: [&str; 62] = [
    "lui", "auipc", "jal", "jalr", "beq", "bne", "blt", "bge", "bltu", "bgeu", "lb", "lh", "lw", "lbu", "lhu", "sb", "sh", "sw",
    "addi", "slti", "sltiu", "xori", "ori", "andi", "slli", "srli", "srai", "add", "sub", "sll", "slt", "sltu", "xor", "srl", "sra",
    "or", "and", "fence", "ecall", "ebreak", "mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu", "lr.w", "sc.w",
    "amoswap.w", "amoadd.w", "amoxor.w", "amoand.w", "amoor.w", "amomin.w", "amomax.w", "amominu.w", "amomaxu.w", "?", "?", "?",
];
pub fn code(op: &Op) -> u8 {
    match op {
        Op::LUI => 0, Op::AUIPC => 1, Op::JAL => 2, Op::JALR => 3, Op::BEQ => 4, Op::BNE => 5, Op::BLT => 6, Op::BGE => 7, Op::BLTU => 8,
        Op::BGEU => 9, Op::LB => 10, Op::LH => 11, Op::LW => 12, Op::LBU => 13, Op::LHU => 14, Op::SB => 15, Op::SH => 16, Op::SW => 17,
        Op::ADDI => 18, Op::SLTI => 19, Op::SLTIU => 20, Op::XORI => 21, Op::ORI => 22, Op::ANDI => 23, Op::SLLI => 24, Op::SRLI => 25,
        Op::SRAI => 26, Op::ADD => 27, Op::SUB => 28, Op::SLL => 29, Op::SLT => 30, Op::SLTU => 31, Op::XOR => 32, Op::SRL => 33,
        Op::SRA => 34, Op::OR => 35, Op::AND => 36, Op::FENCE => 37, Op::ECALL => 38, Op::EBREAK => 39, Op::MUL => 40, Op::MULH => 41,
        Op::MULHSU => 42, Op::MULHU => 43, Op::DIV => 44, Op::DIVU => 45, Op::REM => 46, Op::REMU => 47, Op::LR_W => 48, Op::SC_W => 49,
        Op::AMOSWAP_W => 50, Op::AMOADD_W => 51, Op::AMOXOR_W => 52, Op::AMOAND_W => 53, Op::AMOOR_W => 54, Op::AMOMIN_W => 55,
        Op::AMOMAX_W => 56, Op::AMOMINU_W => 57, Op::AMOMAXU_W => 58,
        _ => 60,
    }
}
/// an instruction by the manual; `imm` is the sign-extended immediate (already shifted for U-type)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct D { pub op: u8, pub rd: Option<u32>, pub rs1: Option<u32>, pub rs2: Option<u32>, pub imm: Option<i32> }
pub fn b(w: u32, hi: u32, lo: u32) -> u32 { (w >> lo) & (((1u64 << (hi - lo + 1)) - 1) as u32) }
pub fn sx(x: u32, n: u32) -> i32 { ((x << (32 - n)) as i32) >> (32 - n) }
pub fn decode32(w: u32) -> Option<D> {
    let (rd, f3, rs1, rs2, f7) = (Some(b(w, 11, 7)), b(w, 14, 12), Some(b(w, 19, 15)), Some(b(w, 24, 20)), b(w, 31, 25));
    let i = Some(sx(b(w, 31, 20), 12));
    let d = |op, rd, rs1, rs2, imm| Some(D { op, rd, rs1, rs2, imm });
    match b(w, 6, 0) {
        0x37 => d(0, rd, None, None, Some((w & 0xffff_f000) as i32)),
        0x17 => d(1, rd, None, None, Some((w & 0xffff_f000) as i32)),
        0x6f => d(2, rd, None, None, Some(sx(b(w, 31, 31) << 20 | b(w, 19, 12) << 12 | b(w, 20, 20) << 11 | b(w, 30, 21) << 1, 21))),
        0x67 if f3 == 0 => d(3, rd, rs1, None, i),
        0x63 => {
            let op = match f3 { 0 => 4, 1 => 5, 4 => 6, 5 => 7, 6 => 8, 7 => 9, _ => return None };
            d(op, None, rs1, rs2, Some(sx(b(w, 31, 31) << 12 | b(w, 7, 7) << 11 | b(w, 30, 25) << 5 | b(w, 11, 8) << 1, 13)))
        }
        0x03 => d(match f3 { 0 => 10, 1 => 11, 2 => 12, 4 => 13, 5 => 14, _ => return None }, rd, rs1, None, i),
        0x23 => d(match f3 { 0 => 15, 1 => 16, 2 => 17, _ => return None }, None, rs1, rs2, Some(sx(f7 << 5 | b(w, 11, 7), 12))),
        0x13 => match f3 {
            0 => d(18, rd, rs1, None, i), 2 => d(19, rd, rs1, None, i), 3 => d(20, rd, rs1, None, i), 4 => d(21, rd, rs1, None, i),
            6 => d(22, rd, rs1, None, i), 7 => d(23, rd, rs1, None, i),
            1 if f7 == 0 => d(24, rd, rs1, None, Some(b(w, 24, 20) as i32)),
            5 if f7 == 0 => d(25, rd, rs1, None, Some(b(w, 24, 20) as i32)),
            5 if f7 == 0x20 => d(26, rd, rs1, None, Some(b(w, 24, 20) as i32)),
            _ => None,
        },
        0x33 => {
            let op = match (f7, f3) {
                (0, 0) => 27, (0x20, 0) => 28, (0, 1) => 29, (0, 2) => 30, (0, 3) => 31, (0, 4) => 32, (0, 5) => 33, (0x20, 5) => 34,
                (0, 6) => 35, (0, 7) => 36, (1, k) => 40 + k as u8, _ => return None,
            };
            d(op, rd, rs1, rs2, None)
        }
        0x0f if f3 == 0 => d(37, None, None, None, None),
        0x73 if w == 0x73 => d(38, None, None, None, None),
        0x73 if w == 0x0010_0073 => d(39, None, None, None, None),
        0x2f if f3 == 2 => match f7 >> 2 {
            2 if rs2 == Some(0) => d(48, rd, rs1, None, None),
            3 => d(49, rd, rs1, rs2, None), 1 => d(50, rd, rs1, rs2, None), 0 => d(51, rd, rs1, rs2, None), 4 => d(52, rd, rs1, rs2, None),
            0xc => d(53, rd, rs1, rs2, None), 8 => d(54, rd, rs1, rs2, None), 0x10 => d(55, rd, rs1, rs2, None),
            0x14 => d(56, rd, rs1, rs2, None), 0x18 => d(57, rd, rs1, rs2, None), 0x1c => d(58, rd, rs1, rs2, None),
            _ => None,
        },
        _ => None,
    }
}
pub fn e_i(op: u32, f3: u32, rd: u32, rs1: u32, imm: u32) -> u32 { (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op }
pub fn e_r(f7: u32, f3: u32, rd: u32, rs1: u32, rs2: u32) -> u32 { f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | 0x33 }
pub fn e_s(f3: u32, rs1: u32, rs2: u32, imm: u32) -> u32 { b(imm, 11, 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | b(imm, 4, 0) << 7 | 0x23 }
pub fn e_u(op: u32, rd: u32, imm: u32) -> u32 { imm & 0xffff_f000 | rd << 7 | op }
pub fn e_j(rd: u32, imm: u32) -> u32 { b(imm, 20, 20) << 31 | b(imm, 10, 1) << 21 | b(imm, 11, 11) << 20 | b(imm, 19, 12) << 12 | rd << 7 | 0x6f }
pub fn e_b(f3: u32, rs1: u32, rs2: u32, imm: u32) -> u32 {
    b(imm, 12, 12) << 31 | b(imm, 10, 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | b(imm, 4, 1) << 8 | b(imm, 11, 11) << 7 | 0x63
}
/// the 32-bit instruction a compressed one stands for (RV32C; None: reserved, a hint, or floating point)
pub fn expand16(h: u16) -> Option<u32> {
    let w = h as u32;
    let x = |hi, lo| b(w, hi, lo);
    let (rdp, rs1p) = (x(4, 2) + 8, x(9, 7) + 8);
    let (rd, rs2) = (x(11, 7), x(6, 2));
    let i6 = sx(x(12, 12) << 5 | x(6, 2), 6) as u32;
    let j = sx(x(12, 12) << 11 | x(8, 8) << 10 | x(10, 9) << 8 | x(6, 6) << 7 | x(7, 7) << 6 | x(2, 2) << 5 | x(11, 11) << 4 | x(5, 3) << 1, 12) as u32;
    let br = sx(x(12, 12) << 8 | x(6, 5) << 6 | x(2, 2) << 5 | x(11, 10) << 3 | x(4, 3) << 1, 9) as u32;
    Some(match (x(1, 0), x(15, 13)) {
        (0, 0) => {
            let imm = x(10, 7) << 6 | x(12, 11) << 4 | x(5, 5) << 3 | x(6, 6) << 2;
            if imm == 0 { return None; }
            e_i(0x13, 0, rdp, 2, imm)
        }
        (0, 2) => e_i(0x03, 2, rdp, rs1p, x(5, 5) << 6 | x(12, 10) << 3 | x(6, 6) << 2),
        (0, 6) => e_s(2, rs1p, rdp, x(5, 5) << 6 | x(12, 10) << 3 | x(6, 6) << 2),
        (1, 0) if rd == 0 => if i6 == 0 { 0x13 } else { return None },
        (1, 0) => if i6 == 0 { return None } else { e_i(0x13, 0, rd, rd, i6) },
        (1, 1) => e_j(1, j),
        (1, 2) => if rd == 0 { return None } else { e_i(0x13, 0, rd, 0, i6) },
        (1, 3) if rd == 2 => {
            let imm = sx(x(12, 12) << 9 | x(4, 3) << 7 | x(5, 5) << 6 | x(2, 2) << 5 | x(6, 6) << 4, 10) as u32;
            if imm == 0 { return None; }
            e_i(0x13, 0, 2, 2, imm)
        }
        (1, 3) => if rd == 0 || i6 == 0 { return None } else { e_u(0x37, rd, i6 << 12) },
        (1, 4) => match x(11, 10) {
            0 => if x(12, 12) == 1 || x(6, 2) == 0 { return None } else { e_i(0x13, 5, rs1p, rs1p, x(6, 2)) },
            1 => if x(12, 12) == 1 || x(6, 2) == 0 { return None } else { e_i(0x13, 5, rs1p, rs1p, 0x400 | x(6, 2)) },
            2 => e_i(0x13, 7, rs1p, rs1p, i6),
            _ if x(12, 12) == 1 => return None,
            _ => match x(6, 5) {
                0 => e_r(0x20, 0, rs1p, rs1p, rdp),
                1 => e_r(0, 4, rs1p, rs1p, rdp),
                2 => e_r(0, 6, rs1p, rs1p, rdp),
                _ => e_r(0, 7, rs1p, rs1p, rdp),
            },
        },
        (1, 5) => e_j(0, j),
        (1, 6) => e_b(0, rs1p, 0, br),
        (1, 7) => e_b(1, rs1p, 0, br),
        (2, 0) => if rd == 0 || x(12, 12) == 1 || x(6, 2) == 0 { return None } else { e_i(0x13, 1, rd, rd, x(6, 2)) },
        (2, 2) => if rd == 0 { return None } else { e_i(0x03, 2, rd, 2, x(3, 2) << 6 | x(12, 12) << 5 | x(6, 4) << 2) },
        (2, 4) => match (x(12, 12), rd, rs2) {
            (0, 0, 0) => return None,
            (0, r, 0) => e_i(0x67, 0, 0, r, 0),
            (0, 0, _) => return None,
            (0, r, q) => e_r(0, 0, r, 0, q),
            (_, 0, 0) => 0x0010_0073,
            (_, r, 0) => e_i(0x67, 0, 1, r, 0),
            (_, 0, _) => return None,
            (_, r, q) => e_r(0, 0, r, r, q),
        },
        (2, 6) => e_s(2, 2, rs2, x(8, 7) << 6 | x(12, 9) << 2),
        _ => return None,
    })
}
/// a random word, mostly valid
pub fn word<S: Src + ?Sized>(s: &mut S) -> u32 {
    let r = s.u32();
    let (rd, rs1, rs2, imm) = (s.choose(32), s.choose(32), s.choose(32), s.u32());
    match s.choose(14) {
        0 => e_u(0x37, rd, imm),
        1 => e_u(0x17, rd, imm),
        2 => e_j(rd, imm & !1),
        3 => e_i(0x67, 0, rd, rs1, imm),
        4 => e_b([0, 1, 4, 5, 6, 7][s.choose(6) as usize], rs1, rs2, imm & !1),
        5 => e_i(0x03, [0, 1, 2, 4, 5][s.choose(5) as usize], rd, rs1, imm),
        6 => e_s(s.choose(3), rs1, rs2, imm),
        7 | 8 => match s.choose(8) {
            k @ (1 | 5) => e_i(0x13, k, rd, rs1, imm & 31 | if k == 5 && s.flip() { 0x400 } else { 0 }),
            k => e_i(0x13, k, rd, rs1, imm),
        },
        9 | 10 => {
            let f3 = s.choose(8);
            e_r(match s.choose(3) { 0 => 1, 1 if f3 == 0 || f3 == 5 => 0x20, _ => 0 }, f3, rd, rs1, rs2)
        }
        11 => {
            let f5 = [2, 3, 1, 0, 4, 0xc, 8, 0x10, 0x14, 0x18, 0x1c][s.choose(11) as usize];
            f5 << 27 | s.choose(4) << 25 | (if f5 == 2 { 0 } else { rs2 }) << 20 | rs1 << 15 | 2 << 12 | rd << 7 | 0x2f
        }
        12 => [0x73, 0x0010_0073, 0x0ff0_000f, 0x13][s.choose(4) as usize],
        _ => r,
    }
}
pub fn reg<S: Src + ?Sized>(s: &mut S) -> usize { s.choose(32) as usize }
