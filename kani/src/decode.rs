//! C07, C08: what every 32-bit and every 16-bit instruction word means.
//!
//! The specification is written from the ISA manual's encoding tables; an encoding the manual
//! reserves or leaves to the platform is `Any`: it may be accepted or refused, but never panics.
use crate::env::*;
use crate::nd;
use carron::cpu::decode::Decode;
use carron::cpu::verif::OpecodeKind;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::TrapCause;
use carron::Isa;

/// The operands an operation uses; the others are left unconstrained.
pub struct Spec { opc: OpecodeKind, rd: Option<u32>, rs1: Option<u32>, rs2: Option<u32>, imm: Option<i32> }
pub enum Meaning { Is(Spec), Illegal, Any }
use Meaning::*;

fn f(w: u32, hi: u32, lo: u32) -> u32 { (w >> lo) & (((1u64 << (hi - lo + 1)) - 1) as u32) }
fn sext(v: u32, bits: u32) -> i32 { ((v << (32 - bits)) as i32) >> (32 - bits) }

fn r(opc: OpecodeKind, w: u32) -> Meaning {
    Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: Some(f(w, 19, 15)), rs2: Some(f(w, 24, 20)), imm: None })
}
fn i(opc: OpecodeKind, w: u32) -> Meaning {
    Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: Some(f(w, 19, 15)), rs2: None, imm: Some((w as i32) >> 20) })
}
fn sh(opc: OpecodeKind, w: u32, bits: u32) -> Meaning {
    Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: Some(f(w, 19, 15)), rs2: None, imm: Some(f(w, 19 + bits, 20) as i32) })
}
fn u(opc: OpecodeKind, w: u32) -> Meaning {
    Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: None, rs2: None, imm: Some((w & 0xffff_f000) as i32) })
}
fn s(opc: OpecodeKind, w: u32) -> Meaning {
    Is(Spec { opc, rd: None, rs1: Some(f(w, 19, 15)), rs2: Some(f(w, 24, 20)), imm: Some(sext(f(w, 31, 25) << 5 | f(w, 11, 7), 12)) })
}
fn b(opc: OpecodeKind, w: u32) -> Meaning {
    let imm = f(w, 31, 31) << 12 | f(w, 7, 7) << 11 | f(w, 30, 25) << 5 | f(w, 11, 8) << 1;
    Is(Spec { opc, rd: None, rs1: Some(f(w, 19, 15)), rs2: Some(f(w, 24, 20)), imm: Some(sext(imm, 13)) })
}
fn j(opc: OpecodeKind, w: u32) -> Meaning {
    let imm = f(w, 31, 31) << 20 | f(w, 19, 12) << 12 | f(w, 20, 20) << 11 | f(w, 30, 21) << 1;
    Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: None, rs2: None, imm: Some(sext(imm, 21)) })
}
fn csr(opc: OpecodeKind, w: u32) -> Meaning {
    Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: Some(f(w, 19, 15)), rs2: Some(f(w, 31, 20)), imm: None })
}
fn none(opc: OpecodeKind) -> Meaning { Is(Spec { opc, rd: None, rs1: None, rs2: None, imm: None }) }
fn only64(isa: Isa, m: Meaning) -> Meaning { if rv32(isa) { Illegal } else { m } }

/// Classes of 32-bit words, one contract each.
pub enum Class { Int, Mul, Ctl, Mem, Amo, Sys, Rest }
pub fn class(w: u32) -> Class {
    let op = w & 0x7f;
    match op {
        0x33 | 0x3b if f(w, 31, 25) == 1 => Class::Mul,
        0x37 | 0x17 | 0x13 | 0x1b | 0x33 | 0x3b | 0x0f => Class::Int,
        0x6f | 0x67 | 0x63 => Class::Ctl,
        0x03 | 0x23 => Class::Mem,
        0x2f => Class::Amo,
        0x73 => Class::Sys,
        _ => Class::Rest,
    }
}

pub fn meaning32(w: u32, isa: Isa) -> Meaning {
    let (f3, f7) = (f(w, 14, 12), f(w, 31, 25));
    let is32 = rv32(isa);
    match w & 0x7f {
        0x37 => u(OP_LUI, w),
        0x17 => u(OP_AUIPC, w),
        0x6f => j(OP_JAL, w),
        0x67 => if f3 == 0 { i(OP_JALR, w) } else { Any },
        0x63 => match f3 {
            0 => b(OP_BEQ, w), 1 => b(OP_BNE, w), 4 => b(OP_BLT, w), 5 => b(OP_BGE, w),
            6 => b(OP_BLTU, w), 7 => b(OP_BGEU, w), _ => Illegal,
        },
        0x03 => match f3 {
            0 => i(OP_LB, w), 1 => i(OP_LH, w), 2 => i(OP_LW, w), 3 => only64(isa, i(OP_LD, w)),
            4 => i(OP_LBU, w), 5 => i(OP_LHU, w), 6 => only64(isa, i(OP_LWU, w)), _ => Illegal,
        },
        0x23 => match f3 {
            0 => s(OP_SB, w), 1 => s(OP_SH, w), 2 => s(OP_SW, w), 3 => only64(isa, s(OP_SD, w)), _ => Illegal,
        },
        0x13 => match f3 {
            0 => i(OP_ADDI, w), 2 => i(OP_SLTI, w), 3 => i(OP_SLTIU, w), 4 => i(OP_XORI, w),
            6 => i(OP_ORI, w), 7 => i(OP_ANDI, w),
            _ => {
                let (kind, bits) = if is32 { (f7, 5) } else { (f7 & !1, 6) };
                match (f3, kind) {
                    (1, 0) => sh(OP_SLLI, w, bits),
                    (5, 0) => sh(OP_SRLI, w, bits),
                    (5, 0x20) => sh(OP_SRAI, w, bits),
                    _ => Illegal,
                }
            }
        },
        0x33 => match (f7, f3) {
            (0, 0) => r(OP_ADD, w), (0x20, 0) => r(OP_SUB, w), (0, 1) => r(OP_SLL, w), (0, 2) => r(OP_SLT, w),
            (0, 3) => r(OP_SLTU, w), (0, 4) => r(OP_XOR, w), (0, 5) => r(OP_SRL, w), (0x20, 5) => r(OP_SRA, w),
            (0, 6) => r(OP_OR, w), (0, 7) => r(OP_AND, w),
            (1, 0) => r(OP_MUL, w), (1, 1) => r(OP_MULH, w), (1, 2) => r(OP_MULHSU, w), (1, 3) => r(OP_MULHU, w),
            (1, 4) => r(OP_DIV, w), (1, 5) => r(OP_DIVU, w), (1, 6) => r(OP_REM, w), (1, 7) => r(OP_REMU, w),
            _ => Illegal,
        },
        0x1b => only64(isa, match (f3, f7) {
            (0, _) => i(OP_ADDIW, w),
            (1, 0) => sh(OP_SLLIW, w, 5), (5, 0) => sh(OP_SRLIW, w, 5), (5, 0x20) => sh(OP_SRAIW, w, 5),
            _ => Illegal,
        }),
        0x3b => only64(isa, match (f7, f3) {
            (0, 0) => r(OP_ADDW, w), (0x20, 0) => r(OP_SUBW, w), (0, 1) => r(OP_SLLW, w),
            (0, 5) => r(OP_SRLW, w), (0x20, 5) => r(OP_SRAW, w),
            (1, 0) => r(OP_MULW, w), (1, 4) => r(OP_DIVW, w), (1, 5) => r(OP_DIVUW, w),
            (1, 6) => r(OP_REMW, w), (1, 7) => r(OP_REMUW, w),
            _ => Illegal,
        }),
        0x0f => if f3 == 0 { none(OP_FENCE) } else { Any },
        0x2f => {
            if f3 != 2 && f3 != 3 { return Illegal }
            let d = f3 == 3;
            // the aq and rl bits
            let order = Some(f(w, 26, 25) as i32);
            let amo = |opc| Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: Some(f(w, 19, 15)), rs2: Some(f(w, 24, 20)), imm: order });
            let k = |w32, w64| if d { only64(isa, amo(w64)) } else { amo(w32) };
            match f7 >> 2 {
                2 => {
                    // LR's rs2 field must be zero
                    let lr = |opc| Is(Spec { opc, rd: Some(f(w, 11, 7)), rs1: Some(f(w, 19, 15)), rs2: None, imm: order });
                    if f(w, 24, 20) != 0 { Any } else if d { only64(isa, lr(OP_LR_D)) } else { lr(OP_LR_W) }
                }
                3 => k(OP_SC_W, OP_SC_D),
                1 => k(OP_AMOSWAP_W, OP_AMOSWAP_D),
                0 => k(OP_AMOADD_W, OP_AMOADD_D),
                4 => k(OP_AMOXOR_W, OP_AMOXOR_D),
                0xc => k(OP_AMOAND_W, OP_AMOAND_D),
                8 => k(OP_AMOOR_W, OP_AMOOR_D),
                0x10 => k(OP_AMOMIN_W, OP_AMOMIN_D),
                0x14 => k(OP_AMOMAX_W, OP_AMOMAX_D),
                0x18 => k(OP_AMOMINU_W, OP_AMOMINU_D),
                0x1c => k(OP_AMOMAXU_W, OP_AMOMAXU_D),
                _ => Illegal,
            }
        }
        0x73 => match f3 {
            0 => match w {
                0x0000_0073 => none(OP_ECALL),
                0x0010_0073 => none(OP_EBREAK),
                0x1020_0073 => none(OP_SRET),
                0x3020_0073 => none(OP_MRET),
                0x1050_0073 => none(OP_WFI),
                _ if f7 == 9 && f(w, 11, 7) == 0 =>
                    Is(Spec { opc: OP_SFENCE_VMA, rd: None, rs1: Some(f(w, 19, 15)), rs2: Some(f(w, 24, 20)), imm: None }),
                // a nonzero rd or rs1 field in a defined system instruction is reserved
                _ if f7 == 9 => Any,
                _ if matches!(f(w, 31, 20), 0 | 1 | 0x102 | 0x302 | 0x105) => Any,
                // URET (N extension)
                _ if f(w, 31, 20) == 2 => Illegal,
                _ => Illegal,
            },
            1 => csr(OP_CSRRW, w), 2 => csr(OP_CSRRS, w), 3 => csr(OP_CSRRC, w),
            5 => csr(OP_CSRRWI, w), 6 => csr(OP_CSRRSI, w), 7 => csr(OP_CSRRCI, w), _ => Illegal,
        },
        _ => Illegal,
    }
}

/// C.NOP with a nonzero immediate and the like are hints: they decode to operations without effect.
pub fn meaning16(h: u16, isa: Isa) -> Meaning {
    let w = h as u32;
    let is32 = rv32(isa);
    let (wide, rs2, p7, p2) = (f(w, 11, 7), f(w, 6, 2), f(w, 9, 7) + 8, f(w, 4, 2) + 8);
    let bit = |n: u32, at: u32| f(w, n, n) << at;
    let imm6 = bit(12, 5) | f(w, 6, 2);
    let mk = |opc, rd: Option<u32>, rs1: Option<u32>, rs2: Option<u32>, imm: Option<i32>| Is(Spec { opc, rd, rs1, rs2, imm });
    let uw = (f(w, 12, 10) << 3 | bit(6, 2) | bit(5, 6)) as i32;
    let ud = (f(w, 12, 10) << 3 | f(w, 6, 5) << 6) as i32;
    let ji = sext(bit(12, 11) | bit(11, 4) | f(w, 10, 9) << 8 | bit(8, 10) | bit(7, 6) | bit(6, 7) | f(w, 5, 3) << 1 | bit(2, 5), 12);
    let bi = sext(bit(12, 8) | f(w, 11, 10) << 3 | f(w, 6, 5) << 6 | f(w, 4, 3) << 1 | bit(2, 5), 9);
    // RV32: shamt[5] = 1 is reserved for custom use
    let shift = |opc, rd: u32| if is32 && imm6 >= 32 { Any } else { mk(opc, Some(rd), Some(rd), None, Some(imm6 as i32)) };
    let rr = |opc| mk(opc, Some(p7), Some(p7), Some(p2), None);
    match (w & 3, w >> 13) {
        (0, 0) => {
            let imm = f(w, 12, 11) << 4 | f(w, 10, 7) << 6 | bit(6, 2) | bit(5, 3);
            if h == 0 { Illegal } else if imm == 0 { Any } else { mk(OP_C_ADDI4SPN, Some(p2), None, None, Some(imm as i32)) }
        }
        (0, 2) => mk(OP_C_LW, Some(p2), Some(p7), None, Some(uw)),
        (0, 3) => only64(isa, mk(OP_C_LD, Some(p2), Some(p7), None, Some(ud))),
        (0, 6) => mk(OP_C_SW, None, Some(p7), Some(p2), Some(uw)),
        (0, 7) => only64(isa, mk(OP_C_SD, None, Some(p7), Some(p2), Some(ud))),
        (1, 0) => if wide == 0 { none(OP_C_NOP) } else { mk(OP_C_ADDI, Some(wide), Some(wide), None, Some(sext(imm6, 6))) },
        (1, 1) => if is32 { mk(OP_C_JAL, None, None, None, Some(ji)) }
            else if wide == 0 { Any }
            else { mk(OP_C_ADDIW, Some(wide), Some(wide), None, Some(sext(imm6, 6))) },
        (1, 2) => mk(OP_C_LI, Some(wide), None, None, Some(sext(imm6, 6))),
        (1, 3) => {
            let i16 = sext(bit(12, 9) | bit(6, 4) | bit(5, 6) | f(w, 4, 3) << 7 | bit(2, 5), 10);
            if imm6 == 0 { Any }
            else if wide == 2 { mk(OP_C_ADDI16SP, None, None, None, Some(i16)) }
            else { mk(OP_C_LUI, Some(wide), None, None, Some(sext(imm6, 6) << 12)) }
        }
        (1, 4) => match f(w, 11, 10) {
            0 => shift(OP_C_SRLI, p7),
            1 => shift(OP_C_SRAI, p7),
            2 => mk(OP_C_ANDI, Some(p7), Some(p7), None, Some(sext(imm6, 6))),
            _ => match (bit(12, 0), f(w, 6, 5)) {
                (0, 0) => rr(OP_C_SUB), (0, 1) => rr(OP_C_XOR), (0, 2) => rr(OP_C_OR), (0, _) => rr(OP_C_AND),
                (_, 0) => only64(isa, rr(OP_C_SUBW)), (_, 1) => only64(isa, rr(OP_C_ADDW)), _ => Illegal,
            },
        },
        (1, 5) => mk(OP_C_J, None, None, None, Some(ji)),
        (1, 6) => mk(OP_C_BEQZ, None, Some(p7), None, Some(bi)),
        (1, _) => mk(OP_C_BNEZ, None, Some(p7), None, Some(bi)),
        (2, 0) => shift(OP_C_SLLI, wide),
        (2, 2) => if wide == 0 { Any } else { mk(OP_C_LWSP, Some(wide), None, None, Some((bit(12, 5) | f(w, 6, 4) << 2 | f(w, 3, 2) << 6) as i32)) },
        (2, 3) => if is32 { Illegal } else if wide == 0 { Any } else {
            mk(OP_C_LDSP, Some(wide), None, None, Some((bit(12, 5) | f(w, 6, 5) << 3 | f(w, 4, 2) << 6) as i32)) },
        (2, 4) => match (bit(12, 0), wide, rs2) {
            (0, 0, 0) => Any,
            (0, _, 0) => mk(OP_C_JR, None, Some(wide), None, None),
            (0, _, _) => mk(OP_C_MV, Some(wide), None, Some(rs2), None),
            (_, 0, 0) => none(OP_C_EBREAK),
            (_, _, 0) => mk(OP_C_JALR, None, Some(wide), None, None),
            _ => mk(OP_C_ADD, Some(wide), Some(wide), Some(rs2), None),
        },
        (2, 6) => mk(OP_C_SWSP, None, None, Some(rs2), Some((f(w, 12, 9) << 2 | f(w, 8, 7) << 6) as i32)),
        (2, 7) => only64(isa, mk(OP_C_SDSP, None, None, Some(rs2), Some((f(w, 12, 10) << 3 | f(w, 9, 7) << 6) as i32))),
        // no F/D extension
        _ => Illegal,
    }
}

fn agree(r: Result<carron::cpu::verif::Instruction, Exc>, m: Meaning, word: u64) {
    match r {
        Ok(inst) => match m {
            Is(sp) => {
                ensures!("the operation is the one encoded", inst.opc as usize == sp.opc as usize);
                ensures!("the destination register is the one encoded", sp.rd.is_none() || inst.rd == sp.rd.map(|x| x as usize));
                ensures!("the first source register is the one encoded", sp.rs1.is_none() || inst.rs1 == sp.rs1.map(|x| x as usize));
                ensures!("the second source register is the one encoded", sp.rs2.is_none() || inst.rs2 == sp.rs2.map(|x| x as usize));
                ensures!("the immediate is the one encoded", sp.imm.is_none() || inst.imm == sp.imm);
                reachable!("some word of this class decodes", true);
            }
            Illegal => { ensures!("an undefined encoding is an illegal instruction", false); }
            Any => {}
        },
        Err((_tval, cause, text)) => {
            std::mem::forget(text);
            match m {
                Is(_) => { ensures!("a defined encoding is accepted", false); }
                _ => {
                    let _ = word;
                    ensures!("a refused encoding raises an illegal instruction exception", matches!(cause, TrapCause::IllegalInst));
                }
            }
        }
    }
}
// Contracts of the decoder's two bit-field helpers and of i32::pow on powers of two, without the loops
// and iterator chains of the originals; `slice32` ... `set16` prove them of the real ones.
pub mod helpers {
    use super::f;
    pub fn slice32(w: u32, end: u32, start: u32) -> u32 {
        assert!(start <= end && end < 32 && end - start < 31, "field bounds");
        f(w, end, start)
    }
    pub fn slice16(w: u16, end: u32, start: u32) -> u16 {
        assert!(start <= end && end < 16 && end - start < 15, "field bounds");
        f(w as u32, end, start) as u16
    }
    /// Bit i of the field goes to the place named by the i-th entry from the end.
    pub fn set32(w: u32, mask: &[u32]) -> u32 {
        let n = mask.len();
        let mut r = 0;
        let mut i = 0;
        while i < n {
            r |= ((w >> i) & 1) << mask[n - 1 - i];
            i += 1;
        }
        r
    }
    pub fn set16(w: u16, mask: &[u32]) -> u32 { set32(w as u32, mask) }
    pub fn pow(b: i32, n: u32) -> i32 {
        if b == 2 && n < 32 { return (1u32 << n) as i32 }
        let mut r = 1i32;
        let mut i = 0;
        while i < n { r = r.wrapping_mul(b); i += 1; }
        r
    }
}
macro_rules! helper {
    ($name:ident, $set:ident, $t:ident, $bits:literal) => {
        proof!($name, plain, 34, {
            use carron::cpu::decode::DecodeUtil;
            let (w, end, start) = (nd::u32() as $t, nd::below($bits) as u32, nd::below($bits) as u32);
            nd::assume(start <= end && end - start < $bits - 1);
            let got = DecodeUtil::slice(w, end, start);
            ensures!("slice extracts the bits of the field", got == helpers::$name(w, end, start));
            reachable!("the postcondition is reached", true);
        });
        proof!($set, plain, 34, {
            use carron::cpu::decode::DecodeUtil;
            let (w, n) = (nd::u32() as $t, nd::below(if $bits == 16 { 17 } else { 25 }));
            let mut mask = [0u32; 24];
            for m in mask.iter_mut() { *m = nd::below(32) as u32 }
            let got = DecodeUtil::set(w, &mask[..n]);
            ensures!("set places the bits of the field", got == helpers::$set(w, &mask[..n]));
            reachable!("the postcondition is reached", true);
        });
    };
}
helper!(slice32, set32, u32, 32);
helper!(slice16, set16, u16, 16);

macro_rules! words {
    (@ $name:ident, $body:block) => {
        proof!(@ $name, 34, cadical, [
            kani::stub(<u32 as carron::cpu::decode::DecodeUtil>::slice, $crate::decode::helpers::slice32),
            kani::stub(<u32 as carron::cpu::decode::DecodeUtil>::set, $crate::decode::helpers::set32),
            kani::stub(<u16 as carron::cpu::decode::DecodeUtil>::slice, $crate::decode::helpers::slice16),
            kani::stub(<u16 as carron::cpu::decode::DecodeUtil>::set, $crate::decode::helpers::set16),
            kani::stub(i32::pow, $crate::decode::helpers::pow)], $body);
    };
    ($name:ident, $isa:ident, $( $class:ident )|+) => {
        words!(@ $name, {
            let w = nd::u32();
            nd::assume(w & 3 == 3 && matches!(class(w), $( Class::$class )|+));
            agree(w.decode(Isa::$isa), meaning32(w, Isa::$isa), w as u64);
            reachable!("a word of this class is decoded", true);
        });
    };
}
words!(rv64_all, Rv64, Int | Mul | Ctl | Mem | Amo | Sys | Rest);
words!(rv32_all, Rv32, Int | Mul | Ctl | Mem | Amo | Sys | Rest);
words!(rv64_int, Rv64, Int);
words!(rv32_int, Rv32, Int);
words!(rv64_mul, Rv64, Mul);
words!(rv32_mul, Rv32, Mul);
words!(rv64_ctl, Rv64, Ctl);
words!(rv32_ctl, Rv32, Ctl);
words!(rv64_mem, Rv64, Mem);
words!(rv32_mem, Rv32, Mem);
words!(rv64_amo, Rv64, Amo);
words!(rv32_amo, Rv32, Amo);
words!(rv64_sys, Rv64, Sys);
words!(rv32_sys, Rv32, Sys);

macro_rules! halves {
    ($name:ident, $isa:ident, $q:expr) => {
        words!(@ $name, {
            let h = nd::u32() as u16;
            nd::assume(h & 3 == $q);
            agree(h.decode(Isa::$isa), meaning16(h, Isa::$isa), h as u64);
            reachable!("a halfword of this quadrant is decoded", true);
        });
    };
}
halves!(rv64_c0, Rv64, 0);
halves!(rv64_c1, Rv64, 1);
halves!(rv64_c2, Rv64, 2);
halves!(rv32_c0, Rv32, 0);
halves!(rv32_c1, Rv32, 1);
halves!(rv32_c2, Rv32, 2);
