//! C02: integer computational instructions.
use crate::env::*;
use crate::nd;
use carron::cpu::execution::Execution;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::verif::{Instruction, OpecodeKind};
use carron::cpu::Cpu;
use carron::Isa;
use std::mem::MaybeUninit;

/// What an instruction computes, from (rs1, rs2 or immediate, pc) at XLEN 64 / 32.
pub type F64 = fn(u64, u64, u64) -> u64;
pub type F32 = fn(u32, u32, u32) -> u32;

#[derive(Clone, Copy)]
pub enum Shape { RegReg, RegImm, Shamt(u64), Imm, CRd(i32), CSp, CSpSp, CMv, CImm, RegRegNone }
use Shape::*;

fn one(m: &mut Machine, opc: OpecodeKind, isa: Isa, shape: Shape, size: u64, f: impl Fn(u64, u64, u64) -> u64) {
    let (rd, rs1, rs2) = (nd::below(32), nd::below(32), nd::below(32));
    let r = any_regs(isa, [rd, rs1, rs2, 2]);
    let pc = xlen(isa, nd::u64()) & !1;
    let imm = nd::u32() as i32;
    m.set_pc(pc);
    m.set_regs(isa, &r);
    let frame = Frame::of(m);
    let i = |rd, rs1, rs2, imm| Instruction { opc, rd, rs1, rs2, imm };
    let sx = imm as i64 as u64;
    let (inst, d, x, y) = match shape {
        RegReg => (i(Some(rd), Some(rs1), Some(rs2), None), rd, r.get(rs1), r.get(rs2)),
        RegImm => {
            nd::assume(imm >= -2048 && imm < 2048);
            (i(Some(rd), Some(rs1), None, Some(imm)), rd, r.get(rs1), sx)
        }
        Shamt(n) => {
            nd::assume(imm >= 0 && (imm as u64) < n);
            (i(Some(rd), Some(rs1), None, Some(imm)), rd, r.get(rs1), sx)
        }
        Imm => {
            nd::assume(imm & 0xfff == 0);
            (i(Some(rd), None, None, Some(imm)), rd, sx, sx)
        }
        CImm => (i(Some(rd), None, None, Some(imm)), rd, sx, sx),
        CRd(n) => {
            nd::assume(imm >= -n && imm < n);
            (i(Some(rd), Some(rd), None, Some(imm)), rd, r.get(rd), sx)
        }
        CSp => {
            nd::assume(imm >= 0 && imm < 1024);
            (i(Some(rd), None, None, Some(imm)), rd, r.get(2), sx)
        }
        CSpSp => {
            nd::assume(imm >= -512 && imm < 512);
            (i(None, None, None, Some(imm)), 2, r.get(2), sx)
        }
        RegRegNone => (i(Some(rd), Some(rs1), None, Some(imm)), 0, 0, 0),
        CMv => (i(Some(rd), None, Some(rs2), None), rd, r.get(rs2), r.get(rs2)),
    };
    let res = inst.execution(m.cpu);
    let ok = res.is_ok();
    std::mem::forget(res);
    ensures!("the instruction completes without a trap", ok);
    r.ensures_only(m, Some((d, f(x, y, pc))));
    ensures!("pc advances by the instruction's size", m.cpu.pc() == xlen(isa, pc.wrapping_add(size)));
    frame.ensures_kept(m);
    reachable!("the postcondition is reached", true);
}
fn new(mem: &mut MaybeUninit<Cpu>, isa: Isa) -> Machine<'_> { machine(mem, isa, 0, any_priv(), empty_bus(), [0; 32]) }
pub fn op64(m: &mut Machine, opc: OpecodeKind, shape: Shape, size: u64, f: F64) { one(m, opc, Isa::Rv64, shape, size, f) }
pub fn op32(m: &mut Machine, opc: OpecodeKind, shape: Shape, size: u64, f: F32) {
    one(m, opc, Isa::Rv32, shape, size, |a, b, c| f(a as u32, b as u32, c as u32) as u64)
}
macro_rules! ops {
    ($name:ident, $isa:ident, $op:ident, $( $opc:ident $shape:expr, $size:literal => $f:expr; )*) => {
        proof!($name, regs, 34, {
            storage!(mem);
            let m = &mut new(&mut mem, Isa::$isa);
            $( $op(m, $opc, $shape, $size, $f); )*
        });
    };
}
fn sx32(v: u32) -> u64 { v as i32 as i64 as u64 }


ops!(rv64_add, Rv64, op64,
    OP_ADD RegReg, 4 => |a, b, _| a.wrapping_add(b);
    OP_SUB RegReg, 4 => |a, b, _| a.wrapping_sub(b);
    OP_ADDI RegImm, 4 => |a, b, _| a.wrapping_add(b);
    OP_LUI Imm, 4 => |a, _, _| a;
    OP_AUIPC Imm, 4 => |a, _, pc| pc.wrapping_add(a);
    OP_FENCE RegRegNone, 4 => |_, _, _| 0;);
ops!(rv64_cmp, Rv64, op64,
    OP_SLT RegReg, 4 => |a, b, _| ((a as i64) < (b as i64)) as u64;
    OP_SLTU RegReg, 4 => |a, b, _| (a < b) as u64;
    OP_SLTI RegImm, 4 => |a, b, _| ((a as i64) < (b as i64)) as u64;
    OP_SLTIU RegImm, 4 => |a, b, _| (a < b) as u64;);
ops!(rv64_logic, Rv64, op64,
    OP_XOR RegReg, 4 => |a, b, _| a ^ b;
    OP_OR RegReg, 4 => |a, b, _| a | b;
    OP_AND RegReg, 4 => |a, b, _| a & b;
    OP_XORI RegImm, 4 => |a, b, _| a ^ b;
    OP_ORI RegImm, 4 => |a, b, _| a | b;
    OP_ANDI RegImm, 4 => |a, b, _| a & b;);
ops!(rv64_shift, Rv64, op64,
    OP_SLL RegReg, 4 => |a, b, _| a << (b & 63);
    OP_SRL RegReg, 4 => |a, b, _| a >> (b & 63);
    OP_SRA RegReg, 4 => |a, b, _| ((a as i64) >> (b & 63)) as u64;
    OP_SLLI Shamt(64), 4 => |a, b, _| a << (b & 63);
    OP_SRLI Shamt(64), 4 => |a, b, _| a >> (b & 63);
    OP_SRAI Shamt(64), 4 => |a, b, _| ((a as i64) >> (b & 63)) as u64;);
ops!(rv64_c_imm, Rv64, op64,
    OP_C_LI CImm, 2 => |a, _, _| a;
    OP_C_LUI CImm, 2 => |a, _, _| a;
    OP_C_ADDI CRd(32), 2 => |a, b, _| a.wrapping_add(b);
    OP_C_ANDI CRd(32), 2 => |a, b, _| a & b;
    OP_C_ADDI16SP CSpSp, 2 => |a, b, _| a.wrapping_add(b);
    OP_C_ADDI4SPN CSp, 2 => |a, b, _| a.wrapping_add(b);
    OP_C_MV CMv, 2 => |a, _, _| a;
    OP_C_NOP RegRegNone, 2 => |_, _, _| 0;);
ops!(rv64_c_reg, Rv64, op64,
    OP_C_ADD RegReg, 2 => |a, b, _| a.wrapping_add(b);
    OP_C_SUB RegReg, 2 => |a, b, _| a.wrapping_sub(b);
    OP_C_XOR RegReg, 2 => |a, b, _| a ^ b;
    OP_C_OR RegReg, 2 => |a, b, _| a | b;
    OP_C_AND RegReg, 2 => |a, b, _| a & b;);
ops!(rv64_c_shift, Rv64, op64,
    OP_C_SLLI Shamt(64), 2 => |a, b, _| a << (b & 63);
    OP_C_SRLI Shamt(64), 2 => |a, b, _| a >> (b & 63);
    OP_C_SRAI Shamt(64), 2 => |a, b, _| ((a as i64) >> (b & 63)) as u64;);
ops!(rv64_w_add, Rv64, op64,
    OP_ADDW RegReg, 4 => |a, b, _| sx32((a as u32).wrapping_add(b as u32));
    OP_SUBW RegReg, 4 => |a, b, _| sx32((a as u32).wrapping_sub(b as u32));
    OP_ADDIW RegImm, 4 => |a, b, _| sx32((a as u32).wrapping_add(b as u32));
    OP_C_ADDW RegReg, 2 => |a, b, _| sx32((a as u32).wrapping_add(b as u32));
    OP_C_SUBW RegReg, 2 => |a, b, _| sx32((a as u32).wrapping_sub(b as u32));
    OP_C_ADDIW CRd(32), 2 => |a, b, _| sx32((a as u32).wrapping_add(b as u32)););
ops!(rv64_w_shift, Rv64, op64,
    OP_SLLW RegReg, 4 => |a, b, _| sx32((a as u32) << (b & 31));
    OP_SRLW RegReg, 4 => |a, b, _| sx32((a as u32) >> (b & 31));
    OP_SRAW RegReg, 4 => |a, b, _| sx32(((a as i32) >> (b & 31)) as u32);
    OP_SLLIW Shamt(32), 4 => |a, b, _| sx32((a as u32) << (b & 31));
    OP_SRLIW Shamt(32), 4 => |a, b, _| sx32((a as u32) >> (b & 31));
    OP_SRAIW Shamt(32), 4 => |a, b, _| sx32(((a as i32) >> (b & 31)) as u32););

ops!(rv32_add, Rv32, op32,
    OP_ADD RegReg, 4 => |a, b, _| a.wrapping_add(b);
    OP_SUB RegReg, 4 => |a, b, _| a.wrapping_sub(b);
    OP_ADDI RegImm, 4 => |a, b, _| a.wrapping_add(b);
    OP_LUI Imm, 4 => |a, _, _| a;
    OP_AUIPC Imm, 4 => |a, _, pc| pc.wrapping_add(a);
    OP_FENCE RegRegNone, 4 => |_, _, _| 0;);
ops!(rv32_cmp, Rv32, op32,
    OP_SLT RegReg, 4 => |a, b, _| ((a as i32) < (b as i32)) as u32;
    OP_SLTU RegReg, 4 => |a, b, _| (a < b) as u32;
    OP_SLTI RegImm, 4 => |a, b, _| ((a as i32) < (b as i32)) as u32;
    OP_SLTIU RegImm, 4 => |a, b, _| (a < b) as u32;);
ops!(rv32_logic, Rv32, op32,
    OP_XOR RegReg, 4 => |a, b, _| a ^ b;
    OP_OR RegReg, 4 => |a, b, _| a | b;
    OP_AND RegReg, 4 => |a, b, _| a & b;
    OP_XORI RegImm, 4 => |a, b, _| a ^ b;
    OP_ORI RegImm, 4 => |a, b, _| a | b;
    OP_ANDI RegImm, 4 => |a, b, _| a & b;);
ops!(rv32_shift, Rv32, op32,
    OP_SLL RegReg, 4 => |a, b, _| a << (b & 31);
    OP_SRL RegReg, 4 => |a, b, _| a >> (b & 31);
    OP_SRA RegReg, 4 => |a, b, _| ((a as i32) >> (b & 31)) as u32;
    OP_SLLI Shamt(32), 4 => |a, b, _| a << (b & 31);
    OP_SRLI Shamt(32), 4 => |a, b, _| a >> (b & 31);
    OP_SRAI Shamt(32), 4 => |a, b, _| ((a as i32) >> (b & 31)) as u32;);
ops!(rv32_c_imm, Rv32, op32,
    OP_C_LI CImm, 2 => |a, _, _| a;
    OP_C_LUI CImm, 2 => |a, _, _| a;
    OP_C_ADDI CRd(32), 2 => |a, b, _| a.wrapping_add(b);
    OP_C_ANDI CRd(32), 2 => |a, b, _| a & b;
    OP_C_ADDI16SP CSpSp, 2 => |a, b, _| a.wrapping_add(b);
    OP_C_ADDI4SPN CSp, 2 => |a, b, _| a.wrapping_add(b);
    OP_C_MV CMv, 2 => |a, _, _| a;
    OP_C_NOP RegRegNone, 2 => |_, _, _| 0;);
ops!(rv32_c_reg, Rv32, op32,
    OP_C_ADD RegReg, 2 => |a, b, _| a.wrapping_add(b);
    OP_C_SUB RegReg, 2 => |a, b, _| a.wrapping_sub(b);
    OP_C_XOR RegReg, 2 => |a, b, _| a ^ b;
    OP_C_OR RegReg, 2 => |a, b, _| a | b;
    OP_C_AND RegReg, 2 => |a, b, _| a & b;);
ops!(rv32_c_shift, Rv32, op32,
    OP_C_SLLI Shamt(32), 2 => |a, b, _| a << (b & 31);
    OP_C_SRLI Shamt(32), 2 => |a, b, _| a >> (b & 31);
    OP_C_SRAI Shamt(32), 2 => |a, b, _| ((a as i32) >> (b & 31)) as u32;);
