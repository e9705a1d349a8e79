//! C04: jumps and branches.
use crate::env::*;
use crate::nd;
use carron::cpu::execution::Execution;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::verif::{Instruction, OpecodeKind};
use carron::Isa;

#[derive(Clone, Copy)]
pub enum Kind {
    /// pc + imm, link register: decoded rd
    Jal,
    /// (rs1 + imm) with bit 0 cleared
    Jalr,
    /// taken?
    Branch(fn(u64, u64, Isa) -> bool),
    /// C.J; C.JAL links x1
    CJ(bool),
    /// C.JR; C.JALR links x1
    CJr(bool),
    CBranch(fn(u64, u64, Isa) -> bool),
}
use Kind::*;

fn one(m: &mut Machine, opc: OpecodeKind, isa: Isa, kind: Kind) -> bool {
    let (rd, rs1, rs2) = (nd::below(32), nd::below(32), nd::below(32));
    let r = any_regs(isa, [rd, rs1, rs2, 1]);
    let pc = xlen(isa, nd::u64()) & !1;
    let imm = nd::u32() as i32;
    m.set_pc(pc);
    m.set_regs(isa, &r);
    let frame = Frame::of(m);
    let (a, b) = (r.get(rs1), r.get(rs2));
    let to = |base: u64| xlen(isa, base.wrapping_add(imm as i64 as u64));
    let i = |rd, rs1, rs2, imm| Instruction { opc, rd, rs1, rs2, imm };
    let (inst, target, link) = match kind {
        Jal => {
            nd::assume(imm & 1 == 0 && imm >= -(1 << 20) && imm < 1 << 20);
            (i(Some(rd), None, None, Some(imm)), to(pc), Some((rd, xlen(isa, pc.wrapping_add(4)))))
        }
        Jalr => {
            nd::assume(imm >= -2048 && imm < 2048);
            (i(Some(rd), Some(rs1), None, Some(imm)), to(a) & !1, Some((rd, xlen(isa, pc.wrapping_add(4)))))
        }
        Branch(t) => {
            nd::assume(imm & 1 == 0 && imm >= -4096 && imm < 4096);
            let taken = t(a, b, isa);
            (i(None, Some(rs1), Some(rs2), Some(imm)), if taken { to(pc) } else { xlen(isa, pc.wrapping_add(4)) }, None)
        }
        CBranch(t) => {
            nd::assume(imm & 1 == 0 && imm >= -256 && imm < 256);
            let taken = t(a, 0, isa);
            (i(None, Some(rs1), None, Some(imm)), if taken { to(pc) } else { xlen(isa, pc.wrapping_add(2)) }, None)
        }
        CJ(link) => {
            nd::assume(imm & 1 == 0 && imm >= -2048 && imm < 2048);
            (i(None, None, None, Some(imm)), to(pc), if link { Some((1, xlen(isa, pc.wrapping_add(2)))) } else { None })
        }
        CJr(link) => {
            nd::assume(rs1 != 0);
            (i(Some(rs1), Some(rs1), None, None), a & !1, if link { Some((1, xlen(isa, pc.wrapping_add(2)))) } else { None })
        }
    };
    let res = inst.execution(m.cpu);
    let ok = res.is_ok();
    std::mem::forget(res);
    ensures!("the control transfer completes without a trap", ok);
    ensures!("pc is the specified target", m.cpu.pc() == target);
    r.ensures_only(m, link);
    frame.ensures_kept(m);
    reachable!("the postcondition is reached", true);
    match kind {
        Branch(t) => t(a, b, isa),
        CBranch(t) => t(a, 0, isa),
        _ => true,
    }
}
fn sx(v: u64, isa: Isa) -> i64 { if rv32(isa) { v as u32 as i32 as i64 } else { v as i64 } }

fn jumps(isa: Isa) {
    storage!(mem);
    let m = &mut machine(&mut mem, isa, 0, any_priv(), empty_bus(), [0; 32]);
    one(m, OP_JAL, isa, Jal);
    one(m, OP_JALR, isa, Jalr);
    one(m, OP_C_J, isa, CJ(false));
    if rv32(isa) { one(m, OP_C_JAL, isa, CJ(true)); }
    one(m, OP_C_JR, isa, CJr(false));
    one(m, OP_C_JALR, isa, CJr(true));
}
fn branches(isa: Isa) {
    storage!(mem);
    let m = &mut machine(&mut mem, isa, 0, any_priv(), empty_bus(), [0; 32]);
    let taken = one(m, OP_BEQ, isa, Branch(|a, b, _| a == b));
    reachable!("a branch is taken", taken);
    reachable!("a branch is not taken", !taken);
    one(m, OP_BNE, isa, Branch(|a, b, _| a != b));
    one(m, OP_BLT, isa, Branch(|a, b, s| sx(a, s) < sx(b, s)));
    one(m, OP_BGE, isa, Branch(|a, b, s| sx(a, s) >= sx(b, s)));
    one(m, OP_BLTU, isa, Branch(|a, b, _| a < b));
    one(m, OP_BGEU, isa, Branch(|a, b, _| a >= b));
    one(m, OP_C_BEQZ, isa, CBranch(|a, _, _| a == 0));
    one(m, OP_C_BNEZ, isa, CBranch(|a, _, _| a != 0));
}
proof!(rv64_jumps, regs, 34, { jumps(Isa::Rv64) });
proof!(rv32_jumps, regs, 34, { jumps(Isa::Rv32) });
proof!(rv64_branches, regs, 34, { branches(Isa::Rv64) });
proof!(rv32_branches, regs, 34, { branches(Isa::Rv32) });
