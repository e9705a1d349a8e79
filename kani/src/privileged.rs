//! C16: trap returns and the other privileged instructions.  The CSR file is the real one.
use crate::env::*;
use crate::nd;
use crate::trap::any_mstatus;
use carron::cpu::execution::Execution;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::verif::{Instruction, OpecodeKind};
use carron::cpu::PrivilegedLevel;
use carron::Isa;

const MSTATUS: usize = 0x300;
const MPRV: u64 = 1 << 17;
const ILLEGAL: u64 = 2;

struct Before { lv: PrivilegedLevel, pc: u64, st: u64, sepc: u64, mepc: u64, frame: CsrFrame, regs: Regs }

fn any_state(isa: Isa, m: &mut Machine) -> Before {
    let (rd, rs1, rs2) = (nd::below(32), nd::below(32), nd::below(32));
    let regs = any_regs(isa, [rd, rs1, rs2, 0]);
    m.set_regs(isa, &regs);
    let pc = xlen(isa, nd::u64()) & !1;
    m.set_pc(pc);
    let st = any_mstatus(m, isa);
    let (sepc, mepc) = (m.any_csr(0x141, isa), m.any_csr(0x341, isa));
    m.any_csr(0x301, isa);
    m.any_csr(0x302, isa);
    unsafe { TRAPS = 0 };
    Before { lv: m.cpu.verif_priv(), pc, st, sepc, mepc, frame: CsrFrame::of(m, isa), regs }
}
/// -> Ok, or the cause and the trap value
fn run(m: &mut Machine, inst: &Instruction) -> Result<(), (u64, Option<u64>)> {
    let r = inst.execution(m.cpu);
    let out = match &r { Ok(()) => Ok(()), Err((t, c, _)) => Err((cause_code(c), *t)) };
    std::mem::forget(r);
    out
}
fn kept(m: &Machine, b: &Before, but: &[usize]) {
    b.frame.ensures_kept(m, but);
    b.regs.ensures_only(m, None);
    ensures!("memory is not accessed", unsafe { M.loads + M.stores } == 0);
}
fn refused(m: &Machine, b: &Before, out: Result<(), (u64, Option<u64>)>) {
    ensures!("a mode that is not entitled gets an illegal-instruction exception", matches!(out, Err((ILLEGAL, _))));
    ensures!("the refused instruction moves neither pc nor mode", m.cpu.pc() == b.pc && m.cpu.verif_priv() == b.lv);
    #[cfg(kani)]
    ensures!("the refused instruction takes no trap itself", unsafe { TRAPS } == 0);
    kept(m, b, &[]);
}
fn plain(opc: OpecodeKind) -> Instruction { Instruction { opc, rd: None, rs1: None, rs2: None, imm: None } }

fn xret(isa: Isa, m: &mut Machine, mret: bool) {
    let b = any_state(isa, m);
    let out = run(m, &plain(if mret { OP_MRET } else { OP_SRET }));
    let entitled = if mret { b.lv == PrivilegedLevel::Machine } else { b.lv == PrivilegedLevel::Machine || (b.lv == PrivilegedLevel::Supervisor && b.st >> 22 & 1 == 0) };
    if !entitled {
        refused(m, &b, out);
    } else {
        ensures!("an entitled trap return completes", out.is_ok());
        let ialign = if m.csr(0x301) >> 2 & 1 == 1 { !1 } else { !3 };
        let epc = if mret { b.mepc } else { b.sepc };
        ensures!("execution continues at the saved pc", m.cpu.pc() == epc & ialign);
        let (to, st) = if mret {
            let st = b.st & !(1 << 3 | 3 << 11) | (b.st >> 7 & 1) << 3 | 1 << 7;
            (b.st >> 11 & 3, st)
        } else {
            let st = b.st & !(1 << 1 | 1 << 8) | (b.st >> 5 & 1) << 1 | 1 << 5;
            (b.st >> 8 & 1, st)
        };
        ensures!("the previous mode is restored", m.cpu.verif_priv() as u64 == to);
        // privileged specification 1.12 also clears MPRV when M-mode is left
        let now = m.csr(MSTATUS);
        ensures!("the previous interrupt enable is restored and the stack popped", now | MPRV == st | MPRV);
        ensures!("MPRV is never set by a return", now & MPRV & !st == 0 && (to != 3 || now == st));
        kept(m, &b, &[MSTATUS]);
        reachable!("a return to U-mode", to == 0);
        reachable!("a return to S-mode", to == 1);
    }
    reachable!("refused", !entitled);
    reachable!("from M-mode", entitled && b.lv == PrivilegedLevel::Machine);
}
/// completes as a no-op unless refused
fn nop(isa: Isa, m: &mut Machine, opc: OpecodeKind) {
    let b = any_state(isa, m);
    let (r1, r2) = (b.regs.num[1], b.regs.num[2]);
    let refuse = match opc {
        OP_WFI => b.lv != PrivilegedLevel::Machine && b.st >> 21 & 1 == 1,
        OP_SFENCE_VMA => b.lv == PrivilegedLevel::User || (b.lv == PrivilegedLevel::Supervisor && b.st >> 20 & 1 == 1),
        _ => false,
    };
    let i = match opc {
        OP_SFENCE_VMA => Instruction { opc, rd: None, rs1: Some(r1), rs2: Some(r2), imm: None },
        opc => plain(opc),
    };
    let fence = matches!(i.opc, OP_FENCE);
    let out = run(m, &i);
    if refuse {
        refused(m, &b, out);
    } else {
        ensures!("it completes", out.is_ok());
        ensures!("the next instruction follows", m.cpu.pc() == xlen(isa, b.pc.wrapping_add(4)));
        ensures!("the mode is unchanged", m.cpu.verif_priv() == b.lv);
        #[cfg(kani)]
        ensures!("no trap is taken", unsafe { TRAPS } == 0);
        kept(m, &b, &[]);
    }
    reachable!("it is refused, unless it is a fence", refuse || fence);
    reachable!("it completes in S-mode", !refuse && b.lv == PrivilegedLevel::Supervisor);
}
fn call(isa: Isa, m: &mut Machine, opc: OpecodeKind) {
    let b = any_state(isa, m);
    let ecall = matches!(opc, OP_ECALL);
    let mut i = plain(opc);
    if matches!(i.opc, OP_C_EBREAK) { i.rd = Some(0); i.rs1 = Some(0); }
    let out = run(m, &i);
    let cause = if ecall { [8, 9, 0, 11][b.lv as usize] } else { 3 };
    let tval = if ecall { 0 } else { b.pc };
    // the trap is taken on the spot, or reported for the step loop to take
    #[cfg(kani)]
    {
        ensures!("the pc is that of the instruction when the trap is taken", m.cpu.pc() == b.pc && (out.is_err() || unsafe { TRAP_PC } == b.pc));
        match out {
            Ok(()) => { ensures!("the exception of the current mode is raised", unsafe { TRAPS == 1 && TRAP_CAUSE == cause && TRAP_TVAL == tval }); }
            Err((c, t)) => { ensures!("the exception of the current mode is reported", c == cause && t.unwrap_or(b.pc) == tval && unsafe { TRAPS } == 0); }
        }
        ensures!("the instruction itself changes no mode", m.cpu.verif_priv() == b.lv);
        kept(m, &b, &[]);
    }
    #[cfg(not(kani))]
    {
        if let Err((c, t)) = out {
            assert!(c == cause && t.unwrap_or(b.pc) == tval);
        } else {
            let s = m.cpu.verif_priv() == PrivilegedLevel::Supervisor;
            let (e, c, t) = if s { (0x141, 0x142, 0x143) } else { (0x341, 0x342, 0x343) };
            assert!(m.csr(e) == b.pc && m.csr(c) == cause && m.csr(t) == tval);
        }
        b.regs.ensures_only(m, None);
    }
    reachable!("from U-mode", b.lv == PrivilegedLevel::User);
    reachable!("from M-mode", b.lv == PrivilegedLevel::Machine);
}
macro_rules! sys {
    ($name:ident, $isa:expr, $f:expr, $($arg:expr),*) => {
        proof!($name, sys, 10, {
            storage!(mem);
            let isa = $isa;
            let lv = any_priv();
            let mut m = machine(&mut mem, isa, 0, lv, empty_bus(), [0; 32]);
            m.any_csrs();
            unsafe { M = M0 };
            $f(isa, &mut m, $($arg),*);
        });
    };
}
sys!(rv64_sret, Isa::Rv64, xret, false);
sys!(rv32_sret, Isa::Rv32, xret, false);
sys!(rv64_mret, Isa::Rv64, xret, true);
sys!(rv32_mret, Isa::Rv32, xret, true);
sys!(rv64_wfi, Isa::Rv64, nop, OP_WFI);
sys!(rv32_wfi, Isa::Rv32, nop, OP_WFI);
sys!(rv64_sfence, Isa::Rv64, nop, OP_SFENCE_VMA);
sys!(rv32_sfence, Isa::Rv32, nop, OP_SFENCE_VMA);
sys!(rv64_fence, Isa::Rv64, nop, OP_FENCE);
sys!(rv32_fence, Isa::Rv32, nop, OP_FENCE);
sys!(rv64_ecall, Isa::Rv64, call, OP_ECALL);
sys!(rv32_ecall, Isa::Rv32, call, OP_ECALL);
sys!(rv64_ebreak, Isa::Rv64, call, OP_EBREAK);
sys!(rv32_ebreak, Isa::Rv32, call, OP_EBREAK);
sys!(rv64_c_ebreak, Isa::Rv64, call, OP_C_EBREAK);
sys!(rv32_c_ebreak, Isa::Rv32, call, OP_C_EBREAK);
