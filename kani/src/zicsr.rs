//! C13: who may access which CSR; C14: the six CSR instructions read, then write.
use crate::env::*;
use crate::nd;
use carron::cpu::csr::CSRs;
use carron::cpu::execution::Execution;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::verif::{Instruction, OpecodeKind};
use carron::cpu::{PrivilegedLevel, TrapCause};
use carron::Isa;

/// Ghost CSR file: the contracts of CSRs::{read, write, bitset, bitclr} as a CSR instruction relies
/// on them (the real ones are proved by C14's csrfile contracts).
#[derive(Clone, Copy)]
pub struct GhostCsr {
    /// the CSR the instruction names, what it reads as, and what it reads as after it was written
    pub n: usize,
    pub old: u64,
    pub new: u64,
    pub mcounteren: u64,
    pub scounteren: u64,
    pub other: u64,
    /// the writes: how many, the last one's operation, number and operand
    pub writes: u64,
    pub op: u8,
    pub w: usize,
    pub v: u64,
}
pub static mut C: GhostCsr = GhostCsr { n: 0, old: 0, new: 0, mcounteren: 0, scounteren: 0, other: 0, writes: 0, op: 0, w: 0, v: 0 };
pub fn read(_c: &CSRs, n: Option<usize>) -> Result<u64, Exc> {
    let n = n.unwrap();
    assert!(n < 4096, "CSR number below 4096");
    unsafe {
        Ok(if n == C.n { if C.writes == 0 { C.old } else { C.new } }
           else if n == 0x306 { C.mcounteren } else if n == 0x106 { C.scounteren } else { C.other })
    }
}
fn record(op: u8, n: Option<usize>, v: u64) -> Result<(), Exc> {
    unsafe { C.writes += 1; C.op = op; C.w = n.unwrap(); C.v = v };
    Ok(())
}
pub fn write(_c: &mut CSRs, n: Option<usize>, v: u64) -> Result<(), Exc> { record(1, n, v) }
pub fn bitset(_c: &mut CSRs, n: Option<usize>, v: u64) -> Result<(), Exc> { record(2, n, v) }
pub fn bitclr(_c: &mut CSRs, n: Option<usize>, v: u64) -> Result<(), Exc> { record(3, n, v) }

/// Some(permitted?) as the privileged specification says, None where it leaves it open here.
fn permitted(n: usize, writes: bool, lv: PrivilegedLevel, mstatus: u64, mcounteren: u64, scounteren: u64) -> Option<bool> {
    if (lv as usize) < (n >> 8 & 3) || (writes && n >> 10 == 3) { return Some(false) }
    let counter = n & !0x80;
    if counter >= 0xc00 && counter < 0xc20 {
        let i = counter & 31;
        if lv != PrivilegedLevel::Machine && mcounteren >> i & 1 == 0 { return Some(false) }
        if lv == PrivilegedLevel::User && scounteren >> i & 1 == 0 { return Some(false) }
    }
    if n == 0x180 && lv == PrivilegedLevel::Supervisor && mstatus >> 20 & 1 == 1 { return Some(false) }
    // not implemented: the state enables, PMP addresses from 16 on, and ranges the specification reserves
    if n == 0x30c || (n >= 0x3c0 && n < 0x400) || (n >= 0xd80 && n < 0xdc0) || (n >= 0xf80 && n < 0xfc0) { return Some(false) }
    if n == 0x14d { return None } // stimecmp, without the extension that defines it
    Some(true)
}
fn one(isa: Isa, m: &mut Machine, opc: OpecodeKind, op: u8, imm: bool) {
    let (rd, rs1, n) = (nd::below(32), nd::below(32), nd::u32() as usize);
    nd::assume(n < 4096);
    let r = any_regs(isa, [rd, rs1, 0, 0]);
    m.set_regs(isa, &r);
    let pc = xlen(isa, nd::u64()) & !1;
    m.set_pc(pc);
    let (old, new, mc, sc, other) = (xlen(isa, nd::u64()), xlen(isa, nd::u64()), xlen(isa, nd::u64()), xlen(isa, nd::u64()), xlen(isa, nd::u64()));
    let mc = if n == 0x306 { old } else { mc };
    let sc = if n == 0x106 { old } else { sc };
    let st = m.any_csr(0x300, isa);
    unsafe { C = GhostCsr { n, old, new, mcounteren: mc, scounteren: sc, other, writes: 0, op: 0, w: 0, v: 0 }; M = M0; TRAPS = 0; M.pa = nd::u64(); M.l_ok = nd::bool(); M.mem = nd::u32() as u64 };
    let lv = m.cpu.verif_priv();
    let res = m.cpu.reservation_set;
    nd::prefer(n < 0x7a0 && n != 0x180 && n & 0xf80 != 0x380 && n != 0x141 && n != 0x341);
    #[cfg(not(kani))]
    {
        // all memory is granted, so that the instruction could be fetched
        m.set_csr(0x3a0, 0xf);
        m.set_csr(0x3b0, u64::MAX >> 10);
        m.set_csr(0x306, mc);
        m.set_csr(0x106, sc);
        m.set_csr(n, old);
        m.set_csr(0x300, st);
    }
    let old = if cfg!(kani) { old } else { crate::csrfile::view(isa, m, n) };

    let r0 = (Instruction { opc, rd: Some(rd), rs1: Some(rs1), rs2: Some(n), imm: None }).execution(m.cpu);
    let out = match &r0 { Ok(()) => None, Err((_, c, _)) => Some(cause_code(c)) };
    std::mem::forget(r0);

    let writes = op == 1 || rs1 != 0;
    let c = unsafe { C };
    match permitted(n, writes, lv, st, mc, sc) {
        Some(true) => {
            ensures!("a permitted access is not refused", out.is_none());
        }
        Some(false) => {
            ensures!("an access that is not permitted is an illegal instruction", out == Some(TrapCause::IllegalInst as usize as u64));
        }
        None => (),
    }
    if out.is_none() {
        let v = if imm { rs1 as u64 } else { r.get(rs1) };
        r.ensures_only(m, Some((rd, old)));
        #[cfg(not(kani))]
        if writes && n > 0x144 && n != 0x300 && n != 0x301 && n < 0x7a0 {
            let v = xlen(isa, v);
            assert!(m.csr(n) == match op { 1 => v, 2 => old | v, _ => old & !v });
        }
        #[cfg(kani)]
        if writes {
            ensures!("the CSR is written exactly once, with the specified operation and operand", c.writes == 1 && c.op == op && c.w == n && c.v == v);
        } else {
            // setting or clearing no bit is no write (C14)
            ensures!("reading alone writes nothing", c.writes == 0 || (c.writes == 1 && c.op != 1 && c.w == n && c.v == 0));
        }
        ensures!("the next instruction follows", m.cpu.pc() == xlen(isa, pc.wrapping_add(4)));
    } else {
        r.ensures_only(m, None);
        #[cfg(kani)]
        ensures!("a refused access writes no CSR", c.writes == 0);
        #[cfg(not(kani))]
        assert!(crate::csrfile::view(isa, m, n) == old);
        ensures!("a refused access leaves the pc", m.cpu.pc() == pc);
    }
    #[cfg(kani)]
    ensures!("mode, mstatus and reservation are unchanged", m.cpu.verif_priv() == lv && m.csr(0x300) == st && m.cpu.reservation_set == res);
    ensures!("memory is not written and no trap is taken", unsafe { M.stores == 0 && TRAPS == 0 });
    reachable!("permitted in U-mode", out.is_none() && lv == PrivilegedLevel::User && writes);
    reachable!("a counter that is not enabled", out.is_some() && n == 0xc01 && lv == PrivilegedLevel::Supervisor);
    reachable!("satp, trapped", out.is_some() && n == 0x180 && lv == PrivilegedLevel::Supervisor);
    reachable!("a read-only CSR", n == 0xf14 && out.is_none() != writes);
}
macro_rules! csr {
    ($name:ident, $isa:expr, $opc:expr, $op:expr, $imm:expr) => {
        proof!(@ $name, 45, cadical, [
            kani::stub(carron::cpu::verif::Register::read, reg_read),
            kani::stub(carron::cpu::verif::Register::write, reg_write),
            kani::stub(carron::cpu::csr::CSRs::read, read),
            kani::stub(carron::cpu::csr::CSRs::write, write),
            kani::stub(carron::cpu::csr::CSRs::bitset, bitset),
            kani::stub(carron::cpu::csr::CSRs::bitclr, bitclr),
            kani::stub(carron::cpu::Cpu::trap, trap_stub),
            kani::stub(carron::cpu::Cpu::trans_addr, trans_addr),
            kani::stub(carron::bus::Bus::load8, bus_load8),
            kani::stub(carron::bus::Bus::load16, bus_load16),
            kani::stub(carron::bus::Bus::load32, bus_load32),
            kani::stub(carron::bus::Bus::load64, bus_load64),
            kani::stub(carron::bus::Bus::load_u8, bus_load_u8),
            kani::stub(carron::bus::Bus::load_u16, bus_load_u16),
            kani::stub(carron::bus::Bus::load_u32, bus_load_u32),
            kani::stub(carron::bus::Bus::store8, bus_store8),
            kani::stub(carron::bus::Bus::store16, bus_store16),
            kani::stub(carron::bus::Bus::store32, bus_store32),
            kani::stub(carron::bus::Bus::store64, bus_store64)], {
            storage!(mem);
            let isa = $isa;
            let lv = any_priv();
            let mut m = machine(&mut mem, isa, 0, lv, empty_bus(), [0; 32]);
            one(isa, &mut m, $opc, $op, $imm);
        });
    };
}
csr!(rv64_csrrw, Isa::Rv64, OP_CSRRW, 1, false);
csr!(rv64_csrrs, Isa::Rv64, OP_CSRRS, 2, false);
csr!(rv64_csrrc, Isa::Rv64, OP_CSRRC, 3, false);
csr!(rv64_csrrwi, Isa::Rv64, OP_CSRRWI, 1, true);
csr!(rv64_csrrsi, Isa::Rv64, OP_CSRRSI, 2, true);
csr!(rv64_csrrci, Isa::Rv64, OP_CSRRCI, 3, true);
csr!(rv32_csrrw, Isa::Rv32, OP_CSRRW, 1, false);
csr!(rv32_csrrs, Isa::Rv32, OP_CSRRS, 2, false);
csr!(rv32_csrrc, Isa::Rv32, OP_CSRRC, 3, false);
csr!(rv32_csrrwi, Isa::Rv32, OP_CSRRWI, 1, true);
csr!(rv32_csrrsi, Isa::Rv32, OP_CSRRSI, 2, true);
csr!(rv32_csrrci, Isa::Rv32, OP_CSRRCI, 3, true);
