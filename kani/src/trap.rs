//! C15: trap entry; C17: interrupts; C20: the timer.  The CSR file is the real one.
use crate::env::*;
use crate::nd;
use carron::bus::verif::*;
use carron::bus::Device;
use carron::cpu::{PrivilegedLevel, TrapCause};
use carron::Isa;

const MSTATUS: usize = 0x300;
const MEDELEG: usize = 0x302;
const MIDELEG: usize = 0x303;
const MIE: usize = 0x304;
const MIP: usize = 0x344;

pub const CAUSES: [TrapCause; 20] = [
    TrapCause::InstAddrMisaligned, TrapCause::InstAccessFault, TrapCause::IllegalInst, TrapCause::Breakpoint,
    TrapCause::LoadAddrMisaligned, TrapCause::LoadAccessFault, TrapCause::StoreAMOAddrMisaligned, TrapCause::StoreAMOAccessFault,
    TrapCause::UmodeEcall, TrapCause::SmodeEcall, TrapCause::MmodeEcall, TrapCause::InstPageFault, TrapCause::LoadPageFault,
    TrapCause::StoreAMOPageFault, TrapCause::SupervisorSoftwareInterrupt, TrapCause::MachineSoftwareInterrupt,
    TrapCause::SupervisorTimerInterrupt, TrapCause::MachineTimerInterrupt, TrapCause::SupervisorExternalInterrupt,
    TrapCause::MachineExternalInterrupt,
];
/// (is it an interrupt, exception code) as the privileged specification numbers them.
fn spec_code(i: usize) -> (bool, u64) {
    const EXC: [u64; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15];
    const INT: [u64; 6] = [1, 3, 5, 7, 9, 11];
    if i < 14 { (false, EXC[i]) } else { (true, INT[i - 14]) }
}
/// mstatus as the CSR file may hold it: MPP is never the reserved level.
pub fn any_mstatus(m: &mut Machine, isa: Isa) -> u64 {
    let v = m.any_csr(MSTATUS, isa);
    nd::assume(v >> 11 & 3 != 2);
    v
}

fn take(isa: Isa, m: &mut Machine) {
    let i = nd::below(20);
    let (int, code) = spec_code(i);
    let tval = xlen(isa, nd::u64());
    let pc = xlen(isa, nd::u64()) & !1;
    m.set_pc(pc);
    let st = any_mstatus(m, isa);
    let (ed, id, stvec, mtvec) = (m.any_csr(MEDELEG, isa), m.any_csr(MIDELEG, isa), m.any_csr(0x105, isa), m.any_csr(0x305, isa));
    let lv = m.cpu.verif_priv();
    let frame = CsrFrame::of(m, isa);
    let res = m.cpu.reservation_set;

    m.cpu.trap(tval, CAUSES[i]);

    let delegated = lv != PrivilegedLevel::Machine && (if int { id } else { ed }) >> code & 1 == 1;
    let cause = if int { code | 1 << (if rv32(isa) { 31 } else { 63 }) } else { code };
    let (epc, xcause, xtval, tvec) = if delegated { (0x141, 0x142, 0x143, stvec) } else { (0x341, 0x342, 0x343, mtvec) };
    ensures!("the handling mode's epc is the trapped pc", m.csr(epc) == pc);
    ensures!("the handling mode's cause is the trap's", m.csr(xcause) == cause);
    ensures!("the handling mode's tval is the trap's", m.csr(xtval) == tval);
    let bit = |v: u64, n: u32| v >> n & 1;
    let want = if delegated {
        (st & !(1 << 1 | 1 << 5 | 1 << 8)) | bit(st, 1) << 5 | (lv as u64) << 8
    } else {
        (st & !(1 << 3 | 1 << 7 | 3 << 11)) | bit(st, 3) << 7 | (lv as u64) << 11
    };
    ensures!("mstatus stacks the mode and its interrupt enable and keeps every other bit", m.csr(MSTATUS) == want);
    ensures!("the handling mode is entered", m.cpu.verif_priv() == if delegated { PrivilegedLevel::Supervisor } else { PrivilegedLevel::Machine });
    let base = tvec & !3;
    let target = if tvec & 1 == 1 && int { base.wrapping_add(4 * code) } else { base };
    if tvec & 2 == 0 { ensures!("the handler is entered, vectored for interrupts when configured", m.cpu.pc() == xlen(isa, target)); }
    if delegated { frame.ensures_kept(m, &[0x141, 0x142, 0x143, MSTATUS]) } else { frame.ensures_kept(m, &[0x341, 0x342, 0x343, MSTATUS]) }
    ensures!("the reservation is unchanged", m.cpu.reservation_set == res);
    reachable!("a delegated interrupt, vectored", delegated && int && tvec & 1 == 1);
    reachable!("a delegated exception", delegated && !int);
    reachable!("an exception in M-mode", !delegated && lv == PrivilegedLevel::Machine);
    reachable!("an interrupt in U-mode goes to M-mode", !delegated && lv == PrivilegedLevel::User && int);
}
macro_rules! on {
    ($name:ident, $isa:expr, $f:expr) => {
        proof!(@ $name, 10, cadical, [], {
            storage!(mem);
            let isa = $isa;
            let lv = any_priv();
            let mut m = machine(&mut mem, isa, 0, lv, empty_bus(), [0; 32]);
            m.any_csrs();
            $f(isa, &mut m);
        });
    };
}
on!(rv64_trap, Isa::Rv64, take);
on!(rv32_trap, Isa::Rv32, take);

// ---------------------------------------------------------------------------------------------
/// The CLINT's two registers the hart itself reads; contract of its accessors (C20).
pub static mut MTIME: u64 = 0;
pub static mut MTIMECMP: u64 = 0;
pub static mut CLINT_STORES: u64 = 0;
pub fn clint_load64(_c: &mut Clint, a: u64) -> Result<u64, Exc> {
    unsafe {
        match a {
            0x0200_bff8 => Ok(MTIME),
            0x0200_4000 => Ok(MTIMECMP),
            _ => panic!("the hart reads only mtime and mtimecmp"),
        }
    }
}
pub fn clint_store64(_c: &mut Clint, a: u64, v: u64) -> Result<(), Exc> {
    assert!(a == 0x0200_bff8, "the hart writes only mtime");
    unsafe { MTIME = v; CLINT_STORES += 1 };
    Ok(())
}
/// A CLINT of its real size (its bytes are only reached through the stubs), and in a replay one that
/// holds these two values.
fn clint(mtime: u64, mtimecmp: u64) -> Clint {
    unsafe { MTIME = mtime; MTIMECMP = mtimecmp; CLINT_STORES = 0 };
    #[cfg(kani)]
    { Clint::verif_new(unsafe { Vec::from_raw_parts(8 as *mut u8, 0xffff, 0xffff) }) }
    #[cfg(not(kani))]
    {
        let mut c = Clint::verif_new(vec![0; 0xffff]);
        c.store64(0x0200_bff8, mtime).unwrap();
        c.store64(0x0200_4000, mtimecmp).unwrap();
        c
    }
}
fn set_clint(m: &mut Machine, mtime: u64, mtimecmp: u64) { unsafe { std::ptr::write(&mut m.cpu.bus.clint, clint(mtime, mtimecmp)) } }
fn mtime_now(m: &mut Machine) -> u64 {
    #[cfg(kani)]
    { let _ = m; unsafe { MTIME } }
    #[cfg(not(kani))]
    { m.cpu.bus.clint.load64(0x0200_bff8).unwrap() }
}
macro_rules! timed {
    ($name:ident, $isa:expr, $f:expr) => {
        proof!(@ $name, 10, cadical, [
            kani::stub(<Clint as Device>::load64, clint_load64),
            kani::stub(<Clint as Device>::store64, clint_store64)], {
            storage!(mem);
            let isa = $isa;
            let lv = any_priv();
            let mut m = machine(&mut mem, isa, 0, lv, empty_bus(), [0; 32]);
            m.any_csrs();
            $f(isa, &mut m);
        });
    };
}

fn timer(isa: Isa, m: &mut Machine) {
    let (t, cmp, inc) = (nd::u64(), nd::u64(), nd::u64());
    nd::assume(t <= u64::MAX - inc);
    set_clint(m, t, cmp);
    m.set_csr(0xc01, t); // the time CSR holds the time
    let frame = CsrFrame::of(m, isa);
    let lv = m.cpu.verif_priv();
    m.cpu.timer_increment(inc);
    ensures!("the time advances by exactly the step", mtime_now(m) == t + inc);
    ensures!("the time CSR holds the time", m.csr(0xc01) == t + inc);
    frame.ensures_kept(m, &[0xc01]);
    ensures!("the privilege level is unchanged", m.cpu.verif_priv() == lv);
    let _ = isa;
    reachable!("a step of 50", inc == 50);
}
timed!(rv64_timer, Isa::Rv64, timer);
timed!(rv32_timer, Isa::Rv32, timer);

fn interrupt(isa: Isa, m: &mut Machine) {
    let (t, cmp) = (nd::u64(), nd::u64());
    set_clint(m, t, cmp);
    let mask = match nd::below(3) { 0 => 0, 1 => 1u64 << 11, _ => 1 << 9 };
    let value = if nd::bool() { mask } else { 0 };
    m.cpu.bus.plic.mip_mask = mask;
    m.cpu.bus.plic.mip_value = value;
    let st = any_mstatus(m, isa);
    let (ie, ip0, deleg) = (m.any_csr(MIE, isa), m.any_csr(MIP, isa), m.any_csr(MIDELEG, isa));
    let frame = CsrFrame::of(m, isa);
    let lv = m.cpu.verif_priv();
    let pc = m.cpu.pc();

    let r = m.cpu.check_interrupt();
    let (taken, cause, tval) = match &r { Ok(()) => (false, 0, Some(0)), Err((t, c, _)) => (true, cause_code(c), *t) };
    std::mem::forget(r);

    // what is pending: the timer's bits follow mtime >= mtimecmp, the external ones the PLIC
    let timer = 1 << 7 | 1 << 5;
    let ip = if t >= cmp { ip0 | timer } else { ip0 & !timer };
    let ip = (ip & !mask) | value;
    let due = ip & ie;
    // M-mode's, when M-mode may be interrupted, before S-mode's, when S-mode may be
    let m_ok = lv != PrivilegedLevel::Machine || st >> 3 & 1 == 1;
    let s_ok = lv == PrivilegedLevel::User || (lv == PrivilegedLevel::Supervisor && st >> 1 & 1 == 1);
    const KNOWN: u64 = 1 << 11 | 1 << 3 | 1 << 7 | 1 << 9 | 1 << 1 | 1 << 5;
    let to_m = if m_ok { due & !deleg } else { 0 };
    let to_s = if s_ok { due & deleg } else { 0 };
    // bits beside the six interrupts are not interrupts
    let (to_m_known, to_s_known) = (to_m & KNOWN, to_s & KNOWN);
    let set = if to_m_known != 0 { to_m_known } else { to_s_known };
    let bit = |n: u32| set >> n & 1 == 1;
    let first: u64 = if bit(11) { 11 } else if bit(3) { 3 } else if bit(7) { 7 } else if bit(9) { 9 } else if bit(1) { 1 } else if bit(5) { 5 } else { 0 };
    if to_m & !KNOWN == 0 {
        ensures!("an interrupt is taken exactly when one is pending, enabled and allowed", taken == (first != 0));
        if taken {
            ensures!("the one of highest priority is taken", cause == (1 << 31) + first);
            ensures!("an interrupt has no trap value", tval == Some(0));
        }
    }
    let now = m.csr(MIP);
    if taken {
        let n = cause & 31;
        ensures!("only an enabled, pending interrupt is taken", due >> n & 1 == 1);
        ensures!("every other interrupt stays pending", (now ^ ip) & !(1 << n) == 0);
    } else {
        ensures!("masked interrupts stay pending", now == ip);
        ensures!("the PLIC's line is kept", m.cpu.bus.plic.mip_value == value && m.cpu.bus.plic.mip_mask == mask);
    }
    frame.ensures_kept(m, &[MIP]);
    ensures!("the mode and the pc are unchanged", m.cpu.verif_priv() == lv && m.cpu.pc() == pc);
    ensures!("the time is unchanged", mtime_now(m) == t);
    reachable!("an external interrupt for S-mode", taken && cause == (1 << 31) + 9);
    reachable!("a timer interrupt for M-mode", taken && cause == (1 << 31) + 7);
    reachable!("masked", !taken && due != 0);
}
timed!(rv64_interrupt, Isa::Rv64, interrupt);
timed!(rv32_interrupt, Isa::Rv32, interrupt);
