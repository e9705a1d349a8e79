//! The machine under contract, built from its real parts, and the contracts that stand in for
//! callees (each is proved of the real callee by the check named beside it).
use carron::bus::verif::*;
use carron::bus::Bus;
use carron::cpu::csr::{CSRs, Xstatus};
use carron::cpu::verif::*;
use carron::cpu::{Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause};
use carron::Isa;
use std::cell::RefCell;
use std::mem::MaybeUninit;
use std::rc::Rc;

use crate::nd;

pub type Exc = (Option<u64>, TrapCause, String);
pub const DRAM_BASE: u64 = 0x8000_0000;
pub const DRAM_SIZE: u64 = 0x8000_0000;

pub fn rv32(isa: Isa) -> bool { matches!(isa, Isa::Rv32) }
/// The value truncated to XLEN, zero-extended: how registers, pc and CSRs are held.
pub fn xlen(isa: Isa, v: u64) -> u64 { if rv32(isa) { v & 0xffff_ffff } else { v } }
pub fn priv_of(n: u8) -> PrivilegedLevel {
    match n {
        0 => PrivilegedLevel::User,
        1 => PrivilegedLevel::Supervisor,
        _ => PrivilegedLevel::Machine,
    }
}
pub fn any_priv() -> PrivilegedLevel {
    let n = nd::u8();
    nd::assume(n == 0 || n == 1 || n == 3);
    priv_of(n)
}

/// Storage for a machine: arbitrary contents in every one of the 4096 CSRs (zero in a replay, where
/// the entries a harness depends on are set explicitly).  Declared in place: a move would copy it.
#[macro_export]
macro_rules! storage {
    ($name:ident) => {
        #[cfg(kani)]
        #[allow(unused_mut)]
        let mut $name = unsafe { &mut *std::ptr::addr_of_mut!($crate::env::ANY_CPU).cast::<std::mem::MaybeUninit<carron::cpu::Cpu>>() };
        #[cfg(not(kani))]
        let mut $name = std::mem::MaybeUninit::<carron::cpu::Cpu>::zeroed();
    };
}

#[cfg(kani)]
pub fn receiver() -> std::sync::mpsc::Receiver<String> { unsafe { MaybeUninit::uninit().assume_init() } }
#[cfg(not(kani))]
pub fn receiver() -> std::sync::mpsc::Receiver<String> { std::sync::mpsc::channel().1 }

pub fn empty_bus() -> Bus { bus_with(Dram::verif_new(Vec::new(), DRAM_BASE)) }

pub fn bus_with(dram: Dram) -> Bus {
    Bus {
        mrom: Mrom::verif_new(Vec::new()),
        clint: Clint::verif_new(Vec::new()),
        dram,
        uart: Uart::verif_new(Vec::new(), 0, 0, 0, Default::default(), receiver()),
        plic: Plic::verif_new(Vec::new(), Vec::new(), Vec::new(), 0, 0),
    }
}

#[cfg(kani)]
extern "C" {
    /// A machine with arbitrary contents, of which `machine` sets everything but the CSR values.
    pub static mut ANY_CPU: Cpu;
    pub static mut ANY_CSRS: [u64; 4096];
}

pub struct Machine<'a> {
    pub cpu: &'a mut Cpu,
    pub pc: Rc<RefCell<u64>>,
}

impl Machine<'_> {
    pub fn csr(&self, n: usize) -> u64 { self.cpu.verif_csrs().verif_raw()[n] }
    pub fn set_csr(&mut self, n: usize, v: u64) { self.cpu.verif_csrs_mut().verif_raw_mut()[n] = v }
    pub fn set_pc(&mut self, v: u64) { *self.pc.borrow_mut() = v }
    /// Load the (ghost, or in a replay the real) register file.
    pub fn set_regs(&mut self, isa: Isa, r: &Regs) {
        if cfg!(not(kani)) {
            unsafe { std::ptr::write(&mut self.cpu.regs, Register::verif_new(r.all, Rc::new(isa))) }
        }
    }
    /// All 4096 CSRs arbitrary, as one array term (for obligations decided on terms).
    pub fn any_csrs(&mut self) {
        #[cfg(kani)]
        { *self.cpu.verif_csrs_mut().verif_raw_mut() = unsafe { ANY_CSRS }; }
    }
    /// Precondition: CSR `n` holds `v`.
    pub fn known_csr(&mut self, n: usize, v: u64) {
        #[cfg(kani)]
        nd::assume(self.csr(n) == v);
        #[cfg(not(kani))]
        self.set_csr(n, v);
    }
    /// The value CSR `n` (any number, not only a constant) happens to hold, reproducible in a replay.
    pub fn some_csr(&mut self, n: usize, isa: Isa) -> u64 {
        let v = xlen(isa, nd::u64());
        self.known_csr(n, v);
        v
    }
    /// Give CSR `n` an arbitrary value that a replay can reproduce.
    pub fn any_csr(&mut self, n: usize, isa: Isa) -> u64 {
        let v = xlen(isa, nd::u64());
        self.set_csr(n, v);
        v
    }
}

pub fn machine<'a>(mem: &'a mut MaybeUninit<Cpu>, isa: Isa, pc: u64, lv: PrivilegedLevel, bus: Bus, regs: [u64; 32]) -> Machine<'a> {
    machine_with(mem, isa, pc, lv, bus, regs, 0, [0; 8], [0; 8])
}
/// The same, with these triggers.
#[allow(clippy::too_many_arguments)]
pub fn machine_with<'a>(mem: &'a mut MaybeUninit<Cpu>, isa: Isa, pc: u64, lv: PrivilegedLevel, bus: Bus, regs: [u64; 32], sel: usize, tdata1: [u64; 8], tdata2: [u64; 8]) -> Machine<'a> {
    let pc = Rc::new(RefCell::new(pc));
    let isa = Rc::new(isa);
    let p: *mut Cpu = mem.as_mut_ptr();
    unsafe {
        CSRs::verif_init(Cpu::verif_csrs_ptr(p), sel, tdata1, tdata2, pc.clone(), isa.clone());
        let regs = Register::verif_new(regs, isa.clone());
        Cpu::verif_init(p, pc.clone(), bus, regs, Mmu::new(isa.clone()), None, isa, lv);
    }
    Machine { cpu: unsafe { &mut *p }, pc }
}

// ---------------------------------------------------------------------------------------------
// Ghost register file: the contract of Register::read / Register::write, which check C01 proves of
// the real 32-entry file.  An instruction may read any register and write registers; at most
// three registers are of interest to its contract, the rest are one arbitrary value.

#[derive(Clone, Copy)]
pub struct Ghost {
    pub rv32: bool,
    /// tracked register numbers and their values
    pub num: [usize; 4],
    pub val: [u64; 4],
    /// what any other register holds
    pub other: u64,
    /// a register other than the tracked ones was written
    pub stray: bool,
}
pub static mut G: Ghost = Ghost { rv32: false, num: [0; 4], val: [0; 4], other: 0, stray: false };

/// The register file as an instruction's contract sees it.
pub struct Regs {
    pub num: [usize; 4],
    pub val: [u64; 4],
    pub other: u64,
    pub all: [u64; 32],
}

/// Arbitrary register contents with the four given registers tracked.
pub fn any_regs(isa: Isa, num: [usize; 4]) -> Regs {
    let mut all = [0u64; 32];
    let mut val = [0u64; 4];
    let other = xlen(isa, nd::u64());
    for i in 0..4 {
        let mut v = xlen(isa, nd::u64());
        if num[i] == 0 { v = 0 }
        for j in 0..i {
            if num[j] == num[i] { v = val[j] }
        }
        val[i] = v;
    }
    if cfg!(not(kani)) {
        all = [other; 32];
        for i in 0..4 { all[num[i]] = val[i] }
        all[0] = 0;
    }
    unsafe { G = Ghost { rv32: rv32(isa), num, val, other, stray: false } };
    Regs { num, val, other, all }
}

impl Regs {
    pub fn get(&self, n: usize) -> u64 {
        for i in 0..4 { if self.num[i] == n { return self.val[i] } }
        if n == 0 { return 0 }
        self.other
    }
    /// Postcondition: register `rd` (unless x0) holds `v` and every other register is unchanged.
    pub fn ensures_only(&self, m: &Machine, rd: Option<(usize, u64)>) {
        #[cfg(kani)]
        unsafe {
            let _ = m;
            ensures!("no register besides the destination is written", !G.stray);
            for i in 0..4 {
                let n = self.num[i];
                match rd {
                    Some((d, v)) if d == n && d != 0 =>
                        { ensures!("destination register holds the specified result", G.val[i] == v); }
                    _ => { ensures!("source registers are unchanged", G.val[i] == self.val[i]); }
                }
            }
        }
        #[cfg(not(kani))]
        {
            for n in 0..32 {
                let e = match rd { Some((d, v)) if d == n && n != 0 => v, _ => self.all[n] };
                let got = if n == 0 { m.cpu.regs.read(Some(0)) } else { m.cpu.regs.verif_raw()[n] };
                assert!(got == e, "x{n} is {got:#x}, specified {e:#x}");
            }
        }
    }
}

pub fn reg_read(_r: &Register, src: Option<usize>) -> u64 {
    let n = src.unwrap();
    assert!(n < 32, "register number below 32");
    unsafe {
        for i in 0..4 { if G.num[i] == n { return G.val[i] } } // 0 for x0, see any_regs
        if n == 0 { return 0 }
        G.other
    }
}
pub fn reg_write(_r: &mut Register, dst: Option<usize>, v: u64) {
    let n = dst.unwrap();
    assert!(n < 32, "register number below 32");
    unsafe {
        if n == 0 { return }
        let v = if G.rv32 { v & 0xffff_ffff } else { v };
        let mut hit = false;
        for i in 0..4 { if G.num[i] == n { G.val[i] = v; hit = true } }
        if !hit { G.stray = true }
    }
}

// ---------------------------------------------------------------------------------------------
// Library calls without influence on the machine: logging, printing and building error texts.

#[cfg(kani)]
pub mod lib_stubs {
    pub fn vec_as_slice<T, A: std::alloc::Allocator>(v: &Vec<T, A>) -> &[T] {
        unsafe { std::mem::transmute::<(*const T, usize), &[T]>((v.as_ptr(), v.len())) }
    }
    pub fn vec_as_mut_slice<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>) -> &mut [T] {
        unsafe { std::mem::transmute::<(*mut T, usize), &mut [T]>((v.as_mut_ptr(), v.len())) }
    }
    pub fn log_get<T>(_c: &once_cell::sync::OnceCell<T>) -> Option<&T> {
        Some(unsafe { &*(&carron::log::LogLv::NoLog as *const _ as *const T) })
    }
    pub fn print(_a: std::fmt::Arguments<'_>) {}
    pub fn stdout() -> std::io::Stdout { unsafe { std::mem::MaybeUninit::uninit().assume_init() } }
    pub fn flush(_s: &mut std::io::Stdout) -> std::io::Result<()> { Ok(()) }
    pub fn str_debug(_s: &str, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn char_debug(_s: &char, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn slice_error(_s: &str, _b: usize, _e: usize) -> ! { panic!("str slice out of range") }
    pub fn string_from<'a>(_s: &'a str) -> String where 'a: 'a { String::new() }
    pub fn format(_a: std::fmt::Arguments<'_>) -> String { String::new() }
}

/// `proof!{ name [stub set] { body } }`: one harness = one contract (requires / call / ensures).
#[macro_export]
macro_rules! proof {
    (@ $name:ident, $unwind:literal, $solver:ident, [$($stub:meta),* $(,)?], $body:block) => {
        $crate::proof!(@@ $name, $unwind, $solver, [kani::stub(<std::io::Stdout as std::io::Write>::flush, $crate::env::lib_stubs::flush), $($stub),*], $body);
    };
    (@@ $name:ident, $unwind:literal, $solver:ident, [$($stub:meta),* $(,)?], $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::stub(once_cell::sync::OnceCell::get, $crate::env::lib_stubs::log_get))]
        #[cfg_attr(kani, kani::stub(std::fmt::format, $crate::env::lib_stubs::format))]
        #[cfg_attr(kani, kani::stub(<std::string::String as std::convert::From<&str>>::from, $crate::env::lib_stubs::string_from))]
        #[cfg_attr(kani, kani::stub(std::io::_print, $crate::env::lib_stubs::print))]
        #[cfg_attr(kani, kani::stub(<str as std::fmt::Debug>::fmt, $crate::env::lib_stubs::str_debug))]
        #[cfg_attr(kani, kani::stub(<char as std::fmt::Debug>::fmt, $crate::env::lib_stubs::char_debug))]
        #[cfg_attr(kani, kani::stub(std::io::stdout, $crate::env::lib_stubs::stdout))]
        $( #[cfg_attr(kani, $stub)] )*
        #[cfg_attr(kani, kani::solver($solver))]
        #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn $name() $body
    };
    ($name:ident, plain, $unwind:literal, $body:block) => {
        $crate::proof!(@ $name, $unwind, cadical, [], $body);
    };
    ($name:ident, regs, $unwind:literal, $body:block) => { $crate::proof!($name, regs_by cadical, $unwind, $body); };
    ($name:ident, regs_by $solver:ident, $unwind:literal, $body:block) => {
        $crate::proof!(@ $name, $unwind, $solver, [
            kani::stub(carron::cpu::verif::Register::read, $crate::env::reg_read),
            kani::stub(carron::cpu::verif::Register::write, $crate::env::reg_write),
            kani::stub(carron::cpu::csr::CSRs::write, $crate::env::csr_write),
            kani::stub(carron::cpu::csr::CSRs::bitset, $crate::env::csr_write),
            kani::stub(carron::cpu::csr::CSRs::bitclr, $crate::env::csr_write),
            kani::stub(carron::cpu::csr::CSRs::write_xstatus, $crate::env::csr_write_xstatus),
            kani::stub(carron::cpu::Cpu::trap, $crate::env::trap_stub),
            kani::stub(carron::cpu::Cpu::trans_addr, $crate::env::trans_addr),
            kani::stub(carron::bus::Bus::load8, $crate::env::bus_load8),
            kani::stub(carron::bus::Bus::load16, $crate::env::bus_load16),
            kani::stub(carron::bus::Bus::load32, $crate::env::bus_load32),
            kani::stub(carron::bus::Bus::load64, $crate::env::bus_load64),
            kani::stub(carron::bus::Bus::load_u8, $crate::env::bus_load_u8),
            kani::stub(carron::bus::Bus::load_u16, $crate::env::bus_load_u16),
            kani::stub(carron::bus::Bus::load_u32, $crate::env::bus_load_u32),
            kani::stub(carron::bus::Bus::store8, $crate::env::bus_store8),
            kani::stub(carron::bus::Bus::store16, $crate::env::bus_store16),
            kani::stub(carron::bus::Bus::store32, $crate::env::bus_store32),
            kani::stub(carron::bus::Bus::store64, $crate::env::bus_store64)], $body);
    };
    // the CSR file is the real one; registers, memory and trap entry are their contracts
    ($name:ident, sys, $unwind:literal, $body:block) => {
        $crate::proof!(@ $name, $unwind, cadical, [
            kani::stub(carron::cpu::verif::Register::read, $crate::env::reg_read),
            kani::stub(carron::cpu::verif::Register::write, $crate::env::reg_write),
            kani::stub(carron::cpu::Cpu::trap, $crate::env::trap_stub),
            kani::stub(carron::cpu::Cpu::trans_addr, $crate::env::trans_addr),
            kani::stub(carron::bus::Bus::load8, $crate::env::bus_load8),
            kani::stub(carron::bus::Bus::load16, $crate::env::bus_load16),
            kani::stub(carron::bus::Bus::load32, $crate::env::bus_load32),
            kani::stub(carron::bus::Bus::load64, $crate::env::bus_load64),
            kani::stub(carron::bus::Bus::load_u8, $crate::env::bus_load_u8),
            kani::stub(carron::bus::Bus::load_u16, $crate::env::bus_load_u16),
            kani::stub(carron::bus::Bus::load_u32, $crate::env::bus_load_u32),
            kani::stub(carron::bus::Bus::store8, $crate::env::bus_store8),
            kani::stub(carron::bus::Bus::store16, $crate::env::bus_store16),
            kani::stub(carron::bus::Bus::store32, $crate::env::bus_store32),
            kani::stub(carron::bus::Bus::store64, $crate::env::bus_store64)], $body);
    };
}

/// The part of the state no computational instruction may touch: CSRs (every writer of the CSR file
/// is replaced by one that only records the call), privilege level and reservation.
pub struct Frame { lv: PrivilegedLevel, res: Option<usize> }
impl Frame {
    pub fn of(m: &Machine) -> Frame {
        unsafe { CSR_WRITES = 0; TRAPS = 0 };
        Frame { lv: m.cpu.verif_priv(), res: m.cpu.reservation_set }
    }
    pub fn ensures_kept(&self, m: &Machine) {
        ensures!("no CSR is written", unsafe { CSR_WRITES } == 0);
        ensures!("no trap is taken", unsafe { TRAPS } == 0);
        ensures!("memory is not accessed", unsafe { M.trans + M.loads + M.stores } == 0);
        ensures!("the privilege level is unchanged", m.cpu.verif_priv() == self.lv);
        ensures!("the reservation is unchanged", m.cpu.reservation_set == self.res);
    }
}
pub static mut CSR_WRITES: u64 = 0;
pub fn csr_write(_c: &mut CSRs, _n: Option<usize>, _v: u64) -> Result<(), Exc> {
    unsafe { CSR_WRITES += 1 };
    Ok(())
}
pub fn csr_write_xstatus(_c: &mut CSRs, _p: PrivilegedLevel, _f: Xstatus, _v: u64) {
    unsafe { CSR_WRITES += 1 };
}
/// Contract of Cpu::trap as its callers rely on it (proved by C14): it is called at most once per
/// instruction, with this cause and this trap value.
pub static mut TRAPS: u64 = 0;
pub static mut TRAP_CAUSE: u64 = 0;
pub static mut TRAP_TVAL: u64 = 0;
pub static mut TRAP_PC: u64 = 0;
pub fn trap_stub(c: &mut Cpu, tval: u64, cause: TrapCause) {
    unsafe { TRAPS += 1; TRAP_CAUSE = cause_code(&cause); TRAP_TVAL = tval; TRAP_PC = c.pc() };
}

// ---------------------------------------------------------------------------------------------
// Ghost memory system: the contracts of Cpu::trans_addr (C10, C11, C13, C20) and of the Bus accessors
// (C08, C09) as an instruction relies on them.  Every call is recorded; results are arbitrary.

#[derive(Clone, Copy)]
pub struct GhostMem {
    /// address translation: calls, and the request of the last one
    pub trans: u64,
    pub t_purpose: TransFor,
    pub t_align: u64,
    pub t_addr: u64,
    /// its outcome: a physical address, or an exception
    pub t_ok: bool,
    pub pa: u64,
    pub t_cause: TrapCause,
    pub t_tval: u64,
    /// loads: calls, address and width of the last, outcome and memory contents
    pub loads: u64,
    pub l_addr: u64,
    pub l_width: u64,
    pub l_ok: bool,
    pub mem: u64,
    /// stores
    pub stores: u64,
    pub s_addr: u64,
    pub s_width: u64,
    pub s_data: u64,
    pub s_ok: bool,
    /// a load happened after a store
    pub disorder: bool,
}
pub const M0: GhostMem = GhostMem {
    trans: 0, t_purpose: TransFor::Deleg, t_align: 0, t_addr: 0, t_ok: true, pa: 0,
    t_cause: TrapCause::LoadPageFault, t_tval: 0, loads: 0, l_addr: 0, l_width: 0, l_ok: true,
    mem: 0, stores: 0, s_addr: 0, s_width: 0, s_data: 0, s_ok: true, disorder: false,
};
pub static mut M: GhostMem = M0;
fn width_mask(w: u64, v: u64) -> u64 { if w == 8 { v } else { v & ((1 << (8 * w)) - 1) } }
pub fn trans_addr(c: &mut Cpu, p: TransFor, a: TransAlign, addr: u64) -> Result<u64, Exc> {
    unsafe {
        M.trans += 1;
        M.t_purpose = p;
        M.t_align = a as u64;
        M.t_addr = if G.rv32 { addr & 0xffff_ffff } else { addr };
        let _ = c;
        if M.t_ok { Ok(M.pa) } else { Err((Some(M.t_tval), M.t_cause, String::new())) }
    }
}
fn load(addr: u64, w: u64) -> Result<u64, Exc> {
    unsafe {
        M.loads += 1;
        M.l_addr = addr;
        M.l_width = w;
        if M.stores != 0 { M.disorder = true }
        if M.l_ok { Ok(width_mask(w, M.mem)) } else { Err((Some(addr), TrapCause::LoadAccessFault, String::new())) }
    }
}
fn store(addr: u64, w: u64, v: u64) -> Result<(), Exc> {
    unsafe {
        M.stores += 1;
        M.s_addr = addr;
        M.s_width = w;
        M.s_data = width_mask(w, v);
        if M.s_ok { Ok(()) } else { Err((Some(addr), TrapCause::StoreAMOAccessFault, String::new())) }
    }
}
pub fn bus_load8(_b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(load(a, 1)? as i8 as i64 as u64) }
pub fn bus_load16(_b: &Bus, a: u64) -> Result<u64, Exc> { Ok(load(a, 2)? as i16 as i64 as u64) }
pub fn bus_load32(_b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(load(a, 4)? as i32 as i64 as u64) }
pub fn bus_load64(_b: &mut Bus, a: u64) -> Result<u64, Exc> { load(a, 8) }
pub fn bus_load_u8(_b: &mut Bus, a: u64) -> Result<u64, Exc> { load(a, 1) }
pub fn bus_load_u16(_b: &Bus, a: u64) -> Result<u64, Exc> { load(a, 2) }
pub fn bus_load_u32(_b: &Bus, a: u64) -> Result<u64, Exc> { load(a, 4) }
pub fn bus_store8(_b: &mut Bus, a: u64, v: u64) -> Result<(), Exc> { store(a, 1, v) }
pub fn bus_store16(_b: &mut Bus, a: u64, v: u64) -> Result<(), Exc> { store(a, 2, v) }
pub fn bus_store32(_b: &mut Bus, a: u64, v: u64) -> Result<(), Exc> { store(a, 4, v) }
pub fn bus_store64(_b: &mut Bus, a: u64, v: u64) -> Result<(), Exc> { store(a, 8, v) }

pub fn cause_code(c: &TrapCause) -> u64 { *c as usize as u64 }
pub fn _unused(_: TransAlign, _: TransFor) {}

/// The frame of the CSR file: an arbitrary CSR, of all 4096, and what it holds.
pub struct CsrFrame { k: usize, v: u64 }
impl CsrFrame {
    pub fn of(m: &mut Machine, isa: Isa) -> CsrFrame {
        let k = nd::u32() as usize;
        nd::assume(k < 4096);
        let v = m.csr(k);
        let _ = isa;
        CsrFrame { k, v }
    }
    /// Postcondition: no CSR but these changed.
    pub fn ensures_kept(&self, m: &Machine, but: &[usize]) {
        let mut j = 0;
        while j < but.len() && but[j] != self.k { j += 1 }
        if j == but.len() { ensures!("no other CSR changes", m.csr(self.k) == self.v); }
    }
}
