//! C21: one step.  Interrupt check, translation, bus, decoders and execution are their contracts.
use crate::env::*;
use crate::nd;
use carron::bus::Bus;
use carron::cpu::execution::Execution;
use carron::cpu::verif::{Extensions, Instruction, OpecodeKind};
use carron::cpu::{Cpu, TransAlign, TransFor, TrapCause};
use carron::Isa;

#[derive(Clone, Copy)]
pub struct Ghost {
    /// the interrupt check: calls, and is one due
    pub checks: u64,
    pub due: bool,
    /// translation of the pc and of pc + 2
    pub pc: u64,
    pub pc2: u64,
    pub ok: [bool; 2],
    pub pa: [u64; 2],
    pub t_cause: [TrapCause; 2],
    pub trans: [u64; 2],
    pub purpose_bad: bool,
    /// the halfwords at the two physical addresses, and whether they can be read
    pub half: [u16; 2],
    pub readable: [bool; 2],
    pub loads: u64,
    pub stray: bool,
    /// decoding: which decoder, on what word, for which register width
    pub decodes: u64,
    pub width: u64,
    pub word: u32,
    pub d_rv32: bool,
    pub legal: bool,
    /// execution
    pub execs: u64,
    pub same: bool,
    pub done: bool,
    pub disorder: bool,
}
pub static mut S: Ghost = Ghost {
    checks: 0, due: false, pc: 0, pc2: 0, ok: [true; 2], pa: [0; 2], t_cause: [TrapCause::InstPageFault; 2], trans: [0; 2],
    purpose_bad: false, half: [0; 2], readable: [true; 2], loads: 0, stray: false, decodes: 0, width: 0, word: 0, d_rv32: false,
    legal: true, execs: 0, same: false, done: true, disorder: false,
};
pub fn interrupt(_c: &mut Cpu) -> Result<(), Exc> {
    unsafe {
        S.checks += 1;
        if S.trans[0] + S.trans[1] + S.loads + S.execs != 0 { S.disorder = true }
        if S.due { Err((Some(0), TrapCause::MachineTimerInterrupt, String::new())) } else { Ok(()) }
    }
}
pub fn trans(_c: &mut Cpu, p: TransFor, a: TransAlign, addr: u64) -> Result<u64, Exc> {
    unsafe {
        if p != TransFor::Fetch || a as u64 > 2 { S.purpose_bad = true }
        let addr = if G.rv32 { addr & 0xffff_ffff } else { addr };
        let i = if addr == S.pc { 0 } else if addr == S.pc2 { 1 } else { S.stray = true; 0 };
        S.trans[i] += 1;
        if S.ok[i] { Ok(S.pa[i]) } else { Err((Some(addr), S.t_cause[i], String::new())) }
    }
}
/// The byte at a physical address.
fn byte(a: u64) -> Option<u64> {
    unsafe {
        let (i, k) = if S.ok[0] && a == S.pa[0] { (0, 0) } else if S.ok[0] && a == S.pa[0] + 1 { (0, 8) }
            else if S.ok[1] && a == S.pa[1] { (1, 0) } else if S.ok[1] && a == S.pa[1] + 1 { (1, 8) }
            else { S.stray = true; return None };
        if S.readable[i] { Some(S.half[i] as u64 >> k & 0xff) } else { None }
    }
}
fn load(a: u64, w: u64) -> Result<u64, Exc> {
    unsafe { S.loads += 1; if S.trans[0] == 0 { S.disorder = true } }
    let (mut v, mut i, mut ok) = (0, 0, true);
    while i < w {
        match byte(a + i) { Some(b) => v |= b << (8 * i), None => ok = false }
        i += 1;
    }
    if ok { Ok(v) } else { Err((Some(a), TrapCause::LoadAccessFault, String::new())) }
}
pub fn load8(_b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(load(a, 1)? as i8 as u64) }
pub fn load16(_b: &Bus, a: u64) -> Result<u64, Exc> { Ok(load(a, 2)? as i16 as u64) }
pub fn load32(_b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(load(a, 4)? as i32 as u64) }
pub fn load_u8(_b: &mut Bus, a: u64) -> Result<u64, Exc> { load(a, 1) }
pub fn load_u16(_b: &Bus, a: u64) -> Result<u64, Exc> { load(a, 2) }
pub fn load_u32(_b: &Bus, a: u64) -> Result<u64, Exc> { load(a, 4) }
pub fn store(_b: &mut Bus, _a: u64, _v: u64) -> Result<(), Exc> { unsafe { S.stray = true }; Ok(()) }
fn decoded(width: u64, word: u32, isa: Isa) -> Result<Instruction, Exc> {
    unsafe {
        S.decodes += 1;
        S.width = width;
        S.word = word;
        S.d_rv32 = rv32(isa);
        if !S.legal { return Err((Some(word as u64), TrapCause::IllegalInst, String::new())) }
    }
    Ok(Instruction { opc: OpecodeKind::OP_LUI, rd: Some(29), rs1: None, rs2: Some(7), imm: Some(-4096) })
}
pub fn decode16(w: &u16, isa: Isa) -> Result<Instruction, Exc> { decoded(2, *w as u32, isa) }
pub fn decode32(w: &u32, isa: Isa) -> Result<Instruction, Exc> { decoded(4, *w, isa) }
pub fn execution(i: &Instruction, _c: &mut Cpu) -> Result<(), Exc> {
    unsafe {
        S.execs += 1;
        S.same = matches!(i.opc, OpecodeKind::OP_LUI) && i.rd == Some(29) && i.rs1.is_none() && i.rs2 == Some(7) && i.imm == Some(-4096);
        if S.done { Ok(()) } else { Err((Some(0x1234), TrapCause::StoreAMOPageFault, String::new())) }
    }
}
fn fetch_fault() -> TrapCause {
    match nd::below(3) { 0 => TrapCause::InstPageFault, 1 => TrapCause::InstAccessFault, _ => TrapCause::Breakpoint }
}
fn step(isa: Isa) {
    nd::no_replay();
    storage!(mem);
    let pc = xlen(isa, nd::u64()) & !1;
    let pc2 = xlen(isa, pc.wrapping_add(2));
    let (mut pa, ok, readable) = ([nd::u64(), nd::u64()], [nd::bool(), nd::bool()], [nd::bool(), nd::bool()]);
    nd::assume(pa[0] < 1 << 56 && pa[1] < 1 << 56 && (pa[0] ^ pc) & 0xfff == 0 && (pa[1] ^ pc2) & 0xfff == 0);
    // one page has one translation, and different pages of the walk need not be different frames
    if pc & 0xfff != 0xffe { pa[1] = pa[0] + 2 }
    let half = [nd::u32() as u16, nd::u32() as u16];
    nd::assume(pa[0] != pa[1]);
    let word = half[0] as u32 | (half[1] as u32) << 16;
    let (due, legal, done) = (nd::bool(), nd::bool(), nd::bool());
    let t_cause = [fetch_fault(), fetch_fault()];
    let r = any_regs(isa, [1, 2, 3, 4]);
    unsafe {
        S = Ghost { checks: 0, due, pc, pc2, ok, pa, t_cause, trans: [0; 2], purpose_bad: false, half, readable, loads: 0, stray: false,
            decodes: 0, width: 0, word: 0, d_rv32: false, legal, execs: 0, same: false, done, disorder: false };
        M = M0;
    }
    let mut m = machine(&mut mem, isa, pc, any_priv(), empty_bus(), r.all);
    let f = Frame::of(&m);

    let got = m.cpu.exec_one_cycle();

    let (cause, tval) = match &got { Ok(()) => (None, None), Err((t, c, _)) => (Some(cause_code(c)), *t) };
    let long = half[0] & 3 == 3;
    let s = unsafe { S };
    ensures!("interrupts are checked once, before anything is fetched", s.checks == 1 && !s.disorder);
    ensures!("only the pc is fetched from, as a fetch", !s.stray && !s.purpose_bad);
    // where the upper half of an aligned word cannot be fetched but its lower half can, the access
    // was one of four bytes: whether a trigger on the upper half fires is left open
    let fetched = ok[0] && readable[0] && (!long || (ok[1] && readable[1]));
    let open = long && ok[0] && readable[0] && pc & 3 == 0 && (!ok[1] || !readable[1]);
    if due {
        ensures!("an interrupt that is due is reported", cause == Some(TrapCause::MachineTimerInterrupt as u64) && tval == Some(0));
        ensures!("nothing is fetched when an interrupt is due", s.trans[0] + s.trans[1] + s.loads + s.decodes + s.execs == 0);
    } else if !fetched && !open {
        let (k, t) = if !ok[0] { (t_cause[0] as u64, Some(pc)) } else if !readable[0] { (TrapCause::InstAccessFault as u64, tval) }
            else if !ok[1] { (t_cause[1] as u64, Some(pc2)) } else { (TrapCause::InstAccessFault as u64, tval) };
        ensures!("a fetch that faults is reported with its cause and address", cause == Some(k) && tval == t);
        ensures!("nothing executes when the fetch faults", s.decodes + s.execs == 0);
    } else if fetched {
        ensures!("the instruction at the pc is decoded, once", s.decodes == 1 && s.width == (if long { 4 } else { 2 })
            && s.word == (if long { word } else { half[0] as u32 }) && s.d_rv32 == rv32(isa));
        if !legal {
            ensures!("an illegal instruction is reported", cause == Some(TrapCause::IllegalInst as u64));
            ensures!("nothing executes when the instruction is illegal", s.execs == 0);
        } else {
            ensures!("the decoded instruction executes, once", s.execs == 1 && s.same);
            if done { ensures!("its completion is reported", cause.is_none()); }
            else { ensures!("its exception is reported", cause == Some(TrapCause::StoreAMOPageFault as u64) && tval == Some(0x1234)); }
        }
    }
    ensures!("the pc is left to the instruction", m.cpu.pc() == pc);
    r.ensures_only(&m, None);
    f.ensures_kept(&m);
    reachable!("the upper half is in another page", long && fetched && !due && pc & 0xfff == 0xffe && pa[1] != pa[0].wrapping_add(2) && s.execs == 1);
    reachable!("a compressed instruction at the end of a page", !long && !ok[1] && pc & 0xfff == 0xffe && s.execs == 1);
    reachable!("the upper half cannot be fetched", long && !fetched && !open && ok[0] && readable[0] && !due);
    reachable!("an interrupt is due", due);
    std::mem::forget(got);
}
macro_rules! step {
    ($name:ident, $isa:expr) => {
        proof!(@ $name, 10, cadical, [
            kani::stub(carron::cpu::Cpu::check_interrupt, interrupt),
            kani::stub(carron::cpu::Cpu::trans_addr, trans),
            kani::stub(carron::cpu::Cpu::trap, trap_stub),
            kani::stub(carron::cpu::verif::Register::read, reg_read),
            kani::stub(carron::cpu::verif::Register::write, reg_write),
            kani::stub(carron::cpu::csr::CSRs::write, csr_write),
            kani::stub(carron::cpu::csr::CSRs::bitset, csr_write),
            kani::stub(carron::cpu::csr::CSRs::bitclr, csr_write),
            kani::stub(carron::cpu::csr::CSRs::write_xstatus, csr_write_xstatus),
            kani::stub(carron::bus::Bus::load8, load8),
            kani::stub(carron::bus::Bus::load16, load16),
            kani::stub(carron::bus::Bus::load32, load32),
            kani::stub(carron::bus::Bus::load_u8, load_u8),
            kani::stub(carron::bus::Bus::load_u16, load_u16),
            kani::stub(carron::bus::Bus::load_u32, load_u32),
            kani::stub(carron::bus::Bus::store8, store),
            kani::stub(carron::bus::Bus::store16, store),
            kani::stub(carron::bus::Bus::store32, store),
            kani::stub(carron::bus::Bus::store64, store),
            kani::stub(<u16 as carron::cpu::decode::Decode>::decode, decode16),
            kani::stub(<u32 as carron::cpu::decode::Decode>::decode, decode32),
            kani::stub(<Instruction as Execution>::execution, execution)], { step($isa) });
    };
}
step!(rv64_step, Isa::Rv64);
step!(rv32_step, Isa::Rv32);

// The emulation loop: what it does between two steps.
pub struct Cycle {
    pub steps: u64, pub pc: u64, pub fails: bool, pub tval: Option<u64>, pub rv32: bool,
    pub traps: u64, pub trapped: u64, pub cause: u64, pub polls: u64, pub asks: bool, pub known: bool, pub served: u64, pub late: bool,
}
pub static mut C: Cycle = Cycle { steps: 0, pc: 0, fails: false, tval: None, rv32: false, traps: 0, trapped: 0, cause: 0, polls: 0, asks: false,
    known: false, served: 0, late: false };
pub fn one_cycle(c: &mut Cpu) -> Result<(), Exc> {
    unsafe {
        C.steps += 1;
        if C.steps == 1 {
            C.pc = c.pc();
            return if C.fails { Err((C.tval, TrapCause::StoreAMOPageFault, String::new())) } else { Ok(()) };
        }
        ensures!("an exception enters the trap handler once, and nothing else does", C.traps == C.fails as u64);
        if C.fails {
            ensures!("with the cause reported", C.cause == TrapCause::StoreAMOPageFault as u64);
            ensures!("and the address reported, or the pc", C.trapped == match C.tval { Some(t) => t, None => C.pc });
        }
        ensures!("a request of the guest is served once, and nothing else is", C.served == (C.known && C.asks) as u64 && !C.late);
        reachable!("an exception and a request", C.fails && C.served == 1);
        reachable!("neither", !C.fails && C.served == 0 && C.known);
        nd::assume(false);
    }
    Ok(())
}
pub fn cycle_trap(_c: &mut Cpu, tval: u64, cause: TrapCause) {
    unsafe { C.traps += 1; C.trapped = tval; C.cause = cause_code(&cause) }
}
pub static mut COUNTER: [u64; 4] = [0; 4];
/// The log's count of instructions, an unlocked mutex.
pub fn cell<T, F: FnOnce() -> T>(_c: &once_cell::sync::Lazy<T, F>) -> &T { unsafe { &*(std::ptr::addr_of!(COUNTER) as *const T) } }
pub fn ticked(_u: &mut carron::bus::verif::Uart, _p: &mut carron::bus::verif::Plic) {}
pub fn polled(_e: &mut carron::Emulator) -> bool { unsafe { C.polls += 1; C.asks } }
pub fn serve(_e: &mut carron::Emulator) { unsafe { C.served += 1; if C.steps != 1 { C.late = true } } }
macro_rules! cycle {
    ($name:ident, $isa:expr) => {
        #[cfg(kani)]
        proof!(@ $name, 34, cadical, [
            kani::stub(carron::cpu::Cpu::exec_one_cycle, one_cycle),
            kani::stub(carron::cpu::Cpu::trap, cycle_trap),
            kani::stub(once_cell::sync::Lazy::force, cell),
            kani::stub(carron::bus::verif::Uart::tick, ticked),
            kani::stub(carron::Emulator::check_tohost, polled),
            kani::stub(carron::Emulator::handle_syscall, serve)], {
            nd::no_replay();
            let (to, from) = (if nd::bool() { Some(nd::u64()) } else { None }, if nd::bool() { Some(nd::u64()) } else { None });
            let e = crate::fesvr::emulator_with($isa, xlen($isa, nd::u64()), to, from);
            unsafe {
                C = Cycle { steps: 0, pc: 0, fails: nd::bool(), tval: if nd::bool() { Some(nd::u64()) } else { None }, rv32: false, traps: 0,
                    trapped: 0, cause: 0, polls: 0, asks: nd::bool(), known: to.is_some() && from.is_some(), served: 0, late: false };
            }
            e.emulation();
        });
    };
}
cycle!(rv64_cycle, Isa::Rv64);
cycle!(rv32_cycle, Isa::Rv32);

// Reset.
pub static mut BOOT: u64 = 0;
pub fn boot_bus(l: carron::elfload::ElfLoader, _a: &carron::cmdline::Arguments, _i: Isa) -> Bus {
    std::mem::forget(l);
    let mut b = empty_bus();
    unsafe { b.mrom.base_addr = BOOT }
    b
}
macro_rules! reset {
    ($name:ident, $isa:expr) => {
        #[cfg(kani)]
        proof!(@ $name, 34, cadical, [kani::stub(carron::bus::Bus::new, boot_bus)], {
            nd::no_replay();
            let init = if nd::bool() { Some(nd::u64()) } else { None };
            let args = carron::cmdline::Arguments {
                filename: String::new(), exe_option: carron::cmdline::ExeOption::OPT_DEFAULT, pk_path: None, kernel_path: None,
                initrd_path: None, init_pc: init, main_args: Vec::new(),
            };
            unsafe { BOOT = nd::u64() }
            let l = std::mem::ManuallyDrop::into_inner(crate::elf::loader(Vec::new(), Vec::new(), None));
            let c = std::mem::ManuallyDrop::new(Cpu::new(l, &args, $isa));
            ensures!("execution starts at the boot code, or where asked to", c.pc() == match init { Some(p) => p, None => unsafe { BOOT } });
            ensures!("in machine mode", c.verif_priv() as u64 == 3);
            ensures!("without a reservation", c.reservation_set.is_none());
            reachable!("at the boot code", init.is_none());
            std::mem::forget(args);
        });
    };
}
reset!(rv64_reset, Isa::Rv64);
reset!(rv32_reset, Isa::Rv32);

// The boot code: its words as they are turned into bytes (the rest, an iterator over vectors of
// bytes, is out of CBMC's reach).
pub static mut BOOTED: (usize, [u32; 8]) = (0, [0; 8]);
pub fn boot_word(w: u32) -> [u8; 4] {
    unsafe {
        ensures!("the boot code passes hart number and device tree to the program at the beginning of memory",
            BOOTED.0 < 8 && (BOOTED.0 == 5 || BOOTED.1[BOOTED.0] == w));
        BOOTED.0 += 1;
        if BOOTED.0 == 8 {
            reachable!("all of it", true);
            nd::assume(false);
        }
        std::mem::transmute(w)
    }
}
macro_rules! boot {
    ($name:ident, $isa:expr, $load:expr) => {
        #[cfg(kani)]
        proof!(@ $name, 12, cadical, [
            kani::stub(<[u8]>::to_vec, crate::fesvr::host::dropped),
            kani::stub(u32::to_le_bytes, boot_word)], {
            nd::no_replay();
            // (Kani does not mask the amount of `entry_upper >> 32` as compiled code does)
            let entry = nd::u32() as u64;
            // auipc t0, 0; addi a1, t0, 32; csrr a0, mhartid; lw/ld t0, 24(t0); jr t0; -; the address
            unsafe { BOOTED = (0, [0x297, 0x0202_8593, 0xf140_2573, $load, 0x28067, 0, entry as u32, (entry >> 32) as u32]) }
            let m = carron::bus::verif::Mrom::new(entry, $isa);
            std::mem::forget(m);
        });
    };
}
boot!(boot64, Isa::Rv64, 0x0182_b283);
boot!(boot32, Isa::Rv32, 0x0182_a283);
pub fn _unused(_: Extensions) {}
