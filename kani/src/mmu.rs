//! C11: address translation; C12: physical memory protection; C22: address triggers.
use crate::env::*;
use crate::nd;
use carron::bus::verif::*;
use carron::cpu::csr::{CSRs, Xstatus};
use carron::cpu::verif::Mmu;
use carron::cpu::{Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause};
use carron::Isa;

const MSTATUS: usize = 0x300;
const SATP: usize = 0x180;
const PMPCFG: usize = 0x3a0;
const PMPADDR: usize = 0x3b0;

/// Ghost CSR file: the contract of CSRs::read and CSRs::read_xstatus (proved by C14) for the CSRs
/// translation and protection depend on.
#[derive(Clone, Copy)]
pub struct Csrs { pub satp: u64, pub mstatus: u64, pub cfg: [u64; 4], pub addr: [u64; 16], pub other: u64 }
pub static mut C: Csrs = Csrs { satp: 0, mstatus: 0, cfg: [0; 4], addr: [0; 16], other: 0 };
pub fn csr_read(_c: &CSRs, n: Option<usize>) -> Result<u64, Exc> {
    let n = n.unwrap();
    assert!(n < 4096, "CSR number below 4096");
    unsafe {
        Ok(match n {
            SATP => C.satp,
            MSTATUS => C.mstatus,
            _ if n >= PMPCFG && n < PMPCFG + 4 => C.cfg[n - PMPCFG],
            _ if n >= PMPADDR && n < PMPADDR + 16 => C.addr[n - PMPADDR],
            _ => C.other,
        })
    }
}
pub fn read_xstatus(_c: &CSRs, lv: PrivilegedLevel, f: Xstatus) -> u64 {
    let (at, mask, in_s) = match f {
        Xstatus::SIE => (1, 1, true),
        Xstatus::MIE => (3, 1, false),
        Xstatus::SPIE => (5, 1, true),
        Xstatus::MPIE => (7, 1, false),
        Xstatus::SPP => (8, 1, true),
        Xstatus::MPP => (11, 3, false),
        Xstatus::FS => (13, 3, true),
        Xstatus::XS => (15, 3, true),
        Xstatus::MPRV => (17, 1, false),
        Xstatus::SUM => (18, 1, true),
        Xstatus::MXR => (19, 1, true),
        Xstatus::TVM => (20, 1, false),
        Xstatus::TW => (21, 1, false),
        Xstatus::TSR => (22, 1, false),
        _ => (0, 0, false),
    };
    if lv == PrivilegedLevel::Machine || (lv == PrivilegedLevel::Supervisor && in_s) { unsafe { C.mstatus >> at & mask } } else { 0 }
}
/// The real machine of a replay gets the same values.
fn set_csrs(m: &mut Machine) {
    if cfg!(not(kani)) {
        unsafe {
            m.set_csr(SATP, C.satp);
            m.set_csr(MSTATUS, C.mstatus);
            for i in 0..4 { m.set_csr(PMPCFG + i, C.cfg[i]) }
            for i in 0..16 { m.set_csr(PMPADDR + i, C.addr[i]) }
        }
    }
}
fn any_purpose() -> TransFor {
    match nd::below(4) { 0 => TransFor::Fetch, 1 => TransFor::Load, 2 => TransFor::StoreAMO, _ => TransFor::Deleg }
}
fn access_fault(p: TransFor) -> u64 {
    (match p { TransFor::Load => TrapCause::LoadAccessFault, TransFor::StoreAMO => TrapCause::StoreAMOAccessFault, _ => TrapCause::InstAccessFault }) as u64
}
fn page_fault(p: TransFor) -> u64 {
    (match p { TransFor::Load => TrapCause::LoadPageFault, TransFor::StoreAMO => TrapCause::StoreAMOPageFault, _ => TrapCause::InstPageFault }) as u64
}
fn misaligned(p: TransFor) -> u64 {
    (match p { TransFor::Load => TrapCause::LoadAddrMisaligned, TransFor::StoreAMO => TrapCause::StoreAMOAddrMisaligned, _ => TrapCause::InstAddrMisaligned }) as u64
}

// ---------------------------------------------------------------------------------------------
// C12

/// Does entry `i` match the address?
fn pmp_matches(i: usize, cfg: u64, addr: &[u64; 16], a: u64) -> bool {
    let word = a >> 2;
    match cfg >> 3 & 3 {
        0 => false,
        1 => (if i == 0 { 0 } else { addr[i - 1] }) <= word && word < addr[i],
        2 => word == addr[i],
        _ => {
            let free = addr[i] ^ addr[i].wrapping_add(1);
            (word ^ addr[i]) & !free == 0
        }
    }
}
fn protect(isa: Isa) {
    storage!(mem);
    let mut addr = [0u64; 16];
    let mut cfg = [0u64; 4];
    let mut i = 0;
    while i < 4 { cfg[i] = xlen(isa, nd::u64()); i += 1 }
    let mut i = 0;
    while i < 16 {
        addr[i] = xlen(isa, nd::u64());
        // bits a physical address does not have: left open, but for the usual all-ones
        nd::assume(addr[i] >> 54 == 0 || addr[i] == u64::MAX);
        i += 1;
    }
    let a = nd::u64();
    nd::assume(a < (if rv32(isa) { 1 << 34 } else { (1 << 56) - 4 }));
    let p = any_purpose();
    let lv = any_priv();
    unsafe { C = Csrs { satp: 0, mstatus: 0, cfg, addr, other: 0 } };
    let mut m = machine(&mut mem, isa, 0, lv, empty_bus(), [0; 32]);
    set_csrs(&mut m);
    let mmu = Mmu::new(std::rc::Rc::new(isa));

    let got = mmu.pmp(p, a, lv, m.cpu.verif_csrs());

    let (mut hit, mut perm) = (16, 0);
    let mut i = 16;
    while i > 0 {
        i -= 1;
        let c = if rv32(isa) { cfg[i / 4] >> (8 * (i % 4)) } else { cfg[i / 8 * 2] >> (8 * (i % 8)) } & 0xff;
        if pmp_matches(i, c, &addr, a) { hit = i; perm = c }
    }
    let machine_mode = lv == PrivilegedLevel::Machine;
    let need = match p { TransFor::Load => 1, TransFor::StoreAMO => 2, _ => 4 };
    let allowed = if hit == 16 { machine_mode } else { (machine_mode && perm >> 7 == 0) || perm & need != 0 };
    let reserved = hit < 16 && perm & 3 == 2;
    if !reserved {
        ensures!("the access is allowed exactly when the lowest-numbered matching entry allows it", got.is_ok() == allowed);
    }
    match got {
        Ok(v) => { ensures!("the address is unchanged", v == a); }
        Err(c) => { ensures!("a denied access is an access fault of its kind", cause_code(&c) == access_fault(p)); }
    }
    reachable!("the last entry decides", hit == 15 && allowed && perm >> 3 & 3 == 3);
    reachable!("an entry denies", hit == 3 && !allowed && machine_mode);
    reachable!("no entry matches", hit == 16 && !allowed);
    std::mem::forget(mmu);
}
macro_rules! csr_proof {
    ($name:ident, $unwind:literal, [$($stub:meta),*], $body:block) => {
        proof!(@ $name, $unwind, cadical, [kani::stub(carron::cpu::csr::CSRs::read, csr_read), kani::stub(carron::cpu::csr::CSRs::read_xstatus, read_xstatus), $($stub),*], $body);
    };
}
csr_proof!(rv64_pmp, 67, [], { protect(Isa::Rv64) });
csr_proof!(rv32_pmp, 67, [], { protect(Isa::Rv32) });

// ---------------------------------------------------------------------------------------------
// C11

/// Ghost page tables: the contract of <Dram as Device>::load32/load64 (proved by C09).
#[derive(Clone, Copy)]
pub struct Tables { pub at: [u64; 3], pub pte: [u64; 3], pub n: usize, pub stray: bool }
pub static mut T: Tables = Tables { at: [0; 3], pte: [0; 3], n: 0, stray: false };
fn pte(a: u64) -> u64 {
    unsafe {
        let mut i = 0;
        while i < T.n { if T.at[i] == a { return T.pte[i] } i += 1 }
        T.stray = true;
        0
    }
}
pub fn table32(_d: &mut Dram, a: u64) -> Result<u64, Exc> { Ok(pte(a) as i32 as u64) }
pub fn table64(_d: &mut Dram, a: u64) -> Result<u64, Exc> { Ok(pte(a)) }
/// Contract of Mmu::pmp (proved by C12).
#[derive(Clone, Copy)]
pub struct Pmp { pub n: u64, pub a: u64, pub p: TransFor, pub lv: PrivilegedLevel, pub ok: bool }
pub static mut P: Pmp = Pmp { n: 0, a: 0, p: TransFor::Deleg, lv: PrivilegedLevel::User, ok: true };
fn fault_of(p: TransFor) -> TrapCause {
    match p { TransFor::Load => TrapCause::LoadAccessFault, TransFor::StoreAMO => TrapCause::StoreAMOAccessFault, _ => TrapCause::InstAccessFault }
}
pub fn pmp(_m: &Mmu, p: TransFor, a: u64, lv: PrivilegedLevel, _c: &CSRs) -> Result<u64, TrapCause> {
    unsafe {
        P.n += 1;
        P.a = a;
        P.p = p;
        P.lv = lv;
        if P.ok { Ok(a) } else { Err(fault_of(p)) }
    }
}
/// Contract of Cpu::check_breakpoint (proved by C22).
pub static mut BREAK: bool = false;
pub static mut BREAKS: u64 = 0;
pub static mut BREAK_AT: (TransFor, u64) = (TransFor::Deleg, 0);
pub fn breakpoint(_c: &mut Cpu, p: TransFor, a: u64) -> Result<(), Exc> {
    unsafe {
        BREAKS += 1;
        BREAK_AT = (p, a);
        if BREAK { Err((Some(a), TrapCause::Breakpoint, String::new())) } else { Ok(()) }
    }
}
#[cfg(kani)]
fn memory() -> Dram { Dram::verif_new(unsafe { Vec::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), DRAM_SIZE as usize, DRAM_SIZE as usize) }, DRAM_BASE) }
#[cfg(not(kani))]
fn memory() -> Dram { Dram::verif_new(vec![0; DRAM_SIZE as usize], DRAM_BASE) }
fn in_dram(a: u64) -> bool { a >= DRAM_BASE && a < DRAM_BASE + DRAM_SIZE }

/// Outcome of a translation as the privileged specification defines it.
#[derive(Clone, Copy, PartialEq)]
enum Out { Phys(u64), Page, Access }
/// The page-table walk of Sv32 (levels = 2) and Sv39 (levels = 3); fills the ghost page tables.
fn walk(isa: Isa, satp: u64, mstatus: u64, lv: PrivilegedLevel, p: TransFor, va: u64) -> Out {
    let (levels, bits, size, pas) = if rv32(isa) { (2, 10, 4, 22) } else { (3, 9, 8, 44) };
    if !rv32(isa) && va as i64 >> 38 != 0 && va as i64 >> 38 != -1 { return Out::Page }
    let vpn = |i: u32| va >> (12 + bits * i) & ((1 << bits) - 1);
    let mut table = satp & ((1 << pas) - 1);
    let mut i: u32 = levels;
    while i > 0 {
        i -= 1;
        let at = table * 4096 + vpn(i) * size;
        if !in_dram(at) { return Out::Access }
        let e = unsafe {
            let mut v = nd::u64();
            if rv32(isa) { v &= 0xffff_ffff }
            let mut k = 0;
            while k < T.n { if T.at[k] == at { v = T.pte[k] } k += 1 }
            T.at[T.n] = at;
            T.pte[T.n] = v;
            T.n += 1;
            v
        };
        let b = |n: u32| e >> n & 1 == 1;
        let (r, w, x, u, a, d) = (b(1), b(2), b(3), b(4), b(6), b(7));
        // reserved bits: left open
        nd::assume(e >> 54 == 0);
        if !b(0) || (w && !r) { return Out::Page }
        let ppn = e >> 10 & ((1 << pas) - 1);
        if !r && !x {
            nd::assume(!u && !a && !d); // reserved in a pointer to the next level: left open
            table = ppn;
            continue;
        }
        if lv == PrivilegedLevel::User && !u { return Out::Page }
        if lv == PrivilegedLevel::Supervisor && u {
            let sum = mstatus >> 18 & 1 == 1;
            if !sum || (p != TransFor::Load && p != TransFor::StoreAMO) { return Out::Page }
        }
        let mxr = mstatus >> 19 & 1 == 1;
        let ok = match p { TransFor::Load => r || (mxr && x), TransFor::StoreAMO => w && d, _ => x };
        if !ok || !a { return Out::Page }
        let low = (1u64 << (bits * i)) - 1; // the part of the page number a superpage leaves to the address
        if ppn & low != 0 { return Out::Page }
        return Out::Phys((ppn | va >> 12 & low) << 12 | va & 0xfff);
    }
    Out::Page
}
fn translate(isa: Isa, first: bool) {
    storage!(mem);
    let (satp, mstatus) = (xlen(isa, nd::u64()), xlen(isa, nd::u64()));
    nd::assume(mstatus >> 11 & 3 != 2); // proved by C14
    let mode = if rv32(isa) { satp >> 31 } else { satp >> 60 };
    nd::assume(rv32(isa) || mode == 0 || mode == 8); // what other modes do is left open
    let (p, lv) = (any_purpose(), any_priv());
    let a = xlen(isa, nd::u64());
    let align = nd::below(4) as u64;
    let (ok, brk) = (nd::bool(), nd::bool());
    nd::assume(brk || !first);
    let eff = if (p == TransFor::Load || p == TransFor::StoreAMO) && mstatus >> 17 & 1 == 1 { priv_of((mstatus >> 11 & 3) as u8) } else { lv };
    unsafe {
        T = Tables { at: [0; 3], pte: [0; 3], n: 0, stray: false };
        P = Pmp { n: 0, a: 0, p: TransFor::Deleg, lv: PrivilegedLevel::User, ok };
        BREAK = brk;
        BREAKS = 0;
        // a replay gets entries that decide as the stub does
        let cfg0 = if ok { 0x1f } else { 0x98 };
        C = Csrs { satp, mstatus, cfg: [cfg0, 0, 0, 0], addr: [xlen(isa, u64::MAX); 16], other: nd::u64() };
    }
    let want = if mode == 0 || eff == PrivilegedLevel::Machine { Out::Phys(a) } else { walk(isa, satp, mstatus, eff, p, a) };
    let (mut t1, mut t2) = ([0u64; 8], [0u64; 8]);
    if cfg!(not(kani)) && brk { t1[5] = if rv32(isa) { 2 << 28 } else { 2 << 60 } | 0x5f; t2[5] = a }
    let mut m = machine_with(&mut mem, isa, 0, lv, bus_with(memory()), [0; 32], 0, t1, t2);
    set_csrs(&mut m);
    #[cfg(not(kani))]
    unsafe {
        let d = m.cpu.bus.dram.verif_raw_mut();
        for i in 0..T.n {
            for k in 0..(if rv32(isa) { 4 } else { 8 }) { d[(T.at[i] - DRAM_BASE) as usize + k] = (T.pte[i] >> (8 * k)) as u8 }
        }
    }
    let size = match align { 0 => TransAlign::Size8, 1 => TransAlign::Size16, 2 => TransAlign::Size32, _ => TransAlign::Size64 };

    let got = m.cpu.verif_trans_addr(p, size, a);

    let aligned = a & ((1 << align) - 1) == 0;
    let fault = match &got { Ok(_) => None, Err((t, c, _)) => {
        ensures!("a fault reports the virtual address", *t == Some(a));
        Some(cause_code(c))
    } };
    if brk {
        ensures!("a trigger comes before everything else", fault == Some(TrapCause::Breakpoint as u64));
    } else {
        match want {
            Out::Phys(pa) => {
                if !ok && !aligned {
                    ensures!("an access both misaligned and protected faults", fault == Some(misaligned(p)) || fault == Some(access_fault(p)));
                } else if !ok {
                    ensures!("an access physical memory protection denies is an access fault", fault == Some(access_fault(p)));
                } else if !aligned {
                    ensures!("a misaligned access is an address-misaligned exception", fault == Some(misaligned(p)));
                } else {
                    ensures!("the translation is the physical address of the page-table walk", matches!(got, Ok(v) if v == pa));
                }
                #[cfg(kani)]
                if ok || aligned { unsafe {
                    ensures!("the physical address is checked against physical memory protection", P.n > 0 && P.a == pa && P.p == p && P.lv == eff);
                } }
            }
            _ => {
                let f = if want == Out::Page { page_fault(p) } else { access_fault(p) };
                ensures!("a translation that fails is a fault of the access's kind", fault == Some(f) || (!aligned && fault == Some(misaligned(p))));
            }
        }
    }
    #[cfg(kani)]
    unsafe {
        ensures!("triggers see the virtual address", BREAKS > 0 && BREAK_AT == (p, a));
        ensures!("only the walk's page-table entries are read", !T.stray);
    }
    ensures!("the privilege level is unchanged", m.cpu.verif_priv() == lv);
    #[cfg(kani)]
    let used = unsafe { T.n };
    reachable!("a page of the last level", first || (used == (if rv32(isa) { 2 } else { 3 }) && matches!(want, Out::Phys(_)) && got.is_ok()));
    reachable!("a superpage", first || (used == 1 && matches!(want, Out::Phys(_)) && got.is_ok()));
    reachable!("a page fault", first || (want == Out::Page && fault.is_some() && !brk));
    reachable!("the last table is outside memory", first || (used > 0 && want == Out::Access && !brk));
    reachable!("M-mode accesses with the privilege of the previous mode", first || (lv == PrivilegedLevel::Machine && eff == PrivilegedLevel::User && got.is_ok()));
    std::mem::forget(got);
}
macro_rules! walk_proof {
    ($name:ident, $isa:expr, $first:expr) => {
        csr_proof!($name, 9, [
            kani::stub(carron::cpu::verif::Mmu::pmp, pmp),
            kani::stub(carron::cpu::Cpu::check_breakpoint, breakpoint),
            kani::stub(<Dram as carron::bus::Device>::load32, table32),
            kani::stub(<Dram as carron::bus::Device>::load64, table64)], { translate($isa, $first) });
    };
}
walk_proof!(rv64_walk, Isa::Rv64, false);
walk_proof!(rv32_walk, Isa::Rv32, false);
// C22: only that a trigger comes first
walk_proof!(trigger_first_rv64, Isa::Rv64, true);
walk_proof!(trigger_first_rv32, Isa::Rv32, true);

// ---------------------------------------------------------------------------------------------
// C22

fn triggers(isa: Isa) {
    storage!(mem);
    let (mut t1, mut t2) = ([0u64; 8], [0u64; 8]);
    let mut i = 0;
    while i < 8 { t1[i] = xlen(isa, nd::u64()); t2[i] = xlen(isa, nd::u64()); i += 1 }
    let (p, lv, a) = (any_purpose(), any_priv(), xlen(isa, nd::u64()));
    let sel = nd::below(8);
    let mut m = machine_with(&mut mem, isa, 0, lv, empty_bus(), [0; 32], sel, t1, t2);

    let got = m.cpu.check_breakpoint(p, a);

    let (mut may, mut must) = (false, false);
    let mut i = 0;
    while i < 8 {
        let t = t1[i];
        let kind = if rv32(isa) { t >> 28 } else { t >> 60 };
        let mode = match lv { PrivilegedLevel::Machine => t >> 6, PrivilegedLevel::Supervisor => t >> 4, _ => t >> 3 } & 1 == 1;
        let access = match p { TransFor::Load => t, TransFor::StoreAMO => t >> 1, _ => t >> 2 } & 1 == 1;
        if kind == 2 && mode && access && t >> 7 & 15 == 0 && t2[i] == a {
            may = true;
            // chained, entering debug mode, matching data: left open
            if t >> 11 & 0x1f == 0 && t >> 19 & 1 == 0 { must = true }
        }
        i += 1;
    }
    ensures!("a matching trigger fires", got.is_err() || !must);
    ensures!("nothing else fires", got.is_ok() || may);
    if let Err((t, c, _)) = &got { ensures!("it raises a breakpoint at the address", *t == Some(a) && cause_code(c) == TrapCause::Breakpoint as u64); }
    let (s, n1, n2) = m.cpu.verif_csrs().verif_triggers();
    let i = nd::below(8);
    ensures!("the triggers are unchanged", s == sel && n1[i] == t1[i] && n2[i] == t2[i]);
    reachable!("the last trigger fires", must && t1[7] & 1 == 1 && t1[0] == 0 && t1[1] == 0 && t1[2] == 0 && t1[3] == 0 && t1[4] == 0 && t1[5] == 0 && t1[6] == 0);
    reachable!("none fires", !may);
    std::mem::forget(got);
}
proof!(@ rv64_triggers, 9, cadical, [], { triggers(Isa::Rv64) });
proof!(@ rv32_triggers, 9, cadical, [], { triggers(Isa::Rv32) });
