//! C05: loads and stores; C06: atomics.  Address translation and the bus are contract stubs
//! (env::trans_addr, env::bus_*) whose outcomes are arbitrary.
use crate::env::*;
use crate::nd;
use carron::cpu::execution::Execution;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::verif::{Instruction, OpecodeKind};
use carron::cpu::{TransFor, TrapCause};
use carron::Isa;

/// Choose arbitrary outcomes for the translation and the accesses of the next instruction.
fn any_memory(purpose_cause: &[TrapCause; 3]) {
    let t_cause = purpose_cause[nd::below(3)];
    unsafe {
        M = GhostMem {
            t_ok: nd::bool(), pa: nd::u64(), t_cause, t_tval: nd::u64(), l_ok: nd::bool(), mem: nd::u64(), s_ok: nd::bool(), ..M0
        };
    }
}
const LOAD_CAUSES: [TrapCause; 3] = [TrapCause::LoadPageFault, TrapCause::LoadAccessFault, TrapCause::LoadAddrMisaligned];
const STORE_CAUSES: [TrapCause; 3] = [TrapCause::StoreAMOPageFault, TrapCause::StoreAMOAccessFault, TrapCause::StoreAMOAddrMisaligned];

/// The value a load of `w` bytes puts in a register.
fn extend(isa: Isa, v: u64, w: u64, signed: bool) -> u64 {
    let n = 64 - 8 * w as u32;
    xlen(isa, if signed { ((v << n) as i64 >> n) as u64 } else { (v << n) >> n })
}
fn size(w: u64, v: u64) -> u64 { if w == 8 { v } else { v & ((1 << (8 * w)) - 1) } }

#[derive(Clone, Copy)]
pub enum What { Load(bool), Store }
use What::*;
#[derive(Clone, Copy)]
pub enum Base { Rs1, Sp }
use Base::*;

struct Seen { lv: carron::cpu::PrivilegedLevel, res: Option<usize> }
fn kept(m: &Machine, s: &Seen) {
    ensures!("no CSR is written", unsafe { CSR_WRITES } == 0);
    ensures!("no trap is taken inside the instruction", unsafe { TRAPS } == 0);
    ensures!("the privilege level is unchanged", m.cpu.verif_priv() == s.lv);
}
fn seen(m: &Machine) -> Seen {
    unsafe { CSR_WRITES = 0; TRAPS = 0 };
    Seen { lv: m.cpu.verif_priv(), res: m.cpu.reservation_set }
}
/// The instruction raised the exception the memory system reported and changed nothing.
fn aborted(m: &Machine, r: &Regs, pc: u64) {
    ensures!("a faulting instruction leaves pc", m.cpu.pc() == pc);
    r.ensures_only(m, None);
}

fn access(m: &mut Machine, opc: OpecodeKind, isa: Isa, what: What, w: u64, base: Base, len: u64) {
    nd::no_replay();
    let (rd, rs1, rs2) = (nd::below(32), nd::below(32), nd::below(32));
    let r = any_regs(isa, [rd, rs1, rs2, 2]);
    let pc = xlen(isa, nd::u64()) & !1;
    let imm = nd::u32() as i32;
    nd::assume(imm >= -2048 && imm < 2048);
    any_memory(match what { Load(_) => &LOAD_CAUSES, Store => &STORE_CAUSES });
    m.cpu.reservation_set = if nd::bool() { Some(nd::u64() as usize) } else { None };
    m.set_pc(pc);
    let was = seen(m);
    let b = match base { Rs1 => r.get(rs1), Sp => r.get(2) };
    let va = xlen(isa, b.wrapping_add(imm as i64 as u64));
    let inst = Instruction {
        opc,
        rd: match what { Load(_) => Some(rd), Store => None },
        rs1: match base { Rs1 => Some(rs1), Sp => None },
        rs2: match what { Load(_) => None, Store => Some(rs2) },
        imm: Some(imm),
    };
    let res = inst.execution(m.cpu);
    let g = unsafe { M };
    ensures!("the effective address is translated", g.trans >= 1);
    ensures!("the effective address is base plus offset", g.t_addr == va);
    ensures!("the access needs natural alignment", g.t_align == w);
    match what {
        Load(_) => { ensures!("a load asks for read permission", matches!(g.t_purpose, TransFor::Load)); }
        Store => { ensures!("a store asks for write permission", matches!(g.t_purpose, TransFor::StoreAMO)); }
    }
    kept(m, &was);
    ensures!("no reservation is made", m.cpu.reservation_set == was.res || m.cpu.reservation_set.is_none());
    let ok = res.is_ok();
    let (cause, tval) = match &res {
        Ok(()) => (99, None),
        Err((t, c, _)) => (cause_code(c), *t),
    };
    std::mem::forget(res);
    if !g.t_ok {
        ensures!("a failed translation is reported", !ok && cause == cause_code(&g.t_cause) && tval == Some(g.t_tval));
        ensures!("memory is not accessed after a failed translation", g.loads == 0 && g.stores == 0);
        aborted(m, &r, pc);
        return;
    }
    match what {
        Load(signed) => {
            ensures!("a load reads once, with its own width, at the translated address", g.loads == 1 && g.l_width == w && g.l_addr == g.pa);
            ensures!("a load does not write memory", g.stores == 0);
            if g.l_ok {
                ensures!("the load completes", ok);
                r.ensures_only(m, Some((rd, extend(isa, g.mem, w, signed))));
            } else {
                ensures!("a refused read is a load access fault", !ok && cause == cause_code(&TrapCause::LoadAccessFault));
                aborted(m, &r, pc);
            }
        }
        Store => {
            ensures!("a store writes once, with its own width, at the translated address", g.stores == 1 && g.s_width == w && g.s_addr == g.pa);
            ensures!("a store writes the source register's low bytes", g.s_data == size(w, r.get(rs2)));
            ensures!("a store does not read memory", g.loads == 0);
            if g.s_ok {
                ensures!("the store completes", ok);
                r.ensures_only(m, None);
            } else {
                ensures!("a refused write is a store access fault", !ok && cause == cause_code(&TrapCause::StoreAMOAccessFault));
                aborted(m, &r, pc);
            }
        }
    }
    if ok { ensures!("pc advances by the instruction's size", m.cpu.pc() == xlen(isa, pc.wrapping_add(len))); }
    reachable!("the access completes", ok);
    reachable!("the access is refused", !ok);
}

fn new(mem: &mut std::mem::MaybeUninit<carron::cpu::Cpu>, isa: Isa) -> Machine<'_> { machine(mem, isa, 0, any_priv(), empty_bus(), [0; 32]) }
fn loads(isa: Isa) {
    storage!(mem);
    let m = &mut new(&mut mem, isa);
    access(m, OP_LB, isa, Load(true), 1, Rs1, 4);
    access(m, OP_LH, isa, Load(true), 2, Rs1, 4);
    access(m, OP_LW, isa, Load(true), 4, Rs1, 4);
    access(m, OP_LBU, isa, Load(false), 1, Rs1, 4);
    access(m, OP_LHU, isa, Load(false), 2, Rs1, 4);
    if !rv32(isa) {
        access(m, OP_LWU, isa, Load(false), 4, Rs1, 4);
        access(m, OP_LD, isa, Load(true), 8, Rs1, 4);
    }
}
fn stores(isa: Isa) {
    storage!(mem);
    let m = &mut new(&mut mem, isa);
    access(m, OP_SB, isa, Store, 1, Rs1, 4);
    access(m, OP_SH, isa, Store, 2, Rs1, 4);
    access(m, OP_SW, isa, Store, 4, Rs1, 4);
    if !rv32(isa) { access(m, OP_SD, isa, Store, 8, Rs1, 4); }
}
fn compressed(isa: Isa) {
    storage!(mem);
    let m = &mut new(&mut mem, isa);
    access(m, OP_C_LW, isa, Load(true), 4, Rs1, 2);
    access(m, OP_C_LWSP, isa, Load(true), 4, Sp, 2);
    access(m, OP_C_SW, isa, Store, 4, Rs1, 2);
    access(m, OP_C_SWSP, isa, Store, 4, Sp, 2);
    if !rv32(isa) {
        access(m, OP_C_LD, isa, Load(true), 8, Rs1, 2);
        access(m, OP_C_LDSP, isa, Load(true), 8, Sp, 2);
        access(m, OP_C_SD, isa, Store, 8, Rs1, 2);
        access(m, OP_C_SDSP, isa, Store, 8, Sp, 2);
    }
}
proof!(rv64_loads, regs, 34, { loads(Isa::Rv64) });
proof!(rv32_loads, regs, 34, { loads(Isa::Rv32) });
proof!(rv64_stores, regs, 34, { stores(Isa::Rv64) });
proof!(rv32_stores, regs, 34, { stores(Isa::Rv32) });
proof!(rv64_c_access, regs, 34, { compressed(Isa::Rv64) });
proof!(rv32_c_access, regs, 34, { compressed(Isa::Rv32) });

// ---------------------------------------------------------------------------------------- C06

#[derive(Clone, Copy)]
pub enum At { Lr, Sc, Amo(fn(u64, u64) -> u64) }

fn atomic(m: &mut Machine, opc: OpecodeKind, isa: Isa, w: u64, at: At) {
    nd::no_replay();
    let (rd, rs1, rs2) = (nd::below(32), nd::below(32), nd::below(32));
    let r = any_regs(isa, [rd, rs1, rs2, 0]);
    let pc = xlen(isa, nd::u64()) & !1;
    any_memory(match at { At::Lr => &LOAD_CAUSES, _ => &STORE_CAUSES });
    m.cpu.reservation_set = match nd::below(3) { 0 => None, 1 => Some(unsafe { M.pa } as usize), _ => Some(nd::u64() as usize) };
    m.set_pc(pc);
    let was = seen(m);
    let inst = Instruction {
        opc,
        rd: Some(rd),
        rs1: Some(rs1),
        rs2: match at { At::Lr => None, _ => Some(rs2) },
        imm: Some((nd::u32() & 3) as i32),
    };
    let (va, src) = (r.get(rs1), r.get(rs2));
    let res = inst.execution(m.cpu);
    let g = unsafe { M };
    ensures!("the address in rs1 is translated", g.trans >= 1 && g.t_addr == va);
    ensures!("the access needs natural alignment", g.t_align == w);
    match at {
        At::Lr => { ensures!("LR asks for read permission", matches!(g.t_purpose, TransFor::Load)); }
        _ => { ensures!("SC and AMO ask for write permission", matches!(g.t_purpose, TransFor::StoreAMO)); }
    }
    kept(m, &was);
    let ok = res.is_ok();
    let (cause, tval) = match &res {
        Ok(()) => (99, None),
        Err((t, c, _)) => (cause_code(c), *t),
    };
    std::mem::forget(res);
    let held = was.res == Some(g.pa as usize);
    if !g.t_ok {
        ensures!("a failed translation is reported", !ok && cause == cause_code(&g.t_cause) && tval == Some(g.t_tval));
        ensures!("memory is not accessed after a failed translation", g.loads == 0 && g.stores == 0);
        ensures!("a failed translation makes no reservation", m.cpu.reservation_set == was.res || m.cpu.reservation_set.is_none());
        aborted(m, &r, pc);
        return;
    }
    match at {
        At::Lr => {
            ensures!("LR reads once, with its own width, at the translated address", g.loads == 1 && g.l_width == w && g.l_addr == g.pa);
            ensures!("LR does not write memory", g.stores == 0);
            if g.l_ok {
                ensures!("LR completes", ok);
                ensures!("LR reserves the address", m.cpu.reservation_set == Some(g.pa as usize));
                r.ensures_only(m, Some((rd, extend(isa, g.mem, w, true))));
            } else {
                ensures!("a refused LR is a load access fault", !ok && cause == cause_code(&TrapCause::LoadAccessFault));
                ensures!("a refused LR makes no reservation", m.cpu.reservation_set == was.res || m.cpu.reservation_set.is_none());
                aborted(m, &r, pc);
            }
        }
        At::Sc => {
            ensures!("SC does not read memory", g.loads == 0);
            if !held {
                ensures!("SC without the reservation completes and does not store", ok && g.stores == 0);
                ensures!("SC invalidates any reservation", m.cpu.reservation_set.is_none());
                // any nonzero code says failure
                let code = unsafe { if rd == 0 { 1 } else { G.val[0] } };
                ensures!("SC without the reservation reports failure", code != 0);
                r.ensures_only(m, Some((rd, code)));
            } else {
                ensures!("SC with the reservation stores once, with its own width, at the translated address", g.stores == 1 && g.s_width == w && g.s_addr == g.pa);
                ensures!("SC stores the source register's low bytes", g.s_data == size(w, src));
                if g.s_ok {
                    ensures!("SC completes", ok);
                    ensures!("SC invalidates any reservation", m.cpu.reservation_set.is_none());
                    r.ensures_only(m, Some((rd, 0)));
                } else {
                    ensures!("a refused SC is a store access fault", !ok && cause == cause_code(&TrapCause::StoreAMOAccessFault));
                    aborted(m, &r, pc);
                }
            }
        }
        At::Amo(f) => {
            ensures!("AMO reads once, with its own width, at the translated address", g.loads == 1 && g.l_width == w && g.l_addr == g.pa);
            ensures!("AMO makes no reservation", m.cpu.reservation_set == was.res || m.cpu.reservation_set.is_none());
            if !g.l_ok {
                ensures!("a refused AMO read is a store access fault", !ok && cause == cause_code(&TrapCause::StoreAMOAccessFault));
                ensures!("a refused AMO does not store", g.stores == 0);
                aborted(m, &r, pc);
            } else {
                ensures!("AMO writes once, with its own width, at the same address", g.stores == 1 && g.s_width == w && g.s_addr == g.pa);
                ensures!("AMO reads before it writes", !g.disorder);
                ensures!("AMO stores the result of its operation", g.s_data == size(w, f(g.mem, src)));
                if g.s_ok {
                    ensures!("AMO completes", ok);
                    r.ensures_only(m, Some((rd, extend(isa, g.mem, w, true))));
                } else {
                    ensures!("a refused AMO write is a store access fault", !ok && cause == cause_code(&TrapCause::StoreAMOAccessFault));
                    aborted(m, &r, pc);
                }
            }
        }
    }
    if ok { ensures!("pc advances by the instruction's size", m.cpu.pc() == xlen(isa, pc.wrapping_add(4))); }
    reachable!("the atomic completes", ok);
    reachable!("the atomic is refused", !ok);
}
fn lr_sc(isa: Isa) {
    storage!(mem);
    let m = &mut new(&mut mem, isa);
    atomic(m, OP_LR_W, isa, 4, At::Lr);
    atomic(m, OP_SC_W, isa, 4, At::Sc);
    if !rv32(isa) {
        atomic(m, OP_LR_D, isa, 8, At::Lr);
        atomic(m, OP_SC_D, isa, 8, At::Sc);
    }
}
fn amo_logic_w(isa: Isa) {
    storage!(mem);
    let m = &mut new(&mut mem, isa);
    atomic(m, OP_AMOSWAP_W, isa, 4, At::Amo(|_, y| y));
    atomic(m, OP_AMOADD_W, isa, 4, At::Amo(|x, y| x.wrapping_add(y)));
    atomic(m, OP_AMOXOR_W, isa, 4, At::Amo(|x, y| x ^ y));
    atomic(m, OP_AMOAND_W, isa, 4, At::Amo(|x, y| x & y));
    atomic(m, OP_AMOOR_W, isa, 4, At::Amo(|x, y| x | y));
}
fn amo_order_w(isa: Isa) {
    storage!(mem);
    let m = &mut new(&mut mem, isa);
    atomic(m, OP_AMOMIN_W, isa, 4, At::Amo(|x, y| if (x as i32) < y as i32 { x } else { y }));
    atomic(m, OP_AMOMAX_W, isa, 4, At::Amo(|x, y| if (x as i32) > y as i32 { x } else { y }));
    atomic(m, OP_AMOMINU_W, isa, 4, At::Amo(|x, y| if (x as u32) < y as u32 { x } else { y }));
    atomic(m, OP_AMOMAXU_W, isa, 4, At::Amo(|x, y| if (x as u32) > y as u32 { x } else { y }));
}
proof!(rv64_lr_sc, regs, 34, { lr_sc(Isa::Rv64) });
proof!(rv32_lr_sc, regs, 34, { lr_sc(Isa::Rv32) });
proof!(rv64_amo_logic_w, regs, 34, { amo_logic_w(Isa::Rv64) });
proof!(rv32_amo_logic_w, regs, 34, { amo_logic_w(Isa::Rv32) });
proof!(rv64_amo_order_w, regs, 34, { amo_order_w(Isa::Rv64) });
proof!(rv32_amo_order_w, regs, 34, { amo_order_w(Isa::Rv32) });
proof!(rv64_amo_logic_d, regs, 34, {
    storage!(mem);
    let m = &mut new(&mut mem, Isa::Rv64);
    atomic(m, OP_AMOSWAP_D, Isa::Rv64, 8, At::Amo(|_, y| y));
    atomic(m, OP_AMOADD_D, Isa::Rv64, 8, At::Amo(|x, y| x.wrapping_add(y)));
    atomic(m, OP_AMOXOR_D, Isa::Rv64, 8, At::Amo(|x, y| x ^ y));
    atomic(m, OP_AMOAND_D, Isa::Rv64, 8, At::Amo(|x, y| x & y));
    atomic(m, OP_AMOOR_D, Isa::Rv64, 8, At::Amo(|x, y| x | y));
});
proof!(rv64_amo_order_d, regs, 34, {
    storage!(mem);
    let m = &mut new(&mut mem, Isa::Rv64);
    atomic(m, OP_AMOMIN_D, Isa::Rv64, 8, At::Amo(|x, y| if (x as i64) < y as i64 { x } else { y }));
    atomic(m, OP_AMOMAX_D, Isa::Rv64, 8, At::Amo(|x, y| if (x as i64) > y as i64 { x } else { y }));
    atomic(m, OP_AMOMINU_D, Isa::Rv64, 8, At::Amo(|x, y| if x < y { x } else { y }));
    atomic(m, OP_AMOMAXU_D, Isa::Rv64, 8, At::Amo(|x, y| if x > y { x } else { y }));
});
