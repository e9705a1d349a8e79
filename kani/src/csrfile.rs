//! C14: the CSR file: what a read, a write, a bit set and a bit clear of each of the 4096 CSRs do.
use crate::env::*;
use crate::nd;
use carron::cpu::csr::{CSRs, Xstatus};
use carron::cpu::PrivilegedLevel;
use carron::Isa;
use std::cell::RefCell;
use std::rc::Rc;

const MSTATUS: usize = 0x300;
const MISA: usize = 0x301;

#[derive(Clone, Copy, PartialEq)]
pub enum Op { Write, Set, Clear }
use Op::*;

/// The bits of the underlying CSR that this one lets software write.
fn window(isa: Isa, n: usize) -> (usize, u64) {
    let sstatus = 0x000d_e133 | if rv32(isa) { 1 << 31 } else { 1 << 63 };
    match n {
        0x000 => (MSTATUS, 0x11),
        0x100 => (MSTATUS, sstatus),
        0x104 => (0x304, 0x333),
        0x144 => (0x344, 0x333),
        0xb03 => (n, 0),
        _ => (n, u64::MAX),
    }
}
fn apply(op: Op, old: u64, v: u64, mask: u64) -> u64 {
    match op {
        Write => (old & !mask) | (v & mask),
        Set => old | (v & mask),
        Clear => old & !(v & mask),
    }
}
/// Data structure invariant of the CSR file, kept by every operation (with `init` below and the trap,
/// return and timer contracts, which write through it, it holds in every reachable state).
fn invariant(isa: Isa, m: &Machine, k: usize) -> bool {
    let st = m.csr(MSTATUS);
    let (sel, t1, t2) = m.cpu.verif_csrs().verif_triggers();
    st >> 11 & 3 != 2
        && (rv32(isa) || st >> 32 & 15 == 0b1010)
        && xlen(isa, m.csr(k)) == m.csr(k)
        && sel < 8
        && m.csr(0x7a0) == sel as u64 && m.csr(0x7a1) == t1[sel] && m.csr(0x7a2) == t2[sel]
}
fn update(isa: Isa, m: &mut Machine, op: Op, n: usize) {
    update_of(isa, m, op, n, false);
}
/// C22: the same of the trigger registers alone.
fn trigger_update(isa: Isa, m: &mut Machine, op: Op, n: usize) {
    nd::assume(n >= 0x7a0 && n < 0x7a3);
    update_of(isa, m, op, n, true);
}
fn update_of(isa: Isa, m: &mut Machine, op: Op, n: usize, only: bool) {
    let k = nd::u32() as usize;
    let j = nd::below(8);
    nd::assume(k < 4096);
    let v = nd::u64();
    let pc = xlen(isa, nd::u64()) & !1;
    m.set_pc(pc);
    let (target, mask) = window(isa, n);
    let st = m.some_csr(MSTATUS, isa);
    let old = m.some_csr(target, isa);
    let kept = m.some_csr(k, isa);
    let (sel, d1, d2) = { let (s, a, b) = m.cpu.verif_csrs().verif_triggers(); (s, *a, *b) };
    m.known_csr(0x7a0, sel as u64);
    m.known_csr(0x7a1, d1[sel]);
    m.known_csr(0x7a2, d2[sel]);
    nd::assume(st >> 11 & 3 != 2 && (rv32(isa) || st >> 32 & 15 == 0b1010));
    let r = match op {
        Write => m.cpu.verif_csrs_mut().write(Some(n), v),
        Set => m.cpu.verif_csrs_mut().bitset(Some(n), v),
        Clear => m.cpu.verif_csrs_mut().bitclr(Some(n), v),
    };
    let ok = r.is_ok();
    std::mem::forget(r);
    ensures!("the access succeeds", ok);
    let mut want = apply(op, old, xlen(isa, v), mask);
    if target == MSTATUS {
        if want >> 11 & 3 == 2 { want = want & !(3 << 11) | old & 3 << 11; }
        if !rv32(isa) { want = want & !(15 << 32) | 0b1010 << 32; }
    }
    if n == MISA && pc & 2 != 0 { want = want & !4 | old & 4; }
    let want_sel = if n == 0x7a0 && want < 8 { want as usize } else { sel };
    if n == 0x7a0 { want = want_sel as u64; }
    ensures!("the CSR holds the specified value", m.csr(target) == want);
    let selects = n == 0x7a0 && (k == 0x7a1 || k == 0x7a2);
    if k != target && !selects { ensures!("no other CSR changes", m.csr(k) == kept); }
    let (s, a, b) = m.cpu.verif_csrs().verif_triggers();
    ensures!("a trigger is selected only through tselect, and only one that exists", s == want_sel);
    ensures!("tdata1 is written of the selected trigger only", a[j] == if n == 0x7a1 && j == sel { want } else { d1[j] });
    ensures!("tdata2 is written of the selected trigger only", b[j] == if n == 0x7a2 && j == sel { want } else { d2[j] });
    ensures!("the CSR file's invariant is kept", invariant(isa, m, k));
    reachable!("an alias of mstatus", only || n == 0x100);
    reachable!("a trigger is selected", n == 0x7a0 && s != sel);
    reachable!("a trigger is set", n == 0x7a2 && sel == 5);
    reachable!("an ordinary CSR", only || n == 0x340 && k == 0x180);
}
/// The value a CSR instruction sees.
pub fn view(isa: Isa, m: &Machine, n: usize) -> u64 {
    let (target, mask) = window(isa, n);
    match n {
        0x100 if !rv32(isa) => m.csr(target) & (mask | 3 << 32),
        0x141 | 0x341 => m.csr(n) & if m.csr(MISA) >> 2 & 1 == 1 { !1 } else { !3 },
        0xb03 => m.csr(n),
        _ => m.csr(target) & mask,
    }
}
fn read(isa: Isa, m: &mut Machine, n: usize) { read_of(isa, m, n, false) }
fn trigger_read(isa: Isa, m: &mut Machine, n: usize) {
    nd::assume(n >= 0x7a0 && n < 0x7a3);
    read_of(isa, m, n, true)
}
fn read_of(isa: Isa, m: &mut Machine, n: usize, only: bool) {
    let (target, _) = window(isa, n);
    m.some_csr(target, isa);
    m.some_csr(MISA, isa);
    let r = m.cpu.verif_csrs().read(Some(n));
    let (ok, got) = match &r { Ok(v) => (true, *v), _ => (false, 0) };
    std::mem::forget(r);
    ensures!("the CSR is read", ok);
    ensures!("the CSR reads as specified", got == view(isa, m, n));
    reachable!("an alias", only || n == 0x144);
    reachable!("epc", only || n == 0x141 && got & 2 != m.csr(0x141) & 2);
}
macro_rules! on {
    ($name:ident, $isa:expr, $f:ident $(, $op:expr)?) => {
        proof!(@ $name, 10, cadical, [], {
            storage!(mem);
            let isa = $isa;
            let lv = any_priv();
            let sel = nd::below(8);
            let mut d = [[0u64; 8]; 2];
            for i in 0..8 { d[0][i] = xlen(isa, nd::u64()); d[1][i] = xlen(isa, nd::u64()); }
            let mut m = machine_with(&mut mem, isa, 0, lv, empty_bus(), [0; 32], sel, d[0], d[1]);
            m.any_csrs();
            let n = nd::u32() as usize;
            nd::assume(n < 4096);
            $f(isa, &mut m, $($op,)? n);
        });
    };
}
on!(rv64_write, Isa::Rv64, update, Write);
on!(rv32_write, Isa::Rv32, update, Write);
on!(rv64_set, Isa::Rv64, update, Set);
on!(rv32_set, Isa::Rv32, update, Set);
on!(rv64_clear, Isa::Rv64, update, Clear);
on!(rv32_clear, Isa::Rv32, update, Clear);
on!(rv64_read, Isa::Rv64, read);
on!(rv32_read, Isa::Rv32, read);
on!(trigger_rv64_write, Isa::Rv64, trigger_update, Write);
on!(trigger_rv32_write, Isa::Rv32, trigger_update, Write);
on!(trigger_rv64_set, Isa::Rv64, trigger_update, Set);
on!(trigger_rv32_set, Isa::Rv32, trigger_update, Set);
on!(trigger_rv64_clear, Isa::Rv64, trigger_update, Clear);
on!(trigger_rv32_clear, Isa::Rv32, trigger_update, Clear);
on!(trigger_rv64_read, Isa::Rv64, trigger_read);
on!(trigger_rv32_read, Isa::Rv32, trigger_read);

fn status(isa: Isa, m: &mut Machine) {
    let k = nd::u32() as usize;
    nd::assume(k < 4096);
    let kept = m.some_csr(k, isa);
    let st = m.some_csr(MSTATUS, isa);
    const S: PrivilegedLevel = PrivilegedLevel::Supervisor;
    const M: PrivilegedLevel = PrivilegedLevel::Machine;
    const U: PrivilegedLevel = PrivilegedLevel::User;
    macro_rules! field {
        ($($lv:expr, $f:ident, $pos:expr, $w:expr);* $(;)?) => {
            $({
                m.set_csr(MSTATUS, st);
                let bits = (1u64 << $w) - 1;
                ensures!("a status field reads as its bits of mstatus", m.cpu.verif_csrs().read_xstatus($lv, Xstatus::$f) == st >> $pos & bits);
                let v = nd::u64();
                m.cpu.verif_csrs_mut().write_xstatus($lv, Xstatus::$f, v);
                ensures!("writing a status field changes its bits and no other", m.csr(MSTATUS) == st & !(bits << $pos) | (v & bits) << $pos);
            })*
        };
    }
    field! {
        M, UIE, 0, 1; M, SIE, 1, 1; M, MIE, 3, 1; M, UPIE, 4, 1; M, SPIE, 5, 1; M, MPIE, 7, 1; M, SPP, 8, 1; M, MPP, 11, 2;
        M, FS, 13, 2; M, XS, 15, 2; M, MPRV, 17, 1; M, SUM, 18, 1; M, MXR, 19, 1; M, TVM, 20, 1; M, TW, 21, 1; M, TSR, 22, 1;
        S, UIE, 0, 1; S, SIE, 1, 1; S, UPIE, 4, 1; S, SPIE, 5, 1; S, SPP, 8, 1; S, FS, 13, 2; S, XS, 15, 2; S, SUM, 18, 1; S, MXR, 19, 1;
        U, UIE, 0, 1; U, UPIE, 4, 1;
    }
    if rv32(isa) {
        field! { M, SD, 31, 1; S, SD, 31, 1; }
    } else {
        field! { M, SD, 63, 1; S, SD, 63, 1; M, UXL, 32, 2; M, SXL, 34, 2; S, UXL, 32, 2; }
    }
    if k != MSTATUS { ensures!("no other CSR changes", m.csr(k) == kept); }
    reachable!("any value", st >> 11 & 3 == 1);
}
proof!(@ rv64_status, 10, cadical, [], {
    storage!(mem);
    let mut m = machine(&mut mem, Isa::Rv64, 0, PrivilegedLevel::Machine, empty_bus(), [0; 32]);
    m.any_csrs();
    status(Isa::Rv64, &mut m);
});
proof!(@ rv32_status, 10, cadical, [], {
    storage!(mem);
    let mut m = machine(&mut mem, Isa::Rv32, 0, PrivilegedLevel::Machine, empty_bus(), [0; 32]);
    m.any_csrs();
    status(Isa::Rv32, &mut m);
});

/// The CSR file a machine starts with satisfies the invariant.
fn initial(isa: Isa) {
    let k = nd::u32() as usize;
    nd::assume(k < 4096);
    let j = nd::below(8);
    let c = CSRs::new(Rc::new(isa), Rc::new(RefCell::new(nd::u64() & !3))).init();
    let raw = c.verif_raw();
    let (sel, t1, t2) = c.verif_triggers();
    let st = raw[MSTATUS];
    ensures!("misa names the extensions A, C, I, M, S and U and the width", raw[MISA] == if rv32(isa) { 0x4014_1105 } else { 0x8000_0000_0014_1105 });
    ensures!("mstatus starts legal", if rv32(isa) { st == 0 } else { st == 0b1010 << 32 });
    ensures!("marchid names the emulator", raw[0xf12] == 5);
    if k != MISA && k != MSTATUS && k != 0xf12 { ensures!("every other CSR starts at zero", raw[k] == 0); }
    ensures!("no trigger is set", sel == 0 && t1[j] == 0 && t2[j] == 0);
    std::mem::forget(c);
    reachable!("done", k == 0x305);
}
proof!(rv64_init, plain, 10, { initial(Isa::Rv64) });
proof!(rv32_init, plain, 10, { initial(Isa::Rv32) });
