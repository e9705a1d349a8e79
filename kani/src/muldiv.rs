//! C03: multiplication and division.
//!
//! 64-bit products and quotients are decided by an SMT solver on terms.  `hi_u`, the upper half of a
//! product, is specified through the four 32x32 partial products; lemma `mul_split` (verus/lemmas.rs)
//! shows that this is the upper half of the mathematical product for all operands.
use crate::env::*;
use crate::nd;
use carron::cpu::execution::Execution;
use carron::cpu::verif::OpecodeKind::*;
use carron::cpu::verif::{Instruction, OpecodeKind, Register};
use carron::Isa;

/// Upper 64 bits of x * y (lemma mul_split).
pub fn hi_u(x: u64, y: u64) -> u64 {
    // none of these operations overflows (mul_split); the wrapping ones carry no overflow obligation
    let (xl, xh, yl, yh) = (x & 0xffff_ffff, x >> 32, y & 0xffff_ffff, y >> 32);
    let mid = xh.wrapping_mul(yl).wrapping_add(xl.wrapping_mul(yl) >> 32);
    let low = xl.wrapping_mul(yh).wrapping_add(mid & 0xffff_ffff);
    xh.wrapping_mul(yh).wrapping_add(mid >> 32).wrapping_add(low >> 32)
}
/// Upper 64 bits of -(x * y).
type Hi = fn(u64, u64) -> u64;
fn neg_hi(h: u64, zero: bool) -> u64 { (!h).wrapping_add(zero as u64) }
fn hi_su(hi: Hi, x: u64, y: u64) -> u64 {
    let h = hi((x as i64).unsigned_abs(), y);
    if (x as i64) < 0 { neg_hi(h, x.wrapping_mul(y) == 0) } else { h }
}
fn hi_s(hi: Hi, x: u64, y: u64) -> u64 {
    let h = hi((x as i64).unsigned_abs(), (y as i64).unsigned_abs());
    if ((x as i64) < 0) == ((y as i64) < 0) { h } else { neg_hi(h, (x as i64).wrapping_mul(y as i64) == 0) }
}
fn hi_128(x: u64, y: u64) -> u64 { ((x as u128).wrapping_mul(y as u128) >> 64) as u64 }
fn sx32(v: u32) -> u64 { v as i32 as i64 as u64 }

/// Ghost register file for these contracts: an arbitrary array with x0 = 0, so that a register's
/// value is one term in code and specification (decided with --no-array-field-sensitivity).
#[cfg(kani)]
mod ghost {
    use super::*;
    extern "C" {
        static mut ANY_FILE: [u64; 32];
    }
    static mut NARROW: bool = false;
    pub fn start(narrow: bool) { unsafe { NARROW = narrow; nd::assume(ANY_FILE[0] == 0) } }
    pub fn get(n: usize) -> u64 { unsafe { ANY_FILE[n] } }
    pub fn read(_r: &Register, src: Option<usize>) -> u64 {
        let n = src.unwrap();
        assert!(n < 32, "register number below 32");
        unsafe { ANY_FILE[n] }
    }
    pub fn write(_r: &mut Register, dst: Option<usize>, v: u64) {
        let n = dst.unwrap();
        assert!(n < 32, "register number below 32");
        if n != 0 { unsafe { ANY_FILE[n] = if NARROW { v & 0xffff_ffff } else { v } } }
    }
}

/// rd := f(rs1, rs2), and nothing else happens.
fn one(m: &mut Machine, opc: OpecodeKind, isa: Isa, small: bool, f: impl Fn(u64, u64) -> u64) {
    let (rd, rs1, rs2, k) = (nd::below(32), nd::below(32), nd::below(32), nd::below(32));
    let (x, y, old) = (xlen(isa, nd::u64()), xlen(isa, nd::u64()), xlen(isa, nd::u64()));
    let pc = xlen(isa, nd::u64()) & !1;
    nd::assume(!small || sparse(isa, x) && sparse(isa, y));
    #[cfg(kani)]
    {
        ghost::start(rv32(isa));
        nd::assume(ghost::get(rs1) == x && ghost::get(rs2) == y && ghost::get(k) == old);
    }
    #[cfg(not(kani))]
    {
        let mut all = [0; 32];
        (all[k], all[rs2], all[rs1]) = (old, y, x);
        all[0] = 0;
        m.cpu.regs = Register::verif_new(all, std::rc::Rc::new(isa));
    }
    m.set_pc(pc);
    let frame = Frame::of(m);
    let res = Instruction { opc, rd: Some(rd), rs1: Some(rs1), rs2: Some(rs2), imm: None }.execution(m.cpu);
    let ok = res.is_ok();
    std::mem::forget(res);
    ensures!("the instruction completes without a trap", ok);
    #[cfg(kani)]
    let (now_rd, now_k) = (ghost::get(rd), ghost::get(k));
    #[cfg(not(kani))]
    let (now_rd, now_k) = (m.cpu.regs.read(Some(rd)), m.cpu.regs.read(Some(k)));
    if rd == 0 {
        ensures!("x0 stays zero", now_rd == 0);
    } else {
        ensures!("destination register holds the specified result", now_rd == f(x, y));
    }
    ensures!("every other register is unchanged", k == rd || now_k == old);
    ensures!("pc advances by the instruction's size", m.cpu.pc() == xlen(isa, pc.wrapping_add(4)));
    frame.ensures_kept(m);
    reachable!("the postcondition is reached", true);
}
/// Bound of the stand-ins: a sign-extended 5-bit number, or one of a few extreme values.
fn sparse(isa: Isa, x: u64) -> bool {
    let n = xlen(isa, x.wrapping_add(16));
    n < 32 || x == 1 << 31 || x == (1 << 31) - 1 || x == 0xffff_ffff || x == 1 << 63 || x == (1 << 63) - 1
}
macro_rules! md {
    ($name:ident $isa:ident $opc:ident $small:literal $f:expr) => {
        proof!(@ $name, 34, cadical, [
            kani::stub(carron::cpu::verif::Register::read, ghost::read),
            kani::stub(carron::cpu::verif::Register::write, ghost::write),
            kani::stub(carron::cpu::csr::CSRs::write, csr_write),
            kani::stub(carron::cpu::csr::CSRs::bitset, csr_write),
            kani::stub(carron::cpu::csr::CSRs::bitclr, csr_write),
            kani::stub(carron::cpu::csr::CSRs::write_xstatus, csr_write_xstatus),
            kani::stub(carron::cpu::Cpu::trap, trap_stub),
            kani::stub(carron::cpu::Cpu::trans_addr, trans_addr)], {
            storage!(mem);
            let m = &mut machine(&mut mem, Isa::$isa, 0, any_priv(), empty_bus(), [0; 32]);
            one(m, $opc, Isa::$isa, $small, $f);
        });
    };
}
macro_rules! each {
    ($( $name:ident $isa:ident $opc:ident => $f:expr; )*) => {
        pub mod full { use super::*; $( md!($name $isa $opc false $f); )* }
        /// Bounded stand-ins, for code whose terms the solver cannot relate to the specification's.
        pub mod small { use super::*; $( md!($name $isa $opc true $f); )* }
    };
}
/// The same contracts, stated with 128-bit products of magnitudes, and of the operands.
pub mod wide {
    use super::*;
    md!(rv64_mulh Rv64 OP_MULH false |a, b| hi_s(hi_128, a, b));
    md!(rv64_mulhsu Rv64 OP_MULHSU false |a, b| hi_su(hi_128, a, b));
    md!(rv64_mulhu Rv64 OP_MULHU false hi_128);
}
pub mod direct {
    use super::*;
    md!(rv64_mulh Rv64 OP_MULH false |a, b| ((a as i64 as i128).wrapping_mul(b as i64 as i128) >> 64) as u64);
    md!(rv64_mulhsu Rv64 OP_MULHSU false |a, b| ((a as i64 as i128).wrapping_mul(b as i128) >> 64) as u64);
}
fn w(f: impl Fn(u32, u32) -> u32) -> impl Fn(u64, u64) -> u64 { move |a, b| f(a as u32, b as u32) as u64 }
each! {
    rv64_mul Rv64 OP_MUL => |a, b| a.wrapping_mul(b);
    rv64_mulh Rv64 OP_MULH => |a, b| hi_s(hi_u, a, b);
    rv64_mulhsu Rv64 OP_MULHSU => |a, b| hi_su(hi_u, a, b);
    rv64_mulhu Rv64 OP_MULHU => |a, b| hi_u(a, b);
    rv64_div Rv64 OP_DIV => |a, b| if b == 0 { u64::MAX } else if a == 1 << 63 && b == u64::MAX { a } else { (a as i64 / b as i64) as u64 };
    rv64_divu Rv64 OP_DIVU => |a, b| if b == 0 { u64::MAX } else { a / b };
    rv64_rem Rv64 OP_REM => |a, b| if b == 0 { a } else if a == 1 << 63 && b == u64::MAX { 0 } else { (a as i64 % b as i64) as u64 };
    rv64_remu Rv64 OP_REMU => |a, b| if b == 0 { a } else { a % b };
    rv64_mulw Rv64 OP_MULW => |a, b| sx32((a as i32).wrapping_mul(b as i32) as u32);
    rv64_divw Rv64 OP_DIVW => |a, b| { let (a, b) = (a as i32, b as i32); if b == 0 { u64::MAX } else if a == i32::MIN && b == -1 { sx32(a as u32) } else { sx32((a / b) as u32) } };
    rv64_divuw Rv64 OP_DIVUW => |a, b| { let (a, b) = (a as u32, b as u32); if b == 0 { u64::MAX } else { sx32(a / b) } };
    rv64_remw Rv64 OP_REMW => |a, b| { let (a, b) = (a as i32, b as i32); if b == 0 { sx32(a as u32) } else if a == i32::MIN && b == -1 { 0 } else { sx32((a % b) as u32) } };
    rv64_remuw Rv64 OP_REMUW => |a, b| { let (a, b) = (a as u32, b as u32); if b == 0 { sx32(a) } else { sx32(a % b) } };
    rv32_mul Rv32 OP_MUL => w(|a, b| a.wrapping_mul(b));
    rv32_mulh Rv32 OP_MULH => w(|a, b| ((a as i32 as i64).wrapping_mul(b as i32 as i64) >> 32) as u32);
    rv32_mulhsu Rv32 OP_MULHSU => w(|a, b| ((a as i32 as i64).wrapping_mul(b as u64 as i64) >> 32) as u32);
    rv32_mulhu Rv32 OP_MULHU => w(|a, b| ((a as u64).wrapping_mul(b as u64) >> 32) as u32);
    rv32_div Rv32 OP_DIV => w(|a, b| if b == 0 { u32::MAX } else { (a as i32 as i64 / b as i32 as i64) as u32 });
    rv32_divu Rv32 OP_DIVU => w(|a, b| if b == 0 { u32::MAX } else { (a as u64 / b as u64) as u32 });
    rv32_rem Rv32 OP_REM => w(|a, b| if b == 0 { a } else { (a as i32 as i64 % b as i32 as i64) as u32 });
    rv32_remu Rv32 OP_REMU => w(|a, b| if b == 0 { a } else { (a as u64 % b as u64) as u32 });
}
