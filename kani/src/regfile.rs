//! C01: the register file.
use crate::env::*;
use crate::nd;
use carron::cpu::verif::Register;
use carron::Isa;
use std::rc::Rc;

fn any_file(isa: Isa) -> [u64; 32] {
    let mut all = [0u64; 32];
    for r in all.iter_mut() { *r = xlen(isa, nd::u64()) }
    all
}

/// For every file contents, every destination, value and observed register: the observed register
/// holds the value written (cut to XLEN) if it is the destination, else what it held; x0 reads 0.
fn write_then_read(isa: Isa) {
    let all = any_file(isa);
    let mut regs = Register::verif_new(all, Rc::new(isa));
    let (d, v, q) = (nd::below(32), nd::u64(), nd::below(32));
    let before = regs.read(Some(q));
    ensures!("a register reads as the value it holds, x0 as zero", before == if q == 0 { 0 } else { all[q] });
    regs.write(Some(d), v);
    let got = regs.read(Some(q));
    let want = if q == 0 { 0 } else if q == d { xlen(isa, v) } else { all[q] };
    ensures!("after a write the destination holds the value and every other register is kept", got == want);
    let again = regs.read(Some(q));
    ensures!("reading does not change a register", again == want);
    reachable!("a write to a register other than x0 is observed", q == d && q != 0);
    reachable!("a write to x0 is observed", q == d && q == 0);
    reachable!("a register not written is observed", q != d && q != 0);
}
proof!(rv64_write_then_read, plain, 40, { write_then_read(Isa::Rv64) });
proof!(rv32_write_then_read, plain, 40, { write_then_read(Isa::Rv32) });

/// Two writes, so that the file is a map, not merely right after one write.
fn two_writes(isa: Isa) {
    let all = any_file(isa);
    let mut regs = Register::verif_new(all, Rc::new(isa));
    let (d1, v1, d2, v2, q) = (nd::below(32), nd::u64(), nd::below(32), nd::u64(), nd::below(32));
    regs.write(Some(d1), v1);
    regs.write(Some(d2), v2);
    let got = regs.read(Some(q));
    let want = if q == 0 { 0 } else if q == d2 { xlen(isa, v2) } else if q == d1 { xlen(isa, v1) } else { all[q] };
    ensures!("the file is a map from register numbers to the last value written", got == want);
    reachable!("the first write is observed after the second", q == d1 && q != d2 && q != 0);
}
proof!(rv64_two_writes, plain, 40, { two_writes(Isa::Rv64) });
proof!(rv32_two_writes, plain, 40, { two_writes(Isa::Rv32) });

proof!(reset, plain, 40, {
    let isa = if nd::bool() { Isa::Rv32 } else { Isa::Rv64 };
    let regs = Register::new(Rc::new(isa));
    let got = regs.read(Some(nd::below(32)));
    ensures!("a fresh register file reads zero everywhere", got == 0);
    reachable!("the postcondition is reached", true);
});
