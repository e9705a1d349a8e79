//! C18: the platform-level interrupt controller.
use crate::env::*;
use crate::nd;
use carron::bus::verif::*;
use carron::bus::Device;
use carron::cpu::{PrivilegedLevel, TrapCause};

const BASE: u64 = 0xc00_0000;
const IDS: usize = 32;

#[derive(Clone, Copy)]
struct Ctx { thr: u8, en: u32, pend: u32, pp: [u8; IDS], claimed: u32 }
/// The controller's state as the specification sees it: 31 sources, two contexts.
#[derive(Clone, Copy)]
struct State { prio: [u8; IDS], level: u32, c: [Ctx; 2] }

fn bytes() -> [u8; IDS] {
    // two draws per eight bytes keep counterexamples short
    let mut a = [0u8; IDS];
    let mut i = 0;
    while i < IDS / 16 {
        let v = nd::u64();
        let mut j = 0;
        while j < 16 { a[16 * i + j] = ((v >> (4 * j)) & 15) as u8; j += 1 }
        i += 1;
    }
    a[0] = 0;
    a
}
impl Ctx {
    fn any() -> Ctx {
        let en = nd::u32() & !1;
        let pend = nd::u32() & en;
        let mut pp = bytes();
        let mut i = 0;
        while i < IDS { if pend >> i & 1 == 0 { pp[i] = 0 } i += 1 }
        Ctx { thr: nd::u8() & 15, en, pend, pp, claimed: nd::u32() & en }
    }
    /// The source a claim returns: pending, unclaimed, of highest priority, the lowest such.
    fn best(&self) -> u32 {
        let (mut best, mut p, mut i) = (0, 0, 1);
        while i < IDS {
            if self.pend & !self.claimed & (1 << i) != 0 && (best == 0 || self.pp[i] > p) { best = i as u32; p = self.pp[i] }
            i += 1;
        }
        best
    }
    /// Is the context's interrupt line raised?
    fn line(&self) -> bool { let b = self.best() as usize; b != 0 && self.pp[b] > self.thr }
    /// The data invariant: nothing disabled is pending or claimed, source 0 does not exist, and
    /// priorities are within their four bits.
    fn legal(&self, i: usize) -> bool {
        (self.en | self.pend | self.claimed) & 1 == 0 && self.pend & !self.en == 0 && self.claimed & !self.en == 0
            && self.thr < 16 && self.pp[i] < 16 && (self.pend >> i & 1 == 1 || self.pp[i] == 0)
    }
}
#[cfg(kani)]
fn back<T: Copy + Default, const N: usize>(a: [T; N], n: usize) -> Vec<T> { unsafe { Vec::from_raw_parts(Box::into_raw(Box::new(a)).cast(), n, n) } }
#[cfg(not(kani))]
fn back<T: Copy + Default, const N: usize>(a: [T; N], n: usize) -> Vec<T> { let mut v = vec![T::default(); n]; v[..N].copy_from_slice(&a); v }
impl State {
    fn any() -> State { State { prio: bytes(), level: nd::u32() & !1, c: [Ctx::any(), Ctx::any()] } }
    /// The controller in this state.  Its vectors have their real lengths; under Kani only the part
    /// that holds the 31 sources is backed by memory, so that an access to the rest fails.
    fn build(&self) -> Plic {
        let ctx = |s: &Ctx, lv| PlicContext::verif_new(s.thr, back([s.en], 32), back([s.pend], 32), back(s.pp, 1024), back([s.claimed], 32), lv);
        let cs = vec![ctx(&self.c[0], PrivilegedLevel::Machine), ctx(&self.c[1], PrivilegedLevel::Supervisor)];
        Plic::verif_new(back(self.prio, 1024), back([self.level], 1024), cs, 0, 0)
    }
    /// Postcondition: the controller is in this state.  `i` is any source.
    fn ensures_is(&self, p: &Plic, i: usize) {
        ensures!("the priorities are as specified", p.verif_priority()[i] == self.prio[i]);
        ensures!("the source levels are as specified", p.verif_level()[0] == self.level);
        let mut c = 0;
        while c < 2 {
            let (x, s) = (&p.verif_contexts()[c], &self.c[c]);
            ensures!("the context's threshold is as specified", x.verif_threshold() == s.thr);
            ensures!("the context's enables are as specified", x.verif_enable()[0] == s.en);
            ensures!("the context's pending sources are as specified", x.verif_pending()[0] == s.pend);
            ensures!("the context's claimed sources are as specified", x.verif_claimed()[0] == s.claimed);
            ensures!("the pending priorities are as specified", x.verif_pending_priority()[i] == s.pp[i]);
            ensures!("the context's state stays legal", s.legal(i));
            c += 1;
        }
    }
    /// Postcondition: the hart is told about context `c`.
    fn ensures_told(&self, p: &Plic, c: usize) {
        let bit = if c == 0 { 1 << 11 } else { 1 << 9 };
        ensures!("the hart is told about this context", p.mip_mask == bit);
        ensures!("the line is raised exactly when an unclaimed source is above the threshold", p.mip_value == if self.c[c].line() { bit } else { 0 });
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Reg { Priority(usize), Enable(usize, usize), Threshold(usize), Claim(usize), Reserved, None }
fn reg(off: u64) -> Reg {
    if off < 0x2000 { Reg::Priority(off as usize / 4) }
    else if off < 0x20_0000 {
        let (c, w) = ((off - 0x2000) / 0x80, (off % 0x80) / 4);
        if c < 2 { Reg::Enable(c as usize, w as usize) } else { Reg::None }
    } else {
        let (c, r) = ((off - 0x20_0000) / 0x1000, off % 0x1000);
        if c >= 2 { Reg::None } else if r == 0 { Reg::Threshold(c as usize) } else if r == 4 { Reg::Claim(c as usize) } else { Reg::Reserved }
    }
}
fn any_offset() -> u64 {
    let off = nd::u32() as u64;
    nd::assume(off < 0x100_0000 && off % 4 == 0);
    off
}
macro_rules! plic_proof {
    ($name:ident, $body:block) => {
        proof!(@ $name, 34, cadical, [
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice)], $body);
    };
}
type Answer = (bool, u64, u64);
fn answer(r: Result<u64, Exc>) -> Answer {
    let a = match &r { Ok(v) => (true, *v, 0), Err((_, c, _)) => (false, 0, cause_code(c)) };
    std::mem::forget(r);
    a
}
const LOAD_FAULT: u64 = TrapCause::LoadAccessFault as u64;
const STORE_FAULT: u64 = TrapCause::StoreAMOAccessFault as u64;
fn sx(v: u32) -> u64 { v as i32 as u64 }

/// Contracts of the registers of each context.
macro_rules! context {
    ($c:literal, $rd:ident, $claim:ident, $en:ident, $thr:ident, $done:ident) => {
plic_proof!($claim, {
    let mut s = State::any();
    let (i, c) = (nd::below(32), $c);
    let mut p = s.build();
    let got = answer(p.load32(BASE + 0x20_0004 + 0x1000 * c as u64));
    let best = s.c[c].best();
    if best != 0 && s.c[c].pp[best as usize] == 0 {
        // a source of priority zero: whether a claim returns it is left open
        ensures!("a claim returns the best pending source", got.0 && (got.1 == best as u64 || got.1 == 0));
    } else {
        ensures!("a claim returns the best pending source", got == (true, best as u64, 0));
    }
    if got.1 != 0 { s.c[c].claimed |= 1 << best }
    s.ensures_is(&p, i);
    s.ensures_told(&p, c);
    reachable!("a source is claimed", best == 31);
    reachable!("another remains", best == 5 && s.c[c].line());
    std::mem::forget(p);
});
plic_proof!($rd, {
    let s = State::any();
    let i = nd::below(32);
    let mut p = s.build();
    let got = answer(p.load32(BASE + 0x2000 + 0x80 * $c));
    ensures!("enables read back", got == (true, sx(s.c[$c].en), 0));
    let got = answer(p.load32(BASE + 0x20_0000 + 0x1000 * $c));
    ensures!("a threshold reads back", got == (true, s.c[$c].thr as u64, 0));
    s.ensures_is(&p, i);
    reachable!("the last source is enabled", s.c[$c].en == 1 << 31);
    std::mem::forget(p);
});
plic_proof!($en, {
    let mut s = State::any();
    let (i, c, v) = (nd::below(32), $c, nd::u64());
    let mut p = s.build();
    let got = answer(p.store32(BASE + 0x2000 + 0x80 * c as u64, v).map(|_| 0));
    ensures!("an enable write completes", got == (true, 0, 0));
    {
        let new = v as u32 & !1;
        let on = new & !s.c[c].en & s.level;
        let off = s.c[c].en & !new;
        let x = &mut s.c[c];
        x.en = new;
        x.pend = (x.pend | on) & !off;
        x.claimed &= !off;
        let mut k = 0;
        while k < 32 {
            if on >> k & 1 == 1 { x.pp[k] = s.prio[k] }
            if off >> k & 1 == 1 { x.pp[k] = 0 }
            k += 1;
        }
        s.ensures_told(&p, c);
    }
    s.ensures_is(&p, i);
    reachable!("a source becomes pending", s.c[c].pend == 1 << 31);
    std::mem::forget(p);
});
plic_proof!($thr, {
    let mut s = State::any();
    let (i, v) = (nd::below(32), nd::u64());
    let mut p = s.build();
    let got = answer(p.store32(BASE + 0x20_0000 + 0x1000 * $c, v).map(|_| 0));
    ensures!("a threshold write completes", got == (true, 0, 0));
    s.c[$c].thr = v as u8 & 15;
    s.ensures_told(&p, $c);
    s.ensures_is(&p, i);
    reachable!("the line is raised", s.c[$c].line() && s.c[$c].thr == 3);
    std::mem::forget(p);
});
plic_proof!($done, {
    let mut s = State::any();
    let (i, v) = (nd::below(32), nd::u64());
    let mut p = s.build();
    let got = answer(p.store32(BASE + 0x20_0004 + 0x1000 * $c, v).map(|_| 0));
    ensures!("a completion completes", got == (true, 0, 0));
    let id = v as u32;
    if id < 32 && s.c[$c].en >> id & 1 == 1 {
        s.c[$c].claimed &= !(1 << id);
        s.ensures_told(&p, $c);
    }
    s.ensures_is(&p, i);
    reachable!("source 10 is completed", id == 10 && s.c[$c].pend >> 10 & 1 == 1);
    reachable!("no such source", id == u32::MAX);
    std::mem::forget(p);
});
    };
}
context!(0, read_0, claim_0, enable_0, threshold_0, complete_0);
context!(1, read_1, claim_1, enable_1, threshold_1, complete_1);
/// A controller of which only the priorities are there: whatever touches a context's or a source's
/// state fails.
fn only_priorities(prio: &[u8; IDS], contexts: bool) -> Plic {
    let ctx = |lv| PlicContext::verif_new(0, Vec::new(), Vec::new(), Vec::new(), Vec::new(), lv);
    let cs = if contexts { vec![ctx(PrivilegedLevel::Machine), ctx(PrivilegedLevel::Supervisor)] } else { Vec::new() };
    Plic::verif_new(back(*prio, 1024), Vec::new(), cs, 0, 0)
}
plic_proof!(write_elsewhere, {
    let mut prio = bytes();
    let (i, off, v) = (nd::below(32), any_offset(), nd::u64());
    let r = reg(off);
    nd::assume(matches!(r, Reg::Priority(_) | Reg::None));
    let mut p = only_priorities(&prio, false);
    let got = answer(p.store32(BASE + off, v).map(|_| 0));
    if r == Reg::None { ensures!("a context that does not exist is an access fault", got == (false, 0, STORE_FAULT)); }
    else { ensures!("a register write completes", got == (true, 0, 0)); }
    if let Reg::Priority(id) = r { if id > 0 && id < 32 { prio[id] = v as u8 & 15 } }
    ensures!("the priorities are as specified", p.verif_priority()[i] == prio[i]);
    ensures!("nothing is signalled", p.mip_mask == 0 && p.mip_value == 0);
    reachable!("the last priority", r == Reg::Priority(31) && v == 7);
    reachable!("no context", r == Reg::None);
    std::mem::forget(p);
});
plic_proof!(read_elsewhere, {
    let prio = bytes();
    let (i, off) = (nd::below(32), any_offset());
    let r = reg(off);
    nd::assume(matches!(r, Reg::Priority(_) | Reg::None));
    let mut p = only_priorities(&prio, false);
    let got = answer(p.load32(BASE + off));
    match r {
        Reg::Priority(id) => { ensures!("a priority reads back", got == (true, if id < 32 { prio[id] as u64 } else { 0 }, 0)); }
        _ => { ensures!("a context that does not exist is an access fault", got == (false, 0, LOAD_FAULT)); }
    }
    ensures!("the priorities are as specified", p.verif_priority()[i] == prio[i]);
    ensures!("nothing is signalled", p.mip_mask == 0 && p.mip_value == 0);
    reachable!("the last priority", r == Reg::Priority(31));
    reachable!("no context", r == Reg::None);
    std::mem::forget(p);
});
/// The reserved registers lo..hi.
fn reserved(lo: u64, hi: u64) {
    let prio = bytes();
    let (i, v) = (nd::below(32), nd::u64());
    let mut p = only_priorities(&prio, true);
    let mut off = lo;
    while off < hi {
        let r = p.load32(BASE + off);
        ensures!("reserved registers read as zero", matches!(r, Ok(0)));
        std::mem::forget(r);
        let r = p.store32(BASE + off, v);
        ensures!("reserved registers ignore writes", r.is_ok());
        std::mem::forget(r);
        off += 4;
    }
    ensures!("the priorities are as specified", p.verif_priority()[i] == prio[i]);
    ensures!("no threshold changes", p.verif_contexts()[0].verif_threshold() | p.verif_contexts()[1].verif_threshold() == 0);
    ensures!("nothing is signalled", p.mip_mask == 0 && p.mip_value == 0);
    reachable!("a nonzero value is written", v == 1);
    std::mem::forget(p);
}
macro_rules! reserved {
    ($($name:ident, $lo:expr, $hi:expr;)*) => { $(
        proof!(@ $name, 1030, cadical, [
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice)], { reserved($lo, $hi) });
    )* };
}
reserved! {
    reserved_enable_0, 0x2004, 0x2080;
    reserved_enable_1, 0x2084, 0x2100;
    reserved_0a, 0x20_0008, 0x20_0400;
    reserved_0b, 0x20_0400, 0x20_0800;
    reserved_0c, 0x20_0800, 0x20_0c00;
    reserved_0d, 0x20_0c00, 0x20_1000;
    reserved_1a, 0x20_1008, 0x20_1400;
    reserved_1b, 0x20_1400, 0x20_1800;
    reserved_1c, 0x20_1800, 0x20_1c00;
    reserved_1d, 0x20_1c00, 0x20_2000;
}
plic_proof!(interrupt_level, {
    let mut s = State::any();
    let (i, id, v) = (nd::below(32), nd::u32(), nd::u32());
    let mut p = s.build();
    p.set_interrupt_level(id, v);
    if id > 0 && id < 32 {
        let bit = 1u32 << id;
        s.level = if v != 0 { s.level | bit } else { s.level & !bit };
        let first = if s.c[0].en & bit != 0 { 0 } else { 1 };
        let mut c = 0;
        while c < 2 {
            // a source enabled in both contexts: whether the second is told as well is left open
            let open = c != first && p.verif_contexts()[c].verif_pending()[0] == s.c[c].pend
                && p.verif_contexts()[c].verif_pending_priority()[id as usize] == s.c[c].pp[id as usize];
            if s.c[c].en & bit != 0 && !open {
                let x = &mut s.c[c];
                if v != 0 { x.pend |= bit; x.pp[id as usize] = s.prio[id as usize] }
                else { x.pend &= !bit; x.pp[id as usize] = 0; x.claimed &= !bit }
            }
            c += 1;
        }
        if s.c[first].en & bit != 0 && s.c[1 - first].en & bit == 0 { s.ensures_told(&p, first) }
    }
    s.ensures_is(&p, i);
    reachable!("the UART's source becomes pending", id == 10 && v == 1 && s.c[1].pend >> 10 & 1 == 1);
    reachable!("no such source", id == u32::MAX);
    std::mem::forget(p);
});
plic_proof!(reset, {
    let p = Plic::new();
    let s = State { prio: [0; IDS], level: 0, c: [Ctx { thr: 0, en: 0, pend: 0, pp: [0; IDS], claimed: 0 }; 2] };
    s.ensures_is(&p, nd::below(32));
    ensures!("no interrupt is pending after reset", p.mip_value == 0);
    reachable!("the controller is built", true);
    std::mem::forget(p);
});

pub static mut CALLS: [(u64, u64); 2] = [(0, 0); 2];
pub static mut N: usize = 0;
pub static mut HALF: [u32; 2] = [0; 2];
pub static mut FAULT: usize = 9;
pub fn half_load(_p: &mut Plic, a: u64) -> Result<u64, Exc> {
    unsafe {
        if N >= 2 { N = 9; return Ok(0) }
        CALLS[N] = (a, 0);
        N += 1;
        if FAULT == N - 1 { Err((Some(a), TrapCause::LoadAccessFault, String::new())) } else { Ok(sx(HALF[N - 1])) }
    }
}
pub fn half_store(_p: &mut Plic, a: u64, v: u64) -> Result<(), Exc> {
    unsafe {
        if N >= 2 { N = 9; return Ok(()) }
        CALLS[N] = (a, v & 0xffff_ffff);
        N += 1;
        if FAULT == N - 1 { Err((Some(a), TrapCause::StoreAMOAccessFault, String::new())) } else { Ok(()) }
    }
}
proof!(@ doubleword, 2, cadical, [kani::stub(<Plic as Device>::load32, half_load), kani::stub(<Plic as Device>::store32, half_store)], {
    nd::no_replay();
    let (a, v, lo, hi) = (nd::u64(), nd::u64(), nd::u32(), nd::u32());
    nd::assume(a < 1 << 40);
    let f = nd::u8() as usize;
    unsafe { N = 0; HALF = [lo, hi]; FAULT = f };
    let mut p = Plic::verif_new(Vec::new(), Vec::new(), Vec::new(), 0, 0);
    let got = answer(p.load64(a));
    unsafe {
        if f >= 2 { ensures!("a doubleword is the two words at the address", got == (true, (hi as u64) << 32 | lo as u64, 0) && N == 2 && CALLS[0].0 == a && CALLS[1].0 == a + 4); }
        else { ensures!("a faulting word is reported", got == (false, 0, LOAD_FAULT)); }
        N = 0;
    }
    let got = answer(p.store64(a, v).map(|_| 0));
    unsafe {
        if f >= 2 { ensures!("a doubleword store writes the low word, then the high one", got == (true, 0, 0) && N == 2 && CALLS[0] == (a, v & 0xffff_ffff) && CALLS[1] == (a + 4, v >> 32)); }
        else { ensures!("a faulting word is reported", got == (false, 0, STORE_FAULT)); }
    }
    reachable!("the second word faults", f == 1);
    reachable!("no word faults", f == 2);
    std::mem::forget(p);
});

// Reset: no source has a priority, is enabled, pending or claimed, and nothing is told to the hart.
plic_proof!(fresh, {
    let p = Plic::new();
    let i = nd::below(IDS as u8) as usize;
    let none = Ctx { thr: 0, en: 0, pend: 0, pp: [0; IDS], claimed: 0 };
    (State { prio: [0; IDS], level: 0, c: [none; 2] }).ensures_is(&p, i);
    ensures!("every source has room", p.verif_priority().len() == 1024 && p.verif_contexts()[1].verif_enable().len() == 32);
    ensures!("there are two contexts", p.verif_contexts().len() == 2);
    ensures!("nothing is told to the hart", p.mip_mask == 0 && p.mip_value == 0);
    ensures!("it lies where the memory map says", p.in_range(BASE) && p.in_range(BASE + 0xff_ffff) && !p.in_range(BASE - 1) && !p.in_range(BASE + 0x100_0000));
    reachable!("the last source", i == IDS - 1);
    std::mem::forget(p);
});
