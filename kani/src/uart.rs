//! C19: the serial port.  The interrupt controller is the contract stub `plic_level` (proved by C18).
use crate::env::*;
use crate::nd;
use carron::bus::verif::*;
use std::collections::VecDeque;

const BASE: u64 = 0x1000_0000;
const RXTX: usize = 0;
const IER: usize = 1;
const FCR: usize = 2;
const LCR: usize = 3;
const MCR: usize = 4;
const LSR: usize = 5;
const MSR: usize = 6;

/// What the port told the interrupt controller, and the characters it emitted.
pub static mut TOLD: (u64, u32, u32) = (0, 0, 0);
pub static mut OUT: (u64, u32) = (0, 0);
pub fn plic_level(_p: &mut Plic, id: u32, level: u32) { unsafe { TOLD = (TOLD.0 + 1, id, level) } }
/// Kani drops what `print!` prints; a piece of output is seen by its flush, and its character where
/// it is made from its code.
pub fn flush(_s: &mut std::io::Stdout) -> std::io::Result<()> {
    unsafe { OUT.0 += 1 };
    Ok(())
}
pub fn from_u32(i: u32) -> Option<char> {
    unsafe { OUT.1 = i };
    if i < 0xd800 { Some(unsafe { char::from_u32_unchecked(i) }) } else { None }
}

/// The queue's storage always has room here (std grows it otherwise).
#[cfg(kani)]
pub fn no_growth<T, A: std::alloc::Allocator>(_q: &mut VecDeque<T, A>) { panic!("room in the queue") }

/// `front` is the first waiting character, `vk` the one at an arbitrary place `k`, `back` the last
/// one if it was added by the access.
struct Port { regs: [u8; 0x100], dll: u8, dlm: u8, len: usize, front: u8, k: usize, vk: u8, back: Option<u8> }
impl Port {
    /// Any state a history can lead to.
    fn any() -> Port {
        let mut regs = [0u8; 0x100];
        let mut i = 0;
        while i < 8 { regs[i] = nd::u8(); i += 1 }
        let (k, v) = (nd::u8() as usize, nd::u8());
        if k >= 8 { regs[k] = v }
        let (len, k, front) = (nd::u32() as usize, nd::u32() as usize, nd::u8());
        let vk = if k == 0 { front } else { nd::u8() };
        let p = Port { regs, dll: nd::u8(), dlm: nd::u8(), len, front, k, vk, back: None };
        nd::assume(p.status_ok(&p.regs, len));
        nd::prefer(len < 0x10_0000);
        p
    }
    fn wants(regs: &[u8], len: usize) -> (bool, bool) { (regs[IER] & 1 != 0 && len > 0, regs[IER] & 2 != 0) }
    /// The status registers tell the truth.
    fn status_ok(&self, r: &[u8], len: usize) -> bool {
        let (rx, tx) = Port::wants(r, len);
        r[LSR] == 0x60 | (len > 0) as u8
            && r[MSR] == 0xb0
            && r[IER] & 0xf0 == 0
            && match (rx, tx) { (false, false) => r[FCR] == 1, (true, false) => r[FCR] == 4, (false, true) => r[FCR] == 2, _ => r[FCR] & 1 == 0 && r[FCR] < 16 }
    }
    fn uart(&self) -> Uart {
        unsafe { TOLD = (0, 0, 0); OUT = (0, u32::MAX) };
        let n = self.len + 8;
        #[cfg(kani)]
        let (regs, queue) = unsafe {
            let q = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
            *q = self.front;
            if self.k < self.len { *q.add(self.k) = self.vk }
            (Vec::from_raw_parts(Box::into_raw(Box::new(self.regs)).cast(), 0x100, 0x100), Vec::from_raw_parts(q, self.len, n))
        };
        #[cfg(not(kani))]
        let (regs, queue) = {
            let mut q = vec![0; n];
            q[0] = self.front;
            if self.k < self.len { q[self.k] = self.vk }
            q.truncate(self.len);
            (self.regs.to_vec(), q)
        };
        Uart::verif_new(regs, self.dll, self.dlm, 0, VecDeque::from(queue), receiver())
    }
    fn dlab(&self) -> bool { self.regs[LCR] & 0x80 != 0 }
    /// Postcondition: the port is in this state with `gone` characters taken from the queue.
    fn ensures_is(&self, was: &Port, u: &Uart, gone: usize) {
        let k = nd::u8() as usize;
        if k != FCR { ensures!("every register is as specified", u.uart[k] == self.regs[k]); }
        ensures!("the divisor latch is as specified", u.verif_dll_dlm() == (self.dll, self.dlm));
        let q = u.verif_rx_queue();
        ensures!("as many characters wait as specified", q.len() == self.len);
        if self.k >= gone && self.k - gone < self.len && self.k < was.len {
            ensures!("the waiting characters are as specified, in order", q.get(self.k - gone) == Some(&self.vk));
        }
        if self.back.is_some() { ensures!("a new character waits behind the others", q.back() == self.back.as_ref()); }
        ensures!("line status and interrupt identification tell the truth", self.status_ok(&u.uart, self.len));
        let (rx, tx) = Port::wants(&u.uart, self.len);
        let (rx0, tx0) = Port::wants(&was.regs, was.len);
        #[cfg(kani)]
        unsafe {
            ensures!("the interrupt controller hears of a change", (rx | tx) == (rx0 | tx0) || TOLD.0 > 0);
            ensures!("the interrupt line is raised exactly while an enabled interrupt is due", TOLD.0 == 0 || (TOLD.1 == 1 && (TOLD.2 != 0) == (rx | tx)));
        }
        let _ = (rx, tx, rx0, tx0);
    }
    fn emitted(&self, c: Option<u8>) {
        #[cfg(kani)]
        unsafe {
            match c {
                Some(c) => { ensures!("the character is emitted once", OUT.0 == 1 && (OUT.1 == u32::MAX || OUT.1 == c as u32)); }
                None => { ensures!("nothing is emitted", OUT.0 == 0); }
            }
        }
        let _ = c;
    }
}
impl Clone for Port { fn clone(&self) -> Port { Port { ..*self } } }
macro_rules! uart_proof {
    ($name:ident, $body:block) => {
        proof!(@@ $name, 9, cadical, [
            kani::stub(<std::io::Stdout as std::io::Write>::flush, flush),
            kani::stub(char::from_u32, from_u32),
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice),
            kani::stub(std::collections::VecDeque::grow, no_growth),
            kani::stub(Plic::set_interrupt_level, plic_level)], $body);
    };
}
fn no_plic() -> Plic {
    #[cfg(kani)]
    { Plic::verif_new(Vec::new(), Vec::new(), Vec::new(), 0, 0) }
    #[cfg(not(kani))]
    { Plic::new() }
}
fn sx(v: u8) -> u64 { v as i8 as u64 }
uart_proof!(load, {
    let was = Port::any();
    let mut s = was.clone();
    let a = nd::u8() as usize;
    let mut u = was.uart();
    let mut plic = no_plic();
    let r = u.load8_with_plic(BASE + a as u64, &mut plic);
    let got = match &r { Ok(v) => Some(*v), Err(_) => None };
    std::mem::forget(r);
    let mut gone = 0;
    let want = match a {
        RXTX if s.dlab() => s.dll,
        RXTX if s.len == 0 => 0,
        RXTX => { gone = 1; s.len -= 1; s.regs[LSR] = 0x60 | (s.len > 0) as u8; s.front }
        IER if s.dlab() => s.dlm,
        FCR => s.regs[FCR] | 0xc0,
        _ => s.regs[a],
    };
    ensures!("a register reads as the 16550 defines", got == Some(sx(want)));
    s.ensures_is(&was, &u, gone);
    s.emitted(None);
    reachable!("the last character is read", gone == 1 && s.len == 0);
    reachable!("a character of many is read", gone == 1 && s.len == 1000);
    std::mem::forget(u);
    std::mem::forget(plic);
});
fn store(a: usize) {
    let was = Port::any();
    let mut s = was.clone();
    let data = nd::u64();
    let v = data as u8;
    let mut u = was.uart();
    let mut plic = no_plic();
    let r = u.store8_with_plic(BASE + a as u64, data, &mut plic);
    let ok = r.is_ok();
    std::mem::forget(r);
    ensures!("a store completes", ok);
    let mut out = None;
    match a {
        RXTX if s.dlab() => s.dll = v,
        RXTX if s.regs[MCR] & 0x10 != 0 => {
            if s.len < 64 {
                s.back = Some(v);
                s.len += 1;
                s.regs[LSR] |= 1;
            }
        }
        RXTX => out = Some(v),
        IER if s.dlab() => s.dlm = v,
        IER => s.regs[IER] = v & 15,
        FCR => if v & 2 != 0 { s.len = 0; s.regs[LSR] &= !1 },
        LSR | MSR => (),
        _ => s.regs[a] = v,
    }
    s.ensures_is(&was, &u, 0);
    s.emitted(out);
    reachable!("a character is emitted", a != RXTX || out == Some(200));
    reachable!("a looped back character", a != RXTX || (s.len == 64 && was.len == 63));
    reachable!("the queue is cleared", a != FCR || (was.len == 100 && s.len == 0));
    std::mem::forget(u);
    std::mem::forget(plic);
}
uart_proof!(store_tx, { store(RXTX) });
uart_proof!(store_ier, { store(IER) });
uart_proof!(store_fcr, { store(FCR) });
uart_proof!(store_other, { let a = nd::u8() as usize; nd::assume(a > 2); store(a) });

/// The host's input: how often it was asked for, whether there is any, and what.
pub static mut ASKED: u64 = 0;
pub static mut INPUT: (bool, usize, [u8; 3]) = (false, 0, [0; 3]);
pub fn try_recv<T>(_r: &std::sync::mpsc::Receiver<T>) -> Result<T, std::sync::mpsc::TryRecvError> {
    unsafe {
        ASKED += 1;
        if !INPUT.0 || ASKED > 1 { return Err(std::sync::mpsc::TryRecvError::Empty) }
        let mut v = Vec::with_capacity(4);
        let mut i = 0;
        while i < 3 { v.push(INPUT.2[i]); i += 1 }
        v.set_len(INPUT.1);
        let s = std::mem::ManuallyDrop::new(String::from_utf8_unchecked(v));
        Ok(std::mem::transmute_copy::<_, T>(&s))
    }
}
/// One poll of the host's input, of at most three ASCII characters (bounded).
proof!(@ tick, 9, cadical, [
    kani::stub(std::sync::mpsc::Receiver::try_recv, try_recv),
    kani::stub(std::collections::VecDeque::grow, no_growth),
    kani::stub(std::vec::Vec::as_slice, crate::env::lib_stubs::vec_as_slice),
    kani::stub(std::vec::Vec::as_mut_slice, crate::env::lib_stubs::vec_as_mut_slice),
    kani::stub(Plic::set_interrupt_level, plic_level)], {
    nd::no_replay();
    let was = Port::any();
    let mut s = was.clone();
    let (some, n, text) = (nd::bool(), nd::below(4), [nd::u8() & 0x7f, nd::u8() & 0x7f, nd::u8() & 0x7f]);
    unsafe { ASKED = 0; INPUT = (some, n, text) };
    let mut u = was.uart();
    let mut plic = no_plic();
    u.tick(&mut plic);
    let asked = unsafe { ASKED };
    ensures!("at most one piece of input is taken", asked <= 1);
    if asked == 1 && some {
        s.len += n;
        if s.len > 0 { s.regs[LSR] |= 1 }
        let q = u.verif_rx_queue();
        let mut i = 0;
        while i < n {
            ensures!("the input waits in its order, behind what waited before", q.get(was.len + i) == Some(&text[i]));
            i += 1;
        }
    }
    s.ensures_is(&was, &u, 0);
    if was.len == 0 && was.regs[FCR] == 1 && was.regs[MCR] & 0x10 == 0 { ensures!("an idle port takes its input", asked == 1); }
    reachable!("three characters come in", asked == 1 && some && n == 3);
    reachable!("characters come in behind others", asked == 1 && some && n == 1 && was.len == 5);
    std::mem::forget(u);
    std::mem::forget(plic);
});
