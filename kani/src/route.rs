//! C10: the bus.  The devices' accessors are contract stubs that record the access (each accessor
//! is proved by C09, C18, C19, C20); what a device refuses to do is not stubbed.
use crate::env::*;
use crate::nd;
use carron::bus::verif::*;
use carron::bus::{Bus, Device};
use carron::cpu::TrapCause;

pub type R<T> = Result<T, Exc>;
#[derive(Clone, Copy, PartialEq)]
pub enum Dev { Mrom, Clint, Dram, Uart, Plic, Nobody }
#[derive(Clone, Copy)]
pub struct Seen {
    pub calls: u64,
    pub dev: Dev,
    pub store: bool,
    pub width: u64,
    pub addr: u64,
    pub data: u64,
    /// what the device answers
    pub ok: bool,
    pub mem: u64,
    pub tval: u64,
    pub cause: TrapCause,
}
pub static mut S: Seen = Seen { calls: 0, dev: Dev::Nobody, store: false, width: 0, addr: 0, data: 0, ok: true, mem: 0, tval: 0, cause: TrapCause::LoadAccessFault };

fn low(v: u64, w: u64) -> u64 { if w == 8 { v } else { v & ((1 << (8 * w)) - 1) } }
fn extend(v: u64, w: u64, signed: bool) -> u64 {
    match w {
        1 => if signed { v as i8 as u64 } else { v as u8 as u64 },
        2 => if signed { v as i16 as u64 } else { v as u16 as u64 },
        4 => if signed { v as i32 as u64 } else { v as u32 as u64 },
        _ => v,
    }
}
fn seen(dev: Dev, store: bool, width: u64, addr: u64, data: u64) {
    unsafe { S.calls += 1; S.dev = dev; S.store = store; S.width = width; S.addr = addr; S.data = low(data, width) }
}
fn fault() -> Exc { unsafe { (Some(S.tval), S.cause, String::new()) } }
fn ld(dev: Dev, w: u64, signed: bool, addr: u64) -> R<u64> {
    seen(dev, false, w, addr, 0);
    unsafe { if S.ok { Ok(extend(S.mem, w, signed)) } else { Err(fault()) } }
}
fn st(dev: Dev, w: u64, addr: u64, data: u64) -> R<()> {
    seen(dev, true, w, addr, data);
    unsafe { if S.ok { Ok(()) } else { Err(fault()) } }
}
macro_rules! device {
    ($m:ident, $T:ident, $($f:ident($self:ty, $w:literal, $s:literal)),*; $($g:ident($gw:literal)),*) => {
        pub mod $m {
            use super::*;
            $( pub fn $f(_d: $self, a: u64) -> R<u64> { ld(Dev::$T, $w, $s, a) } )*
            $( pub fn $g(_d: &mut $T, a: u64, v: u64) -> R<()> { st(Dev::$T, $gw, a, v) } )*
        }
    };
}
device!(mrom, Mrom, load8(&mut Mrom, 1, true), load16(&Mrom, 2, true), load32(&mut Mrom, 4, true), load64(&mut Mrom, 8, true),
    load_u8(&Mrom, 1, false), load_u16(&Mrom, 2, false), load_u32(&Mrom, 4, false););
device!(clint, Clint, load32(&mut Clint, 4, true), load64(&mut Clint, 8, true); store32(4), store64(8));
device!(dram, Dram, load8(&mut Dram, 1, true), load16(&Dram, 2, true), load32(&mut Dram, 4, true), load64(&mut Dram, 8, true),
    load_u8(&Dram, 1, false), load_u16(&Dram, 2, false), load_u32(&Dram, 4, false); store8(1), store16(2), store32(4), store64(8));
device!(plic, Plic, load32(&mut Plic, 4, true), load64(&mut Plic, 8, true); store32(4), store64(8));
pub fn uart_load(_u: &mut Uart, a: u64, _p: &mut Plic) -> R<u64> { ld(Dev::Uart, 1, true, a) }
pub fn uart_store(_u: &mut Uart, a: u64, v: u64, _p: &mut Plic) -> R<()> { st(Dev::Uart, 1, a, v) }

/// Does the device have accesses of this kind?
fn offers(d: Dev, store: bool, w: u64, signed: bool) -> bool {
    match d {
        Dev::Dram => true,
        Dev::Mrom => !store,
        Dev::Clint | Dev::Plic => w == 8 || (w == 4 && signed),
        Dev::Uart => w == 1,
        Dev::Nobody => false,
    }
}

struct Map { mrom: u64, base: u64, size: u64 }
impl Map {
    fn any() -> Map {
        let m = Map { mrom: nd::u64(), base: nd::u64(), size: nd::u64() };
        nd::assume(m.mrom >= 32 && m.mrom <= 0x1ff_f000);
        nd::assume(m.size >= 0x1000 && m.size <= DRAM_SIZE && m.base >= 0x1000_0100 && m.base < u64::MAX - 2 * DRAM_SIZE);
        m
    }
    fn owner(&self, addr: u64, len: u64) -> Dev {
        let has = |base: u64, size: u64| addr >= base && addr - base < size && len <= size - (addr - base);
        if has(0x1000, self.mrom) { Dev::Mrom }
        else if has(0x200_0000, 0xffff) { Dev::Clint }
        else if has(0xc00_0000, 0x100_0000) { Dev::Plic }
        else if has(0x1000_0000, 0x100) { Dev::Uart }
        else if has(self.base, self.size) { Dev::Dram }
        else { Dev::Nobody }
    }
    fn bus(&self) -> Bus {
        #[cfg(kani)]
        fn bytes(n: u64) -> Vec<u8> { unsafe { Vec::from_raw_parts(8 as *mut u8, n as usize, n as usize) } }
        #[cfg(not(kani))]
        fn bytes(n: u64) -> Vec<u8> { if n > 0x100_0000 { vec![0; n as usize] } else { (0..n).map(|i| (i * 37 ^ (i >> 8) * 11 ^ 0xa5) as u8).collect() } }
        Bus {
            mrom: Mrom::verif_new(bytes(self.mrom)),
            clint: Clint::verif_new(bytes(0xffff)),
            dram: Dram::verif_new(bytes(self.size), self.base),
            uart: Uart::verif_new(bytes(0x100), 0, 0, 0, Default::default(), receiver()),
            #[cfg(kani)]
            plic: Plic::verif_new(Vec::new(), Vec::new(), Vec::new(), 0, 0),
            #[cfg(not(kani))]
            plic: Plic::new(),
        }
    }
}

/// In a replay the devices are real: what would the device itself have answered?
#[cfg(not(kani))]
fn direct(b: &mut Bus, d: Dev, store: bool, w: u64, signed: bool, a: u64, v: u64) -> Option<u64> {
    macro_rules! on { ($d:expr) => { match (store, w, signed) {
        (true, 1, _) => $d.store8(a, v).map(|_| 0), (true, 2, _) => $d.store16(a, v).map(|_| 0),
        (true, 4, _) => $d.store32(a, v).map(|_| 0), (true, _, _) => $d.store64(a, v).map(|_| 0),
        (_, 1, true) => $d.load8(a), (_, 2, true) => $d.load16(a), (_, 4, true) => $d.load32(a), (_, 8, _) => $d.load64(a),
        (_, 1, _) => $d.load_u8(a), (_, 2, _) => $d.load_u16(a), (_, _, _) => $d.load_u32(a),
    }.ok() } }
    match d {
        Dev::Mrom => on!(b.mrom),
        Dev::Clint => on!(b.clint),
        Dev::Dram => on!(b.dram),
        Dev::Plic => on!(b.plic),
        Dev::Uart if store => b.uart.store8_with_plic(a, v, &mut b.plic).map(|_| 0).ok(),
        Dev::Uart => b.uart.load8_with_plic(a, &mut b.plic).map(|x| extend(x, 1, signed)).ok(),
        Dev::Nobody => None,
    }
}

macro_rules! route {
    ($name:ident, $store:literal, $w:literal, $signed:literal, |$b:ident, $a:ident, $v:ident| $call:expr) => {
        proof!(@ $name, 2, cadical, [
            kani::stub(<Mrom as Device>::load8, mrom::load8), kani::stub(<Mrom as Device>::load16, mrom::load16),
            kani::stub(<Mrom as Device>::load32, mrom::load32), kani::stub(<Mrom as Device>::load64, mrom::load64),
            kani::stub(<Mrom as Device>::load_u8, mrom::load_u8), kani::stub(<Mrom as Device>::load_u16, mrom::load_u16),
            kani::stub(<Mrom as Device>::load_u32, mrom::load_u32),
            kani::stub(<Clint as Device>::load32, clint::load32), kani::stub(<Clint as Device>::load64, clint::load64),
            kani::stub(<Clint as Device>::store32, clint::store32), kani::stub(<Clint as Device>::store64, clint::store64),
            kani::stub(<Dram as Device>::load8, dram::load8), kani::stub(<Dram as Device>::load16, dram::load16),
            kani::stub(<Dram as Device>::load32, dram::load32), kani::stub(<Dram as Device>::load64, dram::load64),
            kani::stub(<Dram as Device>::load_u8, dram::load_u8), kani::stub(<Dram as Device>::load_u16, dram::load_u16),
            kani::stub(<Dram as Device>::load_u32, dram::load_u32),
            kani::stub(<Dram as Device>::store8, dram::store8), kani::stub(<Dram as Device>::store16, dram::store16),
            kani::stub(<Dram as Device>::store32, dram::store32), kani::stub(<Dram as Device>::store64, dram::store64),
            kani::stub(<Plic as Device>::load32, plic::load32), kani::stub(<Plic as Device>::load64, plic::load64),
            kani::stub(<Plic as Device>::store32, plic::store32), kani::stub(<Plic as Device>::store64, plic::store64),
            kani::stub(Uart::load8_with_plic, uart_load), kani::stub(Uart::store8_with_plic, uart_store)], {
            let m = Map::any();
            let ($a, $v) = (nd::u64(), nd::u64());
            let mut $b = m.bus();
            let (ok, mem, tval) = (nd::bool(), nd::u64(), nd::u64());
            let cause = if $store { TrapCause::StoreAMOAccessFault } else { TrapCause::LoadAccessFault };
            unsafe { S = Seen { calls: 0, dev: Dev::Nobody, store: false, width: 0, addr: 0, data: 0, ok, mem, tval, cause } };
            nd::prefer(ok);
            let r: R<u64> = $call;
            let owner = m.owner($a, $w);
            let (is_ok, got, c, t) = match &r {
                Ok(x) => (true, *x, 0, None),
                Err((t, c, _)) => (false, 0, cause_code(c), *t),
            };
            std::mem::forget(r);
            let served = offers(owner, $store, $w, $signed);
            #[cfg(kani)]
            {
                let s = unsafe { S };
                if served {
                    ensures!("the access reaches its device once and no other", s.calls == 1 && s.dev == owner);
                    ensures!("as an access of its own kind and width", s.store == $store && s.width == $w);
                    ensures!("at its own address", s.addr == $a);
                    if $store { ensures!("with its data", s.data == low($v, $w)); }
                    if ok {
                        ensures!("the device's answer is returned", is_ok && got == if $store { 0 } else { extend(mem, $w, $signed) });
                    } else {
                        ensures!("the device's fault is reported", !is_ok && c == cause_code(&cause) && t == Some(tval));
                    }
                } else {
                    ensures!("no device is accessed", s.calls == 0);
                    ensures!("an access nobody serves is an access fault with its address", !is_ok && c == cause_code(&cause) && t == Some($a));
                }
                reachable!("main memory", owner == Dev::Dram);
                reachable!("the boot ROM", owner == Dev::Mrom);
                reachable!("the CLINT", owner == Dev::Clint);
                reachable!("the PLIC", owner == Dev::Plic);
                reachable!("the UART", owner == Dev::Uart);
                reachable!("nobody", owner == Dev::Nobody);
                std::mem::forget($b);
            }
            #[cfg(not(kani))]
            {
                if !served {
                    ensures!("an access nobody serves is an access fault with its address", !is_ok && c == cause_code(&cause) && t == Some($a));
                } else {
                    let mut other = m.bus();
                    let want = direct(&mut other, owner, $store, $w, $signed, $a, $v);
                    ensures!("the device's answer is returned", want == if is_ok { Some(got) } else { None });
                    if $store && owner != Dev::Uart {
                        let rw = if $w < 4 && owner != Dev::Dram { 4 } else { $w };
                        ensures!("the device holds what the store wrote", direct(&mut other, owner, false, rw, true, $a, 0)
                            == direct(&mut $b, owner, false, rw, true, $a, 0));
                    }
                }
            }
        });
    };
}
route!(route_load8, false, 1, true, |b, a, v| { let _ = v; b.load8(a) });
route!(route_load16, false, 2, true, |b, a, v| { let _ = v; let b = &mut b; b.load16(a) });
route!(route_load32, false, 4, true, |b, a, v| { let _ = v; b.load32(a) });
route!(route_load64, false, 8, true, |b, a, v| { let _ = v; b.load64(a) });
route!(route_load_u8, false, 1, false, |b, a, v| { let _ = v; b.load_u8(a) });
route!(route_load_u16, false, 2, false, |b, a, v| { let _ = v; let b = &mut b; b.load_u16(a) });
route!(route_load_u32, false, 4, false, |b, a, v| { let _ = v; let b = &mut b; b.load_u32(a) });
route!(route_store8, true, 1, true, |b, a, v| b.store8(a, v).map(|_| 0));
route!(route_store16, true, 2, true, |b, a, v| b.store16(a, v).map(|_| 0));
route!(route_store32, true, 4, true, |b, a, v| b.store32(a, v).map(|_| 0));
route!(route_store64, true, 8, true, |b, a, v| b.store64(a, v).map(|_| 0));
