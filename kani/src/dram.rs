//! C09: main memory, and C20: the CLINT's and the boot ROM's storage.
//!
//! The memory is the device's real size (2 GiB for DRAM).  Its bytes are an arbitrary 32-byte window
//! at an arbitrary place; the accessed bytes lie in it and any access outside it is a failed pointer
//! obligation, so "changes exactly these bytes" holds of all of memory.
use crate::env::*;
use crate::nd;
use carron::bus::verif::*;
use carron::bus::Device;

pub const W: usize = 32;
pub struct Window {
    /// its bytes before the call
    pub old: [u8; W],
    /// where in the device it lies, where in it the access starts, and the size of the device
    pub at: u64,
    pub off: usize,
}

/// An arbitrary window, and in it an arbitrary access of `len` bytes inside a device of `size` bytes.
pub fn any_window(size: u64, len: u64) -> Window {
    let mut old = [0u8; W];
    let mut i = 0;
    while i < W { old[i] = nd::u8(); i += 1 }
    let at = nd::u64();
    nd::assume(at <= size - W as u64);
    let off = nd::below(W as u8);
    nd::assume(off + len as usize <= W);
    // any place of the device can be accessed: the window lies around it
    Window { old, at, off }
}
impl Window {
    pub fn index(&self) -> u64 { self.at + self.off as u64 }
    pub fn value(&self, len: usize) -> u64 {
        let mut v = 0;
        let mut i = 0;
        while i < len { v |= (self.old[self.off + i] as u64) << (8 * i); i += 1 }
        v
    }
    /// the device's memory
    pub fn vec(&self, buf: &mut [u8; W], size: u64) -> Vec<u8> {
        *buf = self.old;
        #[cfg(kani)]
        unsafe { Vec::from_raw_parts(buf.as_mut_ptr().wrapping_sub(self.at as usize), size as usize, size as usize) }
        #[cfg(not(kani))]
        {
            let mut v = vec![0xA5u8; size as usize];
            v[self.at as usize..self.at as usize + W].copy_from_slice(&self.old);
            v
        }
    }
    /// exactly the bytes of the access changed, to those of `data`
    pub fn ensures_stored(&self, mem: impl Fn(usize) -> u8, len: usize, data: u64) {
        let mut i = 0;
        while i < W {
            let now = mem(i);
            if i >= self.off && i < self.off + len {
                ensures!("the bytes addressed hold the value, lowest first", now == (data >> (8 * (i - self.off) as u32)) as u8);
            } else {
                ensures!("no other byte changes", now == self.old[i]);
            }
            i += 1
        }
    }
}
pub fn sx(v: u64, len: usize) -> u64 {
    match len { 1 => v as i8 as u64, 2 => v as i16 as u64, 4 => v as i32 as u64, _ => v }
}

#[macro_export]
macro_rules! mem_proof {
    ($name:ident, $body:block) => {
        proof!(@ $name, 34, cadical, [
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice)], $body);
    };
}
/// Contracts of one load or store accessor: `load!(name, device, size, accessor, len, extension)`.
macro_rules! load {
    ($name:ident, $new:ident, $size:expr, $f:ident, $len:literal, $ext:expr) => {
        mem_proof!($name, {
            let w = any_window($size, $len);
            let mut buf = [0u8; W];
            let (mut d, base) = $new(w.vec(&mut buf, $size));
            let got = d.$f(base + w.index());
            let ok = matches!(got, Ok(v) if v == $ext(w.value($len), $len));
            std::mem::forget(got);
            ensures!("a load returns the little-endian value of the bytes addressed", ok);
            reachable!("a load at the first byte", w.index() == 0);
            reachable!("a load at the last bytes", w.index() == $size - $len);
            #[cfg(kani)]
            { std::mem::forget(d); w.ensures_stored(|i| buf[i], 0, 0); }
        });
    };
}
macro_rules! store {
    ($name:ident, $new:ident, $size:expr, $f:ident, $len:literal) => {
        mem_proof!($name, {
            let w = any_window($size, $len);
            let data = nd::u64();
            let mut buf = [0u8; W];
            let (mut d, base) = $new(w.vec(&mut buf, $size));
            let got = d.$f(base + w.index(), data);
            let ok = got.is_ok();
            std::mem::forget(got);
            ensures!("a store inside memory completes", ok);
            reachable!("a store at the first byte", w.index() == 0);
            reachable!("a store at the last bytes", w.index() == $size - $len);
            #[cfg(kani)]
            { std::mem::forget(d); w.ensures_stored(|i| buf[i], $len, data); }
            #[cfg(not(kani))]
            w.ensures_stored(|i| d.load_u8(base + w.at + i as u64).unwrap() as u8, $len, data);
        });
    };
}
fn zx(v: u64, _len: usize) -> u64 { v }
fn new_dram(v: Vec<u8>) -> (Dram, u64) {
    let base = nd::u64();
    nd::assume(base < u64::MAX - 2 * DRAM_SIZE);
    (Dram::verif_new(v, base), base)
}
load!(dram_load8, new_dram, DRAM_SIZE, load8, 1, sx);
load!(dram_load16, new_dram, DRAM_SIZE, load16, 2, sx);
load!(dram_load32, new_dram, DRAM_SIZE, load32, 4, sx);
load!(dram_load64, new_dram, DRAM_SIZE, load64, 8, sx);
load!(dram_load_u8, new_dram, DRAM_SIZE, load_u8, 1, zx);
load!(dram_load_u16, new_dram, DRAM_SIZE, load_u16, 2, zx);
load!(dram_load_u32, new_dram, DRAM_SIZE, load_u32, 4, zx);
store!(dram_store8, new_dram, DRAM_SIZE, store8, 1);
store!(dram_store16, new_dram, DRAM_SIZE, store16, 2);
store!(dram_store32, new_dram, DRAM_SIZE, store32, 4);
store!(dram_store64, new_dram, DRAM_SIZE, store64, 8);

pub const CLINT_SIZE: u64 = 0xffff;
fn new_clint(v: Vec<u8>) -> (Clint, u64) { (Clint::verif_new(v), 0x0200_0000) }
load!(clint_load32, new_clint, CLINT_SIZE, load32, 4, sx);
load!(clint_load64, new_clint, CLINT_SIZE, load64, 8, sx);
store!(clint_store32, new_clint, CLINT_SIZE, store32, 4);
store!(clint_store64, new_clint, CLINT_SIZE, store64, 8);

const MROM_SIZE: u64 = 0x1_0000;
fn new_mrom(v: Vec<u8>) -> (Mrom, u64) { (Mrom::verif_new(v), 0x1000) }
load!(mrom_load8, new_mrom, MROM_SIZE, load8, 1, sx);
load!(mrom_load16, new_mrom, MROM_SIZE, load16, 2, sx);
load!(mrom_load32, new_mrom, MROM_SIZE, load32, 4, sx);
load!(mrom_load64, new_mrom, MROM_SIZE, load64, 8, sx);
load!(mrom_load_u8, new_mrom, MROM_SIZE, load_u8, 1, zx);
load!(mrom_load_u16, new_mrom, MROM_SIZE, load_u16, 2, zx);
load!(mrom_load_u32, new_mrom, MROM_SIZE, load_u32, 4, zx);

/// Ranges: an access belongs to the device exactly when all its bytes do.
mem_proof!(ranges, {
    let addr = nd::u64();
    let len = 1u64 << nd::below(4);
    let inside = |base: u64, size: u64| addr >= base && addr - base < size && len <= size - (addr - base);
    let base = nd::u64();
    nd::assume(base < u64::MAX - 2 * DRAM_SIZE);
    let mut buf = [0u8; W];
    let w = Window { old: [0; W], at: 0, off: 0 };
    let d = Dram::verif_new(w.vec(&mut buf, DRAM_SIZE), base);
    ensures!("main memory covers exactly its bytes", d.covers(addr, len) == inside(base, DRAM_SIZE));
    std::mem::forget(d);
    let d = Mrom::verif_new(w.vec(&mut buf, MROM_SIZE));
    ensures!("the boot ROM covers exactly its bytes", d.covers(addr, len) == inside(0x1000, MROM_SIZE));
    std::mem::forget(d);
    let d = Plic::verif_new(Vec::new(), Vec::new(), Vec::new(), 0, 0);
    ensures!("the PLIC covers exactly its registers", d.covers(addr, len) == inside(0xc00_0000, 0x100_0000));
    let mut b100 = [0u8; 0x100];
    #[cfg(kani)]
    let v = unsafe { Vec::from_raw_parts(b100.as_mut_ptr(), 0x100, 0x100) };
    #[cfg(not(kani))]
    let v = vec![b100[0]; 0x100];
    let d = Uart::verif_new(v, 0, 0, 0, Default::default(), receiver());
    ensures!("the UART covers exactly its registers", d.covers(addr, len) == inside(0x1000_0000, 0x100));
    std::mem::forget(d);
    b100[0] = 1;
    reachable!("an access over the end of memory", addr == base + DRAM_SIZE - 1 && len == 2);
});

/// The CLINT at reset: all zero, its range 0xffff bytes from 0x0200_0000.
mem_proof!(clint_reset, {
    let d = Clint::new();
    let addr = nd::u64();
    let len = 1u64 << nd::below(4);
    ensures!("the CLINT covers exactly its bytes", d.covers(addr, len)
        == (addr >= 0x200_0000 && addr - 0x200_0000 < 0xffff && len <= 0xffff - (addr - 0x200_0000)));
    ensures!("its memory is as large as its range", d.clint.len() == 0xffff);
    ensures!("the time starts at zero", d.clint[0xbff8] == 0 && d.clint[0xbfff] == 0 && d.clint[0x4000] == 0);
    reachable!("an address within", addr == 0x200_bff8 && len == 8);
    std::mem::forget(d);
});
