//! C23: ELF images.  The specification is the format's own table of fields: offset and width.
use crate::env::*;
use crate::nd;
use carron::elfload::verif::*;
use carron::elfload::{get_u16, get_u32, get_u64, ElfHeader, ElfIdentification, ElfLoader, ProgramHeader, SectionHeader};
use carron::Isa;

/// The little-endian value of `n` bytes.
fn le(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < n { v |= (b[at + i] as u64) << (8 * i); i += 1 }
    v
}
type Table<const N: usize> = [(usize, usize); N];
// e_type, e_machine, e_version, e_entry, e_phoff, e_shoff, e_flags, e_ehsize, e_phentsize, e_phnum,
// e_shentsize, e_shnum, e_shstrndx
const EHDR32: Table<13> = [(16, 2), (18, 2), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4), (40, 2), (42, 2), (44, 2), (46, 2), (48, 2), (50, 2)];
const EHDR64: Table<13> = [(16, 2), (18, 2), (20, 4), (24, 8), (32, 8), (40, 8), (48, 4), (52, 2), (54, 2), (56, 2), (58, 2), (60, 2), (62, 2)];
// p_type, p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_flags, p_align
const PHDR32: Table<8> = [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (24, 4), (28, 4)];
const PHDR64: Table<8> = [(0, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (4, 4), (48, 8)];
// sh_type, sh_flags, sh_addr, sh_offset, sh_size, sh_link, sh_info, sh_addralign, sh_entsize
const SHDR32: Table<9> = [(4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4)];
const SHDR64: Table<9> = [(4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 4), (44, 4), (48, 8), (56, 8)];

fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i + 8 <= N {
        let w = nd::u64().to_le_bytes();
        b[i] = w[0];
        b[i + 1] = w[1];
        b[i + 2] = w[2];
        b[i + 3] = w[3];
        b[i + 4] = w[4];
        b[i + 5] = w[5];
        b[i + 6] = w[6];
        b[i + 7] = w[7];
        i += 8;
    }
    b
}
/// An image of `len` bytes of which only those from `at` are known.
macro_rules! image {
    ($name:ident, $w:ident, $at:expr, $len:expr) => {
        #[cfg(kani)]
        let $name = unsafe { std::mem::transmute::<(*const u8, usize), &[u8]>(($w.as_ptr().wrapping_sub($at), $len)) };
        #[cfg(not(kani))]
        let $name = { let mut v = vec![0; $len + 16]; v[$at..$at + 16].copy_from_slice(&$w); v };
        #[cfg(not(kani))]
        let $name = &$name[..];
    };
}
/// Contracts of get_u16/32/64 (`words`) as their callers rely on them: they are known at one place.
pub static mut W: (usize, u64) = (0, 0);
fn at_place(i: usize) -> u64 { unsafe { if i == W.0 { W.1 } else { nd::u64() } } }
pub fn w_u16(_m: &[u8], i: usize) -> u16 { at_place(i) as u16 }
pub fn w_u32(_m: &[u8], i: usize) -> u32 { at_place(i) as u32 }
pub fn w_u64(_m: &[u8], i: usize) -> u64 { at_place(i) }
/// Contract of get_sh_name (`text32`, `text64`) as new_sect relies on it: which name is asked for.
pub static mut NAMED: (usize, [usize; 3], usize) = (0, [0; 3], 0);
pub fn name_of(_m: &[u8], h: usize, t: usize) -> String {
    let n = unsafe { &mut NAMED };
    ensures!("a section's name is looked up at the section's header", n.0 < 3 && h == n.1[n.0]);
    ensures!("in the section that holds the names", t == n.2);
    n.0 += 1;
    let mut v = Vec::with_capacity(4);
    unsafe { v.set_len(n.0); String::from_utf8_unchecked(v) }
}
pub fn no_name(_m: &[u8], _h: usize, _t: usize) -> String { String::new() }
/// A growing vector, of at most eight elements here, without the allocator's part in it.
pub fn vec_new<T>() -> Vec<T> { Vec::with_capacity(8) }
#[cfg(kani)]
pub fn vec_push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    let n = v.len();
    assert!(n < 8, "room in the vector");
    unsafe { std::ptr::write(v.as_mut_ptr().add(n), x); v.set_len(n + 1) }
}
pub fn push_ascii(s: &mut String, c: char) { unsafe { s.as_mut_vec().push(c as u8) } }
macro_rules! elf_proof {
    (@ $name:ident, $unwind:literal, [$($stub:meta),*], $body:block) => {
        proof!(@ $name, $unwind, cadical, [
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice),
            kani::stub(std::vec::Vec::new, vec_new), kani::stub(std::vec::Vec::push, vec_push), $($stub),*], $body);
    };
    ($name:ident, $unwind:literal, $body:block) => {
        proof!(@ $name, $unwind, cadical, [
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice)], $body);
    };
}

elf_proof!(words, 12, {
    // any place of an image of any length
    let b: [u8; 16] = bytes();
    let (len, at, i) = (nd::u32() as usize, nd::u32() as usize, nd::below(9));
    nd::assume(len >= 16 && at <= len - 16);
    nd::prefer(len < 0x1000);
    image!(image, b, at, len);
    ensures!("a halfword is two bytes, lowest first", get_u16(image, at + i) as u64 == le(&b, i, 2));
    ensures!("a word is four bytes, lowest first", get_u32(image, at + i) as u64 == le(&b, i, 4));
    ensures!("a doubleword is eight bytes, lowest first", get_u64(image, at + i) == le(&b, i, 8));
    reachable!("at the end of the image", at + i + 8 == len && len == 5000);
});

macro_rules! headers {
    ($file:ident, $prog:ident, $sect:ident, $names:ident, $text:ident, $E:ident, $P:ident, $S:ident, $bits:ty, $ehdr:ident, $phdr:ident, $shdr:ident, $EN:literal) => {
        elf_proof!($file, 20, {
            let b: [u8; $EN] = bytes();
            let id = ElfIdentification::verif_new(&b);
            let (magic, five) = id.verif_fields();
            let k = nd::below(16);
            ensures!("the identification is the first sixteen bytes", magic[k] == b[k]);
            ensures!("class, byte order, version and ABI follow the magic number", five == [b[4], b[5], b[6], b[7], b[8]]);
            let h = $E::new(&b, id);
            let f = h.verif_fields();
            let mut i = 0;
            while i < 13 {
                ensures!("a field of the file header is read at its place in its width", f[i] == le(&b, $ehdr[i].0, $ehdr[i].1));
                i += 1;
            }
            ensures!("an image is ELF exactly if it starts with the magic number", h.is_elf() == (b[0] == 0x7f && b[1] == b'E' && b[2] == b'L' && b[3] == b'F'));
            ensures!("the class gives the register width", b[4] != 1 && b[4] != 2 || matches!(h.target_arch(), Isa::Rv32) == (b[4] == 1));
            reachable!("a 32-bit ELF image", h.is_elf() && b[4] == 1);
            reachable!("a 64-bit ELF image", h.is_elf() && b[4] == 2);
            std::mem::forget(h);
        });
        // Bounded: at most three program headers, anywhere in an image of any length.
        elf_proof!(@ $prog, 18, [kani::stub(carron::elfload::get_u16, w_u16), kani::stub(carron::elfload::get_u32, w_u32), kani::stub(carron::elfload::get_u64, w_u64)], {
            let mut h = *$E::new(&[0; 64], ElfIdentification::verif_new(&[0; 16]));
            let (off, each) = (nd::u64() as $bits, nd::u32() as u16);
            h.e_phoff = off;
            h.e_phentsize = each;
            h.e_phnum = 3;
            let n = h.e_phnum as usize;
            // one field of one of them
            let (k, j) = (nd::below(3), nd::below(8));
            let w: [u8; 16] = bytes();
            let len = nd::u64() as usize;
            nd::assume(off as u64 <= <$bits>::MAX as u64 / 2 - 0x10_0000 && len <= isize::MAX as usize && len >= off as usize + 3 * each as usize + 80);
            nd::prefer(len < 0x1000);
            let mut at = off as usize + match k { 0 => 0, 1 => each as usize, _ => 2 * each as usize };
            let mut i = 0;
            while i < 8 { if i == j { at += $phdr[i].0 } i += 1 }
            image!(img, w, at, len);
            unsafe { W = (at, le(&w, 0, 8)) };
            let ps = $P::new_prog(img, &h);
            ensures!("there are as many program headers as the file header says", ps.len() == n);
            if k < n {
                let p = &*ps[k];
                let f = unsafe { $P::verif_fields(p) };
                let mut i = 0;
                while i < 8 {
                    if i == j { ensures!("a field of a program header is read at its place in its width", f[i] == le(&w, 0, $phdr[i].1)); }
                    i += 1;
                }
                ensures!("a segment is loaded exactly if its type is PT_LOAD", p.is_loadable() == (f[0] == 1));
                ensures!("it is loaded from its offset to its physical address", p.offset_and_addr() == (f[1], f[3]));
                ensures!("as many bytes as the file holds of it", p.p_filesz() == f[4]);
            }
            reachable!("the last of three", n == 3 && k == 2 && j == 7 && off == 5 && each == 99);
            std::mem::forget(ps);
            std::mem::forget(h);
        });
        // Bounded: at most three section headers, anywhere in an image of any length.
        elf_proof!(@ $sect, 18, [kani::stub(carron::elfload::get_u16, w_u16), kani::stub(carron::elfload::get_u32, w_u32), kani::stub(carron::elfload::get_u64, w_u64), kani::stub(<$S as SectionHeader>::get_sh_name, no_name)], {
            let mut h = *$E::new(&[0; 64], ElfIdentification::verif_new(&[0; 16]));
            let (off, each) = (nd::u64() as $bits, nd::u32() as u16);
            h.e_shoff = off;
            h.e_shentsize = each;
            h.e_shnum = 3;
            h.e_shstrndx = 1;
            let n = h.e_shnum as usize;
            let (k, j) = (nd::below(3), nd::below(9));
            let w: [u8; 16] = bytes();
            let len = nd::u64() as usize;
            nd::assume(off as u64 <= <$bits>::MAX as u64 / 2 - 0x10_0000 && len <= isize::MAX as usize && len >= off as usize + 3 * each as usize + 80);
            nd::prefer(len < 0x1000);
            let mut at = off as usize + match k { 0 => 0, 1 => each as usize, _ => 2 * each as usize };
            let mut i = 0;
            while i < 9 { if i == j { at += $shdr[i].0 } i += 1 }
            image!(img, w, at, len);
            unsafe { W = (at, le(&w, 0, 8)) };
            let ss = $S::new_sect(img, &h);
            ensures!("there are as many section headers as the file header says", ss.len() == n);
            if k < n {
                let s = &*ss[k];
                let f = unsafe { $S::verif_fields(s) };
                let mut i = 0;
                while i < 9 {
                    if i == j { ensures!("a field of a section header is read at its place in its width", f[i] == le(&w, 0, $shdr[i].1)); }
                    i += 1;
                }
                ensures!("a section's offset is that of the header", s.sh_offset() == f[3]);
                if f[3] <= <$bits>::MAX as u64 / 2 && f[4] <= <$bits>::MAX as u64 / 2 {
                    ensures!("a section is its size from its offset", s.section_range() == (f[3]..f[3] + f[4]));
                }
            }
            reachable!("the last of three", n == 3 && k == 2 && j == 8 && off == 5 && each == 99);
            std::mem::forget(ss);
            std::mem::forget(h);
        });
        // Bounded: names of at most seven characters, in an image of 24 bytes.
        elf_proof!(@ $text, 18, [kani::stub(std::string::String::push, push_ascii)], {
            let mut b = [0u8; 24];
            let (head, table, id) = (2, 8, 3);
            b[head] = id as u8;
            let mut i = 0;
            while i < 15 { b[table + i] = nd::u8() & 0x7f; i += 1 }
            let from = table + id;
            let mut l = 0;
            while l < 8 && b[from + l] != 0 { l += 1 }
            nd::assume(l < 8);
            let name = <$S as SectionHeader>::get_sh_name(&b, head, table);
            ensures!("a section's name ends at its zero", name.len() == l);
            let mut i = 0;
            while i < 7 {
                if i < l { ensures!("a section's name is the text in the name table at its place", name.as_bytes()[i] == b[from + i]); }
                i += 1;
            }
            reachable!("a name of seven characters", l == 7);
            reachable!("no name", l == 0);
            std::mem::forget(name);
        });
        // Bounded: at most three section headers.
        elf_proof!(@ $names, 18, [kani::stub(carron::elfload::get_u16, w_u16), kani::stub(carron::elfload::get_u32, w_u32), kani::stub(carron::elfload::get_u64, w_u64), kani::stub(<$S as SectionHeader>::get_sh_name, name_of)], {
            nd::no_replay();
            let mut h = *$E::new(&[0; 64], ElfIdentification::verif_new(&[0; 16]));
            let (off, each) = (nd::u32() as $bits, nd::u32() as u16);
            h.e_shoff = off;
            h.e_shentsize = each;
            h.e_shnum = 3;
            h.e_shstrndx = nd::below(3) as u16;
            let heads = [off as usize, off as usize + each as usize, off as usize + 2 * each as usize];
            let w: [u8; 16] = bytes();
            nd::assume(off <= <$bits>::MAX / 2);
            let at = heads[h.e_shstrndx as usize] + $shdr[3].0;
            image!(img, w, at, 0x1_0000_0000_0000);
            unsafe { W = (at, le(&w, 0, 8)); NAMED = (0, heads, le(&w, 0, $shdr[3].1) as usize) };
            let ss = $S::new_sect(img, &h);
            let k = nd::below(3);
            ensures!("each section has the name found for it", ss[k].sh_name().len() == k + 1);
            reachable!("the second section holds the names", h.e_shstrndx == 1);
            std::mem::forget(ss);
            std::mem::forget(h);
        });
    };
}
headers!(file32, prog32, sect32, names32, text32, ElfHeader32, ProgramHeader32, SectionHeader32, u32, EHDR32, PHDR32, SHDR32, 56);
headers!(file64, prog64, sect64, names64, text64, ElfHeader64, ProgramHeader64, SectionHeader64, u64, EHDR64, PHDR64, SHDR64, 64);

/// A loader over these headers, without (or with) an image behind them.
pub fn loader(prog: Vec<Box<dyn ProgramHeader>>, sect: Vec<Box<dyn SectionHeader>>, image: Option<&'static [u8]>) -> std::mem::ManuallyDrop<ElfLoader> {
    let h = ElfHeader64::new(&[0; 64], ElfIdentification::verif_new(&[0; 16]));
    let (p, n) = match image { Some(i) => (i.as_ptr(), i.len()), None => (std::ptr::null(), 0) };
    #[repr(C)]
    struct Map(*const u8, usize);
    std::mem::ManuallyDrop::new(ElfLoader { elf_header: h, prog_headers: prog, sect_headers: sect, mem_data: unsafe { std::mem::transmute(Map(p, n)) } })
}
/// The first bytes of a vector of any length, all of this value.
pub static mut MEMORY: [u8; 16] = [1; 16];
pub fn filled<T: Clone>(e: T, n: usize) -> Vec<T> {
    assert!(std::mem::size_of::<T>() == 1, "a vector of bytes");
    unsafe {
        MEMORY = [std::mem::transmute_copy::<T, u8>(&e); 16];
        Vec::from_raw_parts(std::ptr::addr_of_mut!(MEMORY).cast::<T>(), n, n)
    }
}
pub static mut SYMBOLS: [u8; 128] = [0; 128];
#[cfg(kani)]
fn short(t: &[u8]) -> String { unsafe { String::from_utf8_unchecked(t.to_vec()) } }
pub static mut IMAGE: [u8; 8] = [0; 8];
macro_rules! loading {
    ($entry:ident, $host:ident, $load:ident, $P:ident, $S:ident, $isa:ident, $bits:ty, $value:expr, $each:literal) => {
        // Bounded: at most three segments.
        elf_proof!($entry, 18, {
            let t = [nd::u32(), nd::u32(), nd::u32()];
            let a = [nd::u64() as $bits, nd::u64() as $bits, nd::u64() as $bits];
            let l = loader(vec![
                Box::new($P::verif_new(t[0], 1, a[0], 0)), Box::new($P::verif_new(t[1], 2, a[1], 4)), Box::new($P::verif_new(t[2], 3, a[2], 0))],
                Vec::new(), None);
            let r = l.get_entry_point();
            ensures!("memory begins where the first segment to load goes",
                r == if t[0] == 1 { Some(a[0] as u64) } else if t[1] == 1 { Some(a[1] as u64) } else if t[2] == 1 { Some(a[2] as u64) } else { None });
            reachable!("the second", t[0] != 1 && t[1] == 1);
            reachable!("nothing to load", r.is_none());
        });
        // Bounded: two segments of two and three bytes, five bytes apart.
        #[cfg(kani)]
        elf_proof!(@ $load, 18, [kani::stub(std::vec::from_elem, filled)], {
            nd::no_replay();
            let t = [1, nd::u32()];
            let (base, gap, n) = (0x8000_0000 as $bits, 5 as $bits, [2, 3]);
            let off = [2, 4];
            unsafe { IMAGE = nd::u64().to_le_bytes() };
            let l = loader(vec![
                Box::new($P::verif_new(t[0], off[0] as $bits, base, n[0] as $bits)),
                Box::new($P::verif_new(t[1], off[1] as $bits, base + gap, n[1] as $bits))], Vec::new(), Some(unsafe { &IMAGE }));
            let args = carron::cmdline::Arguments {
                filename: String::new(), exe_option: carron::cmdline::ExeOption::OPT_DEFAULT, pk_path: None, kernel_path: None,
                initrd_path: None, init_pc: None, main_args: Vec::new(),
            };
            let d = carron::bus::verif::Dram::new(std::mem::ManuallyDrop::into_inner(l), &args, Isa::$isa);
            ensures!("memory begins where the first segment goes", d.base_addr == base as u64);
            ensures!("memory has its size", d.verif_raw().len() == 0x8000_0000);
            let k = nd::below(16);
            let image = unsafe { IMAGE };
            let mut want = 0;
            let mut i = 0;
            while i < 3 {
                if i < n[0] && k == i { want = image[off[0] + i] }
                if t[1] == 1 && i < n[1] && k == gap as usize + i { want = image[off[1] + i] }
                i += 1;
            }
            ensures!("memory holds each segment's bytes at its place, and zero elsewhere", unsafe { MEMORY[k] } == want);
            reachable!("in the second segment", t[1] == 1 && k == gap as usize + 2 && n[1] == 3);
            std::mem::forget(d);
            std::mem::forget(args);
        });
        // Bounded: a symbol table of three symbols: the two, and one with a similar name.
        #[cfg(kani)]
        elf_proof!(@ $host, 26, [kani::stub(std::string::String::push, push_ascii)], {
            nd::no_replay();
            const E: usize = $each;
            let v = [nd::u64() as $bits, nd::u64() as $bits, nd::u64() as $bits];
            let run = |id: [u8; 3]| {
            let mut b = [0u8; 128];
            let text = b"tohost\0fromhost\0tohosts\0";
            let mut i = 0;
            while i < 24 { b[96 + i] = text[i]; i += 1 }
            let mut i = 0;
            while i < 3 {
                b[8 + i * E] = id[i];
                let w = v[i].to_le_bytes();
                let mut j = 0;
                while j < w.len() { b[8 + i * E + $value + j] = w[j]; j += 1 }
                i += 1;
            }
            unsafe { SYMBOLS = b };
            let l = loader(Vec::new(), vec![
                Box::new($S::verif_new(short(b".strtab"), 96, 24)), Box::new($S::verif_new(short(b".symtab"), 8, 3 * E as $bits))], Some(unsafe { &SYMBOLS }));
            let (to, from) = l.get_host_addr(Isa::$isa);
            let find = |n: u8| if id[0] == n { Some(v[0] as u64) } else if id[1] == n { Some(v[1] as u64) } else if id[2] == n { Some(v[2] as u64) } else { None };
            ensures!("tohost is the value of the symbol of that name", to == find(0));
            ensures!("fromhost is the value of the symbol of that name", from == find(7));
            (to, from)
            };
            run([0, 16, 7]);
            run([11, 0, 16]);
            let (to, from) = run([16, 7, 0]);
            reachable!("both", to == Some(0x8000_1000) && from == Some(0x8000_1040));
        });
    };
}
loading!(entry32, host32, load32, ProgramHeader32, SectionHeader32, Rv32, u32, 4, 16);
loading!(entry64, host64, load64, ProgramHeader64, SectionHeader64, Rv64, u64, 8, 24);

// Bounded: an initial ramdisk of three bytes, memory beginning sixteen bytes before the ramdisk's end.
#[cfg(kani)]
pub static mut OPENED: [u8; 2] = [0; 2];
#[cfg(kani)]
pub fn open_named<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<std::fs::File> {
    use std::os::fd::FromRawFd;
    let p = p.as_ref().as_os_str().as_encoded_bytes();
    unsafe {
        OPENED[0] = OPENED[0] + 1;
        assert!(p.len() == 1, "name");
        OPENED[1] = *p.as_ptr();
        Ok(std::fs::File::from_raw_fd(7))
    }
}
#[cfg(kani)]
pub unsafe fn map_image(_: &std::fs::File) -> std::io::Result<memmap::Mmap> {
    #[repr(C)]
    struct Map(*const u8, usize);
    Ok(std::mem::transmute(Map(std::ptr::addr_of!(IMAGE).cast::<u8>().add(2), 3)))
}
macro_rules! payload {
    ($name:ident, $P:ident, $isa:ident) => {
        #[cfg(kani)]
        elf_proof!(@ $name, 18, [kani::stub(std::vec::from_elem, filled), kani::stub(std::fs::File::open, open_named),
            kani::stub(memmap::Mmap::map, map_image)], {
            nd::no_replay();
            const BASE: usize = 0xffff_eff0;
            unsafe { IMAGE = nd::u64().to_le_bytes() };
            let l = loader(vec![Box::new($P::verif_new(1, 0, BASE as _, 0))], Vec::new(), Some(unsafe { &IMAGE }));
            let given: bool = kani::any();
            let path = unsafe { String::from_raw_parts("i".as_ptr() as *mut u8, 1, 1) };
            let args = carron::cmdline::Arguments {
                filename: String::new(), exe_option: carron::cmdline::ExeOption::OPT_DEFAULT, pk_path: None, kernel_path: None,
                initrd_path: if given { Some(path) } else { std::mem::forget(path); None }, init_pc: None, main_args: Vec::new(),
            };
            let d = carron::bus::verif::Dram::new(std::mem::ManuallyDrop::into_inner(l), &args, Isa::$isa);
            let k = nd::below(16);
            let (image, memory) = unsafe { (IMAGE, MEMORY) };
            ensures!("only the file named is opened", unsafe { OPENED } == if given { [1, b'i'] } else { [0, 0] });
            ensures!("the ramdisk lies at the end of memory but for a page, and nothing elsewhere",
                memory[k] == if given && k >= 13 { image[2 + k - 13] } else { 0 });
            ensures!("its place is recorded", (d.initrd_start, d.initrd_end) ==
                if given { (Some(BASE + 13), Some(BASE + 16)) } else { (None, None) });
            reachable!("in the file", given && k == 14 && image[3] == 7);
            std::mem::forget(d);
            std::mem::forget(args);
        });
    };
}
payload!(initrd32, ProgramHeader32, Rv32);
payload!(initrd64, ProgramHeader64, Rv64);
