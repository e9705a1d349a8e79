//! C24: the guest's file descriptors, and C25: its requests to the host.
//!
//! The host's own calls are `host.c`: arbitrary outcomes, recorded requests.
use crate::env::*;
use crate::nd;
use carron::bus::Bus;
use carron::cmdline::{Arguments, ExeOption};
use carron::cpu::Cpu;
use carron::verif::FrontendServer;
use carron::Emulator;
use carron::Isa;

// ---------------------------------------------------------------------------------------------
// The descriptor table

fn entry() -> Option<u64> {
    // a host file is what the host's open gave: a non-negative int
    let (open, fd) = (nd::bool(), nd::u32());
    nd::assume(fd <= i32::MAX as u32);
    if open { Some(fd as u64) } else { None }
}
/// A table of any length.  Three consecutive entries of it, anywhere, are known and lie in `buf`;
/// touching any other is a failed pointer obligation, so "no other changes" holds of all of it.
struct Table { len: usize, from: usize, old: [Option<u64>; 3], at: usize }
impl Table {
    /// `at`: the descriptor in question; if the table has it, it is one of the three.
    fn any(at: u64) -> Table {
        let (len, from, at) = (nd::u32() as usize, nd::u32() as usize, at as usize);
        nd::assume(len >= 3 && from <= len - 3);
        nd::prefer(len < 0x1000);
        if at < len { nd::assume(from <= at && at < from + 3) }
        Table { len, from, old: [entry(), entry(), entry()], at }
    }
    fn build(&self, buf: &mut [Option<u64>; 3]) -> FrontendServer {
        *buf = self.old;
        #[cfg(kani)]
        let t = unsafe { Vec::from_raw_parts(buf.as_mut_ptr().wrapping_sub(self.from), self.len, self.len) };
        #[cfg(not(kani))]
        let t = {
            let mut t = vec![Some(5); self.len];
            t[self.from..self.from + 3].copy_from_slice(&self.old);
            t
        };
        FrontendServer::verif_new(t)
    }
    /// The host file behind `at`, if it is an open descriptor.
    fn file(&self) -> Option<u64> { if self.at < self.len { self.old[self.at - self.from] } else { None } }
    /// Every descriptor is as it was, except `at` if it is `now` something else.
    fn kept(&self, f: &FrontendServer, now: Option<Option<u64>>) {
        ensures!("the table keeps its length", f.verif_table().len() == self.len);
        let mut i = 0;
        while i < 3 {
            let v = f.verif_table()[self.from + i];
            match now {
                Some(n) if self.from + i == self.at => { ensures!("the descriptor is as specified", v == n); }
                _ => { ensures!("every other descriptor stays as it was", v == self.old[i]); }
            }
            i += 1;
        }
    }
}
macro_rules! table_proof {
    ($name:ident, $unwind:literal, $body:block) => {
        proof!(@ $name, $unwind, cadical, [
            kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
            kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice)], $body);
    };
}
table_proof!(lookup, 5, {
    let fd = nd::u64();
    let t = Table::any(fd);
    let mut buf = [None; 3];
    let f = t.build(&mut buf);
    let r = f.fd_lookup(fd);
    ensures!("a descriptor stands for the host file it was opened for, any other number for none",
        r == match t.file() { Some(h) => h as i64, None => -1 });
    t.kept(&f, None);
    reachable!("an open descriptor", fd == 7 && r == 9);
    reachable!("a closed one", t.len > 7 && fd == 7 && r == -1);
    reachable!("a number out of range", fd == u64::MAX && r == -1);
    std::mem::forget(f);
});
table_proof!(dir_lookup, 5, {
    let fd = nd::u64();
    let t = Table::any(fd);
    let mut buf = [None; 3];
    let f = t.build(&mut buf);
    let r = f.dirfd_lookup(fd);
    let cwd = fd as u32 as i32 == -100;
    ensures!("AT_FDCWD stands for itself", !cwd || r == -100);
    ensures!("a directory's descriptor stands for its host file", cwd || r == match t.file() { Some(h) => h as i64, None => -1 });
    t.kept(&f, None);
    reachable!("the working directory", fd == -100i64 as u64);
    reachable!("an open descriptor", fd == 7 && r == 9);
    std::mem::forget(f);
});
table_proof!(dealloc, 5, {
    let fd = nd::u64();
    let t = Table::any(fd);
    let mut buf = [None; 3];
    nd::assume(t.file().is_some());
    let mut f = t.build(&mut buf);
    f.fd_dealloc(fd);
    ensures!("a closed descriptor is not found", f.fd_lookup(fd) == -1);
    t.kept(&f, Some(None));
    reachable!("the last one of many", fd == 999 && t.len == 1000);
    std::mem::forget(f);
});
const N: usize = 10;
/// Bounded: tables of at most ten entries.
proof!(alloc, plain, 13, {
    let (n, mut t) = (nd::below(N as u8 + 1), [None; N]);
    let mut i = 0;
    while i < N { t[i] = entry(); i += 1 }
    let h = nd::u32() as u64;
    nd::assume(h <= i32::MAX as u64);
    #[cfg(kani)]
    let v = unsafe { Vec::from_raw_parts(Box::into_raw(Box::new([t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], None])).cast(), n, N + 1) };
    #[cfg(not(kani))]
    let v = t[..n].to_vec();
    let mut f = FrontendServer::verif_new(v);
    let r = f.fd_alloc(h);
    let mut want = n;
    let mut i = N;
    while i > 0 { i -= 1; if i < n && t[i].is_none() { want = i } }
    ensures!("a new descriptor is the lowest free one", r == want as i64);
    ensures!("it stands for the host file opened", f.fd_lookup(r as u64) == h as i64);
    ensures!("the table grows only when it is full", f.verif_table().len() == if want == n { n + 1 } else { n });
    let k = nd::below(N as u8);
    if k < n && k != want { ensures!("every other descriptor stays as it was", f.verif_table()[k] == t[k]); }
    reachable!("a hole is filled", want == 2 && n == 5);
    reachable!("the table grows", want == N);
    std::mem::forget(f);
});
proof!(initial, plain, 5, {
    let f = FrontendServer::new();
    let fd = nd::u64();
    ensures!("a program starts with its three standard files and no other", f.fd_lookup(fd) == if fd < 3 { fd as i64 } else { -1 });
    reachable!("standard output", fd == 1);
    std::mem::forget(f);
});

// ---------------------------------------------------------------------------------------------
// Calls that reach the host

#[cfg(kani)]
extern "C" {
    fn host_set(ret: i64, err: i32, data: u32) -> i32;
    fn host_calls() -> i32;
    fn host_what() -> i32;
    fn host_fd() -> i32;
    fn host_arg(i: i32) -> i64;
    fn host_data() -> u32;
    fn host_stat(i: i32, w: u64) -> i32;
}
#[cfg(kani)]
pub mod host {
    use super::*;
    /// The host's answer: a result, or an error.
    pub struct Host { pub ret: i64, pub err: i32, pub data: u32 }
    impl Host {
        pub fn any(max: i64) -> Host {
            let h = Host { ret: nd::u64() as i64, err: nd::u8() as i32, data: nd::u32() };
            nd::assume(h.ret >= -1 && h.ret <= max && h.err > 0);
            unsafe { host_set(h.ret, h.err, h.data) };
            h
        }
        pub fn want(&self) -> i64 { if self.ret == -1 { -(self.err as i64) } else { self.ret } }
        pub fn asked(&self, what: i32, fd: i64, a0: u64, a1: u64) {
            unsafe {
                ensures!("the host is asked once, for this", host_calls() == 1 && host_what() == what);
                ensures!("on the host file the descriptor stands for", host_fd() == fd as i32);
                ensures!("with the guest's arguments", host_arg(0) as u64 == a0 && host_arg(1) as u64 == a1);
            }
        }
    }
    fn behind(t: &Table) -> i64 { match t.file() { Some(h) => h as i64, None => -1 } }
    table_proof!(close, 5, {
        nd::no_replay();
        let fd = nd::u64();
        let t = Table::any(fd);
    let mut buf = [None; 3];
        let h = Host::any(0);
        // the host refuses what is no file of its own
        nd::assume(t.file().is_some() || h.ret == -1);
        let mut f = t.build(&mut buf);
        let r = f.close(fd);
        h.asked(57, behind(&t), 0, 0);
        ensures!("the guest learns whether it is closed", r == h.want());
        // closed by the host: free; refused: as it was
        t.kept(&f, if h.ret == 0 { Some(None) } else { None });
        reachable!("an open descriptor is closed", r == 0);
        reachable!("a number never opened", fd == u64::MAX && r < 0);
        std::mem::forget(f);
    });
    table_proof!(lseek, 5, {
        nd::no_replay();
        let fd = nd::u64();
        let t = Table::any(fd);
    let mut buf = [None; 3];
        let (off, dir, h) = (nd::u64(), nd::u64(), Host::any(i64::MAX));
        let f = t.build(&mut buf);
        let r = f.lseek(fd, off, dir);
        h.asked(62, behind(&t), off, dir as i32 as u64);
        ensures!("the guest learns the host's answer", r == h.want());
        t.kept(&f, None);
        reachable!("an open descriptor", r == 1000);
        reachable!("an error", fd == u64::MAX && r == -9);
        std::mem::forget(f);
    });

    // The guest's buffer: four bytes of memory, behind the Bus contracts (proved by C10).
    pub struct Buffer { pub at: u64, pub b: [u8; 4], pub stray: bool }
    pub static mut B: Buffer = Buffer { at: 0, b: [0; 4], stray: false };
    pub fn load8(_b: &mut Bus, a: u64) -> Result<u64, Exc> {
        unsafe {
            let i = a.wrapping_sub(B.at);
            if i >= 4 { B.stray = true; return Ok(0) }
            Ok(B.b[i as usize] as i8 as u64)
        }
    }
    pub fn load_u8(b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(load8(b, a)? & 0xff) }
    pub fn store8(_b: &mut Bus, a: u64, v: u64) -> Result<(), Exc> {
        unsafe {
            let i = a.wrapping_sub(B.at);
            if i >= 4 { B.stray = true } else { B.b[i as usize] = v as u8 }
            Ok(())
        }
    }
    macro_rules! buffer_proof {
        ($name:ident, $body:block) => {
            proof!(@ $name, 6, cadical, [
                kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
                kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice),
                kani::stub(carron::bus::Bus::load8, load8),
                kani::stub(carron::bus::Bus::load_u8, load_u8),
                kani::stub(carron::bus::Bus::store8, store8)], $body);
        };
    }
    /// Bounded: transfers of at most four bytes.
    fn transfer(what: i32, run: impl Fn(&FrontendServer, &mut Cpu, u64, u64, u64, u64) -> i64) {
        nd::no_replay();
        storage!(mem);
        let m = machine(&mut mem, Isa::Rv64, 0, priv_of(3), empty_bus(), [0; 32]);
        let fd = nd::u64();
        let t = Table::any(fd);
        let mut buf = [None; 3];
        let f = t.build(&mut buf);
        let (at, len, off, old) = (nd::u64(), nd::below(5), nd::u64(), nd::u32());
        nd::assume(at <= u64::MAX - 8);
        let h = Host::any(len as i64);
        unsafe { B = Buffer { at, b: old.to_le_bytes(), stray: false } };
        let r = run(&f, m.cpu, fd, at, len as u64, off);
        h.asked(what, behind(&t), len as u64, if what < 67 { 0 } else { off });
        ensures!("the guest learns the host's answer", r == h.want());
        let now = unsafe { B.b };
        let input = what == 63 || what == 67;
        let mut i = 0;
        while i < 4 {
            let (o, d) = (old.to_le_bytes()[i], unsafe { host_data() }.to_le_bytes()[i]);
            let came = input && h.ret >= 0 && (i as i64) < h.ret;
            ensures!("the buffer holds the bytes the host gave, and is otherwise untouched", now[i] == if came { h.data.to_le_bytes()[i] } else { o });
            if !input && i < len { ensures!("the host is given the buffer's bytes", d == o); }
            i += 1;
        }
        ensures!("no memory outside the buffer is touched", unsafe { !B.stray });
        t.kept(&f, None);
        reachable!("four bytes", r == 4);
        reachable!("fewer than asked for", r == 2 && len == 4);
        reachable!("an error", r == -9 && len == 4);
        std::mem::forget(f);
    }
    pub static mut ALLOCATED: (u64, u64, i64) = (0, 0, 0);
    pub fn fd_alloc(_f: &mut FrontendServer, h: u64) -> i64 {
        unsafe { ALLOCATED.0 += 1; ALLOCATED.1 = h; ALLOCATED.2 }
    }
    /// Bounded: names of at most three characters (and ASCII).
    proof!(@ openat, 6, cadical, [
        kani::stub(carron::verif::FrontendServer::fd_alloc, fd_alloc),
        kani::stub(std::vec::Vec::as_slice, crate::env::lib_stubs::vec_as_slice),
        kani::stub(std::vec::Vec::as_mut_slice, crate::env::lib_stubs::vec_as_mut_slice),
        kani::stub(carron::bus::Bus::load8, load8),
        kani::stub(carron::bus::Bus::load_u8, load_u8),
        kani::stub(carron::bus::Bus::store8, store8)], {
        nd::no_replay();
        storage!(mem);
        let m = machine(&mut mem, Isa::Rv64, 0, priv_of(3), empty_bus(), [0; 32]);
        let fd = nd::u64();
        let t = Table::any(fd);
        let mut buf = [None; 3];
        let mut f = t.build(&mut buf);
        let (at, n, flags, mode) = (nd::u64(), nd::below(4), nd::u64(), nd::u64());
        nd::assume(at <= u64::MAX - 8);
        let mut name = [0u8; 4];
        let mut i = 0;
        while i < n { name[i] = nd::u8(); nd::assume(name[i] > 0 && name[i] < 128); i += 1 }
        let h = Host::any(i32::MAX as i64);
        let new = nd::u32() as i64;
        unsafe { B = Buffer { at, b: name, stray: false }; ALLOCATED = (0, 0, new) };
        let r = f.openat(m.cpu, fd, at, n as u64 + 1, flags, mode);
        let dir = if fd as u32 as i32 == -100 { -100 } else { behind(&t) };
        h.asked(56, dir, flags as i32 as u64, 0);
        ensures!("the host is given the name", unsafe { host_data() } == u32::from_le_bytes(name));
        let a = unsafe { ALLOCATED };
        ensures!("the guest gets a descriptor of its own for the file the host opened, or learns its error",
            if h.ret < 0 { r == h.want() && a.0 == 0 } else { r == new && a.0 == 1 && a.1 == h.ret as u64 });
        ensures!("no memory besides the name is touched", unsafe { !B.stray && B.b == name });
        t.kept(&f, None);
        reachable!("opened", r == 3 && n == 3);
        reachable!("an error", r == -2);
        std::mem::forget(f);
    });
    buffer_proof!(read, { transfer(63, |f, c, fd, at, len, _| f.read(c, fd, at, len)) });
    buffer_proof!(write, { transfer(64, |f, c, fd, at, len, _| f.write(c, fd, at, len)) });
    buffer_proof!(pread, { transfer(67, |f, c, fd, at, len, off| f.pread(c, fd, at, len, off)) });
    buffer_proof!(pwrite, { transfer(68, |f, c, fd, at, len, off| f.pwrite(c, fd, at, len, off)) });

    // A file's status the host does not give. (What it gives is laid out through an iterator which
    // CBMC cannot follow.) Bounded: the host's error is EIO, the name two ASCII characters.
    fn status(run: impl Fn(&FrontendServer, &mut Cpu, u64, u64) -> i64, asked: impl Fn(&Host, &Table, u64)) {
        storage!(mem);
        let m = machine(&mut mem, Isa::Rv64, 0, priv_of(3), empty_bus(), [0; 32]);
        let fd = nd::u64();
        let t = Table::any(fd);
        let mut buf = [None; 3];
        let f = t.build(&mut buf);
        let (at, h) = (nd::u64(), Host { ret: -1, err: 5, data: 0 });
        unsafe { host_set(-1, 5, 0) };
        let r = run(&f, m.cpu, fd, at);
        asked(&h, &t, fd);
        ensures!("the guest learns the host's error", r == -5);
        t.kept(&f, None);
        reachable!("an open descriptor", behind(&t) == 7);
        reachable!("a number never opened", fd == u64::MAX);
        std::mem::forget(f);
    }
    pub fn no_store8(_b: &mut Bus, _a: u64, _v: u64) -> Result<(), Exc> { panic!("an error leaves the guest's memory alone") }
    macro_rules! status_proof {
        ($name:ident, $body:block) => {
            proof!(@ $name, 6, cadical, [
                kani::stub(std::vec::Vec::as_slice, $crate::env::lib_stubs::vec_as_slice),
                kani::stub(std::vec::Vec::as_mut_slice, $crate::env::lib_stubs::vec_as_mut_slice),
                kani::stub(carron::bus::Bus::load8, load8),
                kani::stub(carron::bus::Bus::load_u8, load_u8),
                kani::stub(carron::bus::Bus::store8, no_store8)], $body);
        };
    }
    // What the host gives is laid out through an iterator over vectors of bytes which CBMC cannot
    // follow: here the words are recorded as they are turned into bytes, and the bytes dropped.
    pub struct Words { pub n: usize, pub want: [u64; 16] }
    pub static mut WORDS: Words = Words { n: 0, want: [0; 16] };
    pub fn word_bytes(w: u64) -> [u8; 8] {
        unsafe {
            ensures!("each word of the guest's structure holds the host's fields", WORDS.n < 16 && WORDS.want[WORDS.n] == w);
            WORDS.n += 1;
            if WORDS.n == 16 {
                reachable!("all sixteen words", true);
                nd::assume(false);
            }
            std::mem::transmute(w)
        }
    }
    pub fn dropped<T: Clone>(_s: &[T]) -> Vec<T> { Vec::new() }
    pub fn any_store8(_b: &mut Bus, _a: u64, _v: u64) -> Result<(), Exc> { Ok(()) }
    macro_rules! layout_proof {
        ($name:ident, $run:expr) => {
            proof!(@ $name, 20, cadical, [
                kani::stub(<[u8]>::to_vec, dropped),
                kani::stub(u64::to_le_bytes, word_bytes),
                kani::stub(carron::bus::Bus::load8, load8),
                kani::stub(carron::bus::Bus::load_u8, load_u8),
                kani::stub(carron::bus::Bus::store8, any_store8)], {
                nd::no_replay();
                storage!(mem);
                let m = machine(&mut mem, Isa::Rv64, 0, priv_of(3), empty_bus(), [0; 32]);
                let f = FrontendServer::new();
                unsafe { host_set(0, 5, 0) };
                let mut s = [0u64; 18];
                let mut i = 0;
                while i < 18 { s[i] = nd::u64(); unsafe { host_stat(i as i32, s[i]) }; i += 1 }
                // struct stat of the host (x86-64) -> struct stat of the guest (riscv-pk, newlib)
                let (mode, uid, gid) = (s[3] as u32 as u64, s[3] >> 32, s[4] as u32 as u64);
                let want = [s[0], s[1], mode | s[2] << 32, uid | gid << 32, s[5], 0, s[6], s[7] as u32 as u64, s[8], s[9], 0, s[11], 0, s[13], 0, 0];
                unsafe { WORDS = Words { n: 0, want } };
                let run = $run;
                run(&f, m.cpu);
                std::mem::forget(f);
            });
        };
    }
    layout_proof!(layout_fd, |f: &FrontendServer, c: &mut Cpu| f.fstat(c, 0, 0x8000_0000));
    layout_proof!(layout_at, |f: &FrontendServer, c: &mut Cpu| {
        unsafe { B = Buffer { at: 0, b: [97, 0, 0, 0], stray: false } };
        f.fstatat(c, 0, 0, 2, 0x8000_0000, 0)
    });
    // Bounded: two arguments, of any length; the words as they are turned into bytes.
    proof!(@ mainvars, 20, cadical, [
        kani::stub(<[u8]>::to_vec, dropped),
        kani::stub(u64::to_le_bytes, argument_word),
        kani::stub(carron::bus::Bus::store8, any_store8)], {
        nd::no_replay();
        storage!(mem);
        let m = machine(&mut mem, Isa::Rv64, 0, priv_of(3), empty_bus(), [0; 32]);
        let f = FrontendServer::new();
        let (at, n) = (nd::u64(), [nd::u32() as usize, nd::u32() as usize]);
        nd::assume(at < 1 << 56);
        let text = |n: usize| unsafe { String::from_raw_parts(std::ptr::dangling_mut::<u8>(), n, n) };
        let args = Arguments {
            filename: String::new(), exe_option: ExeOption::OPT_DEFAULT, pk_path: None, kernel_path: None,
            initrd_path: None, init_pc: None, main_args: vec![text(n[0]), text(n[1])],
        };
        let first = at + 40;
        unsafe { WORDS.n = 0; WORDS.want[..5].copy_from_slice(&[2, first, first + n[0] as u64 + 1, 0, 0]) }
        f.getmainvars(m.cpu, &args, at, u64::MAX);
        std::mem::forget(args);
        std::mem::forget(f);
    });
    pub fn argument_word(w: u64) -> [u8; 8] {
        unsafe {
            ensures!("the guest is given its argument count, where each argument is, and two empty lists' ends", WORDS.n < 5 && WORDS.want[WORDS.n] == w);
            WORDS.n += 1;
            if WORDS.n == 5 {
                reachable!("all of them", true);
                nd::assume(false);
            }
            std::mem::transmute(w)
        }
    }
    status_proof!(fstat, {
        nd::no_replay();
        status(|f, c, fd, at| f.fstat(c, fd, at), |h, t, _| h.asked(80, behind(t), 0, 0));
    });
    status_proof!(fstatat, {
        nd::no_replay();
        let (at, flags) = (nd::u64(), nd::u64());
        nd::assume(at <= u64::MAX - 8);
        let mut name = [0u8; 4];
        let mut i = 0;
        while i < 2 { name[i] = nd::u8(); nd::assume(name[i] > 0 && name[i] < 128); i += 1 }
        unsafe { B = Buffer { at, b: name, stray: false } };
        status(|f, c, fd, to| f.fstatat(c, fd, at, 3, to, flags), |h, t, fd| {
            let dir = if fd as u32 as i32 == -100 { -100 } else { behind(t) };
            h.asked(79, dir, flags as i32 as u64, 0);
            ensures!("the host is given the name", unsafe { host_data() } == u32::from_le_bytes(name));
            ensures!("no memory besides the name is read", unsafe { !B.stray });
        });
    });
}

// ---------------------------------------------------------------------------------------------
// Requests: a block of eight words in memory, announced in `tohost`, answered in `fromhost`

#[derive(Clone, Copy)]
pub struct Mailbox {
    pub to: u64,
    pub from: u64,
    pub block: u64,
    pub tohost: u64,
    pub fromhost: u64,
    pub word: [u64; 8],
    pub stray: bool,
    /// the service called, how often, with what, and its result
    pub calls: u64,
    pub what: u64,
    pub args: [u64; 5],
    pub ret: i64,
}
pub static mut S: Mailbox = Mailbox { to: 0, from: 0, block: 0, tohost: 0, fromhost: 0, word: [0; 8], stray: false, calls: 0, what: 0, args: [0; 5], ret: 0 };
fn slot(a: u64) -> &'static mut u64 {
    unsafe {
        if a == S.to { return &mut S.tohost }
        if a == S.from { return &mut S.fromhost }
        let i = a.wrapping_sub(S.block);
        if i % 8 != 0 || i >= 64 { S.stray = true; return &mut S.word[0] }
        &mut S.word[(i / 8) as usize]
    }
}
pub fn box_load64(_b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(*slot(a)) }
pub fn box_load32(_b: &mut Bus, a: u64) -> Result<u64, Exc> { Ok(*slot(a) as i32 as u64) }
pub fn box_load_u32(_b: &Bus, a: u64) -> Result<u64, Exc> { Ok(*slot(a) as u32 as u64) }
pub fn box_store64(_b: &mut Bus, a: u64, v: u64) -> Result<(), Exc> { *slot(a) = v; Ok(()) }
fn served(what: u64, args: [u64; 5]) -> i64 {
    unsafe { S.calls += 1; S.what = what; S.args = args; S.ret }
}
pub fn s_openat(_f: &mut FrontendServer, _c: &mut Cpu, a: u64, b: u64, c: u64, d: u64, e: u64) -> i64 { served(56, [a, b, c, d, e]) }
pub fn s_close(_f: &mut FrontendServer, a: u64) -> i64 { served(57, [a, 0, 0, 0, 0]) }
pub fn s_lseek(_f: &FrontendServer, a: u64, b: u64, c: u64) -> i64 { served(62, [a, b, c, 0, 0]) }
pub fn s_read(_f: &FrontendServer, _c: &mut Cpu, a: u64, b: u64, c: u64) -> i64 { served(63, [a, b, c, 0, 0]) }
pub fn s_write(_f: &FrontendServer, _c: &mut Cpu, a: u64, b: u64, c: u64) -> i64 { served(64, [a, b, c, 0, 0]) }
pub fn s_pread(_f: &FrontendServer, _c: &mut Cpu, a: u64, b: u64, c: u64, d: u64) -> i64 { served(67, [a, b, c, d, 0]) }
pub fn s_pwrite(_f: &FrontendServer, _c: &mut Cpu, a: u64, b: u64, c: u64, d: u64) -> i64 { served(68, [a, b, c, d, 0]) }
pub fn s_fstatat(_f: &FrontendServer, _c: &mut Cpu, a: u64, b: u64, c: u64, d: u64, e: u64) -> i64 { served(79, [a, b, c, d, e]) }
pub fn s_fstat(_f: &FrontendServer, _c: &mut Cpu, a: u64, b: u64) -> i64 { served(80, [a, b, 0, 0, 0]) }
pub fn s_getmainvars(_f: &FrontendServer, _c: &mut Cpu, _a: &Arguments, a: u64, b: u64) -> i64 { served(2011, [a, b, 0, 0, 0]) }
/// The emulator ends: only when asked to, with the code asked for.
pub static mut CODE: i32 = 0;
pub fn s_exit(code: i32) -> ! {
    ensures!("the emulator ends with the code asked for", code == unsafe { CODE });
    reachable!("the emulator ends", true);
    nd::assume(false);
    loop {}
}
pub fn s_no_exit(_code: i32) -> ! { panic!("the emulator ends on request only") }

macro_rules! box_proof {
    ($name:ident, $exit:ident, $body:block) => {
        proof!(@ $name, 10, cadical, [
            kani::stub(carron::bus::Bus::load32, box_load32),
            kani::stub(carron::bus::Bus::load_u32, box_load_u32),
            kani::stub(carron::bus::Bus::load64, box_load64),
            kani::stub(carron::bus::Bus::store64, box_store64),
            kani::stub(std::process::exit, $exit),
            kani::stub(carron::verif::FrontendServer::openat, s_openat),
            kani::stub(carron::verif::FrontendServer::close, s_close),
            kani::stub(carron::verif::FrontendServer::lseek, s_lseek),
            kani::stub(carron::verif::FrontendServer::read, s_read),
            kani::stub(carron::verif::FrontendServer::write, s_write),
            kani::stub(carron::verif::FrontendServer::pread, s_pread),
            kani::stub(carron::verif::FrontendServer::pwrite, s_pwrite),
            kani::stub(carron::verif::FrontendServer::fstatat, s_fstatat),
            kani::stub(carron::verif::FrontendServer::fstat, s_fstat),
            kani::stub(carron::verif::FrontendServer::getmainvars, s_getmainvars)], $body);
    };
}
#[cfg(kani)]
extern "C" {
    static mut ANY_EMULATOR: Emulator;
}
#[cfg(kani)]
fn emulator(to: u64, from: u64) -> &'static mut Emulator { emulator_with(Isa::Rv64, 0, Some(to), Some(from)) }
#[cfg(kani)]
pub fn emulator_with(isa: Isa, pc: u64, to: Option<u64>, from: Option<u64>) -> &'static mut Emulator {
    unsafe {
        let e = std::ptr::addr_of_mut!(ANY_EMULATOR);
        let cpu = &mut *std::ptr::addr_of_mut!((*e).cpu).cast::<std::mem::MaybeUninit<Cpu>>();
        machine(cpu, isa, pc, priv_of(3), empty_bus(), [0; 32]);
        let args = Arguments {
            filename: String::new(), exe_option: ExeOption::OPT_DEFAULT, pk_path: None, kernel_path: None,
            initrd_path: None, init_pc: None, main_args: Vec::new(),
        };
        Emulator::verif_init(e, FrontendServer::verif_new(Vec::new()), to, from, args);
        &mut *e
    }
}
#[cfg(kani)]
fn any_mailbox() -> Mailbox {
    let s = Mailbox {
        to: nd::u64(), from: nd::u64(), block: 0, tohost: nd::u64(), fromhost: nd::u64(),
        word: [nd::u64(), nd::u64(), nd::u64(), nd::u64(), nd::u64(), nd::u64(), nd::u64(), nd::u64()],
        stray: false, calls: 0, what: 0, args: [0; 5], ret: nd::u64() as i64,
    };
    let s = Mailbox { block: s.tohost << 16 >> 16, ..s };
    let apart = |a: u64, n: u64, b: u64, m: u64| a <= u64::MAX - n && b <= u64::MAX - m && (a + n <= b || b + m <= a);
    nd::assume(apart(s.to, 8, s.from, 8) && apart(s.to, 8, s.block, 64) && apart(s.from, 8, s.block, 64));
    s
}
/// The services, and how many arguments each takes.
fn arity(n: u64) -> Option<usize> {
    match n {
        56 | 79 => Some(5),
        57 => Some(1),
        62 | 63 | 64 => Some(3),
        67 | 68 => Some(4),
        80 | 2011 => Some(2),
        _ => None,
    }
}
#[cfg(kani)]
box_proof!(request, s_no_exit, {
    nd::no_replay();
    let old = any_mailbox();
    let n = old.word[0];
    nd::assume(old.tohost & 1 == 0 && old.tohost as u32 != 0 && arity(n).is_some());
    unsafe { S = old };
    let e = emulator(old.to, old.from);
    ensures!("a request in tohost is seen", e.check_tohost());
    e.handle_syscall();
    let s = unsafe { S };
    ensures!("the service asked for is called once", s.calls == 1 && s.what == n);
    let k = nd::below(5);
    if k < arity(n).unwrap() { ensures!("with the guest's own arguments, in their order", s.args[k] == old.word[k + 1]); }
    ensures!("its result is in the block's first word", s.word[0] == old.ret as u64);
    let k = 1 + nd::below(7);
    ensures!("the block's other words are as they were", s.word[k] == old.word[k]);
    ensures!("tohost is clear again", s.tohost == 0);
    ensures!("fromhost is set, unless the guest has yet to take an answer",
        if old.fromhost == 0 { s.fromhost & 1 == 1 } else { s.fromhost == old.fromhost });
    ensures!("no other memory is touched", !s.stray);
    ensures!("no further request is seen", !e.check_tohost());
    reachable!("a read", n == 63 && s.fromhost == 1);
    reachable!("an error", n == 2011 && old.ret == -12);
    reachable!("an answer is waiting", n == 56 && old.fromhost == 1);
});
#[cfg(kani)]
box_proof!(ending, s_exit, {
    nd::no_replay();
    let old = any_mailbox();
    nd::assume(old.tohost & 1 == 1 || old.word[0] == 93);
    unsafe { S = old; CODE = if old.tohost & 1 == 1 { old.tohost } else { old.word[1] } as i32 };
    emulator(old.to, old.from).handle_syscall();
    ensures!("a request to end is obeyed", false);
});
