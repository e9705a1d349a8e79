//! Universally quantified inputs.
//!
//! Under Kani every draw is a fresh unconstrained value, so a harness quantifies over all of them.
//! In the replay build the same harness reads the verifier's counterexample instead and runs the
//! real, unstubbed code on it.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) });
    /// One line per value: its bytes, little endian, as decimal numbers.
    pub fn load(text: &str) {
        VALS.with(|v| {
            *v.borrow_mut() = text
                .lines()
                .filter(|l| !l.trim().is_empty())
                .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
                .collect()
        })
    }
    fn next(n: usize) -> u64 {
        let v = VALS.with(|v| v.borrow_mut().pop_front()).unwrap_or_default();
        let mut b = [0u8; 8];
        for (i, x) in v.iter().take(n).enumerate() {
            b[i] = *x;
        }
        u64::from_le_bytes(b)
    }
    pub fn u8() -> u8 { next(1) as u8 }
    pub fn u32() -> u32 { next(4) as u32 }
    pub fn u64() -> u64 { next(8) }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUMPTION-NOT-MET");
            std::process::exit(3);
        }
    }
}
pub use imp::*;

pub fn bool() -> bool { u8() & 1 == 1 }
pub fn below(n: u8) -> usize {
    let v = u8();
    assume(v < n);
    v as usize
}
/// A preference for counterexamples that the unstubbed code can be replayed on; no restriction on
/// the proof (it is only assumed when a failed harness is run again to get a counterexample).
pub fn prefer(_c: bool) {
    #[cfg(feature = "cex")]
    assume(_c)
}

/// The harness depends on a contract stub whose outcome an unstubbed run cannot be made to follow.
pub fn no_replay() {
    #[cfg(not(kani))]
    {
        println!("REPLAY-NOT-SUPPORTED");
        std::process::exit(3);
    }
}

/// `ensures!("name of the obligation", condition)`
#[macro_export]
macro_rules! ensures {
    ($name:literal, $c:expr) => {
        assert!($c, $name)
    };
}
/// Non-vacuity: the situation is reachable under the precondition.
#[macro_export]
macro_rules! reachable {
    ($name:literal, $c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, $name);
    };
}
