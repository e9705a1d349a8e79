#![recursion_limit = "8192"]
#![cfg_attr(kani, feature(allocator_api))]
#![allow(static_mut_refs, dead_code)]
//! Contracts on /repo's code: every `pub fn` declared with `proof!` is one contract harness.
#[macro_use]
pub mod nd;
#[macro_use]
pub mod env;
#[macro_use]
pub mod dram;
pub mod alu;
pub mod control;
pub mod csrfile;
pub mod decode;
pub mod elf;
pub mod fesvr;
pub mod memory;
pub mod mmu;
pub mod muldiv;
pub mod plic;
pub mod privileged;
pub mod regfile;
pub mod step;
pub mod trap;
pub mod uart;
pub mod zicsr;
pub mod route;

/// Replay entry: set up what `main` would, and load the counterexample's values.
#[cfg(not(kani))]
pub fn start(values: &str) {
    let _ = carron::log::LOG_LEVEL.set(carron::log::LogLv::NoLog);
    nd::load(values);
}
