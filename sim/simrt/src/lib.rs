//! The simulator runtime: a deterministic scheduler, a fault-injecting allocator, a memory checker and a
//! happens-before race detector. The code under test is compiled with thread-sanitizer instrumentation and
//! calls into `tsan` at every memory access; this crate is compiled without it.
//!
//! Real OS threads carry the actors, but only the one holding the baton ever runs: who runs next is decided
//! by the seeded scheduler (or by a recorded schedule), never by the operating system.
#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs, clippy::missing_safety_doc)]

pub mod arena;
pub mod race;
pub mod rng;
pub mod sched;
pub mod sys;
pub mod tsan;

pub use rng::Rng;
pub use sched::*;

/// Where the current thread is.
pub const OUT: u8 = 0; // harness code: nothing is intercepted
pub const SETUP: u8 = 1; // code under test, single threaded: memory is checked, nothing is scheduled
pub const RUN: u8 = 2; // code under test inside an operation of an actor

pub struct Tl {
    pub mode: u8,
    pub actor: usize,
}

#[thread_local]
pub static mut TL: Tl = Tl { mode: OUT, actor: usize::MAX };

#[inline(always)]
pub fn mode() -> u8 {
    unsafe { TL.mode }
}

/// Whether the scheduler decides who goes on: in an operation, and at what actors do between operations as far
/// as they may have to wait for each other (atomics, locks, sleeping).
#[inline(always)]
pub fn live() -> bool {
    unsafe { TL.mode == RUN || (TL.mode == SETUP && TL.actor != usize::MAX) }
}

/// Runs simulator-internal code with interception off.
#[inline(always)]
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
    struct G(u8);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { TL.mode = self.0 }
        }
    }
    let _g = G(unsafe { TL.mode });
    unsafe { TL.mode = OUT };
    f()
}
