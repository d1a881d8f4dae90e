//! The entry points that the instrumented code calls.
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

use crate::sched::{atomic_load, atomic_post, atomic_pre, fence, on_access, Mo};

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _: usize) {
    on_access(a, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(a: usize) {
    on_access(a, 8, false)
}

macro_rules! acc {
    ($($n:literal: $($r:ident)|*, $($w:ident)|*, $($rw:ident)|*;)*) => {$(
        $(#[no_mangle] pub extern "C-unwind" fn $r(a: usize) { on_access(a, $n, false) })*
        $(#[no_mangle] pub extern "C-unwind" fn $w(a: usize) { on_access(a, $n, true) })*
        $(#[no_mangle] pub extern "C-unwind" fn $rw(a: usize) { on_access(a, $n, false); on_access(a, $n, true) })*
    )*};
}
acc! {
    1: __tsan_read1|__tsan_unaligned_read1|__tsan_volatile_read1|__tsan_unaligned_volatile_read1, __tsan_write1|__tsan_unaligned_write1|__tsan_volatile_write1|__tsan_unaligned_volatile_write1, __tsan_read_write1|__tsan_unaligned_read_write1;
    2: __tsan_read2|__tsan_unaligned_read2|__tsan_volatile_read2|__tsan_unaligned_volatile_read2, __tsan_write2|__tsan_unaligned_write2|__tsan_volatile_write2|__tsan_unaligned_volatile_write2, __tsan_read_write2|__tsan_unaligned_read_write2;
    4: __tsan_read4|__tsan_unaligned_read4|__tsan_volatile_read4|__tsan_unaligned_volatile_read4, __tsan_write4|__tsan_unaligned_write4|__tsan_volatile_write4|__tsan_unaligned_volatile_write4, __tsan_read_write4|__tsan_unaligned_read_write4;
    8: __tsan_read8|__tsan_unaligned_read8|__tsan_volatile_read8|__tsan_unaligned_volatile_read8, __tsan_write8|__tsan_unaligned_write8|__tsan_volatile_write8|__tsan_unaligned_volatile_write8, __tsan_read_write8|__tsan_unaligned_read_write8;
    16: __tsan_read16|__tsan_unaligned_read16|__tsan_volatile_read16|__tsan_unaligned_volatile_read16, __tsan_write16|__tsan_unaligned_write16|__tsan_volatile_write16|__tsan_unaligned_volatile_write16, __tsan_read_write16|__tsan_unaligned_read_write16;
}

#[no_mangle]
pub extern "C-unwind" fn __tsan_read_range(a: usize, n: usize) {
    on_access(a, n, false)
}
#[no_mangle]
pub extern "C-unwind" fn __tsan_write_range(a: usize, n: usize) {
    on_access(a, n, true)
}

#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    on_access(s as usize, n, false);
    on_access(d as usize, n, true);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    on_access(s as usize, n, false);
    on_access(d as usize, n, true);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    on_access(d as usize, n, true);
    std::ptr::write_bytes(d, c as u8, n);
    d
}

#[no_mangle]
pub extern "C-unwind" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(Mo::from(mo))
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// Really atomic: of the actors only the one holding the baton runs, but threads that start or end also come here.
macro_rules! atomics {
    ($($t:ty, $at:ty, $sz:literal: $ld:ident $st:ident $xc:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => {$(
        #[no_mangle] pub unsafe extern "C-unwind" fn $ld(a: *mut $t, mo: i32) -> $t {
            atomic_pre(a as usize, $sz, false);
            let v = (*(a as *const $at)).load(SeqCst);
            atomic_load(a as usize, Mo::from(mo), v as u64) as $t
        }
        #[no_mangle] pub unsafe extern "C-unwind" fn $st(a: *mut $t, v: $t, mo: i32) {
            atomic_pre(a as usize, $sz, true);
            let old = (*(a as *const $at)).swap(v, SeqCst);
            atomic_post(a as usize, false, true, Mo::from(mo), old as u64, v as u64);
        }
        #[no_mangle] pub unsafe extern "C-unwind" fn $cas(a: *mut $t, exp: $t, v: $t, mo: i32, fmo: i32) -> $t {
            atomic_pre(a as usize, $sz, true);
            let r = (*(a as *const $at)).compare_exchange(exp, v, SeqCst, SeqCst);
            let (Ok(old) | Err(old)) = r;
            if r.is_ok() {
                atomic_post(a as usize, true, true, Mo::from(mo), old as u64, v as u64);
            } else {
                // std may go on to take a lock by accesses that are not instrumented
                let _ = fmo;
                atomic_post(a as usize, true, false, Mo::Acquire, old as u64, old as u64);
            }
            old
        }
        atomics!(@rmw $t, $at, $sz, $xc, |_o: $t, v: $t| v);
        atomics!(@rmw $t, $at, $sz, $add, |o: $t, v: $t| o.wrapping_add(v));
        atomics!(@rmw $t, $at, $sz, $sub, |o: $t, v: $t| o.wrapping_sub(v));
        atomics!(@rmw $t, $at, $sz, $and, |o: $t, v: $t| o & v);
        atomics!(@rmw $t, $at, $sz, $or, |o: $t, v: $t| o | v);
        atomics!(@rmw $t, $at, $sz, $xor, |o: $t, v: $t| o ^ v);
        atomics!(@rmw $t, $at, $sz, $nand, |o: $t, v: $t| !(o & v));
    )*};
    (@rmw $t:ty, $at:ty, $sz:literal, $n:ident, $f:expr) => {
        #[no_mangle] pub unsafe extern "C-unwind" fn $n(a: *mut $t, v: $t, mo: i32) -> $t {
            atomic_pre(a as usize, $sz, true);
            let f: fn($t, $t) -> $t = $f;
            let (Ok(old) | Err(old)) = (*(a as *const $at)).fetch_update(SeqCst, SeqCst, |o| Some(f(o, v)));
            let new = f(old, v);
            atomic_post(a as usize, true, true, Mo::from(mo), old as u64, new as u64);
            old
        }
    };
}
atomics! {
    u8, AtomicU8, 1: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, 2: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, 4: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, 8: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
