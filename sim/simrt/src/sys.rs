//! Raw system calls, and the libc entry points through which std reaches the operating system: while the
//! code under test runs they are answered by the simulator.
use crate::{live, mode, paused, sched};
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, Ordering};

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

const SYS_MMAP: i64 = 9;
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_EXIT_GROUP: i64 = 231;
const SYS_GETRANDOM: i64 = 318;

pub unsafe fn mmap_fixed(addr: usize, len: usize) {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let r = raw(SYS_MMAP, addr as i64, len as i64, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
    if r != addr as i64 {
        eprintln!("harness: cannot map the arena ({r})");
        exit_now(70);
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

pub fn pin_to_cpu(cpu: usize) {
    let mut set = [0u64; 16];
    set[(cpu / 64) % 16] = 1 << (cpu % 64);
    unsafe {
        raw(203, 0, 128, set.as_ptr() as i64, 0, 0, 0);
    }
}

// not inlined: the caller may be instrumented
#[inline(never)]
pub fn wait_flag(f: &AtomicU32) {
    loop {
        if f.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe {
            raw(SYS_FUTEX, f as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
}

#[inline(never)]
pub fn set_flag(f: &AtomicU32) {
    f.store(1, Ordering::Release);
    unsafe {
        raw(SYS_FUTEX, f as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(handle: *mut c_void, name: *const u8) -> *mut c_void;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// std's futex-based locks, parking and one-time initialisation come through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && live() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            return ret(paused(|| sched::futex_wait(a as usize, c as u32, d != 0)));
        }
        if op == 1 || op == 10 {
            return ret(paused(|| sched::futex_wake(a as usize, c as u32)));
        }
    }
    if n == SYS_GETRANDOM && mode() != crate::OUT {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}

/// Simulated time: one simulated microsecond per scheduling point.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if live() {
        let us = sched::sim_time_us();
        *ts = Timespec { s: 1_000_000 + (us / 1_000_000) as i64, ns: (us % 1_000_000) as i64 * 1000 };
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if mode() != crate::OUT {
        for i in 0..len {
            *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
        }
        return len as isize;
    }
    ret(raw(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if live() {
        paused(sched::yield_now);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if live() {
        paused(|| sched::sleep_us(((*req).s * 1_000_000 + (*req).ns / 1000) as u64));
        return 0;
    }
    -raw(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if live() {
        paused(|| sched::sleep_us(((*req).s * 1_000_000 + (*req).ns / 1000) as u64));
        return 0;
    }
    ret(raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> i32;
type JoinFn = unsafe extern "C" fn(usize, *mut *mut c_void) -> i32;

struct Child {
    start: Start,
    arg: *mut c_void,
    id: usize,
}

extern "C" fn child_main(p: *mut c_void) -> *mut c_void {
    let c = unsafe { Box::from_raw(p as *mut Child) };
    sched::child_enter(c.id);
    let r = (c.start)(c.arg);
    sched::leave();
    r
}

/// A thread started by the code under test becomes one more actor of the simulation.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const c_void, start: Start, arg: *mut c_void) -> i32 {
    let live = live();
    paused(|| {
        let real: CreateFn = std::mem::transmute(dlsym(-1isize as *mut c_void, b"pthread_create\0".as_ptr()));
        if !live {
            return real(t, attr, start, arg);
        }
        let Some(id) = sched::child_new() else { return 11 };
        let c = Box::into_raw(Box::new(Child { start, arg, id }));
        let r = real(t, attr, child_main, c as *mut c_void);
        if r != 0 {
            eprintln!("harness: cannot create a thread ({r})");
            exit_now(70);
        }
        sched::child_started(id, *t);
        0
    })
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, out: *mut *mut c_void) -> i32 {
    let live = live();
    paused(|| {
        let real: JoinFn = std::mem::transmute(dlsym(-1isize as *mut c_void, b"pthread_join\0".as_ptr()));
        if live {
            sched::child_join(t);
        }
        real(t, out)
    })
}

#[repr(C)]
struct PhdrInfo {
    addr: usize,
    name: *const u8,
    phdr: *const Phdr,
    n: u16,
}
#[repr(C)]
struct Phdr {
    kind: u32,
    flags: u32,
    rest: [usize; 6], // offset, vaddr, paddr, filesz, memsz, align
}
extern "C" {
    fn dl_iterate_phdr(f: extern "C" fn(*const PhdrInfo, usize, *mut c_void) -> i32, data: *mut c_void) -> i32;
}

extern "C" fn find_tls(i: *const PhdrInfo, _: usize, out: *mut c_void) -> i32 {
    unsafe {
        for k in 0..(*i).n as usize {
            let h = &*(*i).phdr.add(k);
            if h.kind == 7 {
                let align = h.rest[5].max(1);
                *(out as *mut usize) = (h.rest[4] + align - 1) / align * align;
            }
        }
    }
    1 // the program itself comes first
}

/// Where the thread-local variables of the program are, for the calling thread.
pub fn tls_range() -> (usize, usize) {
    let mut size = 0usize;
    let tcb: usize;
    unsafe {
        dl_iterate_phdr(find_tls, &raw mut size as *mut c_void);
        std::arch::asm!("mov {}, fs:0", out(reg) tcb);
    }
    (tcb - size, tcb)
}
