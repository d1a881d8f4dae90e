//! The allocator the code under test sees: fixed addresses, red zones, a shadow map of what is allocated,
//! seeded reuse policy and fill pattern, and injected allocation failures.
use crate::{mode, paused, sched, sys, OUT, RUN};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};

pub const BASE: usize = 0x6100_0000_0000;
pub const SIZE: usize = 4 << 30;
const SHADOW: usize = 0x6200_0000_0000;
const RED: usize = 64;

pub struct Block {
    pub size: usize,
    pub align: usize,
    pub seq: u64,
    pub op: u32,
    /// from an earlier run
    old: bool,
}

pub struct Arena {
    pub on: bool,
    bump: usize,
    pub live: HashMap<usize, Block>,
    free: HashMap<(usize, usize), Vec<usize>>,
    pub reuse: bool,
    pub fill: u8,
    pub seq: u64,
    pub allocs: u64,
}

static mut ARENA: Option<Arena> = None;
static LOCK: AtomicBool = AtomicBool::new(false);

fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop()
    }
    let r = paused(|| f(unsafe { ARENA.as_mut().unwrap() }));
    LOCK.store(false, Ordering::Release);
    r
}

pub fn init() {
    unsafe {
        sys::mmap_fixed(BASE, SIZE);
        sys::mmap_fixed(SHADOW, SIZE / 8);
        ARENA = Some(Arena {
            on: true,
            bump: BASE + 4096,
            live: HashMap::new(),
            free: HashMap::new(),
            reuse: false,
            fill: 0xA5,
            seq: 0,
            allocs: 0,
        });
    }
}

/// Starts a run: the address sequence is the same in every run that starts without live blocks.
pub fn begin_run(reuse: bool, fill: u8) {
    with(|a| {
        a.free.clear();
        if a.live.is_empty() {
            a.bump = BASE + 4096;
        }
        a.live.values_mut().for_each(|b| b.old = true);
        a.seq = 0;
        a.reuse = reuse;
        a.fill = fill;
    })
}

/// Sequence number of the next allocation: blocks with a smaller one existed before.
pub fn next_seq() -> u64 {
    with(|a| a.seq)
}

/// Of the live blocks allocated at or after `seq` (by operation `op`, if not 0): sizes of those that nothing refers to any
/// more. A block that a static, a thread-local variable, another thread or an older block refers to is kept for later, not leaked.
pub fn leaked(seq: u64, op: u32) -> Vec<usize> {
    let (tls, tls_end) = sys::tls_range();
    let (data, data_end) = sched::data_range();
    with(|a| {
        let cand = |b: &Block| !b.old && b.seq >= seq && (op == 0 || b.op == op);
        let mut lost: Vec<(usize, usize, u64)> = a.live.iter().filter(|(_, b)| cand(b)).map(|(&p, b)| (p, b.size, b.seq)).collect();
        if lost.is_empty() {
            return vec![];
        }
        let mut roots = vec![(tls, tls_end), (data, data_end)];
        roots.extend(sched::other_threads());
        roots.extend(a.live.iter().filter(|(_, b)| !cand(b)).map(|(&p, b)| (p, p + b.size)));
        while let Some((from, to)) = roots.pop() {
            let mut at = (from + 7) & !7;
            while at + 8 <= to && !lost.is_empty() {
                let v = unsafe { *(at as *const usize) };
                if contains(v) {
                    if let Some(k) = lost.iter().position(|&(p, n, _)| v >= p && v < p + n.max(1)) {
                        let (p, n, _) = lost.swap_remove(k);
                        roots.push((p, p + n));
                    }
                }
                at += 8;
            }
        }
        lost.sort_by_key(|x| x.2);
        lost.into_iter().map(|x| x.1).collect()
    })
}

#[inline(always)]
pub fn contains(addr: usize) -> bool {
    addr.wrapping_sub(BASE) < SIZE
}

unsafe fn set_shadow(addr: usize, size: usize, on: bool) {
    let s = (SHADOW + (addr - BASE) / 8) as *mut u8;
    let full = size / 8;
    std::ptr::write_bytes(s, if on { 8 } else { 0 }, full);
    if size % 8 != 0 {
        *s.add(full) = if on { (size % 8) as u8 } else { 0 };
    }
}

/// Is `[addr, addr + size)` inside one allocated block (blocks are separated by red zones)?
#[inline(always)]
pub fn valid(addr: usize, size: usize) -> bool {
    unsafe {
        let last = addr + size - 1;
        if last.wrapping_sub(BASE) >= SIZE {
            return false;
        }
        let mut g = addr & !7;
        // every granule but the last one must be full, the last one must reach far enough
        while g <= last {
            let v = *((SHADOW + (g - BASE) / 8) as *const u8) as usize;
            let need = if last - g >= 7 { 8 } else { last - g + 1 };
            if v < need {
                return false;
            }
            g += 8;
        }
        true
    }
}

/// A deterministic description of an address.
pub fn describe(addr: usize) -> String {
    if !contains(addr) {
        return "memory outside the heap".to_string();
    }
    with(|a| {
        let mut best: Option<(usize, &Block)> = None;
        for (&p, b) in &a.live {
            if p <= addr + RED && best.is_none_or(|(q, _)| p > q) {
                best = Some((p, b));
            }
        }
        match best {
            Some((p, b)) => {
                format!("byte {} of the {}-byte block #{}", addr as isize - p as isize, b.size, b.seq)
            }
            None => "unallocated heap memory".to_string(),
        }
    })
}

unsafe fn take(layout: Layout, zero: bool, op: u32) -> *mut u8 {
    let size = layout.size();
    let align = layout.align().max(16);
    with(|a| {
        let reused = if a.reuse { a.free.get_mut(&(size, align)).and_then(|v| v.pop()) } else { None };
        let p = match reused {
            Some(p) => p,
            None => {
                let p = (a.bump + align - 1) & !(align - 1);
                let end = p + size + RED;
                if end > BASE + SIZE {
                    return std::ptr::null_mut();
                }
                a.bump = (end + 15) & !15;
                p
            }
        };
        set_shadow(p, size, true);
        std::ptr::write_bytes(p as *mut u8, if zero { 0 } else { a.fill }, size);
        a.live.insert(p, Block { size, align, seq: a.seq, op, old: false });
        a.seq += 1;
        a.allocs += 1;
        p as *mut u8
    })
}

unsafe fn give(p: usize, may_reuse: bool) {
    let bad = with(|a| match a.live.remove(&p) {
        Some(b) => {
            set_shadow(p, b.size, false);
            if a.reuse && may_reuse {
                a.free.entry((b.size, b.align)).or_default().push(p);
            } else {
                std::ptr::write_bytes(p as *mut u8, 0xDD, b.size.min(4096));
            }
            false
        }
        None => true,
    });
    if bad {
        paused(|| sched::violate("bad-free", "a block that is not allocated was freed".into()));
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if mode() == OUT || std::thread::panicking() {
            return System.alloc(layout);
        }
        self.sim_alloc(layout, false)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if mode() == OUT || std::thread::panicking() {
            return System.alloc_zeroed(layout);
        }
        self.sim_alloc(layout, true)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !contains(ptr as usize) {
            return System.dealloc(ptr, layout);
        }
        let m = mode();
        if m == RUN && !std::thread::panicking() {
            sched::on_free(ptr as usize, layout.size());
        }
        give(ptr as usize, m != OUT)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if !contains(ptr as usize) {
            return System.realloc(ptr, layout, new_size);
        }
        let nl = Layout::from_size_align_unchecked(new_size, layout.align());
        let new = if mode() == OUT || std::thread::panicking() {
            let p = take(nl, false, 0);
            sched::fresh_memory(p as usize, new_size);
            p
        } else {
            self.sim_alloc(nl, false)
        };
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            give(ptr as usize, mode() != OUT);
        }
        new
    }
}

impl SimAlloc {
    unsafe fn sim_alloc(&self, layout: Layout, zero: bool) -> *mut u8 {
        let mut op = 0;
        if mode() == RUN {
            match sched::on_alloc(layout.size()) {
                Some(o) => op = o,
                None => return std::ptr::null_mut(), // injected failure
            }
        }
        let p = take(layout, zero, op);
        if !p.is_null() {
            sched::fresh_memory(p as usize, layout.size());
        }
        p
    }
}
