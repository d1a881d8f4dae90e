//! Happens-before race detection with vector clocks (FastTrack-like, one record per thread, kind and byte mask).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub const MAXT: usize = 24;
pub type Vc = [u32; MAXT];

pub fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i]
        }
    }
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, i: u64) {
        let h = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 = h ^ (h >> 29);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Default)]
struct Rec {
    tid: u8,
    kind: u8, // 1 = write, 2 = atomic
    mask: u8,
    clk: u32,
}

#[derive(Default)]
struct Cell {
    n: u8,
    few: [Rec; 6],
    more: Vec<Rec>,
}

pub struct Sync {
    pub vc: Vc,
    pub val: u64,
    /// changed by code that is not instrumented
    pub std: bool,
    /// The last values in the order in which they were stored; `vc` and `val` belong to the newest.
    stores: Vec<Stored>,
    /// How many older values were dropped from `stores`.
    dropped: usize,
    /// (thread, its clock, number of the value it has read)
    reads: Vec<(usize, u32, usize)>,
}

struct Stored {
    val: u64,
    by: usize,
    clk: u32,
}

impl Sync {
    pub fn new(val: u64) -> Sync {
        Sync { vc: [0; MAXT], val, std: false, stores: Vec::new(), dropped: 0, reads: Vec::new() }
    }

    /// Something else than an instrumented store has changed the location.
    pub fn forget_stores(&mut self) {
        self.stores.clear();
        self.reads.clear();
    }

    /// The newest value was just stored over `old`.
    pub fn stored(&mut self, old: u64, by: usize, clk: u32) {
        if self.stores.is_empty() {
            self.stores.push(Stored { val: old, by, clk: 0 });
        }
        self.stores.push(Stored { val: self.val, by, clk });
        if self.stores.len() > 6 {
            self.stores.remove(0);
            self.dropped += 1;
        }
    }

    /// A value a load may see, as the memory model allows: not older than any that happens before the load, nor
    /// than any read before it. `seen` are the clocks of what the thread has to see.
    pub fn visible(&mut self, me: usize, seen: &Vc, clk: u32, pick: u64) -> Option<u64> {
        if self.stores.len() < 2 || self.std {
            return None;
        }
        let last = self.stores.len() - 1;
        let mut from = 0;
        for (j, x) in self.stores.iter().enumerate() {
            if seen[x.by] >= x.clk {
                from = j
            }
        }
        for (t, c, n) in &self.reads {
            if (*t == me || seen[*t] >= *c) && *n >= self.dropped {
                from = from.max(*n - self.dropped)
            }
        }
        let j = if pick & 1 == 0 { last } else { from + (pick >> 1) as usize % (last - from + 1) };
        let n = j + self.dropped;
        match self.reads.iter_mut().find(|x| x.0 == me && x.1 == clk) {
            Some(x) => x.2 = x.2.max(n),
            None => self.reads.push((me, clk, n)),
        }
        (j < last).then(|| self.stores[j].val)
    }
}

#[derive(Default)]
pub struct Races {
    cells: FxMap<usize, Cell>,
    pub sync: FxMap<usize, Sync>,
    pub futex: FxMap<usize, Vc>,
}

pub struct Found {
    pub other: usize,
    pub other_write: bool,
}

impl Races {
    pub fn clear(&mut self) {
        self.cells.clear();
        self.sync.clear();
        self.futex.clear();
    }

    /// Records an access and returns a conflicting one that is not ordered before it.
    #[inline]
    pub fn access(&mut self, me: usize, vc: &Vc, addr: usize, size: usize, write: bool, atomic: bool) -> Option<Found> {
        let kind = write as u8 | (atomic as u8) << 1;
        let mut found = None;
        let end = addr + size;
        let mut g = addr & !7;
        while g < end {
            let lo = addr.max(g) - g;
            let hi = end.min(g + 8) - g;
            let mask = (((1u16 << hi) - 1) & !((1u16 << lo) - 1)) as u8;
            let c = self.cells.entry(g).or_default();
            let mut mine = false;
            let Cell { n, few, more } = c;
            for r in few[..*n as usize].iter_mut().chain(more.iter_mut()) {
                if r.tid as usize == me {
                    if r.kind == kind && r.mask == mask {
                        r.clk = vc[me];
                        mine = true;
                    }
                } else if r.mask & mask != 0
                    && (r.kind | kind) & 1 != 0
                    && (r.kind & kind) & 2 == 0
                    && r.clk > vc[r.tid as usize]
                    && found.is_none()
                {
                    found = Some(Found { other: r.tid as usize, other_write: r.kind & 1 != 0 });
                }
            }
            if !mine {
                let r = Rec { tid: me as u8, kind, mask, clk: vc[me] };
                if (*n as usize) < few.len() {
                    few[*n as usize] = r;
                    *n += 1;
                } else {
                    more.push(r);
                }
            }
            g += 8;
        }
        found
    }

    /// Forgets a range (a new block starts with no history).
    pub fn forget(&mut self, addr: usize, size: usize) {
        if self.cells.is_empty() {
            return;
        }
        let mut g = addr & !7;
        while g < addr + size {
            self.cells.remove(&g);
            g += 8;
        }
        self.forget_sync(addr, size);
    }

    fn forget_sync(&mut self, addr: usize, size: usize) {
        if self.sync.len() > size {
            for a in addr..addr + size {
                self.sync.remove(&a);
            }
        } else if !self.sync.is_empty() {
            self.sync.retain(|a, _| *a < addr || *a >= addr + size);
        }
    }

    /// A free of the range conflicts with any unordered access to it.
    pub fn free(&mut self, me: usize, vc: &Vc, addr: usize, size: usize) -> Option<Found> {
        self.forget_sync(addr, size);
        let mut g = addr & !7;
        while g < addr + size {
            if let Some(c) = self.cells.get(&g) {
                for r in c.few[..c.n as usize].iter().chain(c.more.iter()) {
                    if r.tid as usize != me && r.clk > vc[r.tid as usize] {
                        return Some(Found { other: r.tid as usize, other_write: r.kind & 1 != 0 });
                    }
                }
            }
            g += 8;
        }
        None
    }
}
