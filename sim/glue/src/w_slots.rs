//! Structures in shared slots that are created, cloned, changed, handed from thread to thread and dropped,
//! with rejected operations and failing allocations in between (C06, C07, C08, C09).
use crate::model::{a_len, pattern, Bits, Counts, PATTERNS};
use crate::plan::{Op, Plan};
use crate::w_read::{build_bits, fold_bits, values};
use crate::{args, bad, common, fold, ops_of, Outcome};
use crate::ways;
use simrt::{allocs_in_op, arena, lock, op, run_actors, setup, unlock, violated, Fail, Rng};
use std::cell::UnsafeCell;
use std::ops::Bound;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

pub enum Obj {
    Bv(Box<BitVec>, Vec<bool>),
    Iv(Box<IntVec>, u64, Vec<usize>),
    /// An index that travels together with the bit vector it belongs to; it has to go first.
    Ix(Box<FlatPopcount<'static, LinearSearch>>, Box<BitVec>, Vec<bool>),
}

struct Slots(Vec<UnsafeCell<Option<Obj>>>);
unsafe impl Sync for Slots {}

impl Slots {
    /// Only while holding the slot's lock.
    #[allow(clippy::mut_from_ref)]
    fn at(&self, i: usize) -> &mut Option<Obj> {
        unsafe { &mut *self.0[i].get() }
    }
}

fn width(r: &mut Rng) -> u64 {
    match r.below(3) {
        0 => *r.pick(&[1, 2, 7, 8, 16, 31, 32, 33, 62, 63]),
        _ => r.range(1, 63),
    }
}

pub fn generate(p: &mut Plan, r: &mut Rng) {
    common(p, r, 5);
    if p.get("period") > 0 && p.get("period") < 12 {
        p.set("period", 12);
    }
    let slots = r.range(2, 5);
    p.set("slots", slots);
    let actors = p.get("actors");
    let prop = p.prop.clone();
    let small = |r: &mut Rng| {
        let sc = (r.below(10) / 9) * (prop != "C08") as u64;
        a_len(r, sc)
    };
    // in some runs all positions come from a small set, so that threads often meet at the same one
    let hot: Vec<u64> = (0..r.range(1, 4)).map(|_| r.below(1 << 20)).collect();
    let meet = r.chance(1, 3);
    // half of the runs use only some kinds of operations, and those more often
    let on = if r.chance(1, 2) { u64::MAX } else { r.below(1 << 32) & r.below(1 << 32) };
    let draw = |r: &mut Rng, n: u64| (0..20).map(|_| r.below(n)).find(|k| on >> k & 1 == 1).unwrap_or(0);
    let any = |r: &mut Rng| if meet { *r.pick(&hot) } else { r.below(1 << 20) };
    let first = |p: &mut Plan, r: &mut Rng, a: usize, s: u64| {
        let bits = match prop.as_str() {
            "C07" => false,
            "C08" => true,
            _ => r.chance(2, 3),
        };
        if bits {
            let (l, k, x) = (small(r), r.below(PATTERNS), any(r));
            p.push(a, "newb", &[s, l, k, x])
        } else {
            let (w, c) = (width(r), *r.pick(&[0, 1, 3, 8, 64, 300]));
            p.push(a, "newi", &[s, w, c])
        }
    };
    for s in 0..slots {
        let a = r.below(actors) as usize;
        first(p, r, a, s);
    }
    if prop == "C09" && r.chance(1, 60) {
        // so many ones that the samples in the index have to grow
        let a = r.below(actors) as usize;
        let (l, k, x) = (r.range(58_000, 140_000), *r.pick(&[1, 4]), any(r));
        p.push(a, "newb", &[0, l, k, x]);
        for _ in 0..r.range(1, 4) {
            let a = r.below(actors) as usize;
            let id = p.push(a, "index", &[0, r.below(1 << 20), r.below(1 << 20)]);
            p.fault("alloc", &[id as u64, r.below(5), r.below(2)]);
        }
        return;
    }
    if prop == "C06" && r.chance(1, 6) {
        // all threads keep creating and dropping structures of the same few sizes, each in a slot of its own
        let sizes: Vec<u64> = (0..r.range(1, 2)).map(|_| r.range(1, 200)).collect();
        let (w, c) = (width(r), *r.pick(&[0, 8, 64]));
        p.set("slots", actors);
        p.set("weight", 40);
        p.set("period", *r.pick(&[12, 20, 40, 80]));
        p.ops.clear();
        let only = r.below(3);
        for _ in 0..r.range(6, 30) {
            let a = r.below(actors);
            let (x, y) = (any(r), any(r));
            let s = if r.chance(1, 8) { r.below(actors) } else { a };
            let size = *r.pick(&sizes);
            let ints = only == 1 || only == 2 && r.chance(1, 3);
            let a = a as usize;
            match (r.below(10), ints) {
                (0..=3, false) => p.push(a, "newb", &[s, size, r.below(PATTERNS), x]),
                (0..=3, true) => p.push(a, "newi", &[s, w, c]),
                (4, _) => p.push(a, "drop", &[s]),
                (5, false) => p.push(a, "attach", &[s]),
                (6, false) => p.push(a, "detach", &[s]),
                (7, false) => p.push(a, "clone", &[s, r.below(actors)]),
                (8, false) => p.push(a, "bflip", &[s, x]),
                (_, false) => p.push(a, "index", &[s, x, y]),
                (5 | 6, true) => p.push(a, "itake", &[s, r.below(5)]),
                _ => p.push(a, "ipush", &[s, r.range(1, 20), x]),
            };
        }
        return;
    }
    if prop == "C06" && r.chance(1, 3) {
        // one structure goes back and forth between two threads that read and change the same position
        let (a, b) = (r.below(actors) as usize, r.below(actors) as usize);
        let (s, x, bits) = (r.below(slots), any(r), r.chance(1, 2));
        if bits {
            p.push(a, "newb", &[s, r.range(1, 300), 0, x]);
        } else {
            p.push(a, "newi", &[s, width(r), 8]);
            p.push(a, "ipush", &[s, r.range(1, 20), x]);
        }
        for _ in 0..r.range(3, 9) {
            let (c, z) = (if r.chance(1, 2) { a } else { b }, r.below(1 << 20));
            match (r.below(3), bits) {
                (0, true) => p.push(c, "bflip", &[s, x]),
                (0, false) => p.push(c, "iset", &[s, x, z]),
                (_, true) => p.push(c, "bget", &[s, x]),
                (_, false) => p.push(c, "iget", &[s, x]),
            };
        }
    }
    for _ in 0..r.range(4, 40) {
        let a = r.below(actors) as usize;
        let s = r.below(slots);
        let t = r.below(slots);
        let far = *r.pick(&[0, 1, 2, 40, 63, 64, 100, 1 << 32, 1 << 63, u64::MAX]);
        let (x, y, z, v) = (any(r), any(r), any(r), r.below(2));
        let id = match prop.as_str() {
            "C06" => match draw(r, 21) {
                0 => first(p, r, a, s),
                1 | 2 => p.push(a, "clone", &[s, t]),
                3 => p.push(a, "move", &[s, t]),
                4 => p.push(a, "drop", &[s]),
                5 => p.push(a, "bset", &[s, x, v]),
                6 => p.push(a, "bflip", &[s, x]),
                7 => p.push(a, "bview", &[s, x, y, z, v]),
                8 => p.push(a, "bread", &[s, x, y]),
                9 => p.push(a, "eq", &[s, t]),
                10 | 11 => p.push(a, "ipush", &[s, r.range(1, 40), x]),
                12 => p.push(a, "iset", &[s, x, r.below(1 << 20)]),
                13 => p.push(a, "iread", &[s]),
                14 => p.push(a, "itake", &[s, r.below(30)]),
                15 => p.push(a, "index", &[s, x, y]),
                16 => p.push(a, "iget", &[s, x]),
                17 => p.push(a, "bget", &[s, x]),
                18 => p.push(a, "attach", &[s]),
                19 => p.push(a, "detach", &[s]),
                _ => p.push(a, "ask", &[s, x, y, r.range(1, 6)]),
            },
            "C07" => match draw(r, 15) {
                0 => first(p, r, a, s),
                1..=5 => p.push(a, "ipush", &[s, r.range(1, 60), x]),
                6 => p.push(a, "ipushx", &[s, x]),
                7 => p.push(a, "iset", &[s, x, r.below(1 << 20)]),
                8 => p.push(a, "isetx", &[s, far, x]),
                9 => p.push(a, "isetv", &[s, x, y]),
                10 => p.push(a, "igetx", &[s, far]),
                11 => p.push(a, "iread", &[s]),
                12 => p.push(a, "move", &[s, t]),
                13 => p.push(a, "iget", &[s, x]),
                _ => p.push(a, "itake", &[s, r.below(30)]),
            },
            "C08" => match draw(r, 20) {
                0 => first(p, r, a, s),
                1 => p.push(a, "bset", &[s, x, v]),
                2 => p.push(a, "bflip", &[s, x]),
                3 => p.push(a, "bview", &[s, x, y, z, v]),
                4 | 5 => p.push(a, "bsetx", &[s, far, v, r.below(2)]),
                6 => p.push(a, "bflipx", &[s, far, r.below(2)]),
                7 => p.push(a, "bgetx", &[s, far, r.below(2)]),
                8 => p.push(a, "bviewx", &[s, x, y, far, v]),
                9 => p.push(a, "bslicex", &[s, x, far, r.below(6)]),
                10 => p.push(a, "bsplitx", &[s, far, r.below(2)]),
                11 => p.push(a, "clone", &[s, t]),
                12 => p.push(a, "dbg", &[s]),
                13 => p.push(a, "bread", &[s, x, y]),
                14 => p.push(a, "move", &[s, t]),
                15 => p.push(a, "bget", &[s, x]),
                16 | 17 => p.push(a, "bnest", &[s, x, y, z, any(r), far, r.below(10), v]),
                18 => p.push(a, "bnestx", &[s, x, y, z, far, r.below(14)]),
                _ => p.push(a, "prim", &[r.below(6), any(r), *r.pick(&[0, 1, 6, 7, 8, 9, 15, 16, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 191, 192, 193, 255, 1 << 40, u64::MAX]), r.below(5), r.below(3), v]),
            },
            _ => match draw(r, 15) {
                0 | 1 => first(p, r, a, s),
                2 | 3 => p.push(a, "clone", &[s, t]),
                4..=6 => p.push(a, "index", &[s, x, y]),
                7 => p.push(a, "dbg", &[s]),
                8 => p.push(a, "ipush", &[s, r.range(1, 60), x]),
                9 => p.push(a, "bflip", &[s, x]),
                10 => p.push(a, "drop", &[s]),
                11 => p.push(a, "attach", &[s]),
                12 => p.push(a, "detach", &[s]),
                13 => p.push(a, "ask", &[s, x, y, 2]),
                _ => p.push(a, "bread", &[s, x, y]),
            },
        };
        let faulty = match prop.as_str() {
            "C06" => false,
            "C07" => r.chance(1, 2),
            "C08" => r.chance(1, 2),
            _ => r.chance(2, 3),
        };
        let kind = p.ops.last().unwrap().kind.clone();
        if faulty && matches!(kind.as_str(), "newb" | "newi" | "clone" | "index" | "dbg" | "ipush" | "attach") {
            p.fault("alloc", &[id as u64, if r.chance(1, 2) { 0 } else { r.below(6) }, r.below(2)]);
        }
    }
}

/// Compares a structure with its model completely.
fn verify(o: &Obj, when: &str) {
    match o {
        Obj::Bv(b, m) | Obj::Ix(_, b, m) => match setup(|| (b.len(), fold_bits(b.iter()))) {
            Ok((l, h)) => {
                if l != m.len() || h != fold_bits(m.iter().copied()) {
                    let diff = setup(|| (0..m.len().min(l)).find(|&i| b.get(i) != m[i])).unwrap_or(None);
                    bad!("wrong-contents", "{when}: the bit vector differs from what its history says (length {l}/{}, first difference {diff:?})", m.len());
                }
            }
            Err(e) => bad!("unexpected-failure", "{when}: reading a bit vector failed: {e:?}"),
        },
        Obj::Iv(v, _, m) => match setup(|| (v.iter().len(), v.is_empty(), v.iter().fold(0, |h, x| fold(h, x as u64)))) {
            Ok((l, e, h)) => {
                if l != m.len() || e != m.is_empty() || h != m.iter().fold(0, |h, x| fold(h, *x as u64)) {
                    bad!("wrong-contents", "{when}: the integer vector differs from what its history says (length {l}/{})", m.len());
                }
            }
            Err(e) => bad!("unexpected-failure", "{when}: reading an integer vector failed: {e:?}"),
        },
    }
}

fn release(o: Obj) {
    match o {
        Obj::Bv(b, m) => {
            drop(b);
            std::mem::forget(m)
        }
        Obj::Iv(b, _, m) => {
            drop(b);
            std::mem::forget(m)
        }
        Obj::Ix(i, b, m) => {
            drop(i);
            drop(b);
            std::mem::forget(m)
        }
    }
}

fn expected_debug(m: &[bool]) -> String {
    m.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

struct Ctx<'a> {
    p: &'a Plan,
    slots: &'a Slots,
    fault: Option<(u64, bool)>,
}

enum Verdict<T> {
    Done(T),
    FailedCleanly,
    Bad,
}

impl Ctx<'_> {
    /// Judges an operation that may fail only if an allocation was made to fail.
    fn judge<T>(&self, o: &Op, r: Result<T, Fail>) -> Verdict<T> {
        let injected = self.fault.is_some_and(|f| allocs_in_op() > f.0);
        match r {
            Ok(x) => {
                if injected {
                    simrt::count("alloc_fail_survived", 1);
                }
                Verdict::Done(x)
            }
            Err(_) if injected => {
                simrt::count("alloc_fail_reported", 1);
                if self.p.prop == "C09" {
                    let left = arena::leaked(0, o.id);
                    if !left.is_empty() && o.kind != "ipush" {
                        bad!("leak", "operation {} ({}{}) failed and left {} blocks allocated ({:?} bytes)", o.id, o.kind, args(o), left.len(), left);
                        return Verdict::Bad;
                    }
                }
                Verdict::FailedCleanly
            }
            Err(e) => {
                bad!("unexpected-failure", "operation {} ({}{}) failed: {e:?}", o.id, o.kind, args(o));
                Verdict::Bad
            }
        }
    }

    fn refuse<T>(&self, o: &Op, r: Result<T, Fail>) {
        match r {
            Err(Fail::Panic(_)) => simrt::count("rejected_op", 1),
            Err(e) => bad!("unexpected-failure", "operation {} ({}{}) failed: {e:?}", o.id, o.kind, args(o)),
            Ok(_) => bad!("not-refused", "operation {} ({}{}) was not refused", o.id, o.kind, args(o)),
        }
    }

    fn same<T: PartialEq + std::fmt::Debug>(&self, o: &Op, got: T, want: T) {
        crate::expect(o, "", got, want)
    }

    fn put(&self, o: &Op, s: usize, new: Obj) {
        let old = self.slots.at(s).replace(new);
        if let Some(old) = old {
            self.free(o, old)
        }
    }

    fn free(&self, o: &Op, old: Obj) {
        // dropping is code under test too; it is part of the same operation
        let r = op(o.id | 0x4000_0000, || release(old));
        if let Err(e) = r {
            bad!("unexpected-failure", "dropping a structure in operation {} failed: {e:?}", o.id)
        }
    }

    fn run(&self, o: &Op, s: usize, t: usize) {
        let id = o.id;
        match o.kind.as_str() {
            "newb" => {
                let (len, pat, seed) = (o.us(1).min(150_000), o.arg(2), o.arg(3));
                let m = pattern(pat, len, seed);
                let r = op(id, || Box::new(BitVec::new(len)));
                if let Verdict::Done(mut b) = self.judge(o, r) {
                    match setup(|| fold_bits(b.iter())) {
                        Ok(h) => self.same(o, h, fold_bits((0..len).map(|_| false))),
                        Err(e) => bad!("unexpected-failure", "a new bit vector cannot be read: {e:?}"),
                    }
                    let _ = setup(|| {
                        for i in 0..len {
                            if m.get(i) {
                                b.set(i, true)
                            }
                        }
                    });
                    self.put(o, s, Obj::Bv(b, m.b));
                } else if !violated() {
                    self.retry(o, || {
                        let b = BitVec::new(len);
                        b.len()
                    }, len);
                }
            }
            "newi" => {
                let (w, c) = (o.arg(1).clamp(1, 63), o.us(2));
                let r = op(id, || Box::new(if c == 8 { IntVec::new(w as usize) } else { IntVec::with_capacity(w as usize, c) }));
                if let Verdict::Done(v) = self.judge(o, r) {
                    self.put(o, s, Obj::Iv(v, w, Vec::new()));
                }
            }
            "clone" => {
                let Some(Obj::Bv(b, m)) = self.slots.at(s) else { return };
                if s != t && id % 3 == 0 {
                    if let Some(Obj::Bv(c, n)) = self.slots.at(t) {
                        // into an existing one
                        match self.judge(o, op(id, || (**c).clone_from(b))) {
                            Verdict::Done(()) => *n = m.clone(),
                            Verdict::FailedCleanly => {
                                verify(self.slots.at(s).as_ref().unwrap(), &format!("after the failed clone (operation {id})"));
                                verify(self.slots.at(t).as_ref().unwrap(), &format!("after the failed clone (operation {id})"));
                            }
                            Verdict::Bad => {}
                        }
                        return;
                    }
                }
                let r = op(id, || Box::new((**b).clone()));
                match self.judge(o, r) {
                    Verdict::Done(c) => {
                        let m = m.clone();
                        self.put(o, t, Obj::Bv(c, m))
                    }
                    Verdict::FailedCleanly => {
                        verify(self.slots.at(s).as_ref().unwrap(), &format!("after the failed clone (operation {id})"));
                        if let Some(Obj::Bv(b, m)) = self.slots.at(s) {
                            self.retry(o, || {
                                let c = (**b).clone();
                                fold_bits(c.iter())
                            }, fold_bits(m.iter().copied()));
                        }
                    }
                    Verdict::Bad => {}
                }
            }
            "prim" => self.prim(o),
            "attach" => {
                let Some(Obj::Bv(b, _)) = self.slots.at(s) else { return };
                // the box keeps the bit vector where it is until the index is gone
                let bits: &'static BitVec = unsafe { &*(&**b as *const BitVec) };
                match self.judge(o, op(id, || Box::new(FlatPopcount::<LinearSearch>::new(bits)))) {
                    Verdict::Done(i) => {
                        if let Some(Obj::Bv(b, m)) = self.slots.at(s).take() {
                            *self.slots.at(s) = Some(Obj::Ix(i, b, m))
                        }
                    }
                    Verdict::FailedCleanly => verify(self.slots.at(s).as_ref().unwrap(), &format!("after the failed index construction (operation {id})")),
                    Verdict::Bad => {}
                }
            }
            "detach" => {
                if !matches!(self.slots.at(s), Some(Obj::Ix(..))) {
                    return;
                }
                if let Some(Obj::Ix(i, b, m)) = self.slots.at(s).take() {
                    self.judge(o, op(id, || drop(i)));
                    *self.slots.at(s) = Some(Obj::Bv(b, m));
                }
            }
            "ask" => {
                let Some(Obj::Ix(i, _, m)) = self.slots.at(s) else { return };
                let c = Counts::of(&Bits { b: m.clone() });
                for k in 0..o.us(3) {
                    let x = (o.us(1) + k * 4097) % (m.len() + 1);
                    let y = (o.us(2) + k * 977) % (c.ones.len() + 1);
                    let want = (m.len(), c.before[x] as usize, x - c.before[x] as usize, c.ones.get(y).map(|v| *v as usize));
                    match self.judge(o, op(id, || (i.len(), i.rank::<true>(x), i.rank::<false>(x), i.select(y)))) {
                        Verdict::Done(g) => self.same(o, g, want),
                        _ => return,
                    }
                }
            }
            "move" => {
                if s != t {
                    if let Some(x) = self.slots.at(s).take() {
                        self.put(o, t, x)
                    }
                }
            }
            "drop" => {
                if let Some(x) = self.slots.at(s).take() {
                    self.free(o, x)
                }
            }
            "eq" => {
                if let (Some(Obj::Bv(a, m)), Some(Obj::Bv(b, n))) = (&*self.slots.at(s), &*self.slots.at(t)) {
                    if let Verdict::Done(g) = self.judge(o, op(id, || if id % 2 == 0 { ***a == ***b } else { !(***a != ***b) })) {
                        self.same(o, g, m == n)
                    }
                }
            }
            "index" => {
                let Some(Obj::Bv(b, m)) = self.slots.at(s) else { return };
                let c = Counts::of(&Bits { b: m.clone() });
                let x = o.us(1) % (m.len() + 1);
                let k = o.us(2) % (c.ones.len() + 1);
                let want = (c.before[x] as usize, c.ones.get(k).map(|v| *v as usize));
                let ask = || {
                    if o.arg(1) & 1 == 0 {
                        let i = FlatPopcount::<LinearSearch>::new(b);
                        (i.rank::<true>(x), i.select(k))
                    } else {
                        let i = FlatPopcount::<BinarySearch>::new(b);
                        (i.rank::<true>(x), i.select(k))
                    }
                };
                match self.judge(o, op(id, ask)) {
                    Verdict::Done(g) => self.same(o, g, want),
                    Verdict::FailedCleanly => {
                        verify(self.slots.at(s).as_ref().unwrap(), &format!("after the failed index construction (operation {id})"));
                        self.retry(o, ask, want);
                    }
                    Verdict::Bad => {}
                }
            }
            "dbg" => match self.slots.at(s) {
                Some(Obj::Bv(b, m)) if m.len() <= 3000 => {
                    let ask = || format!("{b:?}");
                    match self.judge(o, op(id, ask)) {
                        Verdict::Done(g) => {
                            self.same(o, g.chars().filter(|c| "01".contains(*c)).collect::<String>(), expected_debug(m))
                        }
                        Verdict::FailedCleanly => {
                            verify(self.slots.at(s).as_ref().unwrap(), &format!("after the failed rendering (operation {id})"));
                        }
                        Verdict::Bad => {}
                    }
                }
                Some(Obj::Iv(v, _, _)) => {
                    if let Verdict::FailedCleanly = self.judge(o, op(id, || format!("{v:?}").len())) {
                        verify(self.slots.at(s).as_ref().unwrap(), &format!("after the failed rendering (operation {id})"));
                    }
                }
                _ => {}
            },
            k if k.starts_with('b') => {
                if let Some(Obj::Bv(b, m)) = self.slots.at(s) {
                    self.bits(o, b, m);
                    if k.ends_with('x') || k == "bnest" || id % 3 == 0 {
                        verify(self.slots.at(s).as_ref().unwrap(), &format!("after operation {id} ({k}{})", args(o)));
                    }
                }
            }
            k => {
                if k == "itake" {
                    return self.take(o, s);
                }
                let mut check = k.ends_with('x') || k == "isetv" || id % 3 == 0;
                if let Some(Obj::Iv(v, w, m)) = self.slots.at(s) {
                    check |= self.ints(o, v, *w, m);
                    if check {
                        verify(self.slots.at(s).as_ref().unwrap(), &format!("after operation {id} ({k}{})", args(o)));
                    }
                }
            }
        }
    }

    /// After a failed attempt the same operation must work once memory is available again.
    fn retry<T: PartialEq + std::fmt::Debug>(&self, o: &Op, f: impl FnOnce() -> T, want: T) {
        if violated() {
            return;
        }
        match setup(f) {
            Ok(g) => crate::expect(o, "repeated after an allocation failure", g, want),
            Err(e) => bad!("unexpected-failure", "operation {} failed again without an allocation failure: {e:?}", o.id),
        }
    }

    /// Bits of plain integers and word slices, directly and through views, between two neighbours.
    fn prim(&self, o: &Op) {
        let seed = o.arg(1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        match o.arg(0) {
            0 => prim_op(self, o, [seed as u8, (seed >> 20) as u8, 0xA5], 8, |x| x as u64),
            1 => prim_op(self, o, [seed as u16, (seed >> 20) as u16, 0xA5A5], 16, |x| x as u64),
            2 => prim_op(self, o, [seed as u32, (seed >> 20) as u32, 0xA5A5_A5A5], 32, |x| x as u64),
            3 => prim_op(self, o, [seed, seed.rotate_left(20), !seed], 64, |x| x),
            4 => prim_op(self, o, [seed as usize, seed.rotate_left(20) as usize, !seed as usize], 64, |x| x as u64),
            _ => {
                let (before, w, after) = ([!seed as usize], [seed as usize, seed.rotate_left(31) as usize, 7], [0x5A]);
                let mut all = Box::new([before[0], w[0], w[1], w[2], after[0]]);
                let mut m: Vec<bool> = (0..192).map(|i| (w[i / 64] >> (i % 64)) & 1 == 1).collect();
                bit_op(self, o, &mut all[1..4], &mut m);
                let now: Vec<bool> = (0..192).map(|i| (all[1 + i / 64] >> (i % 64)) & 1 == 1).collect();
                if now != m || all[0] != before[0] || all[4] != after[0] {
                    bad!("wrong-contents", "operation {} ({}{}) changed words it does not concern", o.id, o.kind, args(o));
                }
            }
        }
    }

    fn bits(&self, o: &Op, b: &mut BitVec, m: &mut [bool]) {
        let n = m.len();
        let id = o.id;
        let (x, y) = (o.us(1) % (n + 1), o.us(2) % (n + 1));
        match o.kind.as_str() {
            "bset" if n > 0 => {
                let (i, v) = (x.min(n - 1), o.arg(2) != 0);
                if let Verdict::Done(()) = self.judge(o, op(id, || set(b, id as u64, i, v))) {
                    m[i] = v
                }
            }
            "bflip" if n > 0 => {
                let i = x.min(n - 1);
                if let Verdict::Done(()) = self.judge(o, op(id, || flip(b, id as u64, i))) {
                    m[i] = !m[i]
                }
            }
            "bview" if n > 0 => {
                let (s, e) = (x.min(y), x.max(y));
                if s < e {
                    let (i, v) = (o.us(3) % (e - s), o.arg(4) != 0);
                    if let Verdict::Done(()) = self.judge(o, op(id, || ways::write(&mut ways::view_mut(b, id as u64 / 6, s, e), id as u64, i, v))) {
                        m[s + i] = v
                    }
                }
            }
            "bget" if n > 0 => {
                let i = x.min(n - 1);
                if let Verdict::Done(g) = self.judge(o, op(id, || ways::read(b, id as u64, i))) {
                    self.same(o, g, m[i])
                }
            }
            "bnest" => {
                // a view of a view: inside it is used, past its end it is refused even if the outer one goes on
                let (s, e) = (x.min(y), x.max(y));
                let (c, d) = (o.us(3) % (e - s + 1), o.us(4) % (e - s + 1));
                let (c, d) = (c.min(d), c.max(d));
                let (how, v) = (o.arg(6), o.arg(7) != 0);
                let inside = how < 6 && c < d;
                let i = if inside { o.us(5) % (d - c) } else { (d - c).saturating_add(o.us(5)) };
                let r = op(id, || match how % 3 {
                    0 => Some(ways::view(&ways::view(b, id as u64, s, e), id as u64 / 4, c, d).get(i)),
                    1 => {
                        ways::view_mut(&mut ways::view_mut(b, id as u64, s, e), id as u64 / 4, c, d).set(i, v);
                        None
                    }
                    _ => {
                        ways::view_mut(&mut ways::view_mut(b, id as u64, s, e), id as u64 / 4, c, d).flip(i);
                        None
                    }
                });
                if !inside {
                    return self.refuse(o, r);
                }
                if let Verdict::Done(g) = self.judge(o, r) {
                    let at = s + c + i;
                    match how % 3 {
                        0 => self.same(o, g, Some(m[at])),
                        1 => m[at] = v,
                        _ => m[at] = !m[at],
                    }
                }
            }
            "bnestx" => {
                // a view of a view with bounds past the end of the outer view
                let (s, e) = (x.min(y), x.max(y));
                let len = e - s;
                let far = len.saturating_add(o.us(4)).saturating_add(1);
                let c = o.us(3) % (len + 1);
                #[allow(clippy::reversed_empty_ranges)]
                self.refuse(o, match o.arg(5) {
                    0 => op(id, || b.slice(s..e).slice(c..far).len()),
                    1 => op(id, || b.slice(s..e).slice(..far).len()),
                    2 => op(id, || b.slice(s..e).slice(far..).len()),
                    3 => op(id, || b.slice(s..e).slice(c..=far - 1).len()),
                    4 => op(id, || b.slice(s..e).slice((Bound::Excluded(far - 1), Bound::Unbounded)).len()),
                    5 => op(id, || b.slice(s..e).slice(c + 1..c).len()),
                    6 => op(id, || b.slice(s..e).split_at(far).0.len()),
                    7 => op(id, || b.slice_mut(s..e).slice_mut(c..far).len()),
                    8 => op(id, || b.slice_mut(s..e).slice_mut(..far).len()),
                    9 => op(id, || b.slice_mut(s..e).slice_mut(far..).len()),
                    10 => op(id, || b.slice_mut(s..e).slice_mut(c..=far - 1).len()),
                    11 => op(id, || b.slice_mut(s..e).slice_mut((Bound::Excluded(far - 1), Bound::Unbounded)).len()),
                    12 => op(id, || b.slice_mut(s..e).slice_mut(c + 1..c).len()),
                    _ => op(id, || b.slice_mut(s..e).split_at_mut(far).0.len()),
                })
            }
            "bread" => {
                let (s, e) = (x.min(y), x.max(y));
                if let Verdict::Done(h) = self.judge(o, op(id, || fold_bits(ways::view(b, id as u64, s, e).iter()))) {
                    self.same(o, h, fold_bits(m[s..e].iter().copied()))
                }
            }
            "bsetx" => {
                let i = n.saturating_add(o.us(1));
                let v = o.arg(2) != 0;
                self.refuse(o, if o.arg(3) == 0 { op(id, || b.set_bit(i, v)) } else { op(id, || b.set(i, v)) })
            }
            "bflipx" => {
                let i = n.saturating_add(o.us(1));
                self.refuse(o, if o.arg(2) == 0 { op(id, || b.flip_bit(i)) } else { op(id, || b.flip(i)) })
            }
            "bgetx" => {
                let i = n.saturating_add(o.us(1));
                self.refuse(o, if o.arg(2) == 0 { op(id, || b.get_bit(i)) } else { op(id, || b.get(i)) })
            }
            "bviewx" => {
                // past the end of a view, but not necessarily past the end of the vector
                let (s, e) = (x.min(y), x.max(y));
                let i = (e - s).saturating_add(o.us(3));
                let v = o.arg(4) != 0;
                match o.us(1) % 3 {
                    0 => self.refuse(o, op(id, || b.slice_mut(s..e).set(i, v))),
                    1 => self.refuse(o, op(id, || b.slice_mut(s..e).flip(i))),
                    _ => self.refuse(o, op(id, || b.slice(s..e).get(i))),
                }
            }
            "bslicex" => {
                let far = n.saturating_add(o.us(2)).saturating_add(1);
                let small = x;
                match o.arg(3) {
                    0 => self.refuse(o, op(id, || b.slice_mut(small..far).len())),
                    1 => self.refuse(o, op(id, || b.slice_mut(far..).len())),
                    2 => self.refuse(o, op(id, || b.slice(..far).len())),
                    3 => self.refuse(o, op(id, || b.slice_mut(small..=far - 1).len())),
                    4 => self.refuse(o, op(id, || b.slice((Bound::Excluded(far - 1), Bound::Unbounded)).len())),
                    _ => {
                        if small > 0 {
                            #[allow(clippy::reversed_empty_ranges)]
                            self.refuse(o, op(id, || b.slice_mut(small..small - 1).len()))
                        }
                    }
                }
            }
            "bsplitx" => {
                let far = n.saturating_add(o.us(1)).saturating_add(1);
                match o.arg(2) {
                    0 => self.refuse(o, op(id, || b.split_at_mut(far).0.len())),
                    _ => self.refuse(o, op(id, || b.split_at(far).0.len())),
                }
            }
            _ => {}
        }
    }

    fn ints(&self, o: &Op, v: &mut IntVec, w: u64, m: &mut Vec<usize>) -> bool {
        let n = m.len();
        let id = o.id;
        let max = (1usize << w) - 1;
        match o.kind.as_str() {
            "ipush" => {
                let new = values(w, o.us(1), o.arg(2));
                let mut done = 0;
                let r = op(id, || {
                    for x in &new {
                        v.push(*x);
                        done += 1;
                    }
                });
                m.extend(&new[..done]);
                match self.judge(o, r) {
                    Verdict::FailedCleanly => {
                        // once memory is there again, appending goes on as if nothing had happened
                        verify_ints(v, m, &format!("after the failed append (operation {id})"));
                        // (with other values: nothing of the failed attempt may shine through)
                        let other = values(w, new.len() - done, o.arg(2) + 1);
                        self.retry(o, || {
                            for x in &other {
                                v.push(*x)
                            }
                        }, ());
                        m.extend(&other);
                        true
                    }
                    _ => false,
                }
            }
            "ipushx" => {
                let big = max.wrapping_add(1).saturating_add(o.us(1) % 3);
                self.refuse(o, op(id, || v.push(big)));
                true
            }
            "iset" if n > 0 => {
                let (i, x) = (o.us(1) % n, o.us(2).wrapping_mul(0x9E37_79B9_7F4A_7C15) & max);
                if let Verdict::Done(()) = self.judge(o, op(id, || if id % 3 == 0 { unsafe { v.set_unchecked(i, x) } } else { v.set(i, x) })) {
                    m[i] = x
                }
                false
            }
            "isetx" => {
                let i = n.saturating_add(o.us(1));
                self.refuse(o, op(id, || v.set(i, o.us(2) & max)));
                true
            }
            "isetv" if n > 0 => {
                let i = o.us(1) % n;
                let big = max.wrapping_add(1).saturating_add(o.us(2) % 5);
                self.refuse(o, op(id, || v.set(i, big)));
                true
            }
            "igetx" => {
                let i = n.saturating_add(o.us(1));
                self.refuse(o, op(id, || v.get(i)));
                true
            }
            "iget" if n > 0 => {
                let i = o.us(1) % n;
                if let Verdict::Done(g) = self.judge(o, op(id, || v.get(i))) {
                    self.same(o, g, m[i])
                }
                false
            }
            "iread" => {
                if let Verdict::Done(h) = self.judge(o, op(id, || (0..n).fold(0, |h, i| fold(h, v.get(i) as u64)))) {
                    self.same(o, h, m.iter().fold(0, |h, x| fold(h, *x as u64)))
                }
                false
            }
            _ => false,
        }
    }

    /// Consumes the vector, possibly stopping half way.
    fn take(&self, o: &Op, s: usize) {
        if !matches!(self.slots.at(s), Some(Obj::Iv(..))) {
            return;
        }
        let Some(Obj::Iv(v, _, m)) = self.slots.at(s).take() else { return };
        let k = o.us(1);
        let r = op(o.id, || {
            let mut it = (*v).into_iter();
            let mut h = 0;
            for _ in 0..k {
                match it.next() {
                    Some(x) => h = fold(h, x as u64),
                    None => break,
                }
            }
            (h, it.len())
        });
        let to = k.min(m.len());
        if let Verdict::Done(g) = self.judge(o, r) {
            self.same(o, g, (m[..to].iter().fold(0, |h, x| fold(h, *x as u64)), m.len() - to))
        }
    }
}

fn set(b: &mut BitVec, how: u64, i: usize, v: bool) {
    match how % 4 {
        0 => b.set_bit(i, v),
        1 => unsafe { b.set_bit_unchecked(i, v) },
        2 => AsMut::<BitSlice<_>>::as_mut(b).set_bit(i, v),
        _ => ways::write(b, how / 4, i, v),
    }
}

fn flip(b: &mut BitVec, how: u64, i: usize) {
    match how % 4 {
        0 => b.flip_bit(i),
        1 => unsafe { b.flip_bit_unchecked(i) },
        2 => AsMut::<BitSlice<_>>::as_mut(b).flip_bit(i),
        _ => ways::toggle(b, how / 4, i),
    }
}

fn prim_op<T: BitGet + BitModify + Copy + PartialEq + std::fmt::Debug>(c: &Ctx, o: &Op, vals: [T; 3], bits: usize, word: fn(T) -> u64) {
    let mut all = Box::new(vals);
    let read = |x: T| (0..bits).map(|i| word(x) >> i & 1 == 1).collect::<Vec<bool>>();
    let mut m = read(vals[1]);
    bit_op(c, o, &mut all[1], &mut m);
    if read(all[1]) != m || all[0] != vals[0] || all[2] != vals[2] {
        bad!("wrong-contents", "operation {} ({}{}) left {all:?} of {vals:?}", o.id, o.kind, args(o));
    }
}

/// Accesses one bit of `x`, which holds the bits `m`, directly or through a view; refused if out of range.
fn bit_op<T: BitGet + BitModify + ?Sized>(c: &Ctx, o: &Op, x: &mut T, m: &mut [bool]) {
    let (how, what, v) = (o.arg(3), o.arg(4), o.arg(5) != 0);
    let bits = m.len();
    let (s, e) = match how {
        0 | 1 => (0, bits),
        2 => (0, bits - bits / 4),
        3 => (bits / 3, bits),
        _ => (bits / 4, bits / 4 + o.us(1) % (bits / 2)),
    };
    let i = o.us(2);
    let view = how >= 2;
    let r: Result<Option<bool>, Fail> = op(o.id, || match (view, what) {
        (false, 0) => Some(x.get_bit(i)),
        (false, 1) => {
            x.set_bit(i, v);
            None
        }
        (false, _) => {
            x.flip_bit(i);
            None
        }
        (true, 0) => Some(BitSlice::new(&*x, s, e).get(i)),
        (true, 1) => {
            BitSlice::new(x, s, e).set(i, v);
            None
        }
        (true, _) => {
            BitSlice::new(x, s, e).flip(i);
            None
        }
    });
    if i >= e - s {
        return c.refuse(o, r);
    }
    let at = s + i;
    match c.judge(o, r) {
        Verdict::Done(g) => {
            if what == 0 {
                c.same(o, g, Some(m[at]))
            }
        }
        _ => return,
    }
    match what {
        0 => {}
        1 => m[at] = v,
        _ => m[at] = !m[at],
    }
}

fn verify_ints(v: &IntVec, m: &[usize], when: &str) {
    match setup(|| (v.iter().len(), v.iter().fold(0, |h, x| fold(h, x as u64)))) {
        Ok(g) => {
            if g != (m.len(), m.iter().fold(0, |h, x| fold(h, *x as u64))) {
                bad!("wrong-contents", "{when}: the integer vector differs from what its history says (length {}/{})", g.0, m.len())
            }
        }
        Err(e) => bad!("unexpected-failure", "{when}: reading an integer vector failed: {e:?}"),
    }
}

/// Touches everything once, so that anything initialised on first use exists before memory is made to run out.
fn warm_up() {
    static DONE: std::sync::Once = std::sync::Once::new();
    DONE.call_once(|| {
        let m = pattern(2, 20_000, 1);
        let _ = setup(|| {
            let b = build_bits(&m, 0);
            let c = b.clone();
            let i = FlatPopcount::<LinearSearch>::new(&b);
            let j = FlatPopcount::<BinarySearch>::new(&c);
            let x = (i.rank::<true>(9000), j.select(9000), format!("{b:?}").len(), *b == *c);
            let mut v = IntVec::new(13);
            for k in 0..500 {
                v.push(k)
            }
            (x, format!("{v:?}").len(), v.into_iter().count())
        });
    });
}

pub fn execute(p: &Plan, out: &mut Outcome) {
    if p.prop != "C06" {
        warm_up();
    }
    let seq = arena::next_seq();
    let n = p.us("slots").clamp(1, 8);
    let slots = Slots((0..n).map(|_| UnsafeCell::new(None)).collect());
    let faults = p.alloc_faults();
    run_actors(p.actors(), |me| {
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let s = o.us(0) % n;
            let two = matches!(o.kind.as_str(), "clone" | "move" | "eq");
            let t = if two { o.us(1) % n } else { s };
            let read_only = matches!(o.kind.as_str(), "bread" | "iread" | "eq" | "index" | "dbg" | "bgetx" | "igetx" | "bget" | "iget" | "ask");
            // locks in order; the source of a clone is only read
            let want = |k: usize| !(read_only || (o.kind == "clone" && k == s && s != t));
            let (lo, hi) = (s.min(t), s.max(t));
            lock(lo, want(lo));
            if hi != lo {
                lock(hi, want(hi));
            }
            let c = Ctx { p, slots: &slots, fault: faults.get(&o.id).copied() };
            c.run(o, s, t);
            if hi != lo {
                unlock(hi);
            }
            unlock(lo);
        }
    });
    for i in 0..n {
        if let Some(x) = slots.at(i) {
            verify(x, "at the end");
        }
        if let Some(x) = slots.at(i).take() {
            let _ = setup(move || release(x));
        }
    }
    if p.prop == "C09" {
        let left = arena::leaked(seq, 0);
        if !left.is_empty() {
            bad!("leak", "{} blocks ({:?} bytes) are still allocated after everything was dropped", left.len(), left);
        }
    }
    out.nontrivial = p.ops.len() > n;
}
