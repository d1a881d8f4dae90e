//! Disjoint mutable views of one bit vector, each used by its own thread (C05).
use crate::model::{a_len, pattern, Bits, PATTERNS};
use crate::plan::{Op, Plan};
use crate::w_read::{build_bits, fold_bits, must, refused};
use crate::{bad, common, ops_of, Outcome};
use crate::ways;
use simrt::{lock, op, run_actors, setup, unlock, violated, Rng};
use std::sync::Mutex;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice};

/// What a thread does with its part; implemented for every kind of view.
pub trait Part: Send {
    fn size(&self) -> usize;
    fn read(&self, how: u64, i: usize) -> bool;
    fn read_all(&self, how: u64, s: usize, e: usize) -> (u64, u64);
    fn write(&mut self, how: u64, i: usize, v: bool);
    fn toggle(&mut self, how: u64, i: usize);
    /// Writes through a view of the view.
    fn write_sub(&mut self, how: u64, s: usize, e: usize, i: usize, v: bool);
    /// Splits again and writes on both sides.
    fn write_split(&mut self, at: usize, i: usize, j: usize, v: bool);
    fn same_halves(&self, how: u64, n: usize) -> bool;
}

impl<B: BitGet + BitModify + Send> Part for BitSlice<B> {
    fn size(&self) -> usize {
        self.len()
    }
    fn read(&self, how: u64, i: usize) -> bool {
        ways::read(self, how, i)
    }
    fn read_all(&self, how: u64, s: usize, e: usize) -> (u64, u64) {
        fold_bits(ways::view(self, how, s, e).iter())
    }
    fn write(&mut self, how: u64, i: usize, v: bool) {
        ways::write(self, how, i, v)
    }
    fn toggle(&mut self, how: u64, i: usize) {
        ways::toggle(self, how, i)
    }
    fn write_sub(&mut self, how: u64, s: usize, e: usize, i: usize, v: bool) {
        ways::view_mut(self, how, s, e).set(i, v)
    }
    fn write_split(&mut self, at: usize, i: usize, j: usize, v: bool) {
        let (mut a, mut b) = self.split_at_mut(at);
        if at > 0 {
            a.set(i % at, v);
        }
        let n = b.len();
        b.set(j % n, v);
    }
    fn same_halves(&self, how: u64, n: usize) -> bool {
        ways::view(self, how, 0, n) == ways::view(self, how, n, 2 * n)
    }
}

pub type Parts<'x> = Vec<Mutex<Option<Box<dyn Part + 'x>>>>;

fn boxed<'x>(p: impl Part + 'x) -> Mutex<Option<Box<dyn Part + 'x>>> {
    Mutex::new(Some(Box::new(p)))
}

/// Splits at the given positions (at most five) and hands all parts to `f`.
pub fn with_parts<B: BitGet + BitModify + Send, R>(
    root: &mut BitSlice<B>,
    at: &[usize],
    f: impl for<'x> FnOnce(Parts<'x>) -> R,
) -> Result<R, simrt::Fail> {
    match *at {
        [] => Ok(f(vec![boxed(setup(|| root.slice_mut(..))?)])),
        [a] => {
            let (x, y) = setup(|| root.split_at_mut(a))?;
            Ok(f(vec![boxed(x), boxed(y)]))
        }
        [a, b] => {
            let (x, mut rest) = setup(|| root.split_at_mut(a))?;
            let (y, z) = setup(|| rest.split_at_mut(b - a))?;
            Ok(f(vec![boxed(x), boxed(y), boxed(z)]))
        }
        [a, b, c] => {
            let (mut l, mut r) = setup(|| root.split_at_mut(b))?;
            let (w, x) = setup(|| l.split_at_mut(a))?;
            let (y, z) = setup(|| r.split_at_mut(c - b))?;
            Ok(f(vec![boxed(w), boxed(x), boxed(y), boxed(z)]))
        }
        [a, b, c, d] => {
            let (mut l, mut r) = setup(|| root.split_at_mut(b))?;
            let (v, w) = setup(|| l.split_at_mut(a))?;
            let (mut r, z) = setup(|| r.split_at_mut(d - b))?;
            let (x, y) = setup(|| r.split_at_mut(c - b))?;
            Ok(f(vec![boxed(v), boxed(w), boxed(x), boxed(y), boxed(z)]))
        }
        [a, b, c, d, e, ..] => {
            let (mut l, mut r) = setup(|| root.split_at_mut(c))?;
            let (u, mut l) = setup(|| l.split_at_mut(a))?;
            let (v, w) = setup(|| l.split_at_mut(b - a))?;
            let (mut r, z) = setup(|| r.split_at_mut(e - c))?;
            let (x, y) = setup(|| r.split_at_mut(d - c))?;
            Ok(f(vec![boxed(u), boxed(v), boxed(w), boxed(x), boxed(y), boxed(z)]))
        }
    }
}

/// Split positions valid for `len` bits: increasing, each leaving something on the right.
pub fn positions(p: &Plan, len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = ["s1", "s2", "s3", "s4", "s5"].iter().filter(|k| p.cfg.contains_key(**k)).map(|k| p.us(k)).collect();
    v.sort();
    // every split point must be inside what it splits
    v.retain(|x| *x < len);
    v.dedup();
    v
}

pub fn part_ops(p: &mut Plan, r: &mut Rng, parts: u64) {
    for _ in 0..r.range(4, 40) {
        let a = r.below(parts) as usize;
        let i = match r.below(4) {
            0 => r.below(3),
            1 => u64::MAX - r.below(3), // counted from the end
            _ => r.below(1 << 20),
        };
        let v = r.below(2);
        match r.below(14) {
            0..=3 => p.push(a, "set", &[i, v, r.below(96)]),
            4..=6 => p.push(a, "flip", &[i, r.below(96)]),
            7 => p.push(a, "get", &[i, r.below(96)]),
            8 => p.push(a, "all", &[r.below(1 << 20), r.below(1 << 20), r.below(16)]),
            9 => p.push(a, "sub", &[r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), v, r.below(16)]),
            10 => p.push(a, "resplit", &[r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), v]),
            11 => p.push(a, "setx", &[*r.pick(&[0, 1, 64, 1 << 40]), v]),
            12 => p.push(a, "eq", &[r.below(1 << 20), r.below(16)]),
            _ => p.push(a, "fill", &[r.below(1 << 20), r.range(1, 70), v]),
        };
    }
}

pub fn generate(p: &mut Plan, r: &mut Rng) {
    common(p, r, 5);
    let mode = match r.below(10) {
        0..=5 => 0, // cuts between words, nothing else protects the parts
        6..=8 => 1, // cuts anywhere, every operation under one lock
        _ => 2,     // cuts anywhere, nothing else protects the parts
    };
    p.set("mode", mode);
    let sc = r.below(8) / 7;
    let len = a_len(r, sc).max(70);
    p.set("len", len);
    p.set("pattern", r.below(PATTERNS));
    p.set("pseed", r.next() >> 33);
    let off = if r.chance(1, 2) { 0 } else { r.below(len / 2) };
    p.set("off", off);
    p.set("tail", if r.chance(1, 2) { 0 } else { r.below(len / 3) });
    let parts = p.get("actors").min(6);
    for k in 1..parts {
        let mut at = off + r.below(len - off);
        if mode == 0 {
            at = (at / 64 * 64).max(off);
            if at == off {
                at = (off / 64 + 1) * 64;
            }
        }
        p.set(&format!("s{k}"), at - off);
    }
    part_ops(p, r, parts);
}

/// The position an operation means in a part of `n` bits.
pub fn place(x: u64, n: usize) -> usize {
    if x > u64::MAX - 8 {
        n - 1 - ((u64::MAX - x) as usize).min(n - 1)
    } else {
        x as usize % n
    }
}

/// Runs one operation on a part and its model; compares unless `loose`.
pub fn part_op(part: &mut dyn Part, m: &mut Vec<bool>, o: &Op, loose: &dyn Fn(usize, usize) -> bool) {
    let n = m.len();
    if n == 0 {
        must(o, op(o.id, || part.size()), 0);
        return;
    }
    match o.kind.as_str() {
        "set" => {
            let (i, v) = (place(o.arg(0), n), o.arg(1) != 0);
            must(o, op(o.id, || part.write(o.arg(2), i, v)), ());
            m[i] = v;
        }
        "flip" => {
            let i = place(o.arg(0), n);
            must(o, op(o.id, || part.toggle(o.arg(1), i)), ());
            m[i] = !m[i];
        }
        "fill" => {
            let s = place(o.arg(0), n);
            let e = (s + o.us(1)).min(n);
            let v = o.arg(2) != 0;
            must(
                o,
                op(o.id, || {
                    for i in s..e {
                        part.write(0, i, v)
                    }
                }),
                (),
            );
            m[s..e].fill(v);
        }
        "get" => {
            let i = place(o.arg(0), n);
            let got = op(o.id, || part.read(o.arg(1), i));
            if !loose(i, i + 1) {
                must(o, got, m[i]);
            }
        }
        "all" => {
            let (a, b) = (place(o.arg(0), n), place(o.arg(1), n));
            let (s, e) = (a.min(b), a.max(b) + 1);
            let got = op(o.id, || part.read_all(o.arg(2), s, e));
            if !loose(s, e) {
                must(o, got, fold_bits(m[s..e].iter().copied()));
            }
        }
        "sub" => {
            let (a, b) = (place(o.arg(0), n), place(o.arg(1), n));
            let (s, e) = (a.min(b), a.max(b) + 1);
            let (i, v) = (place(o.arg(2), e - s), o.arg(3) != 0);
            must(o, op(o.id, || part.write_sub(o.arg(4), s, e, i, v)), ());
            m[s + i] = v;
        }
        "resplit" => {
            let at = place(o.arg(0), n);
            let v = o.arg(3) != 0;
            let (i, j) = (o.us(1), o.us(2));
            must(o, op(o.id, || part.write_split(at, i, j, v)), ());
            if at > 0 {
                m[i % at] = v;
            }
            m[at + j % (n - at)] = v;
        }
        "setx" => {
            let i = n.saturating_add(o.us(0));
            refused(o, op(o.id, || part.write(0, i, o.arg(1) != 0)));
        }
        _ => {
            let h = o.us(0) % (n / 2 + 1);
            let got = op(o.id, || part.same_halves(o.arg(1), h));
            if !loose(0, 2 * h) {
                must(o, got, m[..h] == m[h..2 * h]);
            }
        }
    }
}

pub fn execute(p: &Plan, out: &mut Outcome) {
    let len = p.us("len");
    let m: Bits = pattern(p.get("pattern"), len, p.get("pseed"));
    let off = p.us("off").min(len);
    let end = (len - p.us("tail").min(len)).max(off);
    let n = end - off;
    let mode = p.get("mode");
    let mut at = positions(p, n);
    if mode == 0 {
        at.retain(|x| (off + x) % 64 == 0);
    }
    let mut bounds = vec![0];
    bounds.extend(&at);
    bounds.push(n);
    let parts = bounds.len() - 1;
    let mut bv = match setup(|| Box::new(build_bits(&m, 0))) {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "building the bit vector failed: {e:?}"),
    };
    // words that hold bits of two parts
    let mut shared_words: Vec<usize> = Vec::new();
    for x in &at {
        if (off + x) % 64 != 0 {
            shared_words.push((off + x) / 64);
        }
    }
    if mode == 2 {
        let base = bv.raw().as_ptr() as usize;
        simrt::sim().allow = shared_words.iter().map(|w| (base + 8 * w, base + 8 * w + 8)).collect();
    }
    let hits0 = simrt::sim().allow_hits;
    let models: Vec<Mutex<Vec<bool>>> =
        (0..parts).map(|k| Mutex::new(m.b[off + bounds[k]..off + bounds[k + 1]].to_vec())).collect();
    let r = setup(|| bv.slice_mut(off..end)).and_then(|mut root| {
        with_parts(&mut root, &at, |views| {
            run_actors(p.actors(), |me| {
                if me >= parts {
                    return;
                }
                let mut view = views[me].lock().unwrap().take().unwrap();
                let mut m = models[me].lock().unwrap();
                let first = off + bounds[me];
                let loose = |s: usize, e: usize| {
                    mode == 2 && s < e && shared_words.iter().any(|w| *w >= (first + s) / 64 && *w <= (first + e - 1) / 64)
                };
                for o in ops_of(p, me) {
                    if violated() {
                        break;
                    }
                    if mode == 1 {
                        lock(0, true);
                    }
                    part_op(&mut *view, &mut m, o, &loose);
                    if mode == 1 {
                        unlock(0);
                    }
                }
            });
        })
    });
    if let Err(e) = r {
        bad!("unexpected-failure", "creating the views failed: {e:?}");
    }
    let mut want = m.b.clone();
    for k in 0..parts {
        want[off + bounds[k]..off + bounds[k + 1]].copy_from_slice(&models[k].lock().unwrap());
    }
    let mut lost = 0;
    match setup(|| bv.iter().collect::<Vec<bool>>()) {
        Err(e) => bad!("unexpected-failure", "reading the bit vector failed: {e:?}"),
        Ok(got) => {
            if got.len() != len {
                bad!("wrong-result", "the bit vector has {} bits instead of {len}", got.len());
            }
            for i in 0..len.min(got.len()) {
                if got[i] != want[i] {
                    if mode == 2 && shared_words.contains(&(i / 64)) {
                        lost += 1;
                    } else {
                        bad!("lost-update", "bit {i} (part {}) is {} but its own thread left it {}",
                            bounds.iter().rposition(|b| off + b <= i).unwrap_or(0), got[i] as u8, want[i] as u8);
                        break;
                    }
                }
            }
            let _ = setup(move || drop(got));
        }
    }
    if lost > 0 || simrt::sim().allow_hits > hits0 {
        out.known.push(("shared-boundary-word", format!("{lost} bits lost, {} unsynchronised conflicting accesses", simrt::sim().allow_hits - hits0)));
    }
    out.nontrivial = parts > 1;
    let _ = setup(move || drop(bv));
}
