//! Iteration over failing storage (C11) and rendering into a failing sink (C12).
use crate::model::{a_len, pattern, PATTERNS};
use crate::plan::{Op, Plan};
use crate::w_dev::{device, Dev};
use crate::w_read::{build_bits, fold_bits};
use crate::{args, bad, common, fold, ops_of, Outcome};
use simrt::{allocs_in_op, lock, op, run_actors, setup, unlock, violated, DevFault, Fail, Rng};
use std::fmt::{Debug, Write};
use std::sync::Mutex;
use succinct_neo::bit_vec::{BitSlice, BitVec};
use succinct_neo::int_vec::IntVec;

pub fn generate(p: &mut Plan, r: &mut Rng) {
    common(p, r, 5);
    let actors = p.get("actors");
    if p.prop == "C11" {
        let len = r.range(3, 150);
        p.set("len", len);
        p.set("off", r.below(len / 2 + 1));
        p.set("tail", r.below(len / 3 + 1));
        p.set("pseed", r.next() >> 33);
        let its = r.range(1, 3);
        p.set("iters", its);
        for k in 0..its {
            p.set(&format!("i{k}"), r.below(KINDS));
        }
        for _ in 0..r.range(4, 40) {
            let a = r.below(actors) as usize;
            let k = r.below(its);
            let id = match r.below(15) {
                0..=4 => p.push(a, "next", &[k]),
                5 | 6 => p.push(a, "many", &[k, r.range(2, 20)]),
                7 | 8 => p.push(a, "nth", &[k, *r.pick(&[0, 1, 2, 3, 5, 8, 11, 40, 200, 1 << 40, u64::MAX])]),
                9 => p.push(a, "len", &[k]),
                10 => p.push(a, "new", &[k, r.below(KINDS)]),
                11 | 12 => p.push(a, "find", &[k, r.below(5), r.below(2)]),
                13 => p.push(a, "use", &[k, r.below(7), r.range(1, 9), r.below(KINDS)]),
                _ => p.push(a, "rest", &[k, r.below(3)]),
            };
            if r.chance(2, 5) {
                let n = if r.chance(1, 2) { 0 } else { r.below(15) };
                p.fault("dev", &[id as u64, n]);
            }
            if r.chance(1, 12) {
                p.fault("nest", &[id as u64, r.below(3), r.below(1 << 14)]);
            }
        }
        for _ in 0..r.below(3) {
            p.fault("sector", &[r.below(len), r.range(1, 2)]);
        }
        return;
    }
    p.set("len", a_len(r, 0).min(400));
    p.set("pattern", r.below(PATTERNS));
    p.set("pseed", r.next() >> 33);
    p.set("width", r.range(1, 63));
    p.set("n", r.below(40));
    for _ in 0..r.range(2, 16) {
        let a = r.below(actors) as usize;
        let style = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3]);
        let id = p.push(a, "fmt", &[r.below(5), style]);
        match r.below(6) {
            0 => {}
            5 => p.fault("sink", &[id as u64, 4, if r.chance(1, 2) { r.below(30) } else { r.below(1200) }]), // panics
            1 => p.fault("sink", &[id as u64, 0, r.below(12)]), // fails at the n-th write
            4 => p.fault("sink", &[id as u64, 2, if r.chance(1, 2) { r.below(30) } else { r.below(1200) }]), // fails once only
            _ => {
                let n = if r.chance(1, 2) { r.below(30) } else { r.below(1200) };
                p.fault("sink", &[id as u64, 1, n]) // fails after n bytes
            }
        }
        if r.chance(1, 5) {
            p.fault("alloc", &[id as u64, r.below(8), r.below(2)]);
        }
        if r.chance(1, 8) {
            p.fault("nest", &[id as u64, *r.pick(&[0, 0, 1, 2, 5, 20]), r.below(1 << 14)]);
        }
    }
}

pub fn execute(p: &Plan, out: &mut Outcome) {
    if p.prop == "C11" {
        iterate(p, out)
    } else {
        render(p, out)
    }
}

/// An iterator of any type, always driven through its own methods rather than the provided ones.
trait Steps {
    fn next(&mut self) -> Option<bool>;
    fn nth(&mut self, n: usize) -> Option<bool>;
    fn lens(&self) -> (usize, (usize, Option<usize>));
    fn rest(&mut self, how: u64) -> usize;
    /// Looks for the first element equal to `v`: how many were passed over before it, if there is one.
    fn find(&mut self, how: u64, v: bool) -> Option<Option<usize>>;
    /// Uses the iterator up: a value computed from what it delivered.
    fn finish(self: Box<Self>, how: u64, k: usize) -> u64;
}

impl<I: ExactSizeIterator<Item = bool>> Steps for I {
    fn next(&mut self) -> Option<bool> {
        Iterator::next(self)
    }
    fn nth(&mut self, n: usize) -> Option<bool> {
        Iterator::nth(self, n)
    }
    fn lens(&self) -> (usize, (usize, Option<usize>)) {
        (self.len(), self.size_hint())
    }
    fn rest(&mut self, how: u64) -> usize {
        match how {
            0 => self.by_ref().count(),
            1 => self.by_ref().filter(|b| *b).count(),
            _ => self.try_fold(0usize, |n, b| Some(n + b as usize)).unwrap(),
        }
    }
    fn find(&mut self, how: u64, v: bool) -> Option<Option<usize>> {
        match how {
            0 => self.position(|b| b == v).map(Some),
            1 => self.any(|b| b == v).then_some(None),
            2 => (!self.all(|b| b != v)).then_some(None),
            3 => Iterator::find(self, |b| *b == v).map(|_| None),
            _ => self.try_for_each(|b| if b == v { Err(()) } else { Ok(()) }).is_err().then_some(None),
        }
    }
    fn finish(self: Box<Self>, how: u64, k: usize) -> u64 {
        let it = *self;
        match how {
            0 => it.count() as u64,
            1 => it.last().map_or(2, |b| b as u64),
            2 => fold_bits(it).0,
            3 => it.collect::<Vec<bool>>().into_iter().fold(0, |h, b| fold(h, b as u64 + 1)),
            4 => {
                let mut h = 0;
                it.for_each(|b| h = fold(h, b as u64 + 1));
                h
            }
            5 => it.step_by(k).fold(0, |h, b| fold(h, b as u64 + 1)),
            _ => it.skip(k).fold(0, |h, b| fold(h, b as u64 + 1)),
        }
    }
}

/// What `finish` has to compute for these elements.
fn finished(b: &[bool], how: u64, k: usize) -> u64 {
    let all = |i: &mut dyn Iterator<Item = &bool>| i.fold(0, |h, b| fold(h, *b as u64 + 1));
    match how {
        0 => b.len() as u64,
        1 => b.last().map_or(2, |b| *b as u64),
        2 => fold_bits(b.iter().copied()).0,
        3 | 4 => all(&mut b.iter()),
        5 => all(&mut b.iter().step_by(k)),
        _ => all(&mut b.iter().skip(k)),
    }
}

struct It<'a> {
    it: Box<dyn Steps + Send + 'a>,
    /// Possible positions; empty means nothing fits.
    at: Vec<usize>,
    end: usize,
}

const KINDS: u64 = 7;

fn fresh<'a>(bits: &'a BitSlice<Dev<'a>>, dev: &'a Dev<'a>, kind: u64, off: usize, end: usize) -> Result<It<'a>, Fail> {
    let (s, e) = match kind {
        0 | 1 | 4 | 5 => (off, end),
        _ => (off + (end - off) / 3, end - (end - off) / 4),
    };
    let it: Box<dyn Steps + Send + 'a> = match kind {
        0 => Box::new(setup(|| BitSlice::new(*dev, off, end).into_iter())?),
        1 => Box::new(setup(|| bits.clone().into_iter())?),
        2 => Box::new(setup(|| succinct_neo::bit_vec::slice::Iter::new(*dev, s, e))?),
        3 => Box::new(setup(|| BitSlice::new(*dev, s, e).into_iter())?),
        4 => Box::new(setup(|| bits.iter())?),
        5 => Box::new(setup(|| bits.into_iter())?),
        _ => Box::new(setup(|| bits.slice(s - off..e - off).into_iter())?),
    };
    Ok(It { it, at: vec![s], end: e })
}

fn iterate(p: &Plan, out: &mut Outcome) {
    let len = p.us("len").max(1);
    let off = p.us("off").min(len);
    let end = (len - p.us("tail").min(len)).max(off);
    let bits = pattern(2, len, p.get("pseed")).b;
    let cell = device(bits.clone(), p.actors());
    let dev = Dev(&cell);
    for i in (0..off).chain(end..len) {
        dev.st().bad[i] = true;
    }
    for f in &p.faults {
        if f.0 == "sector" {
            for i in 0..f.1[1] as usize {
                dev.st().bad[(f.1[0] as usize + i) % len] = true;
            }
            simrt::count("bad_sector", 1);
        }
    }
    let n = p.us("iters").clamp(1, 4);
    let whole = BitSlice::new(dev, off, end);
    let mut its = Vec::new();
    for k in 0..n {
        match fresh(&whole, &dev, p.get(&format!("i{k}")), off, end) {
            Ok(x) => its.push(Mutex::new(x)),
            Err(e) => return bad!("unexpected-failure", "starting an iteration failed: {e:?}"),
        }
    }
    run_actors(p.actors(), |me| {
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let k = o.us(0) % n;
            lock(k, true);
            let mut it = its[k].lock().unwrap();
            dev.st().fail_in[me] = p.faults_of("dev", o.id).first().map(|f| f[0]);
            dev.st().nest_in[me] = p.faults_of("nest", o.id).first().map(|f| (f[0], f[1]));
            if o.kind == "new" {
                match fresh(&whole, &dev, o.arg(1) % KINDS, off, end) {
                    Ok(x) => *it = x,
                    Err(e) => bad!("unexpected-failure", "starting an iteration failed: {e:?}"),
                }
            } else if o.kind == "use" {
                match fresh(&whole, &dev, o.arg(3) % KINDS, off, end) {
                    Ok(x) => use_up(&dev, &bits, std::mem::replace(&mut *it, x), o, me),
                    Err(e) => bad!("unexpected-failure", "starting an iteration failed: {e:?}"),
                }
            } else {
                step(&dev, &bits, &mut it, o, me);
            }
            dev.st().fail_in[me] = None;
            dev.st().nest_in[me] = None;
            drop(it);
            unlock(k);
        }
    });
    out.nontrivial = end > off;
}

fn step(dev: &Dev, bits: &[bool], it: &mut It, o: &Op, me: usize) {
    let what = format!("operation {} ({}{})", o.id, o.kind, args(o));
    let times = if o.kind == "many" { o.us(1) } else { 1 };
    for round in 0..times {
        if violated() {
            return;
        }
        let from = dev.st().log.len();
        let id = o.id + 0x10000 * round as u32;
        let end = it.end;
        let x = &mut it.it;
        // Some(Some(b)): an element; Some(None): the end; None: no element involved
        let mut jump = 0usize;
        let mut count = None;
        let mut found: Result<Option<Option<usize>>, Fail> = Ok(None);
        let got: Result<Option<Option<bool>>, Fail> = match o.kind.as_str() {
            "next" | "many" => op(id, || Some(x.next())),
            "nth" => {
                jump = o.us(1);
                op(id, || Some(x.nth(jump)))
            }
            "rest" => {
                let r = op(id, || x.rest(o.arg(1)));
                count = r.as_ref().ok().copied();
                r.map(|_| None)
            }
            "find" => {
                found = op(id, || x.find(o.arg(1), o.arg(2) != 0));
                found.as_ref().map(|_| None).map_err(|e| e.clone())
            }
            _ => {
                let r = op(id, || x.lens());
                match &r {
                    Ok((l, (lo, hi))) => {
                        it.at.retain(|a| end - a == *l);
                        if it.at.is_empty() || lo > l || hi.is_some_and(|h| h < *l) {
                            return bad!("wrong-result", "{what}: reports {l} remaining elements (hint {lo}..{hi:?}), which is not what is left of the iteration");
                        }
                    }
                    Err(e) => return bad!("unexpected-failure", "{what} failed: {e:?}"),
                }
                return;
            }
        };
        let log = dev.st().log[from..].to_vec();
        let mine: Vec<_> = log.iter().filter(|a| a.actor == me).collect();
        let failed = mine.iter().find(|a| a.failed);
        for a in &mine {
            if a.write {
                return bad!("wrong-bit-written", "{what}: iterating wrote device bit {}", a.bit);
            }
            if a.bit >= end || !it.at.iter().any(|s| a.bit >= *s) {
                return bad!("escaped-view", "{what}: iterating accessed bit {} outside what is left", a.bit);
            }
        }
        let mut next: Vec<usize> = Vec::new();
        match got {
            Err(Fail::Dev) => {
                let Some(f) = failed else { return bad!("unexpected-failure", "{what} failed without a device failure") };
                // what was passed over before is gone, the failed element is still to come
                if jump == 0 && !matches!(o.kind.as_str(), "rest" | "find") && !it.at.contains(&f.bit) {
                    return bad!("wrong-result", "{what}: failed at bit {} although the next one is {:?}", f.bit, it.at);
                }
                next.push(f.bit);
                simrt::count("device_fail_seen", 1);
            }
            Err(e) => return bad!("unexpected-failure", "{what} failed: {e:?}"),
            Ok(r) => {
                if failed.is_some() {
                    return bad!("failure-swallowed", "{what} returned {r:?} although reading bit {} failed", failed.unwrap().bit);
                }
                for &a in &it.at {
                    match (r, count) {
                        (None, None) => {
                            let first = bits[a..end].iter().position(|b| *b == (o.arg(2) != 0));
                            if matches!(&found, Ok(f) if f.is_some() == first.is_some() && f.flatten().is_none_or(|i| Some(i) == first)) {
                                next.push(first.map_or(end, |i| a + i + 1));
                            }
                        }
                        (None, Some(c)) => {
                            let rest = &bits[a..end];
                            let want = if o.arg(1) == 0 { rest.len() } else { rest.iter().filter(|b| **b).count() };
                            if c == want {
                                next.push(end);
                            }
                        }
                        (Some(Some(b)), _) => {
                            if jump < end - a && bits[a + jump] == b {
                                next.push(a + jump + 1);
                            }
                        }
                        (Some(None), _) => {
                            if jump >= end - a {
                                next.push(end);
                            }
                        }
                    }
                }
                if next.is_empty() {
                    return bad!("wrong-result", "{what}: got {r:?} {count:?} {found:?} at position {:?} of {end}, the bits there say otherwise", it.at);
                }
            }
        }
        next.sort();
        next.dedup();
        it.at = next;
        // the number of remaining elements must fit one of the possible positions
        let l = match setup(|| it.it.lens().0) {
            Ok(l) => l,
            Err(e) => return bad!("unexpected-failure", "asking for the remaining length after {what} failed: {e:?}"),
        };
        it.at.retain(|a| end - a == l);
        if it.at.is_empty() {
            return bad!("wrong-result", "after {what} the iteration reports {l} remaining elements, which does not fit what was delivered");
        }
    }
}

/// Consumes the iterator with one of the adapters.
fn use_up(dev: &Dev, bits: &[bool], it: It, o: &Op, me: usize) {
    let what = format!("operation {} ({}{})", o.id, o.kind, args(o));
    let from = dev.st().log.len();
    let (how, k, end) = (o.arg(1), o.us(2).max(1), it.end);
    let got = op(o.id, move || it.it.finish(how, k));
    let log = dev.st().log[from..].to_vec();
    let failed = log.iter().find(|a| a.actor == me && a.failed);
    for a in log.iter().filter(|a| a.actor == me) {
        if a.write {
            return bad!("wrong-bit-written", "{what}: iterating wrote device bit {}", a.bit);
        }
        if a.bit >= end || !it.at.iter().any(|s| a.bit >= *s) {
            return bad!("escaped-view", "{what}: iterating accessed bit {} outside what is left", a.bit);
        }
    }
    match (got, failed) {
        (Err(Fail::Dev), Some(_)) => simrt::count("device_fail_seen", 1),
        (Ok(g), None) => {
            if !it.at.iter().any(|a| finished(&bits[*a..end], how, k) == g) {
                bad!("wrong-result", "{what}: the value computed from the rest of the iteration is wrong at position {:?} of {end}", it.at)
            }
        }
        (Ok(_), Some(f)) => bad!("failure-swallowed", "{what} returned although reading bit {} failed", f.bit),
        (Err(e), _) => bad!("unexpected-failure", "{what} failed: {e:?}"),
    }
}

/// Collects what is written until it is told to fail.
struct Sink {
    got: String,
    writes: u64,
    fail: Option<(u64, u64)>,
    failed: bool,
    /// At which write it prints something itself, and what.
    nest: Option<(u64, u64)>,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        simrt::dev_point(s.len() as u64);
        if let Some((n, how)) = self.nest {
            if n == self.writes {
                // mostly printing
                crate::nest::others(if how % 2 == 0 { 4 } else { how / 2 }, how / crate::nest::KINDS)
            }
        }
        simrt::paused(|| {
            let n = self.writes;
            self.writes += 1;
            match self.fail {
                Some((0, k)) if n >= k => self.failed = true,
                Some((1, k)) if (self.got.len() + s.len()) as u64 > k => {
                    // a short write
                    let room = k as usize - self.got.len().min(k as usize);
                    self.got.push_str(&s[..room.min(s.len())]);
                    self.failed = true;
                    self.fail = Some((0, 0));
                }
                Some((2, k)) if (self.got.len() + s.len()) as u64 > k => {
                    // fails once; whatever is written later would be accepted
                    self.failed = true;
                    self.fail = Some((3, 0));
                }
                Some((4, k)) if (self.got.len() + s.len()) as u64 > k => {
                    // does not return
                    self.failed = true;
                    self.fail = None;
                    simrt::count("sink_panic", 1);
                    return None;
                }
                Some((0 | 1, _)) if self.failed => {}
                _ => {
                    self.got.push_str(s);
                    return Some(Ok(()));
                }
            }
            simrt::count("sink_fail", 1);
            Some(Err(std::fmt::Error))
        })
        .unwrap_or_else(|| std::panic::panic_any(DevFault))
    }
}

fn render(p: &Plan, out: &mut Outcome) {
    let len = p.us("len").min(600);
    let m = pattern(p.get("pattern"), len, p.get("pseed"));
    let w = p.get("width").clamp(1, 63);
    let vals = crate::w_read::values(w, p.us("n").min(200), p.get("pseed"));
    let built = setup(|| {
        let b = Box::new(build_bits(&m, 0));
        let mut v = Box::new(IntVec::new(w as usize));
        for x in &vals {
            v.push(*x)
        }
        (b, v)
    });
    let (b, v): (Box<BitVec>, Box<IntVec>) = match built {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "building failed: {e:?}"),
    };
    let s = match setup(|| (b.slice(len / 3..len - len / 4), b.slice(..).into_iter())) {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "creating a view failed: {e:?}"),
    };
    let things: [&(dyn Debug + Sync); 5] = [&*b, &*v, &s.0, &s.1, &**b];
    let full = match setup(|| things.map(|t| [format!("{t:?}"), format!("{t:#?}"), format!("{t:5?}"), format!("{t:#06x?}")])) {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "printing failed: {e:?}"),
    };
    let bits: String = m.b.iter().map(|b| if *b { '1' } else { '0' }).collect();
    for t in &full[0][..2] {
        if t.chars().filter(|c| "01".contains(*c)).collect::<String>() != bits {
            return bad!("wrong-output", "the text of a bit vector does not show its bits");
        }
    }
    let faults = p.alloc_faults();
    run_actors(p.actors(), |me| {
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let what = format!("operation {} (rendering structure {})", o.id, o.arg(0));
            let i = o.us(0) % 5;
            let style = o.us(1) % 4;
            let want = &full[i][style];
            let fail = p.faults_of("sink", o.id).first().map(|f| (f[0], f[1]));
            let nest = p.faults_of("nest", o.id).first().map(|f| (f[0], f[1]));
            let mut sink = Sink { got: String::with_capacity(want.len() + 64), writes: 0, fail, failed: false, nest };
            let r = op(o.id, || match style {
                0 => write!(sink, "{:?}", things[i]),
                1 => write!(sink, "{:#?}", things[i]),
                2 => write!(sink, "{:5?}", things[i]),
                _ => write!(sink, "{:#06x?}", things[i]),
            });
            let injected = faults.get(&o.id).is_some_and(|f| allocs_in_op() > f.0);
            if !want.starts_with(sink.got.as_str()) {
                bad!("wrong-output", "{what}: the sink received something that is not the beginning of the rendering ({} bytes)", sink.got.len());
            }
            match r {
                Ok(Ok(())) => {
                    if sink.failed {
                        bad!("failure-swallowed", "{what} reported success although the sink failed");
                    } else if sink.got != *want {
                        bad!("wrong-output", "{what} reported success but delivered {} of {} bytes", sink.got.len(), want.len());
                    }
                }
                Ok(Err(_)) => {
                    if !sink.failed && !injected {
                        bad!("unexpected-failure", "{what} reported an error although the sink did not fail");
                    }
                }
                Err(Fail::Dev) if sink.failed && fail.is_some_and(|f| f.0 == 4) => {}
                Err(e) => {
                    if !injected {
                        bad!("unexpected-failure", "{what} did not return: {e:?}");
                    } else {
                        simrt::count("alloc_fail_reported", 1);
                    }
                }
            }
        }
    });
    match setup(|| b.iter().collect::<Vec<bool>>()) {
        Ok(g) => {
            if g != m.b {
                bad!("changed", "rendering changed the bit vector");
            }
            let _ = setup(move || drop(g));
        }
        Err(e) => bad!("unexpected-failure", "reading the bit vector failed: {e:?}"),
    }
    out.nontrivial = len > 0;
    drop(s);
    let _ = setup(move || drop((b, v)));
}
