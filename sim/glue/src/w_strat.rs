//! Misbehaving user-supplied parts: search strategies (C13) and range objects (C14).
use crate::model::{a_len, pattern, Counts, PATTERNS};
use crate::plan::Plan;
use crate::w_read::{build_bits, must};
use crate::{args, bad, common, ops_of, Outcome};
use simrt::{op, paused, run_actors, setup, violated, DevFault, Fail, Rng};
use std::ops::{Bound, RangeBounds};
use std::sync::Mutex;
use succinct_neo::bit_vec::{BitSlice, BitVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

pub fn generate(p: &mut Plan, r: &mut Rng, index: u64) {
    common(p, r, 5);
    let actors = p.get("actors");
    if p.prop == "C13" {
        let scale = match r.below(100) {
            0..=59 => 0,
            60..=93 => 1,
            _ => 2,
        };
        p.set("len", a_len(r, scale));
        p.set("pattern", r.below(PATTERNS));
        p.set("pseed", r.next() >> 33);
        p.set("budget", 20_000_000);
        for _ in 0..r.range(2, 24) {
            let a = r.below(actors) as usize;
            let k = r.below(1 << 20);
            match r.below(6) {
                0 | 1 => p.push(a, "ask", &[k]),
                2 => p.push(a, "rank", &[k]),
                3 if r.chance(1, 4) => {
                    let id = p.push(a, "ask", &[k]);
                    p.fault("nest", &[id as u64, r.below(2), r.below(1 << 20)]);
                    id
                }
                _ => {
                    let id = p.push(a, "ask", &[k]);
                    match r.below(5) {
                        0 => p.fault("strat", &[id as u64, 1, 0, 0]),
                        1 => p.fault("strat", &[id as u64, 2, lie_l2(r), lie_ones(r)]),
                        2 => p.fault("strat", &[id as u64, 3, r.below(8), 0]),
                        3 => p.fault("strat", &[id as u64, 4, 0, lie_ones(r)]),
                        _ => p.fault("strat", &[id as u64, 5, r.range(1, 7), 0]),
                    }
                    id
                }
            };
        }
        let _ = index;
        return;
    }
    let len = a_len(r, 0).clamp(1, 330);
    p.set("len", len);
    p.set("off", if r.chance(1, 3) { 0 } else { r.below(len) });
    p.set("tail", if r.chance(1, 3) { 0 } else { r.below(len / 2 + 1) });
    p.set("pseed", r.next() >> 33);
    for i in 0..6 {
        p.set(&format!("shared{i}"), bound(r, len));
    }
    for _ in 0..r.range(2, 24) {
        let a = r.below(actors) as usize;
        // how the range object answers: 0 always the same, 1 changes from call to call, 2 shared with others
        let kind = r.below(3);
        let id = p.push(a, ["slice", "slice_mut", "top"][r.below(3) as usize], &[
            kind,
            r.below(3),
            bound(r, len),
            r.below(3),
            bound(r, len),
            r.below(3),
            bound(r, len),
            r.below(3),
            bound(r, len),
        ]);
        if r.chance(1, 6) {
            p.fault("range", &[id as u64, r.below(4)]);
        }
        if r.chance(1, 10) {
            p.fault("nest", &[id as u64, r.below(3), r.below(1 << 14)]);
        }
    }
}

fn lie_l2(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 | 1 => r.below(8),
        2 => r.range(8, 200),
        _ => *r.pick(&[1 << 20, 1 << 40, 1 << 55, 1 << 61, u64::MAX >> 3, u64::MAX]),
    }
}

fn lie_ones(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.below(4),
        1 => r.below(600),
        2 => r.below(5000),
        _ => *r.pick(&[4095, 1 << 40, 1 << 63, u64::MAX]),
    }
}

fn bound(r: &mut Rng, len: u64) -> u64 {
    match r.below(6) {
        0..=2 => r.below(len + 1),
        3 => (len + r.below(3)).saturating_sub(1),
        4 => r.below(2 * len + 3),
        _ => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 0]),
    }
}

pub fn execute(p: &Plan, out: &mut Outcome) {
    if p.prop == "C13" {
        strategies(p, out)
    } else {
        ranges(p, out)
    }
}

// ---- C13 ------------------------------------------------------------------------------------------------

/// What the strategy does for the operation an actor is in, and whether it was asked.
#[derive(Clone, Copy, Default)]
struct Mood {
    how: u64,
    l2: u64,
    ones: u64,
    asked: u64,
    /// What the strategy does itself before it answers: 1 + how
    nest: u64,
    nested: Option<(usize, Option<usize>)>,
}

/// The index that is being asked, for strategies that ask it too.
static mut ASKED: *const FlatPopcount<'static, Wild> = std::ptr::null();

static MOODS: Mutex<[Mood; 64]> = Mutex::new([Mood { how: 0, l2: 0, ones: 0, asked: 0, nest: 0, nested: None }; 64]);

struct Wild;

impl SelectStrategy for Wild {
    fn find_l2(entry: u128, rank: usize) -> (usize, usize) {
        simrt::dev_point(rank as u64);
        let actor = unsafe { simrt::TL.actor };
        let m = paused(|| {
            let mut t = MOODS.lock().unwrap();
            let m = &mut t[if actor < 63 { actor } else { 63 }];
            m.asked += 1;
            let r = *m;
            m.nest = 0;
            r
        });
        if m.nest > 0 {
            let k = m.nest - 1;
            if k % 2 == 0 {
                crate::nest::others(k / 2, k / 2 / crate::nest::KINDS)
            } else if let Some(i) = paused(|| unsafe { ASKED.as_ref() }) {
                let k = k as usize / 2 % 5000;
                let got = i.select(k);
                paused(|| {
                    simrt::count("nested_use", 1);
                    // compared when the outer query is over
                    MOODS.lock().unwrap()[if actor < 63 { actor } else { 63 }].nested = Some((k, got))
                });
            }
        }
        let honest = if rank % 2 == 0 { BinarySearch::find_l2(entry, rank) } else { LinearSearch::find_l2(entry, rank) };
        let count = |n: &'static str| paused(|| simrt::count(n, 1));
        match m.how {
            0 => honest,
            1 => {
                count("strategy_panic");
                std::panic::panic_any(DevFault)
            }
            2 => {
                count("strategy_lie");
                (m.l2 as usize, m.ones as usize)
            }
            3 => {
                count("strategy_lie");
                (m.l2 as usize, honest.1)
            }
            4 => {
                count("strategy_lie");
                (honest.0, m.ones as usize)
            }
            _ => {
                count("strategy_lie");
                ((honest.0 + m.l2 as usize) % 8, honest.1)
            }
        }
    }
}

fn strategies(p: &Plan, out: &mut Outcome) {
    let len = p.us("len");
    let m = pattern(p.get("pattern"), len, p.get("pseed"));
    let c = Counts::of(&m);
    let bv = match setup(|| Box::new(build_bits(&m, 0))) {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "building the bit vector failed: {e:?}"),
    };
    let idx = match setup(|| Box::new(FlatPopcount::<Wild>::new(&bv))) {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "building the index failed: {e:?}"),
    };
    *MOODS.lock().unwrap() = [Mood::default(); 64];
    unsafe { ASKED = (&*idx as *const FlatPopcount<Wild>).cast() };
    let n = c.ones.len();
    let want = |k: usize| c.ones.get(k).map(|x| *x as usize);
    run_actors(p.actors(), |me| {
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            if o.kind == "rank" {
                let x = o.us(0) % (len + 1);
                must(o, op(o.id, || idx.rank::<true>(x)), c.before[x] as usize);
                continue;
            }
            let k = o.us(0) % (n + 2);
            let mood = p.faults_of("strat", o.id).first().map_or(Mood::default(), |f| Mood { how: f[0], l2: f[1], ones: f[2], ..Mood::default() });
            let mood = Mood { nest: p.faults_of("nest", o.id).first().map_or(0, |f| f[1] + 1), ..mood };
            MOODS.lock().unwrap()[me] = mood;
            let got = op(o.id, || idx.select(k));
            let Mood { asked, nested, .. } = MOODS.lock().unwrap()[me];
            MOODS.lock().unwrap()[me] = Mood::default();
            let what = format!("operation {} (select {k} with strategy behaviour {})", o.id, mood.how);
            if let Some((k, g)) = nested {
                if g != want(k) {
                    bad!("wrong-result", "{what}: the strategy itself asked for {k} and got {g:?}, expected {:?}", want(k));
                }
            }
            if mood.how == 0 || asked == 0 {
                must(o, got, want(k));
            } else if mood.how == 1 {
                if got != Err(Fail::Dev) {
                    bad!("failure-swallowed", "{what}: the strategy panicked but the query ended with {got:?}");
                }
            } else if let Ok(Some(x)) = got {
                // a wrong answer was asked for, but it has to be a position of the vector
                let _ = x;
            }
            // whatever happened, an honest query afterwards is exact
            if mood.how != 0 && !violated() {
                must(o, op(o.id | 0x4000_0000, || (idx.select(k), idx.select(k / 2))), (want(k), want(k / 2)));
            }
        }
    });
    unsafe { ASKED = std::ptr::null() };
    let _ = setup(move || drop(idx));
    match setup(|| crate::w_read::fold_bits(bv.iter())) {
        Ok(h) if h == crate::w_read::fold_bits(m.b.iter().copied()) => {}
        _ => bad!("changed", "the bit vector changed although it was only read"),
    }
    out.nontrivial = n > 0;
    let _ = setup(move || drop(bv));
}

// ---- C14 ------------------------------------------------------------------------------------------------

const KINDS: [fn(usize) -> Bound<usize>; 3] = [Bound::Included, Bound::Excluded, |_| Bound::Unbounded];

struct Wobbly<'a> {
    /// The answers of successive calls; the last one is repeated.
    starts: Vec<Bound<usize>>,
    ends: Vec<Bound<usize>>,
    /// Answers that depend on how often anybody has asked so far.
    shared: Option<(&'a Mutex<usize>, &'a [usize])>,
    panic_at: Option<u64>,
    /// At which call the object uses other structures itself, and how.
    nest: Option<(u64, u64)>,
    log: &'a Mutex<(Vec<Bound<usize>>, Vec<Bound<usize>>)>,
    keep: [std::cell::OnceCell<Bound<usize>>; 16],
}

impl Wobbly<'_> {
    fn answer(&self, start: bool) -> Bound<&usize> {
        simrt::dev_point(start as u64);
        if let Some((n, how)) = self.nest {
            if paused(|| { let l = self.log.lock().unwrap(); l.0.len() + l.1.len() }) as u64 == n {
                crate::nest::others(how, how / crate::nest::KINDS)
            }
        }
        let r = paused(|| {
            let mut log = self.log.lock().unwrap();
            let calls = log.0.len() + log.1.len();
            if self.panic_at == Some(calls as u64) {
                simrt::count("range_panic", 1);
                return None;
            }
            let (list, given) = if start { (&self.starts, &mut log.0) } else { (&self.ends, &mut log.1) };
            let mut b = list[given.len().min(list.len() - 1)];
            if let Some((n, table)) = self.shared {
                let mut n = n.lock().unwrap();
                b = if start { Bound::Included(table[*n % table.len()]) } else { Bound::Excluded(table[*n % table.len()]) };
                *n += 1;
            }
            given.push(b);
            let slot = &self.keep[calls % 16];
            let _ = slot.set(b);
            simrt::count("range_answer", 1);
            Some(slot.get().unwrap())
        });
        match r {
            Some(b) => b.as_ref(),
            None => std::panic::panic_any(DevFault),
        }
    }
}

impl RangeBounds<usize> for Wobbly<'_> {
    fn start_bound(&self) -> Bound<&usize> {
        self.answer(true)
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.answer(false)
    }
}

/// The window a bound pair means, if it is one.
fn window(s: Bound<usize>, e: Bound<usize>, n: usize) -> Option<(usize, usize)> {
    let s = match s {
        Bound::Included(x) => x,
        Bound::Excluded(x) => x.checked_add(1)?,
        Bound::Unbounded => 0,
    };
    let e = match e {
        Bound::Included(x) => x.checked_add(1)?,
        Bound::Excluded(x) => x,
        Bound::Unbounded => n,
    };
    (s <= e && e <= n).then_some((s, e))
}

fn ranges(p: &Plan, out: &mut Outcome) {
    let len = p.us("len").clamp(1, 2000);
    let off = p.us("off").min(len);
    let end = (len - p.us("tail").min(len)).max(off);
    let m = pattern(2, len, p.get("pseed"));
    let table: Vec<usize> = (0..6).map(|i| p.us(&format!("shared{i}"))).collect();
    let calls = Mutex::new(0usize);
    let common = match setup(|| Box::new(build_bits(&m, 0))) {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "building the bit vector failed: {e:?}"),
    };
    let own: Vec<Mutex<BitVec>> = match setup(|| (0..p.actors()).map(|_| build_bits(&m, 1)).collect::<Vec<_>>()) {
        Ok(x) => x.into_iter().map(Mutex::new).collect(),
        Err(e) => return bad!("unexpected-failure", "building the bit vector failed: {e:?}"),
    };
    run_actors(p.actors(), |me| {
        let mut mine = own[me].lock().unwrap();
        let mut model = m.b.clone();
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let log = Mutex::new((Vec::new(), Vec::new()));
            let mk = |k: usize| KINDS[o.us(k) % 3](o.us(k + 1));
            let kind = o.arg(0);
            let w = Wobbly {
                starts: if kind == 1 { vec![mk(1), mk(5)] } else { vec![mk(1)] },
                ends: if kind == 1 { vec![mk(3), mk(7)] } else { vec![mk(3)] },
                shared: (kind == 2).then_some((&calls, &table[..])),
                panic_at: p.faults_of("range", o.id).first().map(|f| f[0]),
                nest: p.faults_of("nest", o.id).first().map(|f| (f[0], f[1])),
                log: &log,
                keep: Default::default(),
            };
            let (p0, p1) = if o.kind == "top" { (0, len) } else { (off, end) };
            let n = p1 - p0;
            let what = format!("operation {} ({}{})", o.id, o.kind, args(o));
            // the parent is itself a view, so that escaping it stays visible
            let panics = w.panic_at;
            let mut size = Ok(n);
            // without the checks only if the object describes one valid window
            let free = kind == 0 && o.id % 3 == 0 && window(mk(1), mk(3), n).is_some();
            let got: Result<(usize, Option<Vec<bool>>), Fail> = match o.kind.as_str() {
                "slice" => setup(|| common.slice(p0..p1)).and_then(|parent| {
                    let r = op(o.id, || look(&parent, w, n, free));
                    size = setup(|| parent.len());
                    r
                }),
                "slice_mut" => setup(|| mine.slice_mut(p0..p1)).and_then(|mut parent| {
                    let r = op(o.id, || flip_all(&mut parent, w, n, free));
                    size = setup(|| parent.len());
                    r
                }),
                _ => {
                    let r = op(o.id, || flip_all(&mut *mine, w, n, free));
                    size = setup(|| mine.slice(..).len());
                    r
                }
            };
            if size.as_ref().ok() != Some(&n) {
                bad!("wrong-contents", "{what}: afterwards the parent has {size:?} bits instead of {n}");
                break;
            }
            let (starts, ends) = log.into_inner().unwrap();
            let windows: Vec<(usize, usize)> =
                starts.iter().flat_map(|s| ends.iter().map(move |e| window(*s, *e, n))).flatten().collect();
            let now: Vec<bool> = match setup(|| (0..len).map(|i| mine.get(i)).collect::<Vec<_>>()) {
                Ok(x) => x.to_vec(),
                Err(e) => {
                    bad!("unexpected-failure", "after {what} the parent cannot be read: {e:?}");
                    break;
                }
            };
            let changed: Vec<usize> = (0..len).filter(|i| now[*i] != model[*i]).collect();
            match got {
                Ok((l, bits)) => {
                    if l > n {
                        bad!("escaped-view", "{what}: the view has {l} bits but its parent only {n}");
                        break;
                    }
                    // the view is one of the windows the object described
                    let fits = windows.iter().any(|(s, e)| {
                        e - s == l
                            && match &bits {
                                Some(b) => b[..] == m.b[p0 + s..p0 + e],
                                None => changed.len() == l && (l == 0 || (changed[0] == p0 + s && changed[l - 1] == p0 + e - 1)),
                            }
                    });
                    if !fits {
                        bad!("wrong-result", "{what}: a view of {l} bits was given for bounds {starts:?} {ends:?} on {n} bits");
                        break;
                    }
                }
                Err(e) => {
                    if !changed.is_empty() {
                        bad!("wrong-contents", "{what} failed but changed bits {changed:?}");
                        break;
                    }
                    let consistent = starts.windows(2).all(|x| x[0] == x[1]) && ends.windows(2).all(|x| x[0] == x[1]);
                    match e {
                        Fail::Dev if panics.is_some() => {}
                        Fail::Panic(_) if !(consistent && windows.len() == starts.len() * ends.len() && !windows.is_empty()) => {
                            simrt::count("rejected_op", 1)
                        }
                        e => {
                            bad!("unexpected-failure", "{what} failed for bounds {starts:?} {ends:?} on {n} bits: {e:?}");
                            break;
                        }
                    }
                }
            }
            model = now;
        }
    });
    out.nontrivial = end > off;
    let own: Vec<BitVec> = own.into_iter().map(|x| x.into_inner().unwrap()).collect();
    let _ = setup(move || drop((common, own)));
}

fn look<B: succinct_neo::bit_vec::BitGet>(parent: &BitSlice<B>, w: Wobbly, n: usize, free: bool) -> (usize, Option<Vec<bool>>) {
    let v = if free { unsafe { parent.slice_unchecked(w) } } else { parent.slice(w) };
    let l = v.len();
    let bits = if l <= n { v.iter().collect() } else { Vec::new() };
    (l, Some(bits))
}

fn flip_all<B: succinct_neo::bit_vec::BitModify + succinct_neo::bit_vec::BitGet>(parent: &mut BitSlice<B>, w: Wobbly, n: usize, free: bool) -> (usize, Option<Vec<bool>>) {
    let mut v = if free { unsafe { parent.slice_unchecked_mut(w) } } else { parent.slice_mut(w) };
    let l = v.len();
    if l <= n {
        for i in 0..l {
            v.flip(i)
        }
    }
    (l, None)
}

