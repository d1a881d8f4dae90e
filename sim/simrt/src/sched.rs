//! The seeded scheduler, the simulated locks and the fault switchboard.
use crate::race::{join, FxMap, Races, Sync, Vc, MAXT};
use crate::{arena, live, mode, paused, sys, Rng, OUT, RUN, SETUP, TL};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicU32;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    OnLock(usize),
    OnFutex(usize),
    OnChild(usize),
    Done,
}

struct Actor {
    st: St,
    vc: Vc,
    pend: Vc,
    relf: Vc,
    op: u32,
    acc: u64,
    alloc_n: u64,
    spin: u32,
    held: bool,
    seen: Vc,
    /// Where its stack begins, and where it ended when it was last put to sleep.
    stack: (usize, usize),
    tls: (usize, usize),
    timed: bool,
    timeout: bool,
    creator: usize,
    tid: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum Kind {
    Begin = 0,
    Read = 1,
    Write = 2,
    Atomic = 3,
    Alloc = 4,
    Free = 5,
    Dev = 6,
    Other = 7,
}

/// One recorded scheduling decision: at access `acc` of operation `op`, `actor` hands over to `to`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Switch {
    pub actor: u32,
    pub op: u32,
    pub acc: u64,
    pub to: u32,
}

pub const BLOCK: u64 = 1 << 40;
pub const FINISH: u64 = 1 << 41;

#[derive(Clone, Debug, Default)]
pub struct RunCfg {
    pub seed: u64,
    /// Mean number of points between preemptions; 0: only at the start of operations.
    pub period: u64,
    /// How many points a write, atomic, allocation or device access counts for.
    pub weight: u64,
    /// Chance in 256 of switching at the start of an operation.
    pub op_switch: u64,
    /// Loads that are not sequentially consistent may see older values.
    pub stale: bool,
    /// One in so many preempted threads is held back until all the others have finished or wait; 0: none.
    pub hold: u64,
    pub budget: u64,
    pub reuse: bool,
    pub fill: u8,
    /// operation -> (index of the failing allocation, do all later ones fail too)
    pub alloc_faults: HashMap<u32, (u64, bool)>,
    pub replay: Option<Vec<Switch>>,
}

#[derive(Default)]
struct Lock {
    writer: Option<usize>,
    readers: u32,
    wvc: Vc,
    rvc: Vc,
}

pub struct Sim {
    actors: Vec<Actor>,
    cfg: RunCfg,
    rng: Rng,
    credit: i64,
    replay: FxMap<(u64, u64), u32>,
    locks: Vec<Lock>,
    races: Races,
    detect: bool,
    main_vc: Vc,
    /// What has been made visible to everyone by fences and the like.
    everyone: Vc,
    steps: u64,
    time_off: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub trace: Vec<Switch>,
    pub viol: Option<(String, String)>,
    /// Address ranges on which races are a known finding.
    pub allow: Vec<(usize, usize)>,
    pub allow_hits: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub points: [u64; 8],
    pub switches: u64,
    pub preempt: u64,
    preempt0: u64,
    pub total_steps: u64,
    pub total_us: u64,
    pub fatal: Option<fn(&str, &str)>,
    pub on_switch: Option<fn(&Switch)>,
    setup_steps: u64,
}

static mut SIM: Option<Sim> = None;
static WAKE: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap_unchecked() }
}

pub struct AllocFault;
pub struct DevFault;

/// Why an operation did not return.
#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Alloc,
    Dev,
    Panic(String),
}

fn alloc_hook(_: std::alloc::Layout) {
    std::panic::panic_any(AllocFault)
}

pub fn init() {
    arena::init();
    unsafe {
        SIM = Some(Sim {
            actors: Vec::new(),
            cfg: RunCfg::default(),
            rng: Rng::new(0),
            credit: 0,
            replay: FxMap::default(),
            locks: Vec::new(),
            races: Races::default(),
            detect: false,
            main_vc: [0; MAXT],
            everyone: [0; MAXT],
            steps: 0,
            time_off: 0,
            hash: 0,
            sched_hash: 0,
            trace: Vec::new(),
            viol: None,
            allow: Vec::new(),
            allow_hits: 0,
            counts: BTreeMap::new(),
            points: [0; 8],
            switches: 0,
            preempt: 0,
            preempt0: 0,
            total_steps: 0,
            total_us: 0,
            fatal: None,
            on_switch: None,
            setup_steps: 0,
        });
    }
    std::alloc::set_alloc_error_hook(alloc_hook);
    // panics of the code under test are expected; those of the drivers are mistakes of the harness
    std::panic::set_hook(Box::new(|i| {
        if unsafe { TL.mode } == OUT && unsafe { TL.actor } < MAXT {
            eprintln!("harness: {i}");
        }
    }));
}

pub fn begin_run(cfg: RunCfg) {
    let s = sim();
    arena::begin_run(cfg.reuse, cfg.fill);
    s.actors.clear();
    s.rng = Rng::derive(cfg.seed, 77, 1);
    s.credit = if cfg.period == 0 { i64::MAX } else { 1 + s.rng.below(2 * cfg.period) as i64 };
    s.replay.clear();
    if let Some(r) = &cfg.replay {
        for w in r {
            s.replay.insert((((w.actor as u64) << 32) | w.op as u64, w.acc), w.to);
        }
    }
    s.locks.clear();
    s.races.clear();
    s.main_vc = [0; MAXT];
    s.main_vc[MAXT - 1] = 1;
    s.preempt0 = s.preempt;
    s.everyone = [0; MAXT];
    s.steps = 0;
    s.time_off = 0;
    s.hash = 0;
    s.sched_hash = 0;
    s.trace.clear();
    s.viol = None;
    s.allow.clear();
    s.setup_steps = 0;
    s.cfg = cfg;
}

pub fn count(name: &'static str, n: u64) {
    *sim().counts.entry(name).or_insert(0) += n;
}

/// Records the first violation of the run.
pub fn violate(class: &str, msg: String) {
    let s = sim();
    if s.viol.is_none() {
        s.viol = Some((class.to_string(), msg));
    }
}

pub fn violated() -> bool {
    sim().viol.is_some()
}

/// A violation after which the run cannot continue.
pub fn fatal(class: &str, msg: impl FnOnce() -> String) -> ! {
    paused(|| {
        violate(class, msg());
        let s = sim();
        let (c, m) = s.viol.clone().unwrap();
        if let Some(f) = s.fatal {
            f(&c, &m)
        }
    });
    sys::exit_now(3)
}

#[inline(always)]
pub fn mix(x: u64) {
    let s = sim();
    s.hash = (s.hash ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
}

pub fn sim_time_us() -> u64 {
    let s = sim();
    s.steps + s.time_off
}

fn me() -> usize {
    unsafe { TL.actor }
}

fn hand_over(from: usize, to: usize, acc: u64, voluntary: bool) {
    let s = sim();
    let sw = Switch { actor: from as u32, op: s.actors[from].op, acc, to: to as u32 };
    s.sched_hash = (s.sched_hash ^ ((from as u64) << 56) ^ ((to as u64) << 48) ^ ((sw.op as u64) << 24) ^ acc)
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .rotate_left(17);
    s.trace.push(sw);
    if let Some(f) = s.on_switch {
        f(&sw)
    }
    s.switches += 1;
    if voluntary {
        s.preempt += 1
    }
    s.actors[to].spin = 0;
    sys::set_flag(&WAKE[to]);
}

fn switch(from: usize, to: usize, acc: u64) {
    sleep(from, || hand_over(from, to, acc, true));
}

/// Hands the baton over and waits for it. Whatever the thread refers to is on its stack meanwhile.
#[inline(never)]
fn sleep(i: usize, hand: impl FnOnce()) {
    let mut regs = [0usize; 6];
    unsafe {
        std::arch::asm!(
            "mov [{r}], rbx", "mov [{r} + 8], rbp", "mov [{r} + 16], r12",
            "mov [{r} + 24], r13", "mov [{r} + 32], r14", "mov [{r} + 40], r15",
            r = in(reg) regs.as_mut_ptr(), options(nostack)
        );
    }
    sim().actors[i].stack.1 = regs.as_ptr() as usize;
    hand();
    sys::wait_flag(&WAKE[i]);
    std::hint::black_box(&regs);
}

/// The current actor has got the baton for the first time.
fn born(i: usize) {
    let here = 0usize;
    let a = &mut sim().actors[i];
    a.stack = (&here as *const usize as usize, 0);
    a.tls = sys::tls_range();
}

/// What threads other than the current one refer to: their stacks, which have to be in use, and thread-local data.
pub fn other_threads() -> Vec<(usize, usize)> {
    let s = sim();
    let i = me();
    let mut v = vec![];
    for (j, a) in s.actors.iter().enumerate() {
        if j != i && a.stack.0 != 0 && a.st != St::Done {
            v.push((a.stack.1, a.stack.0));
            v.push(a.tls);
        }
    }
    v
}

fn pick_other(from: usize, acc: u64, rotate: bool) -> Option<usize> {
    let s = sim();
    let mut ready = [0usize; MAXT];
    let mut n = 0;
    for (i, a) in s.actors.iter().enumerate() {
        if i != from && a.st == St::Ready && !a.held {
            ready[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        // whoever was held back goes on
        for (i, a) in s.actors.iter_mut().enumerate() {
            a.held = false;
            if i != from && a.st == St::Ready {
                ready[n] = i;
                n += 1;
            }
        }
    }
    if n == 0 {
        return None;
    }
    if s.cfg.replay.is_some() {
        let key = (((from as u64) << 32) | s.actors.get(from).map_or(0, |a| a.op) as u64, acc);
        if let Some(&t) = s.replay.get(&key) {
            if ready[..n].contains(&(t as usize)) {
                return Some(t as usize);
            }
        }
        if rotate {
            return Some(*ready[..n].iter().find(|&&i| i > from).unwrap_or(&ready[0]));
        }
        return Some(ready[0]);
    }
    Some(ready[s.rng.below(n as u64) as usize])
}

/// A scheduling point: the current actor may be preempted here.
#[inline]
pub fn point(kind: Kind, tag: u64) {
    let i = me();
    let s = sim();
    s.steps += 1;
    s.points[kind as usize] += 1;
    let a = &mut s.actors[i];
    a.acc += 1;
    s.hash = (s.hash ^ tag ^ ((i as u64) << 60) ^ ((kind as u64) << 56)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    if s.steps > s.cfg.budget {
        let (op, budget) = (a.op, s.cfg.budget);
        fatal("no-progress", || format!("operation {op} did not finish within {budget} steps"));
    }
    if kind == Kind::Atomic {
        a.spin += 1;
        if a.spin > 2000 {
            a.spin = 0;
            let acc = a.acc;
            paused(|| {
                hold_nobody();
                if let Some(t) = pick_other(i, acc, true) {
                    switch(i, t, acc)
                }
            });
            return;
        }
    }
    if s.cfg.replay.is_some() {
        let key = (((i as u64) << 32) | a.op as u64, a.acc);
        if let Some(&t) = s.replay.get(&key) {
            let acc = a.acc;
            let t = t as usize;
            if t < s.actors.len() && t != i && s.actors[t].st == St::Ready {
                paused(|| switch(i, t, acc));
            }
        }
        return;
    }
    let cost = match kind {
        Kind::Read | Kind::Other => 1,
        _ => s.cfg.weight as i64,
    };
    s.credit -= cost;
    if s.credit <= 0 {
        let slow = if s.preempt - s.preempt0 > 250 { 16 } else { 1 };
        s.credit = 1 + s.rng.below(2 * slow * s.cfg.period.max(1)) as i64;
        let acc = a.acc;
        paused(|| {
            if s.cfg.hold > 0 && s.rng.below(s.cfg.hold) == 0 {
                s.actors[i].held = true;
                count("threads_held_back", 1);
            }
            if let Some(t) = pick_other(i, acc, false) {
                switch(i, t, acc)
            }
        });
    }
}

fn hold_nobody() {
    for a in sim().actors.iter_mut() {
        a.held = false
    }
}

fn begin_point(i: usize) {
    let s = sim();
    s.steps += 1;
    s.points[0] += 1;
    mix(((i as u64) << 32) | s.actors[i].op as u64);
    if s.cfg.replay.is_some() {
        let key = (((i as u64) << 32) | s.actors[i].op as u64, 0);
        if let Some(&t) = s.replay.get(&key) {
            let t = t as usize;
            if t < s.actors.len() && t != i && s.actors[t].st == St::Ready {
                switch(i, t, 0);
            }
        }
        return;
    }
    if s.rng.below(256) < s.cfg.op_switch {
        if let Some(t) = pick_other(i, 0, false) {
            switch(i, t, 0)
        }
    }
}

/// The current actor cannot go on; somebody else must.
fn block(st: St) {
    let i = me();
    let s = sim();
    s.actors[i].st = st;
    let acc = s.actors[i].acc | BLOCK;
    match pick_other(i, acc, false) {
        Some(t) => {
            sleep(i, || hand_over(i, t, acc, false));
        }
        None => {
            // a timed wait may end: time jumps to it
            if let Some(t) = s.actors.iter().position(|a| a.timed && a.st != St::Done && a.st != St::Ready) {
                s.actors[t].timeout = true;
                s.actors[t].st = St::Ready;
                if t != i {
                    sleep(i, || hand_over(i, t, acc, false));
                }
                return;
            }
            fatal("deadlock", || format!("no thread can run: {:?}", s.actors.iter().map(|a| a.st).collect::<Vec<_>>()));
        }
    }
}

/// The destructors of thread-local values belong to what an actor does. They run in the reverse order of
/// registration: `LAST` is registered before anything else and `FIRST` when the actor has done its work.
struct Last;
struct First;

impl Drop for Last {
    fn drop(&mut self) {
        unsafe { TL.mode = OUT }
        finish(me());
    }
}

impl Drop for First {
    fn drop(&mut self) {
        unsafe { TL.mode = SETUP }
    }
}

thread_local! {
    static LAST: Last = const { Last };
    static FIRST: First = const { First };
}

fn enter() {
    LAST.with(|_| ());
}

pub fn leave() {
    unsafe { TL.mode = OUT }
    FIRST.with(|_| ());
}

fn finish(i: usize) {
    let s = sim();
    s.actors[i].st = St::Done;
    let vc = s.actors[i].vc;
    join(&mut s.main_vc, &vc);
    let c = s.actors[i].creator;
    if c < s.actors.len() {
        join(&mut s.actors[c].vc, &vc)
    }
    for a in s.actors.iter_mut() {
        if a.st == St::OnChild(i) {
            a.st = St::Ready
        }
    }
    let acc = FINISH;
    match pick_other(i, acc, false) {
        Some(t) => hand_over(i, t, acc, false),
        None => {
            if s.actors.iter().any(|a| a.st != St::Done) {
                if let Some(t) = s.actors.iter().position(|a| a.timed && a.st != St::Done) {
                    s.actors[t].timeout = true;
                    s.actors[t].st = St::Ready;
                    hand_over(i, t, acc, false);
                    return;
                }
                fatal("deadlock", || format!("no thread can run: {:?}", s.actors.iter().map(|a| a.st).collect::<Vec<_>>()));
            }
            sys::set_flag(&WAKE[MAXT]);
        }
    }
}

fn new_actor(vc: Vc, creator: usize, op: u32) -> usize {
    let s = sim();
    let done = s.actors.iter().position(|a| a.st == St::Done && a.creator != usize::MAX);
    let i = done.filter(|_| s.actors.len() >= MAXT - 1).unwrap_or(s.actors.len());
    let (clock, acc) = s.actors.get(i).map_or((0, 0), |a| (a.vc[i], a.acc));
    let mut vc = vc;
    vc[i] = clock + 1;
    let a = Actor {
        st: St::Ready,
        vc,
        pend: [0; MAXT],
        relf: [0; MAXT],
        op,
        acc,
        alloc_n: 0,
        spin: 0,
        held: false,
        seen: [0; MAXT],
        stack: (0, 0),
        tls: (0, 0),
        timed: false,
        timeout: false,
        creator,
        tid: 0,
    };
    if i < s.actors.len() {
        s.actors[i] = a
    } else {
        s.actors.push(a)
    }
    WAKE[i].store(0, std::sync::atomic::Ordering::Relaxed);
    i
}

/// Runs `n` actors to completion under the scheduler.
pub fn run_actors<F: Fn(usize) + std::marker::Sync>(n: usize, body: F) {
    assert!(n > 0 && n < MAXT - 4);
    let s = sim();
    WAKE[MAXT].store(0, std::sync::atomic::Ordering::Relaxed);
    let vc = s.main_vc;
    for _ in 0..n {
        new_actor(vc, usize::MAX, 0);
    }
    s.detect = true;
    std::thread::scope(|sc| {
        let mut threads = vec![];
        for i in 0..n {
            let body = &body;
            let t = std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn_scoped(sc, move || {
                    unsafe {
                        TL.actor = i;
                        TL.mode = OUT;
                    }
                    enter();
                    sys::wait_flag(&WAKE[i]);
                    born(i);
                    if catch_unwind(AssertUnwindSafe(|| body(i))).is_err() {
                        eprintln!("harness: panic in the driver of actor {i}");
                        sys::exit_now(70);
                    }
                    leave();
                })
                .unwrap();
            threads.push(t);
        }
        let s = sim();
        let first = if s.cfg.replay.is_some() {
            s.replay.get(&(u64::MAX, 0)).map_or(0, |&t| t as usize).min(n - 1)
        } else {
            s.rng.below(n as u64) as usize
        };
        let sw = Switch { actor: u32::MAX, op: u32::MAX, acc: 0, to: first as u32 };
        s.trace.push(sw);
        if let Some(f) = s.on_switch {
            f(&sw)
        }
        sys::set_flag(&WAKE[first]);
        sys::wait_flag(&WAKE[MAXT]);
        // also waits for the destructors of thread-local values
        for t in threads {
            let _ = t.join();
        }
    });
    let s = sim();
    s.detect = false;
    s.total_steps += s.steps;
    s.total_us += s.steps + s.time_off;
}

fn to_fail(e: Box<dyn std::any::Any + Send>) -> Fail {
    if e.is::<AllocFault>() {
        Fail::Alloc
    } else if e.is::<DevFault>() {
        Fail::Dev
    } else if let Some(s) = e.downcast_ref::<String>() {
        Fail::Panic(s.clone())
    } else if let Some(s) = e.downcast_ref::<&str>() {
        Fail::Panic(s.to_string())
    } else {
        Fail::Panic("panic with another payload".into())
    }
}

/// Runs code under test as operation `id` of the current actor.
pub fn op<R>(id: u32, f: impl FnOnce() -> R) -> Result<R, Fail> {
    let i = me();
    let a = &mut sim().actors[i];
    a.op = id;
    a.acc = 0;
    a.alloc_n = 0;
    begin_point(i);
    unsafe { TL.mode = RUN };
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe { TL.mode = OUT };
    let r = r.map_err(to_fail);
    mix(r.is_ok() as u64 + 2);
    r
}

/// Runs code under test while no actor exists (building the initial state, final inspection).
pub fn setup<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    unsafe { TL.mode = SETUP };
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe { TL.mode = OUT };
    r.map_err(to_fail)
}

pub fn allocs_in_op() -> u64 {
    sim().actors[me()].alloc_n
}

pub fn current_op() -> u32 {
    sim().actors[me()].op
}

/// Sequence number of the current point: stamps history events.
pub fn now() -> u64 {
    sim().steps
}

// ---- memory ---------------------------------------------------------------------------------------------

#[inline(always)]
fn tag(addr: usize) -> u64 {
    if arena::contains(addr) {
        (addr - arena::BASE) as u64
    } else {
        1
    }
}

#[cold]
#[inline(never)]
fn bad_access(addr: usize, size: usize, write: bool) {
    paused(|| {
        let w = if write { "write" } else { "read" };
        let op = if mode_actor() { current_op() as i64 } else { -1 };
        violate("bad-access", format!("{size}-byte {w} outside any allocated block ({}) in operation {op}", arena::describe(addr)));
    })
}

fn mode_actor() -> bool {
    unsafe { TL.actor != usize::MAX && TL.actor < sim().actors.len() }
}

#[cold]
#[inline(never)]
fn race_found(addr: usize, size: usize, write: bool, f: crate::race::Found) {
    paused(|| {
        let s = sim();
        if s.allow.iter().any(|&(lo, hi)| addr >= lo && addr + size <= hi) {
            s.allow_hits += 1;
            return;
        }
        let w = |b| if b { "write" } else { "read" };
        violate(
            "data-race",
            format!(
                "unsynchronised {size}-byte {} by thread {} (operation {}) conflicts with a {} by thread {} at {}",
                w(write),
                me(),
                current_op(),
                w(f.other_write),
                f.other,
                arena::describe(addr)
            ),
        );
    })
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Memory that threads can share: the heap of the code under test and its static variables. (Stacks and the
/// harness's own heap are left out: their addresses are reused without any ordering the simulator sees.)
#[inline(always)]
fn shared(addr: usize) -> bool {
    arena::contains(addr) || in_data(addr)
}

pub fn data_range() -> (usize, usize) {
    (&raw const __data_start as usize, &raw const _end as usize)
}

fn in_data(addr: usize) -> bool {
    addr >= &raw const __data_start as usize && addr < &raw const _end as usize
}

#[inline]
fn check_race(addr: usize, size: usize, write: bool, atomic: bool) {
    let s = sim();
    if !s.detect || s.actors.len() < 2 || !shared(addr) {
        return;
    }
    let i = me();
    let m = mode();
    unsafe { TL.mode = OUT };
    let vc = &s.actors[i].vc;
    let f = s.races.access(i, vc, addr, size, write, atomic);
    unsafe { TL.mode = m };
    if let Some(f) = f {
        race_found(addr, size, write, f)
    }
}

#[inline]
pub fn on_access(addr: usize, size: usize, write: bool) {
    let m = mode();
    if m == OUT || size == 0 {
        return;
    }
    if m == RUN {
        point(if write { Kind::Write } else { Kind::Read }, tag(addr));
        check_race(addr, size, write, false);
    } else {
        setup_step();
    }
    if arena::contains(addr) && !arena::valid(addr, size) {
        bad_access(addr, size, write)
    }
}

#[inline(always)]
fn setup_step() {
    let s = sim();
    s.setup_steps += 1;
    if s.setup_steps > 4_000_000_000 {
        fatal("no-progress", || "building the initial state does not finish".into())
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mo {
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}

impl Mo {
    pub fn from(m: i32) -> Mo {
        match m {
            0 => Mo::Relaxed,
            1 | 2 => Mo::Acquire,
            3 => Mo::Release,
            4 => Mo::AcqRel,
            _ => Mo::SeqCst,
        }
    }
    fn acq(&self) -> bool {
        matches!(self, Mo::Acquire | Mo::AcqRel | Mo::SeqCst)
    }
    fn rel(&self) -> bool {
        matches!(self, Mo::Release | Mo::AcqRel | Mo::SeqCst)
    }
}

/// Before an atomic operation.
pub fn atomic_pre(addr: usize, size: usize, write: bool) {
    let m = mode();
    if m == OUT {
        return;
    }
    if live() {
        point(Kind::Atomic, tag(addr));
        check_race(addr, size, write, true);
    }
    if arena::contains(addr) && !arena::valid(addr, size) {
        bad_access(addr, size, write)
    }
}

/// After an atomic operation: `old` is the value read (if any), `new` the value now stored.
pub fn atomic_post(addr: usize, read: bool, write: bool, mo: Mo, old: u64, new: u64) {
    if !live() {
        return;
    }
    paused(|| {
        let s = sim();
        let i = me();
        let mut all = [0u32; MAXT];
        // A location first seen, or changed since it was last seen, was written by code that is not
        // instrumented (inside std): assume that code synchronised with everyone.
        let foreign = read && s.races.sync.get(&addr).is_none_or(|e| e.val != old);
        let e = s.races.sync.entry(addr).or_insert_with(|| Sync::new(old));
        // A lock of std: if it cannot be taken at once, std may take it by accesses that are not instrumented.
        e.std |= e.val != old;
        if e.val != old {
            e.forget_stores()
        }
        if foreign {
            for a in &s.actors {
                join(&mut all, &a.vc)
            }
            join(&mut e.vc, &all);
        }
        let a = &mut s.actors[i];
        if read {
            if mo.acq() || (e.std && !write) {
                join(&mut a.vc, &e.vc)
            } else {
                join(&mut a.pend, &e.vc)
            }
        }
        if write {
            if !read {
                e.vc = [0; MAXT];
            }
            if mo.rel() {
                join(&mut e.vc, &a.vc);
                a.vc[i] += 1;
            } else {
                let r = a.relf;
                join(&mut e.vc, &r);
            }
        }
        e.val = new;
        if write && s.cfg.stale {
            let clk = s.actors[i].vc[i] - mo.rel() as u32;
            e.stored(old, i, clk);
        }
        // as on the machine, and a little more than the memory model promises
        if s.cfg.stale && write && (read || mo == Mo::SeqCst) {
            all_see(i)
        }
    })
}

/// What this thread has stored is seen by all that come here later.
fn all_see(i: usize) {
    let s = sim();
    let a = &mut s.actors[i];
    join(&mut s.everyone, &a.vc);
    join(&mut a.seen, &s.everyone);
}

/// A load may see an older value than the newest one, `val`.
pub fn atomic_load(addr: usize, mo: Mo, val: u64) -> u64 {
    if !live() {
        return val;
    }
    let mut got = None;
    if sim().cfg.stale && mo != Mo::SeqCst {
        paused(|| {
            let s = sim();
            let i = me();
            let a = &mut s.actors[i];
            let Some(e) = s.races.sync.get_mut(&addr).filter(|e| e.val == val) else { return };
            let mut seen = a.vc;
            join(&mut seen, &a.seen);
            // depends on the place in the program only, so that it is the same in a replay
            let pick = Rng::derive(s.cfg.seed, a.op as u64, a.acc).next() >> 7;
            if let Some(v) = e.visible(i, &seen, a.vc[i], pick) {
                // a lock of std that seems to be taken is taken by accesses that are not instrumented
                join(&mut a.vc, &e.vc);
                got = Some(v);
                count("old_value_read", 1);
            }
        });
    }
    match got {
        Some(v) => v,
        None => {
            atomic_post(addr, true, false, mo, val, val);
            val
        }
    }
}

pub fn fence(mo: Mo) {
    if !live() {
        return;
    }
    point(Kind::Atomic, 2);
    paused(|| {
        let i = me();
        let a = &mut sim().actors[i];
        if mo.acq() {
            let p = a.pend;
            join(&mut a.vc, &p)
        }
        if mo.rel() {
            a.relf = a.vc;
            a.vc[i] += 1;
        }
        if mo == Mo::SeqCst {
            all_see(i)
        }
    })
}

/// An allocation in an operation: `None` if it is to fail.
pub fn on_alloc(size: usize) -> Option<u32> {
    point(Kind::Alloc, size as u64);
    let s = sim();
    let a = &mut s.actors[me()];
    let n = a.alloc_n;
    a.alloc_n += 1;
    let op = a.op;
    if let Some(&(k, persist)) = s.cfg.alloc_faults.get(&op) {
        if n == k || (persist && n > k) {
            paused(|| count("alloc_fail", 1));
            return None;
        }
    }
    Some(op)
}

pub fn fresh_memory(addr: usize, size: usize) {
    paused(|| sim().races.forget(addr, size))
}

pub fn on_free(addr: usize, size: usize) {
    point(Kind::Free, tag(addr));
    let s = sim();
    if !s.detect || s.actors.len() < 2 {
        return;
    }
    let i = me();
    let vc = s.actors[i].vc;
    if let Some(f) = paused(|| s.races.free(i, &vc, addr, size)) {
        race_found(addr, size, true, f)
    }
}

// ---- locks of the harness -----------------------------------------------------------------------------------

pub fn lock(id: usize, exclusive: bool) {
    let i = me();
    loop {
        let s = sim();
        while s.locks.len() <= id {
            s.locks.push(Lock::default())
        }
        let l = &mut s.locks[id];
        if l.writer.is_none() && (!exclusive || l.readers == 0) {
            let a = &mut s.actors[i];
            join(&mut a.vc, &l.wvc);
            if exclusive {
                join(&mut a.vc, &l.rvc);
                l.writer = Some(i)
            } else {
                l.readers += 1
            }
            return;
        }
        block(St::OnLock(id));
    }
}

pub fn unlock(id: usize) {
    let i = me();
    let s = sim();
    let l = &mut s.locks[id];
    let a = &mut s.actors[i];
    if l.writer == Some(i) {
        l.writer = None;
        join(&mut l.wvc, &a.vc);
    } else {
        l.readers -= 1;
        join(&mut l.rvc, &a.vc);
    }
    a.vc[i] += 1;
    for a in s.actors.iter_mut() {
        if a.st == St::OnLock(id) {
            a.st = St::Ready
        }
    }
}

// ---- what std asks of the operating system ------------------------------------------------------------------

/// std goes on to take a lock with an access that is not instrumented, without another scheduling point: the one
/// waited for, or the one that belongs to a condition variable.
fn acquire_all(i: usize) {
    let s = sim();
    let mut vc = s.actors[i].vc;
    for v in s.races.futex.values().chain(s.races.sync.values().map(|x| &x.vc)) {
        join(&mut vc, v);
    }
    s.actors[i].vc = vc;
}

/// Before waiting or waking, std may have given up a lock with an access that is not instrumented, even one that it had taken
/// in the same way, so that nothing of it could be seen.
fn release_all(i: usize) {
    let s = sim();
    let vc = s.actors[i].vc;
    for e in s.races.sync.values_mut() {
        join(&mut e.vc, &vc);
    }
    s.actors[i].vc[i] += 1;
}

pub fn futex_wait(addr: usize, expected: u32, timed: bool) -> i64 {
    let i = me();
    release_all(i);
    if unsafe { *(addr as *const u32) } != expected {
        point(Kind::Other, 3);
        acquire_all(i);
        return -11; // EAGAIN
    }
    let s = sim();
    s.actors[i].timed = timed;
    s.actors[i].timeout = false;
    block(St::OnFutex(addr));
    let s = sim();
    s.actors[i].timed = false;
    acquire_all(i);
    if s.actors[i].timeout {
        s.time_off += 1000;
        return -110; // ETIMEDOUT
    }
    0
}

pub fn futex_wake(addr: usize, n: u32) -> i64 {
    let i = me();
    let s = sim();
    let vc = s.actors[i].vc;
    join(s.races.futex.entry(addr).or_insert([0; MAXT]), &vc);
    release_all(i);
    let mut woken = 0;
    for a in s.actors.iter_mut() {
        if a.st == St::OnFutex(addr) && woken < n {
            a.st = St::Ready;
            woken += 1;
        }
    }
    point(Kind::Other, 4);
    // waiting for a condition variable: the lock was given up, and is taken again at once if a notification came
    acquire_all(i);
    woken as i64
}

pub fn yield_now() {
    let i = me();
    // waiting by asking again and again is to be noticed in reasonable time
    sim().steps += 20;
    hold_nobody();
    let a = &mut sim().actors[i];
    a.acc += 1;
    let acc = a.acc;
    if let Some(t) = pick_other(i, acc, true) {
        switch(i, t, acc)
    }
}

pub fn sleep_us(us: u64) {
    sim().time_off += us;
    yield_now()
}

pub fn child_new() -> Option<usize> {
    let i = me();
    let s = sim();
    if s.actors.len() >= MAXT - 1 && !s.actors.iter().any(|a| a.st == St::Done && a.creator != usize::MAX) {
        return None;
    }
    let vc = s.actors[i].vc;
    let op = s.actors[i].op;
    let id = new_actor(vc, i, op);
    sim().actors[i].vc[i] += 1;
    count("threads_started_by_code_under_test", 1);
    Some(id)
}

pub fn child_started(id: usize, tid: usize) {
    sim().actors[id].tid = tid;
    point(Kind::Other, 5);
}

pub fn child_enter(id: usize) {
    unsafe {
        TL.actor = id;
        TL.mode = OUT;
    }
    enter();
    sys::wait_flag(&WAKE[id]);
    born(id);
    unsafe { TL.mode = RUN }
}

pub fn child_join(tid: usize) {
    let of = |done: bool| sim().actors.iter().rposition(|a| a.tid == tid && a.creator != usize::MAX && (a.st == St::Done) == done);
    let Some(id) = of(false).or_else(|| of(true)) else { return };
    while sim().actors[id].st != St::Done {
        block(St::OnChild(id))
    }
    let s = sim();
    let vc = s.actors[id].vc;
    join(&mut s.actors[me()].vc, &vc);
}

/// An access to a simulated device: a scheduling point when made from an operation.
pub fn dev_point(tag: u64) {
    if mode() == RUN {
        point(Kind::Dev, tag)
    }
}
