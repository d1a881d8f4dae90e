//! The workloads: they drive the public interface of the crate under test under the simulator and compare
//! what it does with reference models. Compiled with the same instrumentation as the crate under test, so
//! that the generic code instantiated here is simulated too.
use simrt::{Rng, RunCfg};

pub mod model;
mod nest;
pub mod plan;
mod w_dev;
mod w_iter;
mod w_parts;
mod w_read;
mod w_slots;
mod w_strat;
mod ways;

pub use plan::Plan;

pub const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

/// Common part of the generated configuration: number of actors, how the scheduler preempts, how the
/// allocator behaves.
fn common(p: &mut Plan, r: &mut Rng, max_actors: u64) {
    p.set("actors", if max_actors > 4 && r.chance(1, 40) { r.range(6, 10) } else { r.range(2, max_actors) });
    let period = match r.below(8) {
        0 => 0,
        1 => r.range(2, 4),
        2 => r.range(4, 12),
        3 | 4 => r.range(12, 60),
        5 => r.range(60, 300),
        _ => r.range(300, 4000),
    };
    p.set("period", period);
    p.set("weight", *r.pick(&[1, 3, 10, 40]));
    p.set("op_switch", *r.pick(&[16, 100, 180, 230]));
    p.set("hold", if r.chance(1, 6) { r.range(1, 6) } else { 0 });
    p.set("stale", r.chance(1, 4) as u64);
    p.set("reuse", r.chance(2, 3) as u64);
    p.set("fill", *r.pick(&[0xA5, 0xFF, 0x00, 0x5A]));
}

fn run_cfg(p: &Plan) -> RunCfg {
    RunCfg {
        seed: p.seed,
        period: p.get("period"),
        weight: p.get("weight").max(1),
        op_switch: p.get("op_switch"),
        hold: p.get("hold"),
        stale: p.get("stale") != 0,
        budget: if p.get("budget") > 0 { p.get("budget") } else { 60_000_000 },
        reuse: p.get("reuse") != 0,
        fill: p.get("fill") as u8,
        alloc_faults: p.alloc_faults(),
        replay: p.sw.clone(),
    }
}

/// The plan of run `index` of a campaign.
pub fn generate(prop: &str, seed: u64, index: u64) -> Plan {
    let mut r = Rng::derive(seed, index + 1, prop.bytes().fold(0, |h, b| h * 257 + b as u64));
    let mut p = Plan { prop: prop.into(), seed: r.next() >> 1, ..Plan::default() };
    match prop {
        "C01" | "C02" | "C03" | "C04" => w_read::generate(&mut p, &mut r, index),
        "C05" => w_parts::generate(&mut p, &mut r),
        "C06" | "C07" | "C08" | "C09" => w_slots::generate(&mut p, &mut r),
        "C10" => w_dev::generate(&mut p, &mut r),
        "C11" | "C12" => w_iter::generate(&mut p, &mut r),
        "C13" | "C14" => w_strat::generate(&mut p, &mut r, index),
        _ => panic!("unknown property {prop}"),
    }
    p
}

#[derive(Default)]
pub struct Outcome {
    /// Findings that are recognised as a specific, named defect.
    pub known: Vec<(&'static str, String)>,
    /// What made this run different: a hash of the states reached.
    pub state: u64,
    pub nontrivial: bool,
}

pub fn execute(p: &Plan) -> Outcome {
    simrt::begin_run(run_cfg(p));
    let mut o = Outcome::default();
    match p.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" => w_read::execute(p, &mut o),
        "C05" => w_parts::execute(p, &mut o),
        "C06" | "C07" | "C08" | "C09" => w_slots::execute(p, &mut o),
        "C10" => nest::with_others(p, || w_dev::execute(p, &mut o)),
        "C11" | "C12" => nest::with_others(p, || w_iter::execute(p, &mut o)),
        "C13" | "C14" => nest::with_others(p, || w_strat::execute(p, &mut o)),
        _ => panic!("unknown property {}", p.prop),
    }
    o
}

/// Operations of one actor, in order.
fn ops_of(p: &Plan, actor: usize) -> impl Iterator<Item = &plan::Op> {
    let n = p.actors();
    p.ops.iter().filter(move |o| o.actor % n == actor)
}

/// Folds a sequence of values into one.
pub fn fold(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}

macro_rules! bad {
    ($class:expr, $($a:tt)*) => { simrt::violate($class, format!($($a)*)) };
}
pub(crate) use bad;

/// Reports a difference between what an operation returned and what the model says.
pub(crate) fn expect<T: PartialEq + std::fmt::Debug>(op: &plan::Op, what: &str, got: T, want: T) {
    if got != want {
        bad!("wrong-result", "operation {} ({}{}) {what}: got {:?}, expected {:?}", op.id, op.kind, args(op), got, want);
    }
}

pub(crate) fn args(op: &plan::Op) -> String {
    op.a.iter().map(|x| format!(" {x}")).collect()
}
