//! Command line of the simulator.
//!   sim run PROP SEED START COUNT STRIDE CPU SECONDS DIR [EACH]   runs START, START+STRIDE, ... and stops at a violation;
//!                                                  after EACH runs a fresh process goes on
//!   sim plan PROP SEED INDEX                       prints the plan of a run
//!   sim replay FILE [SCHEDULE-OUT]                 executes a plan (recording its schedule if it has none)
//!   sim hashes PROP SEED START COUNT STRIDE CPU    prints the event hash of every run
use glue::plan::sw_text;
use glue::Plan;
use simrt::{sim, Switch};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;

#[global_allocator]
static ALLOC: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

static mut OUT: Option<File> = None;

fn on_switch(s: &Switch) {
    unsafe {
        #[allow(static_mut_refs)]
        if let Some(f) = OUT.as_mut() {
            let _ = f.write_all(sw_text(s).as_bytes());
        }
    }
}

fn on_fatal(class: &str, msg: &str) {
    println!("VIOL {class} {msg}");
    println!("HASH {:016x}", sim().hash);
}

fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    format!("{{{}}}", v.join(", "))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("a number");
    simrt::init();
    sim().fatal = Some(on_fatal);
    match a.get(1).map(|s| s.as_str()) {
        Some("plan") => print!("{}", glue::generate(&a[2], n(3), n(4)).to_text()),
        Some("replay") => {
            let p = Plan::parse(&std::fs::read_to_string(&a[2]).expect("readable replay file"));
            if let Some(f) = a.get(3) {
                unsafe { OUT = Some(File::create(f).expect("writable schedule file")) }
                sim().on_switch = Some(on_switch);
            }
            let o = glue::execute(&p);
            if let Some((c, m)) = &sim().viol {
                println!("VIOL {c} {m}");
            }
            for (k, m) in &o.known {
                println!("KNOWN {k} {m}");
            }
            println!("HASH {:016x}", sim().hash);
        }
        Some("hashes") => {
            simrt::sys::pin_to_cpu(n(7) as usize);
            for k in 0..n(5) {
                let i = n(4) + k * n(6);
                glue::execute(&glue::generate(&a[2], n(3), i));
                println!("{i} {:016x} {}", sim().hash, sim().viol.is_some());
            }
        }
        Some("run") => run(&a[2], n(3), n(4), n(5), n(6), n(7) as usize, n(8), &a[9], if a.len() > 10 { n(10) } else { 0 }),
        _ => {
            eprintln!("usage: see the top of main.rs");
            std::process::exit(2)
        }
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn raise(sig: i32) -> i32;
}

const STOP: i32 = 9;

/// Runs everything in this process, or in children that each begin with nothing left behind by earlier runs.
#[allow(clippy::too_many_arguments)]
fn run(prop: &str, seed: u64, start: u64, count: u64, stride: u64, cpu: usize, seconds: u64, dir: &str, each: u64) {
    simrt::sys::pin_to_cpu(cpu);
    let t0 = std::time::Instant::now();
    if each == 0 {
        segment(prop, seed, start, count, stride, seconds, dir);
        return;
    }
    let mut done = 0;
    while done < count && t0.elapsed().as_secs() < seconds {
        let left = seconds - t0.elapsed().as_secs();
        let n = each.min(count - done);
        let mut status = 0;
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0); // goes with its parent
                let found = segment(prop, seed, start + done * stride, n, stride, left, dir);
                std::process::exit(if found { STOP } else { 0 });
            }
            waitpid(pid, &mut status, 0);
            if status & 0x7f != 0 {
                raise(status & 0x7f);
                std::process::exit(70);
            }
        }
        match status >> 8 & 0xff {
            0 => {}
            STOP => return,
            c => std::process::exit(c),
        }
        done += n;
    }
}

/// True: a violation was found and printed.
fn segment(prop: &str, seed: u64, start: u64, count: u64, stride: u64, seconds: u64, dir: &str) -> bool {
    let t0 = std::time::Instant::now();
    let more = |f: &str| File::options().create(true).append(true).open(format!("{dir}/{f}")).expect("writable file");
    let progress = File::create(format!("{dir}/progress")).expect("progress file");
    let mut hashes = more("hashes");
    let mut buf = String::new();
    let (mut runs, mut nontrivial, mut ops, mut faults) = (0, 0, 0u64, 0u64);
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_msg: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut actors: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol = None;
    for k in 0..count {
        if t0.elapsed().as_secs() >= seconds {
            break;
        }
        let i = start + k * stride;
        let _ = progress.write_all_at(format!("{i:020}").as_bytes(), 0);
        let p = glue::generate(prop, seed, i);
        let before = sim().preempt;
        let o = glue::execute(&p);
        runs += 1;
        ops += p.ops.len() as u64;
        faults += p.faults.len() as u64;
        for x in &p.ops {
            *kinds.entry(x.kind.clone()).or_insert(0) += 1;
        }
        *actors.entry(format!("{}", p.actors())).or_insert(0) += 1;
        let busy = o.nontrivial && sim().preempt > before;
        if busy {
            nontrivial += 1;
        }
        buf += &format!("{:016x} {:016x} {:016x} {}\n", sim().hash, sim().sched_hash, p.seed, busy as u8);
        for (n, m) in o.known {
            *known.entry(n.into()).or_insert(0) += 1;
            known_msg.entry(n.into()).or_insert((i, m));
        }
        if let Some((c, m)) = sim().viol.clone() {
            viol = Some((i, c, m));
            break;
        }
    }
    let _ = hashes.write_all(buf.as_bytes());
    let s = sim();
    let counts: BTreeMap<String, u64> = s.counts.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let points: BTreeMap<String, u64> = ["begin", "read", "write", "atomic", "alloc", "free", "device", "other"]
        .iter()
        .zip(s.points)
        .map(|(k, v)| (k.to_string(), v))
        .collect();
    let mut t = format!(
        "{{\"runs\": {runs}, \"nontrivial\": {nontrivial}, \"ops\": {ops}, \"planned_faults\": {faults}, \"switches\": {}, \"preemptions\": {}, \"steps\": {}, \"sim_us\": {}, \"counts\": {}, \"points\": {}, \"kinds\": {}, \"actors\": {}, \"known\": {}",
        s.switches, s.preempt, s.total_steps, s.total_us, json_map(&counts), json_map(&points), json_map(&kinds), json_map(&actors), json_map(&known)
    );
    let first: Vec<String> = known_msg.iter().map(|(k, (i, m))| format!("\"{k}\": [{i}, {m:?}]")).collect();
    t += &format!(", \"known_first\": {{{}}}", first.join(", "));
    if let Some((i, c, m)) = &viol {
        t += &format!(", \"violation\": [{i}, {c:?}, {m:?}]");
    }
    t += "}\n";
    more("stats").write_all(t.as_bytes()).expect("stats file");
    if let Some((i, c, m)) = &viol {
        println!("VIOL {c} {m} [run {i}]");
    }
    viol.is_some()
}
