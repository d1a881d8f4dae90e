//! A plan is everything one run needs: the configuration, the operations of every actor and the faults.
//! Together with the seed (or a recorded schedule) it determines the execution completely.
use simrt::Switch;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub id: u32,
    pub actor: usize,
    pub kind: String,
    pub a: Vec<u64>,
}

impl Op {
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn us(&self, i: usize) -> usize {
        self.arg(i) as usize
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, u64>,
    pub ops: Vec<Op>,
    /// (kind, arguments); `alloc op n persist` and others interpreted by the workload
    pub faults: Vec<(String, Vec<u64>)>,
    pub sw: Option<Vec<Switch>>,
}

impl Plan {
    pub fn get(&self, k: &str) -> u64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn us(&self, k: &str) -> usize {
        self.get(k) as usize
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.cfg.insert(k.into(), v);
    }
    pub fn push(&mut self, actor: usize, kind: &str, a: &[u64]) -> u32 {
        let id = self.ops.len() as u32 + 1;
        self.ops.push(Op { id, actor, kind: kind.into(), a: a.to_vec() });
        id
    }
    pub fn fault(&mut self, kind: &str, a: &[u64]) {
        self.faults.push((kind.into(), a.to_vec()))
    }
    pub fn actors(&self) -> usize {
        self.us("actors").clamp(1, 12)
    }
    pub fn alloc_faults(&self) -> HashMap<u32, (u64, bool)> {
        self.faults.iter().filter(|f| f.0 == "alloc").map(|f| (f.1[0] as u32, (f.1[1], f.1[2] != 0))).collect()
    }
    /// Faults of a kind keyed by operation.
    pub fn faults_of(&self, kind: &str, op: u32) -> Vec<&[u64]> {
        self.faults.iter().filter(|f| f.0 == kind && f.1[0] == op as u64).map(|f| &f.1[1..]).collect()
    }

    pub fn to_text(&self) -> String {
        let mut s = format!("prop {}\nseed {}\n", self.prop, self.seed);
        for (k, v) in &self.cfg {
            s += &format!("cfg {k} {v}\n");
        }
        for o in &self.ops {
            s += &format!("op {} {} {}", o.id, o.actor, o.kind);
            for a in &o.a {
                s += &format!(" {a}");
            }
            s += "\n";
        }
        for (k, a) in &self.faults {
            s += &format!("fault {k}");
            for a in a {
                s += &format!(" {a}");
            }
            s += "\n";
        }
        if let Some(sw) = &self.sw {
            s += "schedule\n";
            for w in sw {
                s += &sw_text(w);
            }
        }
        s
    }

    pub fn parse(t: &str) -> Plan {
        let mut p = Plan::default();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| w[i].parse::<u64>().unwrap_or(0);
            match w.first().copied().unwrap_or("") {
                "prop" => p.prop = w[1].into(),
                "seed" => p.seed = n(1),
                "cfg" => p.set(w[1], n(2)),
                "op" => p.ops.push(Op {
                    id: n(1) as u32,
                    actor: n(2) as usize,
                    kind: w[3].into(),
                    a: (4..w.len()).map(n).collect(),
                }),
                "fault" => p.faults.push((w[1].into(), (2..w.len()).map(n).collect())),
                "schedule" => p.sw = Some(p.sw.take().unwrap_or_default()),
                "sw" => p.sw.get_or_insert_with(Vec::new).push(Switch {
                    actor: n(1) as u32,
                    op: n(2) as u32,
                    acc: n(3),
                    to: n(4) as u32,
                }),
                _ => {}
            }
        }
        p
    }
}

pub fn sw_text(w: &Switch) -> String {
    format!("sw {} {} {} {}\n", w.actor, w.op, w.acc, w.to)
}
