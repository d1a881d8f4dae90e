//! Views over a storage device supplied by the user, whose accesses can fail (C10).
use crate::plan::{Op, Plan};
use crate::w_parts::{part_ops, place, positions, with_parts, Part};
use crate::w_read::fold_bits;
use crate::{bad, common, ops_of, Outcome};
use simrt::{op, paused, run_actors, setup, violated, DevFault, Fail, Rng};
use std::cell::UnsafeCell;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice};

/// One access to the device: bit, was it a write, did it fail.
#[derive(Clone, Copy, Debug)]
pub struct Acc {
    pub actor: usize,
    pub bit: usize,
    pub write: bool,
    pub failed: bool,
}

pub struct DevState {
    pub bits: Vec<bool>,
    /// Bits that can never be read or written.
    pub bad: Vec<bool>,
    pub log: Vec<Acc>,
    /// Per actor: how many accesses until one fails (None: no fault), and does the failed write take effect.
    pub fail_in: Vec<Option<u64>>,
    pub late: bool,
    /// Per actor: how many accesses until the device uses other structures itself, and how.
    pub nest_in: Vec<Option<(u64, u64)>>,
}

/// A simulated bit-addressable device. Accesses are scheduling points; all bookkeeping is invisible to the
/// race detector, and each bit is its own cell.
#[derive(Clone, Copy)]
pub struct Dev<'a>(pub &'a UnsafeCell<DevState>);
unsafe impl Send for Dev<'_> {}
unsafe impl Sync for Dev<'_> {}

impl Dev<'_> {
    #[allow(clippy::mut_from_ref)]
    pub fn st(&self) -> &mut DevState {
        unsafe { &mut *self.0.get() }
    }
}

/// `change`: None reads, Some(f) writes f(old).
fn dev_access(d: &Dev, bit: usize, change: Option<fn(bool, bool) -> bool>, v: bool) -> bool {
    simrt::dev_point(bit as u64);
    let actor = unsafe { simrt::TL.actor };
    let nest = paused(|| match d.st().nest_in.get_mut(actor)? {
        Some((0, how)) => {
            let how = *how;
            d.st().nest_in[actor] = None;
            Some(how)
        }
        Some((n, _)) => {
            *n -= 1;
            None
        }
        None => None,
    });
    if let Some(how) = nest {
        crate::nest::others(how, how / crate::nest::KINDS + bit as u64)
    }
    let r = paused(|| {
        let s = d.st();
        let actor = if actor < s.fail_in.len() { actor } else { 0 };
        let mut failed = bit >= s.bits.len() || s.bad[bit];
        if let Some(n) = &mut s.fail_in[actor] {
            if *n == 0 {
                s.fail_in[actor] = None;
                failed = true;
                simrt::count("device_fail", 1);
            } else {
                *n -= 1;
            }
        }
        s.log.push(Acc { actor, bit, write: change.is_some(), failed });
        if bit >= s.bits.len() {
            return None;
        }
        let old = s.bits[bit];
        if let Some(f) = change {
            if !failed || s.late {
                s.bits[bit] = f(old, v);
            }
        }
        if failed {
            None
        } else {
            Some(old)
        }
    });
    match r {
        Some(x) => x,
        None => std::panic::panic_any(DevFault),
    }
}

impl BitGet for Dev<'_> {
    unsafe fn get_bit_unchecked(&self, i: usize) -> bool {
        dev_access(self, i, None, false)
    }
    fn get_bit(&self, i: usize) -> bool {
        dev_access(self, i, None, false)
    }
}

impl BitModify for Dev<'_> {
    unsafe fn set_bit_unchecked(&mut self, i: usize, v: bool) {
        dev_access(self, i, Some(|_, v| v), v);
    }
    fn set_bit(&mut self, i: usize, v: bool) {
        dev_access(self, i, Some(|_, v| v), v);
    }
    unsafe fn flip_bit_unchecked(&mut self, i: usize) {
        dev_access(self, i, Some(|o, _| !o), false);
    }
    fn flip_bit(&mut self, i: usize) {
        dev_access(self, i, Some(|o, _| !o), false);
    }
}

pub fn device(bits: Vec<bool>, actors: usize) -> UnsafeCell<DevState> {
    UnsafeCell::new(DevState { bad: vec![false; bits.len()], bits, log: Vec::new(), fail_in: vec![None; actors.max(1)], late: false, nest_in: vec![None; actors.max(1)] })
}

pub fn generate(p: &mut Plan, r: &mut Rng) {
    common(p, r, 5);
    let len = match r.below(3) {
        0 => r.range(4, 40),
        _ => r.range(40, 400),
    };
    p.set("len", len);
    let off = if r.chance(1, 4) { 0 } else { r.below(len / 2) };
    p.set("off", off);
    p.set("tail", if r.chance(1, 4) { 0 } else { r.below(len / 3) });
    p.set("pseed", r.next() >> 33);
    p.set("late", r.below(2));
    p.set("wrap", r.below(6));
    p.set("bad_outside", r.chance(2, 3) as u64);
    let parts = p.get("actors").min(6);
    for k in 1..parts {
        p.set(&format!("s{k}"), r.below(len - off));
    }
    part_ops(p, r, parts);
    for _ in 0..r.below(4) {
        let a = r.below(parts) as usize;
        p.push(a, ["rcget", "rcall"][r.below(2) as usize], &[r.below(1 << 20), r.below(1 << 20), r.below(96)]);
    }
    let ids: Vec<(u32, String)> = p.ops.iter().map(|o| (o.id, o.kind.clone())).collect();
    for (id, kind) in ids {
        if r.chance(1, 4) {
            let n = if matches!(kind.as_str(), "all" | "rcall" | "fill" | "eq" | "resplit") { r.below(12) } else { 0 };
            p.fault("dev", &[id as u64, n]);
        }
        if r.chance(1, 12) {
            p.fault("nest", &[id as u64, r.below(3), r.below(1 << 14)]);
        }
    }
    for _ in 0..r.below(3) {
        p.fault("sector", &[r.below(len), r.range(1, 4)]);
    }
}

fn dev_op(dev: &Dev, part: &mut dyn Part, me: usize, first: usize, n: usize, o: &Op, fail: Option<u64>) {
    let old: Vec<bool> = dev.st().bits[first..first + n].to_vec();
    let mut targets: Vec<(usize, bool)> = Vec::new();
    dev.st().fail_in[me] = fail;
    let from = dev.st().log.len();
    let mut reject = false;
    // the bits whose failure may reach the caller
    let mut about = 0..0;
    // what a successful operation returns, as a string to keep one type
    let mut want = String::new();
    let got: Result<String, Fail>;
    if n == 0 {
        got = op(o.id, || part.size()).map(|x| x.to_string());
        want = "0".into();
    } else {
        match o.kind.as_str() {
            "set" => {
                let (i, v) = (place(o.arg(0), n), o.arg(1) != 0);
                targets.push((i, v));
                got = op(o.id, || part.write(o.arg(2), i, v)).map(|_| String::new());
            }
            "flip" => {
                let i = place(o.arg(0), n);
                targets.push((i, !old[i]));
                got = op(o.id, || part.toggle(o.arg(1), i)).map(|_| String::new());
            }
            "fill" => {
                let s = place(o.arg(0), n);
                let e = (s + o.us(1)).min(n);
                let v = o.arg(2) != 0;
                targets.extend((s..e).map(|i| (i, v)));
                got = op(o.id, || {
                    for i in s..e {
                        part.write(0, i, v)
                    }
                })
                .map(|_| String::new());
            }
            "get" => {
                let i = place(o.arg(0), n);
                want = old[i].to_string();
                about = i..i + 1;
                got = op(o.id, || part.read(o.arg(1), i)).map(|x| x.to_string());
            }
            "all" => {
                let (a, b) = (place(o.arg(0), n), place(o.arg(1), n));
                let (s, e) = (a.min(b), a.max(b) + 1);
                want = format!("{:?}", fold_bits(old[s..e].iter().copied()));
                about = s..e;
                got = op(o.id, || part.read_all(o.arg(2), s, e)).map(|x| format!("{x:?}"));
            }
            "rcget" => {
                // read-only views that share the ownership of the storage
                let i = place(o.arg(0), n);
                want = old[i].to_string();
                about = i..i + 1;
                let rc = std::rc::Rc::new(*dev);
                got = op(o.id, || crate::ways::read(&BitSlice::new(rc.clone(), first, first + n), o.arg(2), i)).map(|x| x.to_string());
            }
            "rcall" => {
                let (a, b) = (place(o.arg(0), n), place(o.arg(1), n));
                let (s, e) = (a.min(b), a.max(b) + 1);
                want = format!("{:?}", fold_bits(old[s..e].iter().copied()));
                about = s..e;
                let rc = std::rc::Rc::new(*dev);
                got = op(o.id, || {
                    let v = BitSlice::new(rc.clone(), first, first + n);
                    let f = fold_bits(crate::ways::view(&v, o.arg(2), s, e).iter());
                    f
                })
                .map(|x| format!("{x:?}"));
            }
            "sub" => {
                let (a, b) = (place(o.arg(0), n), place(o.arg(1), n));
                let (s, e) = (a.min(b), a.max(b) + 1);
                let (i, v) = (place(o.arg(2), e - s), o.arg(3) != 0);
                targets.push((s + i, v));
                got = op(o.id, || part.write_sub(o.arg(4), s, e, i, v)).map(|_| String::new());
            }
            "resplit" => {
                let at = place(o.arg(0), n);
                let v = o.arg(3) != 0;
                let (i, j) = (o.us(1), o.us(2));
                if at > 0 {
                    targets.push((i % at, v));
                }
                targets.push((at + j % (n - at), v));
                got = op(o.id, || part.write_split(at, i, j, v)).map(|_| String::new());
            }
            "setx" => {
                let i = n.saturating_add(o.us(0));
                reject = true;
                got = op(o.id, || part.write(0, i, o.arg(1) != 0)).map(|_| String::new());
            }
            _ => {
                let h = o.us(0) % (n / 2 + 1);
                want = (old[..h] == old[h..2 * h]).to_string();
                about = 0..2 * h;
                got = op(o.id, || part.same_halves(o.arg(1), h)).map(|x| x.to_string());
            }
        }
    }
    let st = dev.st();
    st.fail_in[me] = None;
    let what = format!("operation {} ({}{})", o.id, o.kind, crate::args(o));
    let mine: Vec<Acc> = st.log[from..].iter().filter(|a| a.actor == me).copied().collect();
    let mut any_failed = false;
    for a in &mine {
        any_failed |= a.failed;
        if a.bit < first || a.bit >= first + n {
            return bad!("escaped-view", "{what} on the view of device bits {first}..{} accessed bit {}", first + n, a.bit);
        }
        if a.write && !targets.iter().any(|t| first + t.0 == a.bit) {
            return bad!("wrong-bit-written", "{what} wrote device bit {} which it does not concern", a.bit);
        }
        if a.failed && !about.contains(&(a.bit - first)) && !targets.iter().any(|t| first + t.0 == a.bit) {
            return bad!("foreign-failure", "{what} met the failure of device bit {} which it does not concern", a.bit);
        }
    }
    match &got {
        Ok(g) => {
            if reject {
                return bad!("not-refused", "{what} was not refused");
            }
            if any_failed {
                return bad!("failure-swallowed", "{what} reported success although the device failed");
            }
            if *g != want {
                return bad!("wrong-result", "{what}: got {g}, expected {want}");
            }
        }
        Err(Fail::Panic(_)) if reject => {}
        Err(Fail::Dev) if any_failed => simrt::count("device_fail_seen", 1),
        Err(e) => return bad!("unexpected-failure", "{what} failed without a device failure: {e:?}"),
    }
    for i in 0..n {
        let now = st.bits[first + i];
        let new = targets.iter().rev().find(|t| t.0 == i).map(|t| t.1);
        let ok = match new {
            Some(v) if got.is_ok() => now == v,
            Some(v) => now == v || now == old[i],
            None => now == old[i],
        };
        if !ok {
            return bad!("wrong-contents", "after {what} bit {i} of the view is {} (before: {})", now as u8, old[i] as u8);
        }
    }
}

struct Drive<'a> {
    p: &'a Plan,
    dev: Dev<'a>,
    at: &'a [usize],
    bounds: &'a [usize],
    off: usize,
}

impl Drive<'_> {
    fn run<B: BitGet + BitModify + Send>(&self, mut root: BitSlice<B>) -> Result<(), Fail> {
        let (p, bounds) = (self.p, self.bounds);
        let parts = bounds.len() - 1;
        with_parts(&mut root, self.at, |views| {
            run_actors(p.actors(), |me| {
                if me >= parts {
                    return;
                }
                let mut view = views[me].lock().unwrap().take().unwrap();
                for o in ops_of(p, me) {
                    if violated() {
                        break;
                    }
                    let fail = p.faults_of("dev", o.id).first().map(|f| f[0]);
                    self.dev.st().nest_in[me] = p.faults_of("nest", o.id).first().map(|f| (f[0], f[1]));
                    dev_op(&self.dev, &mut *view, me, self.off + bounds[me], bounds[me + 1] - bounds[me], o, fail);
                    self.dev.st().nest_in[me] = None;
                }
            });
        })
    }
}

pub fn execute(p: &Plan, out: &mut Outcome) {
    let len = p.us("len").max(1);
    let off = p.us("off").min(len);
    let end = (len - p.us("tail").min(len)).max(off);
    let n = end - off;
    let bits = crate::model::pattern(2, len, p.get("pseed")).b;
    let cell = device(bits.clone(), p.actors());
    let dev = Dev(&cell);
    dev.st().late = p.get("late") != 0;
    if p.get("bad_outside") != 0 {
        for i in (0..off).chain(end..len) {
            dev.st().bad[i] = true;
        }
    }
    for f in &p.faults {
        if f.0 == "sector" {
            for i in 0..f.1[1] as usize {
                let b = (f.1[0] as usize + i) % len;
                dev.st().bad[b] = true;
            }
            simrt::count("bad_sector", 1);
        }
    }
    let at = positions(p, n);
    let mut bounds = vec![0];
    bounds.extend(&at);
    bounds.push(n);
    let parts = bounds.len() - 1;
    let drive = Drive { p, dev, at: &at, bounds: &bounds, off };
    let mut again = dev;
    // the storage directly, owned by a box, borrowed, or behind another view
    let base = off / 2;
    let r = match p.get("wrap") {
        0 | 1 => drive.run(BitSlice::new(dev, off, end)),
        2 => drive.run(BitSlice::new(Box::new(dev), off, end)),
        3 => drive.run(BitSlice::new(&mut again, off, end)),
        4 => drive.run(BitSlice::new(BitSlice::new(dev, base, len), off - base, end - base)),
        _ => drive.run(BitSlice::new(Box::new(BitSlice::new(&mut again, base, end)), off - base, end - base)),
    };
    if let Err(e) = r {
        bad!("unexpected-failure", "creating the views failed: {e:?}");
    }
    for i in (0..off).chain(end..len) {
        if dev.st().bits[i] != bits[i] {
            bad!("wrong-contents", "device bit {i} outside the view changed");
            break;
        }
    }
    out.nontrivial = n > 0 && parts > 1;
    let _ = setup(|| ());
}
