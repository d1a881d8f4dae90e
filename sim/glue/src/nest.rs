//! What user-supplied code (strategy, range object, storage, output) may do while the library waits for its answer: use other
//! structures of the library on the same thread.
use crate::model::{pattern, Bits, Counts};
use crate::w_read::{build_bits, fold_bits};
use crate::{bad, Plan};
use simrt::{paused, setup};
use std::cell::UnsafeCell;
use std::fmt::Write;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::LinearSearch;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

struct Inner {
    m: Bits,
    c: Counts,
    idx: FlatPopcount<'static, LinearSearch>,
    bv: Box<BitVec>,
    own: Vec<UnsafeCell<BitVec>>,
}

static mut INNER: *mut Inner = std::ptr::null_mut();

pub const KINDS: u64 = 7;

/// Runs `f` while these other structures exist.
pub fn with_others(p: &Plan, f: impl FnOnce()) {
    if !p.faults.iter().any(|f| f.0 == "nest") {
        return f();
    }
    let m = pattern(2, 700, p.get("pseed") ^ 0x55);
    let c = Counts::of(&m);
    let made = setup(|| {
        let bv = Box::new(build_bits(&m, 0));
        let idx = FlatPopcount::new(unsafe { &*(&*bv as *const BitVec) });
        let own = (0..p.actors()).map(|_| UnsafeCell::new(build_bits(&m, 0))).collect::<Vec<_>>();
        (idx, bv, own)
    });
    let (idx, bv, own) = match made {
        Ok(x) => x,
        Err(e) => return bad!("unexpected-failure", "building other structures failed: {e:?}"),
    };
    let mut inner = Inner { m, c, idx, bv, own };
    unsafe { INNER = &mut inner };
    f();
    unsafe { INNER = std::ptr::null_mut() };
    let Inner { m, idx, bv, own, .. } = inner;
    match setup(|| own.iter().all(|b| unsafe { &*b.get() }.iter().eq(m.b.iter().copied()))) {
        Ok(true) => {}
        Ok(false) => bad!("wrong-contents", "a bit vector changed by user-supplied code does not contain what was put into it"),
        Err(e) => bad!("unexpected-failure", "reading other structures failed: {e:?}"),
    }
    let _ = setup(move || drop((idx, bv, own)));
}

fn check<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    paused(|| {
        if got != want {
            bad!("wrong-result", "{what} made by user-supplied code: got {got:?}, expected {want:?}")
        }
    })
}

/// Called by user-supplied code in the middle of an operation.
pub fn others(how: u64, k: u64) {
    let actor = unsafe { simrt::TL.actor };
    let Some(x) = paused(|| unsafe { INNER.as_mut() }) else { return };
    paused(|| simrt::count("nested_use", 1));
    let n = x.m.b.len();
    let k = k as usize;
    let (s, e) = (k % 300, 300 + k % 400);
    match how % KINDS {
        0 => check("reading a bit", x.bv.get(k % n), x.m.b[k % n]),
        1 => check("iterating a view", fold_bits(x.bv.slice(s..e).iter()), fold_bits(x.m.b[s..e].iter().copied())),
        2 => check("a rank query", x.idx.rank::<true>(k % (n + 1)), x.c.before[k % (n + 1)] as usize),
        3 => {
            let k = k % (x.c.ones.len() + 1);
            check("a select query", x.idx.select(k), x.c.ones.get(k).map(|x| *x as usize))
        }
        4 => {
            let mut t = String::new();
            let _ = write!(t, "{:?}", x.bv);
            let shown = t.bytes().filter(|c| *c == b'0' || *c == b'1').map(|c| c == b'1');
            check("printing", fold_bits(shown), fold_bits(x.m.b.iter().copied()))
        }
        5 if actor < x.own.len() => {
            // changes and restores a bit of the thread's own bit vector
            let b = unsafe { &mut *x.own[actor].get() };
            let mut v = b.slice_mut(s..e);
            let i = k % (e - s);
            let old = v.get(i);
            v.set(i, !old);
            check("reading a changed bit", v.get(i), !x.m.b[s + i]);
            v.flip(i);
        }
        _ => check("comparing views", x.bv.slice(s..e) == x.bv.slice(s..e), true),
    }
}
