//! Concurrent readers of shared, immutable structures (C01 bit vector, C02 rank, C03 select, C04 integers).
use crate::model::{a_len, pattern, Bits, Counts, PATTERNS};
use crate::plan::{Op, Plan};
use crate::{bad, common, expect, fold, ops_of, Outcome};
use crate::ways;
use simrt::{op, run_actors, setup, violated, Fail, Rng};
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

#[cfg(all(target_arch = "x86_64", target_feature = "ssse3", target_feature = "sse4.1"))]
use succinct_neo::rank_select::flat_popcount::SimdSearch;
#[cfg(not(all(target_arch = "x86_64", target_feature = "ssse3", target_feature = "sse4.1")))]
type SimdSearch = LinearSearch;

fn near(r: &mut Rng, len: u64) -> u64 {
    match r.below(6) {
        0 => r.below(3).min(len),
        1 => len.saturating_sub(r.below(3)),
        2 | 3 => {
            let b = *r.pick(&[64, 512, 4096, 8192]);
            let k = r.below(len / b + 1) * b;
            (k + r.below(3)).saturating_sub(1).min(len)
        }
        _ => r.below(len + 1),
    }
}

pub fn generate(p: &mut Plan, r: &mut Rng, index: u64) {
    common(p, r, 5);
    // a few runs ask so often that any small counter overflows
    p.set("long", (index % 601 == 17) as u64);
    let scale = match (p.prop.as_str(), r.below(100)) {
        ("C01", _) if index % 311 == 29 => 3,
        ("C02" | "C03", _) if index % 151 == 29 => 3,
        ("C02" | "C03", 0..=44) => 0,
        ("C02" | "C03", 45..=82) => 1,
        ("C02" | "C03", _) => 2,
        (_, 0..=84) => 0,
        (_, 85..=98) => 1,
        _ => 2,
    };
    if p.prop == "C04" {
        generate_ints(p, r, scale);
        return;
    }
    let len = a_len(r, scale);
    p.set("len", len);
    p.set("pattern", r.below(PATTERNS));
    p.set("pseed", r.next() >> 33);
    p.set("set_by", r.below(3));
    let actors = p.get("actors");
    let ones = if p.prop == "C03" {
        pattern(p.get("pattern"), len as usize, p.get("pseed")).b.iter().filter(|x| **x).count() as u64
    } else {
        0
    };
    if p.prop == "C01" {
        p.set("differ", if r.chance(1, 2) { 0 } else { 1 + r.below(len.max(1)) });
        p.set("vs", near(r, len));
        p.set("vn", r.below(len + 1));
    }
    if p.prop == "C03" {
        p.set("strats", 1 + r.below(7));
    }
    // in some runs all positions come from a small set, so that threads often meet at the same one
    let hot: Vec<u64> = (0..r.range(1, 4)).map(|_| near(r, len)).collect();
    let meet = r.chance(1, 3);
    let near = |r: &mut Rng, len: u64| if meet { *r.pick(&hot) } else { near(r, len) };
    let n = r.range(2, if scale > 1 { 10 } else { 24 });
    for _ in 0..n {
        let a = r.below(actors) as usize;
        // the second structure of the same length
        let second = r.chance(1, 4) as u64;
        match p.prop.as_str() {
            "C01" => {
                let (x, y, z) = (near(r, len), near(r, len), near(r, len));
                match r.below(22) {
                    0 | 1 => p.push(a, "get", &[x]),
                    2 => p.push(a, "getu", &[x, r.below(96)]),
                    3 => p.push(a, "getx", &[*r.pick(&[0, 1, 5, 63, 64, 1 << 40, u64::MAX]), r.below(8), x, y]),
                    4 => p.push(a, "sget", &[x, y, z, r.below(96), r.below(16)]),
                    5 => p.push(a, "ssget", &[x, y, z, r.below(64), r.below(64), r.below(16)]),
                    6 => p.push(a, "split", &[x, y]),
                    7 | 8 => p.push(a, "iter", &[x, y]),
                    9 => p.push(a, "itnew", &[x, y, r.below(16)]),
                    10 | 11 => p.push(a, "itnext", &[r.range(1, 70)]),
                    12 if r.chance(1, 2) => p.push(a, "eqo", &[x, y, z, r.below(3)]),
                    12 => p.push(a, "eq", &[x, y, r.below(16)]),
                    13 => p.push(a, "raw", &[]),
                    14 => p.push(a, if len <= 400 { "dbg" } else { "len" }, &[]),
                    15 => p.push(a, "clone", &[x]),
                    16 => p.push(a, "vget", &[x]),
                    17 => p.push(a, "veq", &[x, y]),
                    18 => p.push(a, "oget", &[x]),
                    19 => p.push(a, "oiter", &[x, y]),
                    20 => p.push(a, "vsplit", &[x, y]),
                    _ => p.push(a, "many", &[x, *r.pick(&[1, 7, 63, 64, 65]), r.range(2, 60)]),
                };
            }
            "C02" => {
                let x = near(r, len);
                match r.below(12) {
                    0..=2 => p.push(a, "r1", &[x, second]),
                    3 | 4 => p.push(a, "r0", &[x, second]),
                    5 => p.push(a, "rd", &[x, r.below(2)]),
                    6 => p.push(a, "rx", &[*r.pick(&[1, 2, 63, 64, 512, 4096, 5000, 1 << 40, u64::MAX >> 1, u64::MAX]), r.below(3)]),
                    7 | 8 => p.push(a, "rr", &[x, r.range(1, 70), *r.pick(&[1, 7, 64, 61, 512]), second]),
                    9 if scale < 3 => p.push(a, "build", &[x, r.below(3), second]),
                    10 => p.push(a, "len", &[]),
                    _ => p.push(a, "bit", &[x]),
                };
            }
            _ => {
                let k = match r.below(6) {
                    0 => r.below(3),
                    1 => ones.saturating_sub(r.range(1, 3)),
                    2 => (8192 * r.range(0, ones / 8192 + 1) + r.below(3)).saturating_sub(1),
                    _ => r.below(ones.max(1)),
                };
                let k = if meet { *r.pick(&hot) % ones.max(1) } else { k };
                match r.below(12) {
                    0..=4 => p.push(a, "s", &[k, r.below(3) + 3 * second]),
                    5 | 6 => p.push(a, "sr", &[k, r.range(1, 50), *r.pick(&[1, 3, 64, 500]), r.below(3) + 3 * second]),
                    7 => p.push(a, "sx", &[*r.pick(&[0, 1, 2, 100, 8192, 1 << 40, u64::MAX]), r.below(3) + 3 * second]),
                    8 if scale < 3 => p.push(a, "build", &[k, r.below(3) + 3 * second]),
                    9 => p.push(a, "rs", &[k, r.below(3)]),
                    10 => p.push(a, "r1", &[near(r, len)]),
                    _ => p.push(a, "s", &[k, r.below(3)]),
                };
            }
        }
    }
    if p.get("long") != 0 {
        let (a, x) = (r.below(actors) as usize, near(r, len));
        match p.prop.as_str() {
            "C01" => p.push(a, "many", &[x, *r.pick(&[1, 65]), r.range(66_000, 70_000)]),
            "C02" => p.push(a, "rr", &[x, r.range(66_000, 70_000), *r.pick(&[1, 64]), 0]),
            _ => p.push(a, "sr", &[x % ones.max(1), r.range(66_000, 70_000), *r.pick(&[1, 500]), r.below(3)]),
        };
    }
}

fn generate_ints(p: &mut Plan, r: &mut Rng, scale: u64) {
    let w = match r.below(3) {
        0 => *r.pick(&[1, 2, 3, 31, 32, 33, 61, 62, 63]),
        _ => r.range(1, 63),
    };
    p.set("width", w);
    let n = match r.below(400) {
        0 => r.range(20_000, 70_000),
        1..=99 => r.below(6),
        _ => a_len(r, scale.min(1)) / 3,
    };
    p.set("n", n);
    p.set("pseed", r.next() >> 33);
    p.set("cap", *r.pick(&[0, 1, 8, 64, 1000]));
    let actors = p.get("actors");
    if p.get("long") != 0 {
        p.push(r.below(actors) as usize, "many", &[r.below(n.max(1)), r.range(1, 70), r.range(66_000, 70_000)]);
    }
    let hot: Vec<u64> = (0..r.range(1, 4)).map(|_| r.below(n.max(1))).collect();
    let meet = r.chance(1, 3);
    for _ in 0..r.range(2, 24) {
        let a = r.below(actors) as usize;
        let x = if meet { *r.pick(&hot) } else { r.below(n.max(1)) };
        match r.below(13) {
            0..=2 => p.push(a, "get", &[x]),
            3 => p.push(a, "getu", &[x]),
            4 => p.push(a, "getx", &[*r.pick(&[0, 1, 7, 64, 1 << 40, u64::MAX])]),
            5 => p.push(a, "iter", &[]),
            6 => p.push(a, "itnew", &[]),
            7 => p.push(a, "itnext", &[r.range(1, 40)]),
            8 => p.push(a, "oget", &[x]),
            9 => p.push(a, "step", &[x, r.range(1, 9)]),
            10 => p.push(a, "many", &[x, r.range(1, 70), r.range(2, 60)]),
            11 => p.push(a, "itnth", &[r.below(30)]),
            _ => p.push(a, "run", &[x, r.range(1, 60)]),
        };
    }
}

/// Builds the bit vector of the plan through the public interface.
pub fn build_bits(m: &Bits, by: u64) -> BitVec {
    let mut bv = BitVec::new(m.len());
    for i in 0..m.len() {
        if m.get(i) {
            match by {
                0 => bv.set_bit(i, true),
                1 => bv.flip(i),
                _ => unsafe { bv.set_bit_unchecked(i, true) },
            }
        }
    }
    bv
}

fn report(e: Fail, what: &str) {
    bad!("unexpected-failure", "{what} failed: {e:?}")
}

/// The operation must succeed with this result.
pub(crate) fn must<T: PartialEq + std::fmt::Debug>(o: &Op, got: Result<T, Fail>, want: T) {
    match got {
        Ok(g) => expect(o, "", g, want),
        Err(e) => bad!("unexpected-failure", "operation {} ({}{}) failed: {e:?}", o.id, o.kind, crate::args(o)),
    }
}

/// The operation must be refused.
pub(crate) fn refused<T: std::fmt::Debug>(o: &Op, got: Result<T, Fail>) {
    match got {
        Err(Fail::Panic(_)) => {}
        g => bad!("not-refused", "operation {} ({}{}) was not refused: {g:?}", o.id, o.kind, crate::args(o)),
    }
}

pub fn fold_bits(it: impl Iterator<Item = bool>) -> (u64, u64) {
    let mut h = 0;
    let mut n = 0;
    for b in it {
        h = fold(h, b as u64 + 1);
        n += 1;
    }
    (h, n)
}

fn model_fold(m: &Bits, s: usize, e: usize) -> (u64, u64) {
    fold_bits(m.b[s..e].iter().copied())
}

fn order(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}

pub fn execute(p: &Plan, out: &mut Outcome) {
    match p.prop.as_str() {
        "C01" => bits(p, out),
        "C02" => rank(p, out),
        "C03" => select(p, out),
        _ => ints(p, out),
    }
}

fn same_bits(bv: &BitVec, m: &Bits) {
    match setup(|| fold_bits(bv.iter())) {
        Ok(h) if h == model_fold(m, 0, m.len()) && bv.len() == m.len() => {}
        Ok(_) => bad!("changed", "the shared bit vector changed although it was only read"),
        Err(e) => report(e, "reading the shared bit vector"),
    }
}

fn bits(p: &Plan, out: &mut Outcome) {
    let len = p.us("len");
    let m = pattern(p.get("pattern"), len, p.get("pseed"));
    let mut m2 = m.clone();
    if p.us("differ") > 0 && len > 0 {
        let i = (p.us("differ") - 1) % len;
        m2.b[i] = !m2.b[i];
    }
    let built = setup(|| (Box::new(build_bits(&m, p.get("set_by"))), Box::new(build_bits(&m2, 0))));
    let (bv, other) = match built {
        Ok(x) => x,
        Err(e) => return report(e, "building the bit vector"),
    };
    let vs = p.us("vs").min(len);
    let ve = vs + p.us("vn").min(len - vs);
    let shared = match setup(|| Box::new(bv.slice(vs..ve))) {
        Ok(x) => x,
        Err(e) => return report(e, "creating a view"),
    };
    run_actors(p.actors(), |me| {
        let mut it: Option<(Box<dyn ExactSizeIterator<Item = bool> + '_>, usize, usize)> = None;
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let x = o.us(0).min(len);
            match o.kind.as_str() {
                "get" if len > 0 => {
                    let i = x.min(len - 1);
                    must(o, op(o.id, || bv.get(i)), m.get(i));
                }
                "getu" if len > 0 => {
                    let i = x.min(len - 1);
                    must(o, op(o.id, || ways::read(&bv, o.arg(1), i)), m.get(i));
                }
                "getx" => {
                    let i = len.saturating_add(o.us(0));
                    let far = i.saturating_add(1);
                    let (s, e) = order(o.us(2).min(len), o.us(3).min(len));
                    let past = (e - s).saturating_add(o.us(0));
                    match o.us(1) {
                        0 | 1 => refused(o, op(o.id, || bv.get_bit(i))),
                        2 => refused(o, op(o.id, || bv.get(i))),
                        3 => refused(o, op(o.id, || bv.slice(s..e).get(past))),
                        4 => refused(o, op(o.id, || shared.get((ve - vs).saturating_add(o.us(0))))),
                        5 => refused(o, op(o.id, || bv.slice(s..far).len())),
                        6 => refused(o, op(o.id, || bv.slice(s..e).slice(past.saturating_add(1)..).len())),
                        _ => refused(o, op(o.id, || bv.split_at(far).0.len())),
                    }
                }
                "sget" => {
                    let (s, e) = order(x, o.us(1).min(len));
                    if s < e {
                        let i = o.us(2) % (e - s);
                        must(o, op(o.id, || ways::read(&ways::view(&bv, o.arg(4), s, e), o.arg(3), i)), m.get(s + i));
                    } else {
                        must(o, op(o.id, || bv.slice(s..e).is_empty()), true);
                    }
                }
                "ssget" => {
                    let (s, e) = order(x, o.us(1).min(len));
                    let s2 = o.us(3).min(e - s);
                    let e2 = (s2 + o.us(4)).min(e - s);
                    let want = model_fold(&m, s + s2, s + e2);
                    must(
                        o,
                        op(o.id, || {
                            let v = bv.slice(s..e);
                            let w = ways::view(&v, o.arg(5), s2, e2);
                            fold_bits(w.iter())
                        }),
                        want,
                    );
                }
                "split" if len > 0 => {
                    let i = x.min(len - 1);
                    let got = op(o.id, || {
                        let (a, b) = bv.split_at(i);
                        let at = if i > 0 { a.get_bit(i - 1) } else { false };
                        (a.len(), b.len(), b.get_bit(0), at, fold_bits(b.iter()))
                    });
                    let at = i > 0 && m.get(i - 1);
                    must(o, got, (i, len - i, m.get(i), at, model_fold(&m, i, len)));
                }
                "iter" => {
                    let (s, e) = order(x, o.us(1).min(len));
                    let want = model_fold(&m, s, e);
                    if s == 0 && e == len {
                        must(o, op(o.id, || fold_bits((&*bv).into_iter())), want);
                    } else {
                        must(o, op(o.id, || fold_bits(bv.slice(s..e).into_iter())), want);
                    }
                }
                "itnew" => {
                    let (s, e) = order(x, o.us(1).min(len));
                    match op(o.id, || ways::view(&bv, o.arg(2), s, e).into_iter()) {
                        Ok(i) => it = Some((Box::new(i), s, e)),
                        Err(e) => report(e, "starting an iteration"),
                    }
                }
                "itnext" => {
                    if let Some((i, at, end)) = &mut it {
                        let k = o.us(0);
                        let got = op(o.id, || {
                            let mut h = 0;
                            let mut n = 0;
                            while n < k {
                                match i.next() {
                                    Some(b) => h = fold(h, b as u64 + 1),
                                    None => break,
                                }
                                n += 1;
                            }
                            (h, n as u64, i.len())
                        });
                        let to = (*at + k).min(*end);
                        let (h, n) = model_fold(&m, *at, to);
                        must(o, got, (h, n, *end - to));
                        *at = to;
                    }
                }
                "eq" => {
                    let (s, e) = order(x, o.us(1).min(len));
                    let whole = m == m2;
                    let part = m.b[s..e] == m2.b[s..e];
                    must(o, op(o.id, || (**bv == **other, ways::view(&bv, o.arg(2), s, e) == other.slice(s..e))), (whole, part));
                }
                "eqo" => {
                    // views of different length or place
                    let (s, e) = order(x, o.us(1).min(len));
                    let (s2, n) = (o.us(2).min(len), e - s);
                    let e2 = (s2 + n + o.us(3)).saturating_sub(1).clamp(s2, len);
                    must(o, op(o.id, || bv.slice(s..e) == bv.slice(s2..e2)), m.b[s..e] == m.b[s2..e2]);
                }
                "raw" => {
                    let want = model_fold(&m, 0, len);
                    must(o, op(o.id, || fold_bits((0..len).map(|i| (bv.raw()[i / 64] >> (i % 64)) & 1 == 1))), want);
                    must(
                        o,
                        op(o.id | 0x4000_0000, || {
                            let words = <BitVec as AsRef<[usize]>>::as_ref(&bv);
                            fold_bits((0..len).map(|i| words.get_bit(i)))
                        }),
                        want,
                    );
                    must(o, op(o.id | 0x1000_0000, || fold_bits((0..len).map(|i| bv.backing().get_bit(i)))), want);
                    must(o, op(o.id | 0x2000_0000, || fold_bits(<BitVec as AsRef<BitSlice<Box<[usize]>>>>::as_ref(&bv).iter())), want);
                }
                "dbg" => {
                    let got = op(o.id, || format!("{bv:?}")).map(|s| s.chars().filter(|c| "01".contains(*c)).collect::<String>());
                    let want: String = m.b.iter().map(|b| if *b { '1' } else { '0' }).collect();
                    must(o, got, want);
                }
                "clone" => {
                    let want = model_fold(&m, 0, len);
                    must(
                        o,
                        op(o.id, || {
                            let mut c = (*bv).clone();
                            let h = fold_bits(c.iter());
                            if len > 0 {
                                c.flip(x.min(len - 1));
                            }
                            h
                        }),
                        want,
                    );
                }
                "oget" if len > 0 => {
                    let i = x.min(len - 1);
                    must(o, op(o.id, || (bv.get(i), other.get(i), bv.get(i))), (m.get(i), m2.get(i), m.get(i)));
                }
                "oiter" => {
                    let (s, e) = order(x, o.us(1).min(len));
                    must(o, op(o.id, || fold_bits(other.slice(s..e).iter())), model_fold(&m2, s, e));
                }
                "vsplit" if ve > vs => {
                    let i = x % (ve - vs);
                    let got = op(o.id, || {
                        let v = (*shared).clone();
                        let (a, b) = v.split_at(i);
                        (fold_bits(a.iter()), fold_bits(b.into_iter()), v == *shared)
                    });
                    must(o, got, (model_fold(&m, vs, vs + i), model_fold(&m, vs + i, ve), true));
                }
                "many" if len > 0 => {
                    let (step, n) = (o.us(1), o.us(2));
                    let got = op(o.id, || (0..n).fold(0, |h, j| fold(h, bv.get((x + j * step) % len) as u64)));
                    must(o, got, (0..n).fold(0, |h, j| fold(h, m.get((x + j * step) % len) as u64)));
                }
                "vget" if ve > vs => {
                    let i = x % (ve - vs);
                    must(o, op(o.id, || (shared.get(i), shared.len())), (m.get(vs + i), ve - vs));
                }
                "veq" => {
                    let (s, e) = order(x % (ve - vs + 1), o.us(1) % (ve - vs + 1));
                    let want = m.b[vs + s..vs + e] == m2.b[vs + s..vs + e];
                    must(o, op(o.id, || shared.slice(s..e) == other.slice(vs + s..vs + e)), want);
                }
                _ => must(o, op(o.id, || (bv.len(), bv.is_empty())), (len, len == 0)),
            }
        }
        // the iterator borrows from the vector; nothing to give back
        drop(it);
    });
    let _ = setup(move || drop(shared));
    same_bits(&bv, &m);
    same_bits(&other, &m2);
    out.nontrivial = len > 0;
    let _ = setup(move || drop((bv, other)));
}

/// Different contents of the same length, often with as many ones.
fn another(p: &Plan, m: &Bits) -> Bits {
    let (seed, len) = (p.get("pseed"), m.b.len());
    let mut b = m.clone();
    match (seed >> 3) % 6 {
        0 | 1 if len > 1 => b.b.rotate_left(1 + (seed >> 8) as usize % (len - 1)),
        2 => b.b.reverse(),
        // one of the ones is somewhere else
        3 if b.b.contains(&true) && b.b.contains(&false) => {
            let at = (seed >> 8) as usize % len;
            let find = |v: bool| (at..len).chain(0..at).find(|i| m.b[*i] == v).unwrap();
            let (one, zero) = (find(true), find(false));
            b.b.swap(one, zero)
        }
        _ => return pattern((p.get("pattern") + 1 + seed % (PATTERNS - 1)) % PATTERNS, len, seed),
    }
    b
}

fn rank(p: &Plan, out: &mut Outcome) {
    let len = p.us("len");
    let m = pattern(p.get("pattern"), len, p.get("pseed"));
    let c = Counts::of(&m);
    let bv = match setup(|| Box::new(build_bits(&m, p.get("set_by")))) {
        Ok(x) => x,
        Err(e) => return report(e, "building the bit vector"),
    };
    // another one of the same length, so that answers cannot be mixed up unnoticed
    let m2 = another(p, &m);
    let c2 = Counts::of(&m2);
    let bv2 = match setup(|| Box::new(build_bits(&m2, 0))) {
        Ok(x) => x,
        Err(e) => return report(e, "building the bit vector"),
    };
    let (idx, idx2) = match setup(|| (Box::new(FlatPopcount::<()>::new(&bv)), Box::new(FlatPopcount::<()>::new(&bv2)))) {
        Ok(x) => x,
        Err(e) => return report(e, "building the index"),
    };
    run_actors(p.actors(), |me| {
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let x = o.us(0).min(len);
            let second = match o.kind.as_str() {
                "rr" => o.us(3) != 0,
                "build" => o.us(2) != 0,
                "r1" | "r0" => o.us(1) != 0,
                _ => false,
            };
            let (c, idx, bv) = if second { (&c2, &idx2, &bv2) } else { (&c, &idx, &bv) };
            let one = c.before[x] as usize;
            match o.kind.as_str() {
                "r1" => must(o, op(o.id, || idx.rank::<true>(x)), one),
                "r0" => must(o, op(o.id, || idx.rank::<false>(x)), x - one),
                "rd" => {
                    let v = o.us(1) != 0;
                    must(o, op(o.id, || idx.rank_dyn(x, v)), if v { one } else { x - one });
                }
                "rx" => {
                    let i = len.saturating_add(o.us(0).max(1));
                    match o.us(1) {
                        0 => refused(o, op(o.id, || idx.rank::<true>(i))),
                        1 => refused(o, op(o.id, || idx.rank::<false>(i))),
                        _ => refused(o, op(o.id, || idx.rank_dyn(i, o.us(0) & 1 != 0))),
                    }
                }
                "rr" => {
                    let (n, step) = (o.us(1), o.us(2).max(1));
                    let got = op(o.id, || {
                        let mut h = 0;
                        let mut i = x;
                        for _ in 0..n {
                            h = fold(h, idx.rank::<true>(i) as u64);
                            i += step;
                            if i > len {
                                i %= len + 1
                            }
                        }
                        h
                    });
                    let mut h = 0;
                    let mut i = x;
                    for _ in 0..n {
                        h = fold(h, c.before[i] as u64);
                        i += step;
                        if i > len {
                            i %= len + 1
                        }
                    }
                    must(o, got, h);
                }
                "build" => {
                    let got = match o.us(1) {
                        0 => op(o.id, || FlatPopcount::<()>::new(bv).rank::<true>(x)),
                        1 => op(o.id, || FlatPopcount::<LinearSearch>::new(bv).rank::<true>(x)),
                        _ => op(o.id, || {
                            let i = FlatPopcount::<BinarySearch>::new(bv);
                            x - i.rank::<false>(x)
                        }),
                    };
                    must(o, got, one);
                }
                "bit" if len > 0 => must(o, op(o.id, || bv.get(x.min(len - 1))), m.get(x.min(len - 1))),
                _ => must(o, op(o.id, || (idx.len(), idx.is_empty())), (len, len == 0)),
            }
        }
    });
    let _ = setup(move || drop((idx, idx2)));
    same_bits(&bv, &m);
    same_bits(&bv2, &m2);
    out.nontrivial = len > 0;
    let _ = setup(move || drop((bv, bv2)));
}

fn select(p: &Plan, out: &mut Outcome) {
    let len = p.us("len");
    let m = pattern(p.get("pattern"), len, p.get("pseed"));
    let c = Counts::of(&m);
    let bv = match setup(|| Box::new(build_bits(&m, p.get("set_by")))) {
        Ok(x) => x,
        Err(e) => return report(e, "building the bit vector"),
    };
    let m2 = another(p, &m);
    let c2 = Counts::of(&m2);
    let bv2 = match setup(|| Box::new(build_bits(&m2, 0))) {
        Ok(x) => x,
        Err(e) => return report(e, "building the bit vector"),
    };
    let mask = p.get("strats");
    let built = setup(|| {
        (
            (mask & 1 != 0).then(|| Box::new(FlatPopcount::<LinearSearch>::new(&bv))),
            (mask & 2 != 0).then(|| Box::new(FlatPopcount::<BinarySearch>::new(&bv))),
            (mask & 4 != 0).then(|| Box::new(FlatPopcount::<SimdSearch>::new(&bv))),
            Box::new(FlatPopcount::<LinearSearch>::new(&bv2)),
        )
    });
    let (il, ib, is, i2) = match built {
        Ok(x) => x,
        Err(e) => return report(e, "building the index"),
    };
    let want = |which: u64, k: usize| if which >= 3 { &c2 } else { &c }.ones.get(k).map(|x| *x as usize);
    let ask = |which: u64, k: usize| -> Option<usize> {
        if which >= 3 {
            return i2.select(k);
        }
        for s in 0..3 {
            match (which + s) % 3 {
                0 => {
                    if let Some(i) = &il {
                        return i.select(k);
                    }
                }
                1 => {
                    if let Some(i) = &ib {
                        return i.select(k);
                    }
                }
                _ => {
                    if let Some(i) = &is {
                        return i.select(k);
                    }
                }
            }
        }
        None
    };
    let rank1 = |x: usize| -> usize {
        match (&il, &ib, &is) {
            (Some(i), _, _) => i.rank::<true>(x),
            (_, Some(i), _) => i.rank::<true>(x),
            (_, _, Some(i)) => i.rank::<true>(x),
            _ => 0,
        }
    };
    let ones = c.ones.len();
    run_actors(p.actors(), |me| {
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            let k = o.us(0);
            match o.kind.as_str() {
                "s" => must(o, op(o.id, || ask(o.arg(1), k)), want(o.arg(1), k)),
                "sr" => {
                    let (n, step) = (o.us(1), o.us(2).max(1));
                    let got = op(o.id, || {
                        let mut h = 0;
                        for j in 0..n {
                            let r = ask(o.arg(3), (k + j * step) % (ones + 1));
                            h = fold(h, r.map_or(0, |x| x as u64 + 1));
                        }
                        h
                    });
                    let mut h = 0;
                    for j in 0..n {
                        h = fold(h, want(o.arg(3), (k + j * step) % (ones + 1)).map_or(0, |x| x as u64 + 1));
                    }
                    must(o, got, h);
                }
                "sx" => {
                    let k = if o.arg(1) >= 3 { c2.ones.len() } else { ones }.saturating_add(k);
                    must(o, op(o.id, || ask(o.arg(1), k)), None);
                }
                "build" => {
                    let got = match o.us(1) {
                        0 => op(o.id, || FlatPopcount::<LinearSearch>::new(&bv).select(k)),
                        1 => op(o.id, || FlatPopcount::<BinarySearch>::new(&bv).select(k)),
                        2 => op(o.id, || FlatPopcount::<SimdSearch>::new(&bv).select(k)),
                        3 => op(o.id, || FlatPopcount::<LinearSearch>::new(&bv2).select(k)),
                        4 => op(o.id, || FlatPopcount::<BinarySearch>::new(&bv2).select(k)),
                        _ => op(o.id, || FlatPopcount::<SimdSearch>::new(&bv2).select(k)),
                    };
                    must(o, got, want(o.arg(1), k));
                }
                "rs" if ones > 0 => {
                    let k = k % ones;
                    must(o, op(o.id, || ask(o.arg(1), k).map(|x| (rank1(x), rank1(x + 1)))), Some((k, k + 1)));
                }
                "r1" => {
                    let x = k.min(len);
                    must(o, op(o.id, || rank1(x)), c.before[x] as usize);
                }
                _ => must(o, op(o.id, || bv.len()), len),
            }
        }
    });
    let _ = setup(move || drop((il, ib, is, i2)));
    same_bits(&bv, &m);
    same_bits(&bv2, &m2);
    out.nontrivial = ones > 0;
    let _ = setup(move || drop((bv, bv2)));
}

pub fn values(width: u64, n: usize, seed: u64) -> Vec<usize> {
    let mut r = Rng::derive(seed, 9, width);
    let max = (1u64 << width) - 1;
    (0..n)
        .map(|_| match r.below(5) {
            0 => 0,
            1 => max as usize,
            _ => r.below(max + 1) as usize,
        })
        .collect()
}

fn ints(p: &Plan, out: &mut Outcome) {
    let w = p.get("width").clamp(1, 63);
    let n = p.us("n");
    let m = values(w, n, p.get("pseed"));
    let m2 = if p.get("pseed") & 8 != 0 { m.iter().rev().copied().collect() } else { values(w, n, p.get("pseed") + 1) };
    let fill = |m: &[usize]| {
        let mut v = if p.get("cap") == 8 { IntVec::new(w as usize) } else { IntVec::with_capacity(w as usize, p.us("cap")) };
        for x in m {
            v.push(*x)
        }
        Box::new(v)
    };
    let built = setup(|| (fill(&m), fill(&m2)));
    let (v, v2) = match built {
        Ok(x) => x,
        Err(e) => return report(e, "filling the integer vector"),
    };
    let folded = |a: usize, b: usize| m[a..b].iter().fold(0, |h, x| fold(h, *x as u64));
    run_actors(p.actors(), |me| {
        let mut it: Option<(Box<dyn ExactSizeIterator<Item = usize> + '_>, usize)> = None;
        for o in ops_of(p, me) {
            if violated() {
                break;
            }
            match o.kind.as_str() {
                "get" if n > 0 => {
                    let i = o.us(0) % n;
                    must(o, op(o.id, || v.get(i)), m[i]);
                }
                "getu" if n > 0 => {
                    let i = o.us(0) % n;
                    must(o, op(o.id, || unsafe { v.get_unchecked(i) }), m[i]);
                }
                "getx" => {
                    let i = n.saturating_add(o.us(0));
                    refused(o, op(o.id, || v.get(i)));
                }
                "oget" if n > 0 => {
                    let i = o.us(0) % n;
                    must(o, op(o.id, || (v.get(i), v2.get(i), v.get(i))), (m[i], m2[i], m[i]));
                }
                "step" => {
                    let (s, k) = (o.us(0), o.us(1).max(1));
                    let got = op(o.id, || (v.iter().skip(s).step_by(k).fold(0, |h, x| fold(h, x as u64)), v.iter().last(), v.iter().count(), v.iter().size_hint().0 <= n));
                    must(o, got, (m.iter().skip(s).step_by(k).fold(0, |h, x| fold(h, *x as u64)), m.last().copied(), n, true));
                }
                "many" if n > 0 => {
                    let (a, step, k) = (o.us(0), o.us(1), o.us(2));
                    let got = op(o.id, || (0..k).fold(0, |h, j| fold(h, v.get((a + j * step) % n) as u64)));
                    must(o, got, (0..k).fold(0, |h, j| fold(h, m[(a + j * step) % n] as u64)));
                }
                "itnth" => {
                    if let Some((i, at)) = &mut it {
                        let k = o.us(0);
                        let got = op(o.id, || (i.nth(k), i.len()));
                        let to = (*at + k + 1).min(n);
                        must(o, got, (m.get(*at + k).copied(), n - to));
                        *at = to;
                    }
                }
                "run" if n > 0 => {
                    let a = o.us(0) % n;
                    let b = (a + o.us(1)).min(n);
                    must(o, op(o.id, || (a..b).fold(0, |h, i| fold(h, v.get(i) as u64))), folded(a, b));
                }
                "itnew" => match op(o.id, || v.iter()) {
                    Ok(i) => it = Some((Box::new(i), 0)),
                    Err(e) => report(e, "starting an iteration"),
                },
                "itnext" => {
                    if let Some((i, at)) = &mut it {
                        let k = o.us(0);
                        let got = op(o.id, || {
                            let mut h = 0;
                            let mut c = 0;
                            while c < k {
                                match i.next() {
                                    Some(x) => h = fold(h, x as u64),
                                    None => break,
                                }
                                c += 1;
                            }
                            (h, c, i.len())
                        });
                        let to = (*at + k).min(n);
                        must(o, got, (folded(*at, to), to - *at, n - to));
                        *at = to;
                    }
                }
                _ => must(
                    o,
                    op(o.id, || ((&*v).into_iter().fold(0, |h, x| fold(h, x as u64)), v.iter().len(), v.is_empty())),
                    (folded(0, n), n, n == 0),
                ),
            }
        }
        drop(it);
    });
    match setup(|| (v.iter().fold(0, |h, x| fold(h, x as u64)), v2.iter().fold(0, |h, x| fold(h, x as u64)))) {
        Ok(h) => {
            if h != (folded(0, n), m2.iter().fold(0, |h, x| fold(h, *x as u64))) {
                bad!("changed", "the shared integer vector changed although it was only read")
            }
        }
        Err(e) => report(e, "reading the shared integer vector"),
    }
    out.nontrivial = n > 0;
    let _ = setup(move || drop((v, v2)));
}
