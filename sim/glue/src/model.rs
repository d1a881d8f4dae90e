//! Reference models, kept deliberately naive.
use simrt::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Bits {
    pub b: Vec<bool>,
}

impl Bits {
    pub fn len(&self) -> usize {
        self.b.len()
    }
    pub fn get(&self, i: usize) -> bool {
        self.b[i]
    }
}

/// Prefix counts and positions of the ones.
pub struct Counts {
    pub before: Vec<u32>,
    pub ones: Vec<u32>,
}

impl Counts {
    pub fn of(b: &Bits) -> Counts {
        let mut before = Vec::with_capacity(b.len() + 1);
        let mut ones = Vec::new();
        let mut c = 0;
        for (i, &v) in b.b.iter().enumerate() {
            before.push(c);
            if v {
                c += 1;
                ones.push(i as u32);
            }
        }
        before.push(c);
        Counts { before, ones }
    }
}

pub fn pattern(kind: u64, len: usize, seed: u64) -> Bits {
    let mut r = Rng::derive(seed, 5, kind);
    let mut b = vec![false; len];
    match kind {
        0 => {}
        1 => b.fill(true),
        2 => b.iter_mut().for_each(|x| *x = r.next() & 1 == 1),
        3 => {
            let k = 1 << r.range(3, 13);
            b.iter_mut().for_each(|x| *x = r.below(k) == 0)
        }
        4 => {
            let k = 1 << r.range(3, 10);
            b.iter_mut().for_each(|x| *x = r.below(k) != 0)
        }
        5 => {
            let mean = 1 << r.range(2, 14);
            let mut v = r.next() & 1 == 1;
            let mut left = r.range(1, 2 * mean);
            for x in b.iter_mut() {
                if left == 0 {
                    v = !v;
                    left = r.range(1, 2 * mean);
                }
                *x = v;
                left -= 1;
            }
        }
        6 => {
            let k = r.range(2, 70) as usize;
            for i in (0..len).step_by(k) {
                b[i] = true
            }
        }
        7 => {
            // whole blocks empty or full
            let size = *r.pick(&[64usize, 512, 4096, 8192]);
            for c in b.chunks_mut(size) {
                if r.chance(1, 2) {
                    c.fill(true)
                }
            }
        }
        8 => {
            if len > 0 {
                b[r.below(len as u64) as usize] = true
            }
        }
        9 => {
            if len > 0 {
                b[len - 1] = true
            }
        }
        _ => {
            // ones exactly around block borders
            for i in 0..len {
                if matches!(i % 512, 0 | 63 | 64 | 511) && r.chance(3, 4) {
                    b[i] = true
                }
            }
        }
    }
    Bits { b }
}

pub const PATTERNS: u64 = 11;

/// A length with a bias towards the borders of words and blocks. `scale` 0: small, 1: medium, 2: large.
pub fn a_len(r: &mut Rng, scale: u64) -> u64 {
    const B: [u64; 8] = [64, 128, 512, 1024, 4096, 8192, 12288, 16384];
    match scale {
        0 => match r.below(4) {
            0 => r.below(4),
            1 => r.range(1, 300),
            2 => (*r.pick(&[64, 128, 192, 256, 512]) + r.below(3)).saturating_sub(1),
            _ => r.range(60, 700),
        },
        1 => match r.below(3) {
            0 => *r.pick(&B) + r.below(3) - 1,
            1 => *r.pick(&B) + r.below(130),
            _ => r.range(500, 9000),
        },
        2 => match r.below(3) {
            0 => 4096 * r.range(2, 12) + r.below(3) - 1,
            1 => 8192 * r.range(1, 6) + r.below(600),
            _ => r.range(8000, 50000),
        },
        _ => r.range(100_000, 600_000),
    }
}
