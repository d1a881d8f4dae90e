//! The equivalent ways of the interface to do the same thing; `how` picks one.
use std::ops::Bound;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice};

pub fn read<B: BitGet>(x: &BitSlice<B>, how: u64, i: usize) -> bool {
    match how % 6 {
        0 => x.get(i),
        1 => x.get_bit(i),
        2 => unsafe { x.get_unchecked(i) },
        3 => unsafe { x.get_bit_unchecked(i) },
        4 => view(x, how / 6, i, x.len()).get(0),
        _ => view(x, how / 6, 0, i + 1).get(i),
    }
}

pub fn write<B: BitGet + BitModify>(x: &mut BitSlice<B>, how: u64, i: usize, v: bool) {
    match how % 6 {
        0 => x.set(i, v),
        1 => x.set_bit(i, v),
        2 => unsafe { x.set_unchecked(i, v) },
        3 => unsafe { x.set_bit_unchecked(i, v) },
        4 => {
            let n = x.len();
            view_mut(x, how / 6, i, n).set(0, v)
        }
        _ => view_mut(x, how / 6, 0, i + 1).set(i, v),
    }
}

pub fn toggle<B: BitGet + BitModify>(x: &mut BitSlice<B>, how: u64, i: usize) {
    match how % 6 {
        0 => x.flip(i),
        1 => x.flip_bit(i),
        2 => unsafe { x.flip_unchecked(i) },
        3 => unsafe { x.flip_bit_unchecked(i) },
        4 => {
            let n = x.len();
            view_mut(x, how / 6, i, n).flip(0)
        }
        _ => view_mut(x, how / 6, 0, i + 1).flip(i),
    }
}

/// Another description of the window s..e of something with n bits.
fn bounds(how: u64, s: usize, e: usize, n: usize) -> (Bound<usize>, Bound<usize>) {
    let a = match how & 1 {
        0 if s == 0 && how & 2 == 0 => Bound::Unbounded,
        1 if s > 0 => Bound::Excluded(s - 1),
        _ => Bound::Included(s),
    };
    let b = match how >> 1 & 1 {
        0 if e == n => Bound::Unbounded,
        1 if e > 0 => Bound::Included(e - 1),
        _ => Bound::Excluded(e),
    };
    (a, b)
}

/// The window s..e (which must be valid).
pub fn view<B: BitGet>(x: &BitSlice<B>, how: u64, s: usize, e: usize) -> BitSlice<&B> {
    let r = bounds(how >> 2, s, e, x.len());
    match how % 4 {
        0 => x.slice(s..e),
        1 => x.slice(r),
        2 => unsafe { x.slice_unchecked(s..e) },
        _ => unsafe { x.slice_unchecked(r) },
    }
}

pub fn view_mut<B: BitGet + BitModify>(x: &mut BitSlice<B>, how: u64, s: usize, e: usize) -> BitSlice<&mut B> {
    let r = bounds(how >> 2, s, e, x.len());
    match how % 4 {
        0 => x.slice_mut(s..e),
        1 => x.slice_mut(r),
        2 => unsafe { x.slice_unchecked_mut(s..e) },
        _ => unsafe { x.slice_unchecked_mut(r) },
    }
}
