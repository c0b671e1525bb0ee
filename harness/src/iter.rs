//! Iteration: C03.
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use unsized_vec::UnsizedVec;

/// An element of the vector: where it is and what it has to look like.
#[derive(Clone, Copy)]
struct Place {
    at: usize,
    g: G,
}

fn places<F: Fam>(m: &M<F>) -> [Place; N] {
    let mut p = [Place { at: 0, g: G0 }; N];
    for i in 0..m.n {
        p[i] = Place { at: &m.v[i] as *const F::T as *const u8 as usize, g: m.g[i] };
    }
    p
}

fn same<F: Fam>(r: &F::T, p: &Place) {
    uv_assert(r as *const F::T as *const u8 as usize == p.at, 100);
    ok_ref::<F>(r, &p.g);
}

/// A count: below n as one path each, everything else at once.
fn any_skip(n: usize) -> usize {
    let k = uv_sym(0, usize::MAX);
    if uv_truth(k < n) { uv_conc(k) } else { k }
}

macro_rules! drive {
    ($F:ty, $it:ident, $p:ident, $n:expr, $steps:expr) => {{
        let (mut lo, mut hi) = (0, $n);
        for _ in 0..$steps {
            let left = hi - lo;
            uv_assert($it.len() == left, 101);
            uv_assert($it.size_hint() == (left, Some(left)), 102);
            match uv_pick(0, 3) {
                0 => match $it.next() {
                    None => uv_assert(left == 0, 103),
                    Some(r) => {
                        uv_assert(left > 0, 104);
                        same::<$F>(r, &$p[lo]);
                        lo += 1;
                    }
                },
                1 => match $it.next_back() {
                    None => uv_assert(left == 0, 105),
                    Some(r) => {
                        uv_assert(left > 0, 106);
                        hi -= 1;
                        same::<$F>(r, &$p[hi]);
                    }
                },
                2 => {
                    let k = any_skip(left);
                    match $it.nth(k) {
                        None => {
                            uv_assert(k >= left, 107);
                            lo = hi;
                        }
                        Some(r) => {
                            uv_assert(k < left, 108);
                            same::<$F>(r, &$p[lo + k]);
                            lo += k + 1;
                        }
                    }
                }
                _ => {
                    let k = any_skip(left);
                    match $it.nth_back(k) {
                        None => {
                            uv_assert(k >= left, 109);
                            hi = lo;
                        }
                        Some(r) => {
                            uv_assert(k < left, 110);
                            same::<$F>(r, &$p[hi - 1 - k]);
                            hi -= k + 1;
                        }
                    }
                }
            }
        }
        let left = hi - lo;
        uv_assert($it.len() == left, 111);
        uv_assert($it.size_hint() == (left, Some(left)), 112);
        // all of the rest, in one of the ways there are
        match uv_pick(0, 11) {
            0 => uv_assert($it.count() == left, 113),
            1 => match $it.last() {
                None => uv_assert(left == 0, 114),
                Some(r) => {
                    uv_assert(left > 0, 115);
                    same::<$F>(r, &$p[hi - 1]);
                }
            },
            2 => {
                let mut i = lo;
                $it.for_each(|r| {
                    uv_assert(i < hi, 116);
                    same::<$F>(r, &$p[i]);
                    i += 1;
                });
                uv_assert(i == hi, 117);
            }
            3 => {
                let mut i = lo;
                while let Some(r) = $it.next() {
                    uv_assert(i < hi, 118);
                    same::<$F>(r, &$p[i]);
                    i += 1;
                }
                uv_assert(i == hi, 119);
                uv_assert($it.next().is_none(), 120);
                uv_assert($it.next_back().is_none(), 121);
                uv_assert($it.nth(0).is_none(), 122);
                uv_assert($it.len() == 0, 123);
            }
            4 => {
                let mut i = hi;
                while let Some(r) = $it.next_back() {
                    uv_assert(i > lo, 124);
                    i -= 1;
                    same::<$F>(r, &$p[i]);
                }
                uv_assert(i == lo, 125);
                uv_assert($it.next_back().is_none(), 126);
                uv_assert($it.next().is_none(), 127);
                uv_assert($it.nth_back(0).is_none(), 128);
                uv_assert($it.len() == 0, 129);
            }
            5 => {
                let mut i = hi;
                let c = $it.rev().fold(0, |c, r| {
                    i -= 1;
                    same::<$F>(r, &$p[i]);
                    c + 1
                });
                uv_assert(c == left, 130);
            }
            6 => {
                let mut i = lo;
                let c = $it.fold(0, |c, r| {
                    same::<$F>(r, &$p[i]);
                    i += 1;
                    c + 1
                });
                uv_assert(c == left, 131);
            }
            7 => {
                let t = uv_pick(0, left);
                let mut i = lo;
                let r = $it.position(|r| {
                    same::<$F>(r, &$p[i]);
                    i += 1;
                    i > lo + t
                });
                uv_assert(r == if t < left { Some(t) } else { None }, 132);
                uv_assert(i == lo + if t < left { t + 1 } else { left }, 143);
                uv_assert($it.len() == left - (i - lo), 133);
                match $it.next() {
                    None => uv_assert(i == hi, 160),
                    Some(r) => same::<$F>(r, &$p[i]),
                }
            }
            8 => {
                let t = uv_pick(0, left);
                let mut i = lo;
                match $it.find(|r| {
                    same::<$F>(r, &$p[i]);
                    i += 1;
                    i > lo + t
                }) {
                    None => uv_assert(t == left, 134),
                    Some(r) => {
                        uv_assert(t < left, 135);
                        same::<$F>(r, &$p[lo + t]);
                    }
                }
                uv_assert(i == lo + if t < left { t + 1 } else { left }, 146);
                uv_assert($it.len() == left - (i - lo), 136);
                match $it.next() {
                    None => uv_assert(i == hi, 163),
                    Some(r) => same::<$F>(r, &$p[i]),
                }
            }
            9 => {
                let t = uv_pick(0, left);
                let mut i = lo;
                let r = $it.find_map(|r| {
                    same::<$F>(r, &$p[i]);
                    i += 1;
                    if i > lo + t { Some(i) } else { None }
                });
                uv_assert(r == if t < left { Some(lo + t + 1) } else { None }, 137);
                uv_assert(i == lo + if t < left { t + 1 } else { left }, 148);
                uv_assert($it.len() == left - (i - lo), 138);
                match $it.next() {
                    None => uv_assert(i == hi, 165),
                    Some(r) => same::<$F>(r, &$p[i]),
                }
            }
            10 => {
                let t = uv_pick(0, left);
                let mut i = lo;
                let r = $it.all(|r| {
                    same::<$F>(r, &$p[i]);
                    i += 1;
                    i <= lo + t
                });
                uv_assert(r == (t == left), 139);
                uv_assert(i == lo + if t < left { t + 1 } else { left }, 150);
                uv_assert($it.len() == left - (i - lo), 140);
                match $it.next() {
                    None => uv_assert(i == hi, 167),
                    Some(r) => same::<$F>(r, &$p[i]),
                }
            }
            _ => {
                let t = uv_pick(0, left);
                let mut i = lo;
                let r = $it.any(|r| {
                    same::<$F>(r, &$p[i]);
                    i += 1;
                    i > lo + t
                });
                uv_assert(r == (t < left), 141);
                uv_assert(i == lo + if t < left { t + 1 } else { left }, 152);
                uv_assert($it.len() == left - (i - lo), 142);
                match $it.next() {
                    None => uv_assert(i == hi, 169),
                    Some(r) => same::<$F>(r, &$p[i]),
                }
            }
        }
    }};
}

fn drive_ref<F: Fam>(m: M<F>, steps: usize) {
    let p = places(&m);
    {
        let mut it = if uv_pick(0, 1) == 0 { m.v.iter() } else { (&m.v).into_iter() };
        drive!(F, it, p, m.n, steps);
    }
    m.check();
    m.finish();
}

fn drive_mut<F: Fam>(mut m: M<F>, steps: usize) {
    let p = places(&m);
    let n = m.n;
    {
        let mut it = if uv_pick(0, 1) == 0 { m.v.iter_mut() } else { (&mut m.v).into_iter() };
        drive!(F, it, p, n, steps);
    }
    m.check();
    m.finish();
}

/// No step, then everything that is left at once.
pub fn iter0<F: Fam>() {
    drive_ref(M::<F>::pre(uv_pick(0, 2)), 0);
}

/// Up to three elements; in the quick tier with fixed alignments and none of them empty.
fn some<F: Fam>() -> M<F> {
    let n = uv_pick(0, 3);
    if F::FEW && uv_tier() == 0 { M::roomy(n) } else { M::plain(n) }
}

pub fn iter1<F: Fam>() {
    drive_ref(some::<F>(), 1);
}

pub fn iter2<F: Fam>() {
    drive_ref(M::<F>::roomy(uv_pick(0, 3)), 2);
}

pub fn iter3<F: Fam>() {
    drive_ref(M::<F>::roomy(3), 3);
}

pub fn iter_mut1<F: Fam>() {
    drive_mut(some::<F>(), 1);
}

pub fn iter_mut2<F: Fam>() {
    drive_mut(M::<F>::roomy(uv_pick(0, 3)), 2);
}

pub fn iter_mut3<F: Fam>() {
    drive_mut(M::<F>::roomy(3), 3);
}

/// Everything written through the references of iter_mut, held all at the same time, is what the vector contains afterwards.
pub fn iter_write<F: Fam>() {
    let mut m = M::<F>::plain(3);
    let (a, b, c) = (uv_byte(), uv_byte(), uv_byte());
    let new = [a, b, c];
    {
        let g = m.g;
        let mut it = m.v.iter_mut();
        let (x, z, y) = (it.next(), it.next_back(), it.next());
        uv_assert(it.next().is_none(), 150);
        for (i, r) in [x, y, z].into_iter().enumerate() {
            match r {
                None => uv_assert(false, 151),
                Some(r) => {
                    ok_ref::<F>(r, &g[i]);
                    if g[i].unit == 0 && uv_truth(g[i].size > 0) {
                        unsafe { *(r as *mut F::T as *mut u8).add(g[i].j) = new[i] };
                    }
                }
            }
        }
    }
    for i in 0..3 {
        if m.g[i].unit == 0 {
            m.g[i].b = new[i];
        }
    }
    m.check();
    m.finish();
}

/// Slice iterators and vector iterators of sized elements are interchangeable.
pub fn iter_slice() {
    let mut v: UnsizedVec<u32> = UnsizedVec::new();
    let n = uv_pick(0, 3);
    let mut a = [0u32; 3];
    for i in 0..n {
        a[i] = uv_sym(0, u32::MAX as usize) as u32;
        v.push(a[i]);
    }
    let s: core::slice::Iter<u32> = v.iter().into();
    uv_assert(s.len() == n, 160);
    for (i, x) in s.clone().enumerate() {
        uv_assert(*x == a[i], 161);
    }
    let mut u: unsized_vec::UnsizedIter<u32> = s.into();
    uv_assert(u.len() == n, 162);
    if n > 0 {
        match u.next_back() {
            Some(x) => uv_assert(*x == a[n - 1], 163),
            None => uv_assert(false, 164),
        }
    }
}
