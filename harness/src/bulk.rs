//! Building a vector from many values at once, and turning it into something else: C15.
use crate::empl::{FamS1, SRC_G, Src};
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use core::marker::Unsize;
use emplacable::Emplacable;
use unsized_vec::{UnsizedVec, unsize_vec, unsized_vec};

/// One of a few things to do to a vector that was just built: it has to behave like any other.
fn poke<F: Fam>(m: &mut M<F>) {
    match uv_pick(0, 6) {
        0 => m.push(),
        1 => m.insert_with(0),
        2 => m.v.shrink_to_fit(),
        3 => m.remove_any(),
        4 => {
            let al = if F::DYN { 32 } else { 1 };
            m.v.reserve_capacity_bytes_align(1, uv_sym(0, ELMAX), al);
        }
        5 => {
            let n = m.n;
            m.insert(n / 2);
        }
        _ => {
            let mut i = 0;
            for r in m.v.iter() {
                ok_ref::<F>(r, &m.g[i]);
                i += 1;
            }
            uv_assert(i == m.n, 420);
        }
    }
    m.check();
}

/// A standard vector with up to three elements and any spare capacity.
fn some_vec<F: FamS1>(m: &mut M<F>, n: usize) -> Vec<F::T> {
    let mut v = if uv_pick(0, 1) == 0 { Vec::new() } else { Vec::with_capacity(uv_sym(0, 64)) };
    for _ in 0..n {
        let (b, g) = m.make();
        m.put(m.n, g);
        v.push(*b);
    }
    v
}

/// Into a vector, and back.
pub fn from_vec<F: FamS1>() {
    let mut m = M::<F>::new();
    let n = uv_pick(0, 3);
    let v = some_vec(&mut m, n);
    m.v = v.into();
    m.check();
    if uv_pick(0, 1) == 0 {
        poke(&mut m);
        m.finish();
    } else {
        m.undropped();
        let (live0, all, made, n, g) = (m.live0, m.all, m.made, m.n, m.g);
        let w: Vec<F::T> = m.v.into();
        uv_assert(w.len() == n, 421);
        for i in 0..n {
            ok_ref::<F>(&w[i], &g[i]);
        }
        uv_assert(n == 0 || drops(all[0].k) == 0, 422);
        drop(w);
        for i in 0..made {
            uv_assert(drops(i) == all[i].unit, 423);
        }
        uv_assert(uv_live() == live0, 424);
    }
}

/// Sized elements that become unsized ones.
pub trait FamV: Fam {
    type S: Unsize<Self::T>;
    fn sized(k: usize) -> (Self::S, G);
}

impl<F: FamU> FamV for F {
    type S = F::S;
    fn sized(k: usize) -> (F::S, G) {
        F::make_sized(k)
    }
}

/// Trait objects made of zero-sized values.
pub struct DynZ;

#[repr(align(4))]
pub struct Nothing;

impl El for Nothing {
    fn id(&self) -> usize {
        0
    }
}

impl Fam for DynZ {
    type T = dyn El;
    const DYN: bool = true;
    fn make(k: usize) -> (Box<dyn El>, G) {
        Dyn::make(k)
    }
    fn meta(r: *const dyn El) -> usize {
        Dyn::meta(r)
    }
}

impl FamV for DynZ {
    type S = Nothing;
    fn sized(k: usize) -> (Nothing, G) {
        (Nothing, G { align: 4, meta: Dyn::meta(&Nothing as &dyn El), k, ..G0 })
    }
}

/// Trait objects made of values with a large alignment and a destructor.
pub struct DynA;

#[repr(align(64))]
pub struct Wide {
    a: u64,
    k: u8,
}

impl El for Wide {
    fn id(&self) -> usize {
        self.k as usize
    }
}

impl Drop for Wide {
    fn drop(&mut self) {
        dropped(self.k as usize);
    }
}

impl Fam for DynA {
    type T = dyn El;
    const DYN: bool = true;
    fn make(k: usize) -> (Box<dyn El>, G) {
        Dyn::make(k)
    }
    fn meta(r: *const dyn El) -> usize {
        Dyn::meta(r)
    }
}

impl FamV for DynA {
    type S = Wide;
    fn sized(k: usize) -> (Wide, G) {
        let s = Wide { a: uv_sym(0, usize::MAX) as u64, k: k as u8 };
        let mut g = G { size: 64, align: 64, meta: Dyn::meta(&s as &dyn El), k, j: core::mem::offset_of!(Wide, a), unit: 1, ..G0 };
        g.j += uv_sym(0, 7);
        g.b = unsafe { *(&raw const s as *const u8).add(g.j) };
        (s, g)
    }
}

/// Slices of elements with a destructor.
pub struct SliceDU;

impl Fam for SliceDU {
    type T = [D];
    const DYN: bool = false;
    fn make(k: usize) -> (Box<[D]>, G) {
        SliceD::make(k)
    }
    fn meta(r: *const [D]) -> usize {
        r.len()
    }
}

impl FamV for SliceDU {
    type S = [D; 2];
    fn sized(k: usize) -> ([D; 2], G) {
        let s = [D(k as u8, uv_byte()), D(k as u8, uv_byte())];
        let g = G { size: 4, meta: 2, j: 3, b: s[1].1, k, unit: 2, ..G0 };
        (s, g)
    }
}

pub fn unsize_all<F: FamV>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    let n = uv_pick(0, 3);
    let mut v = UnsizedVec::<F::S>::new();
    match uv_pick(0, 2) {
        0 => (),
        1 => v = UnsizedVec::with_capacity(uv_sym(0, 64)),
        _ => v.reserve(uv_sym(0, 64)),
    }
    for _ in 0..n {
        let (s, g) = F::sized(m.made);
        m.all[m.made] = g;
        m.made += 1;
        m.put(m.n, g);
        v.push(s);
    }
    m.v = v.unsize();
    m.check();
    poke(&mut m);
    m.finish();
}

/// The original next to its clone.
fn clones<F: FamS1>(number: impl Fn(usize) -> usize, count: bool)
where
    F::T: Clone,
{
    let mut m = M::<F>::new();
    match uv_pick(0, 2) {
        0 => (),
        1 => m.v = UnsizedVec::with_capacity(uv_sym(0, 64)),
        _ => m.v.reserve_capacity_bytes(2, uv_sym(0, 64)),
    }
    for _ in 0..uv_pick(0, 3) {
        m.push();
    }
    let mut c = M::<F>::new();
    let v = &m.v;
    c.v = v.clone();
    c.n = m.n;
    c.g = m.g;
    c.made = 7;
    for i in 0..m.n {
        c.g[i].k = number(m.g[i].k);
        if count {
            // the model of the clone compares the second byte, which is copied
            uv_assert(drops(c.g[i].k) == 0, 430);
        }
    }
    c.check();
    m.check();
    uv_assert(c.v.capacity() >= c.n, 431);
    let (live0, mn, mg, cn, cg) = (m.live0, m.n, m.g, c.n, c.g);
    // either one goes first, and the other one stays what it was
    if uv_pick(0, 1) == 0 {
        drop(m.v);
        for i in 0..mn {
            uv_assert(!count || drops(mg[i].k) == 1, 432);
        }
        c.check();
        c.push();
        c.check();
        drop(c.v);
    } else {
        drop(c.v);
        for i in 0..cn {
            uv_assert(!count || drops(cg[i].k) == 1, 433);
        }
        m.check();
        drop(m.v);
    }
    if count {
        for i in 0..mn {
            uv_assert(drops(mg[i].k) == 1, 434);
            uv_assert(drops(cg[i].k) == 1, 435);
        }
    }
    uv_assert(uv_live() == live0, 436);
}

pub fn clone_plain<F: FamS1>()
where
    F::T: Clone,
{
    clones::<F>(|k| k, false);
}

pub fn clone_drop() {
    clones::<SiD>(|k| k + 4, true);
}

/// Extending, and collecting, with any promise by the iterator.
pub fn extend_all<F: Fam>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    // (five elements grow a vector twice)
    let k = [0, 1, 2, 5, 3][uv_pick(0, if uv_tier() == 0 { 3 } else { 4 })];
    let lo = if uv_pick(0, 1) == 0 { k } else { uv_sym(0, 4096) };
    let hi = if uv_pick(0, 1) == 0 { None } else { Some(uv_sym(0, usize::MAX)) };
    if uv_pick(0, 1) == 0 {
        m.v = Src::<F>::new(k, lo, hi, 0).collect();
    } else {
        // the iterator numbers its elements from 0
        let n = uv_pick(0, 2);
        m.made = 6;
        for _ in 0..n {
            m.push();
        }
        m.v.extend(Src::<F>::new(k, lo, hi, 0));
    }
    m.made = m.made.max(k);
    for i in 0..k {
        let g = unsafe { SRC_G[i] };
        m.all[i] = g;
        m.put(m.n, g);
    }
    m.check();
    poke2(&mut m);
    m.finish();
}

fn poke2<F: Fam>(m: &mut M<F>) {
    m.made = m.made.max(4);
    match uv_pick(0, 2) {
        0 => m.push(),
        1 => m.v.shrink_to_fit(),
        _ => (),
    }
    m.check();
}

/// A lower bound of the hint that cannot be reserved.
pub fn extend_huge<F: Fam>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    m.made = 4;
    for _ in 0..uv_pick(0, 1) {
        m.push();
    }
    uv_allow_oom(true);
    let lo = uv_sym(1 << 40, usize::MAX);
    let v = &mut m.v;
    let r = catch(|| v.extend(Src::<F>::new(1, lo, None, 0)));
    if r.is_some() {
        // nothing to reserve for zero-sized elements
        let g = unsafe { SRC_G[0] };
        m.all[0] = g;
        m.put(m.n, g);
    }
    m.check();
    m.finish();
}

/// The macros.
pub fn mac_unsized<F: Fam>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    match uv_pick(0, 3) {
        0 => m.v = unsized_vec![],
        1 => {
            let (b, g) = m.make();
            m.v = unsized_vec![*b];
            m.put(0, g);
        }
        2 => {
            let (b, g) = m.make();
            let (c, h) = m.make();
            m.v = unsized_vec![emp(b), *c];
            m.put(0, g);
            m.put(1, h);
        }
        _ => {
            let (b, g) = m.make();
            let (c, h) = m.make();
            let (d, i) = m.make();
            m.v = unsized_vec![*b, emp(c), emp(d),];
            m.put(0, g);
            m.put(1, h);
            m.put(2, i);
        }
    }
    m.check();
    poke2(&mut m);
    m.finish();
}

pub fn mac_unsize<F: FamV>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    fn one<F: FamV>(m: &mut M<F>) -> F::S {
        let (s, g) = F::sized(m.made);
        m.all[m.made] = g;
        m.made += 1;
        m.put(m.n, g);
        s
    }
    match uv_pick(0, 2) {
        0 => m.v = unsize_vec![],
        1 => {
            let a = one(&mut m);
            m.v = unsize_vec![a];
        }
        _ => {
            let (a, b, c) = (one(&mut m), one(&mut m), one(&mut m));
            m.v = unsize_vec![a, b, c,];
        }
    }
    m.check();
    poke2(&mut m);
    m.finish();
}

/// Empty vectors, in all the ways to make one.
pub fn empty<F: Fam>() {
    let mut m = M::<F>::new();
    m.v = match uv_pick(0, 3) {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::default(),
        2 => unsized_vec![],
        _ => {
            let none: [Emplacable<F::T, <Box<F::T> as emplacable::IntoEmplacable<F::T>>::Closure>; 0] = [];
            none.into_iter().collect()
        }
    };
    uv_assert(uv_live() == m.live0, 440);
    uv_assert(m.v.is_empty(), 441);
    m.check();
    poke(&mut m);
    m.finish();
}

/// Seven elements into a vector at once, and back.
pub fn from_long<F: FamS1>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    let v = some_vec(&mut m, 7);
    m.v = v.into();
    m.check();
    if uv_pick(0, 1) == 0 {
        m.push();
        m.check();
        m.finish();
    } else {
        m.undropped();
        let (live0, all, made, n, g) = (m.live0, m.all, m.made, m.n, m.g);
        let w: Vec<F::T> = m.v.into();
        uv_assert(w.len() == n, 450);
        for i in 0..n {
            ok_ref::<F>(&w[i], &g[i]);
        }
        drop(w);
        for i in 0..made {
            uv_assert(drops(i) == all[i].unit, 451);
        }
        uv_assert(uv_live() == live0, 452);
    }
}

/// Seven elements that become unsized.
pub fn unsize_long<F: FamV>() {
    unsafe { LEAN = true };
    let mut m = M::<F>::new();
    let mut v = UnsizedVec::<F::S>::with_capacity(7);
    for _ in 0..7 {
        let (s, g) = F::sized(m.made);
        m.all[m.made] = g;
        m.made += 1;
        m.put(m.n, g);
        v.push(s);
    }
    m.v = v.unsize();
    m.check();
    m.push();
    m.check();
    m.finish();
}

/// Seven elements and their clones.
pub fn clone_long<F: FamS1>()
where
    F::T: Clone,
{
    let mut m = M::<F>::roomy(7);
    let mut c = M::<F>::new();
    let v = &m.v;
    c.v = v.clone();
    c.n = m.n;
    c.g = m.g;
    c.made = 7;
    c.check();
    m.check();
    uv_assert(c.v.capacity() >= c.n, 453);
    if uv_pick(0, 1) == 0 {
        drop(m.v);
        c.push();
        c.check();
        drop(c.v);
    } else {
        drop(c.v);
        m.push();
        m.check();
        drop(m.v);
    }
    uv_assert(uv_live() == m.live0, 454);
}
