//! Emplacables: every source handed to every consumer. C12 (the value arrives), C13 (owned exactly once).
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use core::alloc::Layout;
use core::ffi::CStr;
use core::marker::PhantomData;
use core::ptr::{self, Pointee};
use emplacable::*;
use std::alloc::alloc;
use std::ffi::{CString, OsStr, OsString};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

/// What has to be true of the source afterwards.
#[derive(Clone, Copy)]
pub struct Own {
    /// Heap blocks that stay.
    live: usize,
    /// The source's memory is released even when the value is forgotten.
    frees: bool,
    /// Destructor calls when the emplacable is dropped.
    dropped: usize,
}

/// Gives the value to one of the consumers. OWN: all of them, and destructor calls and memory are counted.
pub fn eat<Fa: Fam, C: EmplacableFn<Fa::T>, const OWN: bool>(e: Emplacable<Fa::T, C>, g: &G, o: Own) {
    let how = if OWN { [0, 1, 2, 4, 7, 10, 11][uv_pick(0, 6)] } else { uv_pick(2, 11) };
    macro_rules! holder {
        ($b:expr) => {{
            let b = $b;
            ok_ref::<Fa>(&*b, g);
            if OWN {
                uv_assert(drops(g.k) == 0, 200);
                drop(b);
                uv_assert(drops(g.k) == g.unit, 201);
            }
        }};
    }
    match how {
        0 => {
            drop(e);
            uv_assert(drops(g.k) == o.dropped, 202);
        }
        1 => {
            e.forget();
            uv_assert(drops(g.k) == 0, 203);
        }
        2 => holder!(box_new_with(e)),
        3 => holder!(box_pin_with(e)),
        4 => holder!(rc_new_with(e)),
        5 => holder!(Rc::<Fa::T>::from(e)),
        6 => holder!(rc_pin_with(e)),
        7 => holder!(arc_new_with(e)),
        8 => holder!(Arc::<Fa::T>::from(e)),
        9 => holder!(arc_pin_with(e)),
        10 => holder!(raw::<Fa, C>(e, g)),
        _ => {
            let mut v = UnsizedVec::<Fa::T>::new();
            v.push_with(e);
            uv_assert(v.len() == 1, 204);
            ok_ref::<Fa>(&v[0], g);
            if OWN {
                uv_assert(drops(g.k) == 0, 205);
                drop(v);
                uv_assert(drops(g.k) == g.unit, 206);
            }
        }
    }
    if OWN && (how != 1 || o.frees) {
        uv_assert(uv_live() == o.live, 207);
    }
}

/// A consumer that looks at what it is given.
fn raw<Fa: Fam, C: EmplacableFn<Fa::T>>(e: Emplacable<Fa::T, C>, g: &G) -> Box<Fa::T> {
    let mut got: Option<*mut Fa::T> = None;
    let f = e.into_fn();
    let mut calls = 0;
    let mut emplacer = |l: Layout, m: <Fa::T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<Fa::T>)| {
        uv_assert(l.size() == g.size, 210);
        uv_assert(l.align() == g.align, 211);
        let p = if uv_truth(l.size() == 0) { ptr::without_provenance_mut(l.align()) } else { unsafe { alloc(l) } };
        inner(p.cast());
        calls += 1;
        got = Some(ptr::from_raw_parts_mut(p.cast::<()>(), m));
    };
    f(unsafe { Emplacer::from_fn(&mut emplacer) });
    uv_assert(calls == 1, 212);
    match got {
        Some(p) => unsafe { Box::from_raw(p) },
        None => uv_panic(),
    }
}

/// Two zero-sized elements with a destructor, or fewer.
pub struct SliceZ;

impl Fam for SliceZ {
    type T = [Z];
    const DYN: bool = false;
    fn make(_: usize) -> (Box<[Z]>, G) {
        let n = uv_pick(0, 2);
        let p = ptr::slice_from_raw_parts_mut(ptr::dangling_mut::<Z>(), n);
        (unsafe { Box::from_raw(p) }, G { meta: n, k: 9, unit: n, ..G0 })
    }
    fn meta(r: *const [Z]) -> usize {
        r.len()
    }
}

/// One zero-sized value with a destructor.
pub struct SiZ;

impl Fam for SiZ {
    type T = Z;
    const DYN: bool = false;
    const SIZED: bool = true;
    fn make(_: usize) -> (Box<Z>, G) {
        (Box::new(Z), G { k: 9, unit: 1, ..G0 })
    }
    fn meta(_: *const Z) -> usize {
        0
    }
}

fn unbox<T>(b: Box<T>) -> T {
    *b
}

/// Destructor calls expected after `n` values like this one are gone (zero-sized ones are counted together).
fn total(g: &G, n: usize) -> usize {
    if g.k == 9 { g.unit * n } else { g.unit }
}

// ---- sources
pub fn e_box<Fa: Fam, const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Fa::make(0);
    eat::<Fa, _, OWN>(b.into(), &g, Own { live, frees: true, dropped: g.unit });
}

pub fn e_self<Fa: Fam<T: Sized>, const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Fa::make(0);
    let e: Emplacable<Fa::T, _> = unbox(b).into();
    eat::<Fa, _, OWN>(e, &g, Own { live, frees: true, dropped: g.unit });
}

/// By value onto the stack.
pub fn e_get<Fa: Fam<T: Sized>, const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Fa::make(0);
    let v = if uv_pick(0, 1) == 0 {
        let e: Emplacable<Fa::T, _> = unbox(b).into();
        e.get()
    } else {
        emp(b).get()
    };
    ok_ref::<Fa>(&v, &g);
    if OWN {
        uv_assert(drops(g.k) == 0, 220);
        drop(v);
        uv_assert(drops(g.k) == g.unit, 221);
        uv_assert(uv_live() == live, 222);
    }
}

/// A family whose element type is a slice.
pub trait FamS: Fam<T = [Self::E]> {
    type E: 'static;
    /// A Vec with any spare capacity.
    fn vec(k: usize) -> (Vec<Self::E>, G);
}

impl<E: 'static> FamS for Slice<E> {
    type E = E;
    fn vec(k: usize) -> (Vec<E>, G) {
        let z = size_of::<E>();
        let n = if z == 0 { uv_sym(0, usize::MAX) } else { uv_sym(0, ELMAX / z) };
        let cap = if z == 0 { n } else { uv_sym(0, ELMAX / z) };
        uv_assume(n <= cap);
        let p = uv_alloc_sym(cap * z, align_of::<E>());
        let g = ghost(p, n * z, align_of::<E>(), n, k);
        (unsafe { Vec::from_raw_parts(p as *mut E, n, cap) }, g)
    }
}

impl FamS for SliceD {
    type E = D;
    fn vec(k: usize) -> (Vec<D>, G) {
        let (b, g) = Self::make(k);
        let mut v = b.into_vec();
        let extra = uv_pick(0, 1);
        v.reserve_exact(extra);
        (v, g)
    }
}

impl FamS for SliceZ {
    type E = Z;
    fn vec(k: usize) -> (Vec<Z>, G) {
        let (b, g) = Self::make(k);
        (b.into_vec(), g)
    }
}

pub fn e_vec<Fa: FamS, const OWN: bool>() {
    let live = uv_live();
    let (v, g) = Fa::vec(0);
    if OWN {
        // dropping goes through the elements one by one
        uv_assume(v.len() <= 3);
    }
    eat::<Fa, _, OWN>(v.into(), &g, Own { live, frees: true, dropped: g.unit });
}

/// From a borrowed slice of Copy elements.
pub fn e_slice<Fa: FamS, const OWN: bool>()
where
    Fa::E: Copy,
{
    let (b, g) = Fa::make(0);
    let live = uv_live();
    let e: Emplacable<[Fa::E], _> = (&*b).into();
    eat::<Fa, _, OWN>(e, &g, Own { live, frees: true, dropped: 0 });
    ok_ref::<Fa>(&b, &g);
}

/// From a borrowed slice of elements that have to be cloned: a clone has number 4 when the original has 0.
pub fn e_clone<const OWN: bool>() {
    let (b, g) = SliceD::make(0);
    let live = uv_live();
    let mut h = g;
    h.k = 4;
    let e: Emplacable<[D], _> = (&*b).into();
    eat::<SliceD, _, OWN>(e, &h, Own { live, frees: true, dropped: 0 });
    uv_assert(drops(0) == 0, 230);
    for d in &*b {
        uv_assert(d.0 == 0, 231);
    }
    ok_ref::<SliceD>(&b, &g);
}

pub struct Os;

impl Fam for Os {
    type T = OsStr;
    const DYN: bool = false;
    fn make(k: usize) -> (Box<OsStr>, G) {
        let n = uv_sym(0, ELMAX);
        let p = uv_alloc_sym(n, 1);
        let g = ghost(p, n, 1, n, k);
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p, n) as *mut OsStr) }, g)
    }
    fn meta(r: *const OsStr) -> usize {
        (r as *const [u8]).len()
    }
}

pub struct Pa;

impl Fam for Pa {
    type T = Path;
    const DYN: bool = false;
    fn make(k: usize) -> (Box<Path>, G) {
        let n = uv_sym(0, ELMAX);
        let p = uv_alloc_sym(n, 1);
        let g = ghost(p, n, 1, n, k);
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p, n) as *mut Path) }, g)
    }
    fn meta(r: *const Path) -> usize {
        (r as *const [u8]).len()
    }
}

/// From a borrowed string of some kind.
macro_rules! borrowed {
    ($name:ident, $fam:ty, $t:ty) => {
        pub fn $name<const OWN: bool>() {
            let (b, g) = <$fam>::make(0);
            let live = uv_live();
            let e: Emplacable<$t, _> = (&*b).into();
            eat::<$fam, _, OWN>(e, &g, Own { live, frees: true, dropped: 0 });
            ok_ref::<$fam>(&b, &g);
        }
    };
}

borrowed!(e_str, Str, str);
borrowed!(e_cstr, Cs, CStr);
borrowed!(e_os, Os, OsStr);
borrowed!(e_path, Pa, Path);

/// The value of an emplacable of a sized type, by a consumer that looks at the layout.
fn by_hand<T>(e: Emplacable<T, impl EmplacableFn<T>>) -> T {
    let mut out = core::mem::MaybeUninit::<T>::uninit();
    let mut calls = 0;
    let mut emplacer = |l: Layout, _: (), inner: &mut dyn FnMut(*mut PhantomData<T>)| {
        uv_assert((l.size() == size_of::<T>()) & (l.align() == align_of::<T>()), 264);
        calls += 1;
        inner(out.as_mut_ptr().cast());
    };
    let f = e.into_fn();
    f(unsafe { Emplacer::from_fn(&mut emplacer) });
    uv_assert(calls == 1, 265);
    unsafe { out.assume_init() }
}

/// An emplacable of an array, or an array of emplacables, as an emplacable of a slice.
pub fn e_arr<const OWN: bool>() {
    let live = uv_live();
    let c = uv_byte();
    let g = G { size: 4, meta: 2, j: 3, b: c, k: 1, unit: 2, ..G0 };
    let (a, b) = (D(1, uv_byte()), D(1, c));
    match uv_pick(0, 5) {
        4 => {
            let s: Emplacable<[D; 2], _> = [a, b].into();
            let r = by_hand(s);
            ok_ref::<SliceD>(&r[..], &g);
            uv_assert(drops(1) == 0, 267);
            drop(r);
            uv_assert(drops(1) == 2, 268);
        }
        5 => {
            let s = [Emplacable::from(a), Emplacable::from(b)];
            let t: Emplacable<[D; 2], _> = s.into();
            let r = by_hand(t);
            ok_ref::<SliceD>(&r[..], &g);
            uv_assert(drops(1) == 0, 267);
            drop(r);
            uv_assert(drops(1) == 2, 268);
        }
        0 => {
            let s: Emplacable<[D; 2], _> = [a, b].into();
            let e: Emplacable<[D], _> = s.into();
            eat::<SliceD, _, OWN>(e, &g, Own { live, frees: true, dropped: 2 });
        }
        1 => {
            let s: Emplacable<[D; 2], _> = [a, b].into();
            let e: Emplacable<[D], _> = s.unsize();
            eat::<SliceD, _, OWN>(e, &g, Own { live, frees: true, dropped: 2 });
        }
        2 => {
            let s = [Emplacable::from(a), Emplacable::from(b)];
            let e: Emplacable<[D], _> = s.into();
            eat::<SliceD, _, OWN>(e, &g, Own { live, frees: true, dropped: 2 });
        }
        _ => {
            let s = [Emplacable::from(a), Emplacable::from(b)];
            let t: Emplacable<[D; 2], _> = s.into();
            let e: Emplacable<[D], _> = t.unsize();
            eat::<SliceD, _, OWN>(e, &g, Own { live, frees: true, dropped: 2 });
        }
    }
}

/// Arrays of emplacables that own heap memory; any of the elements is looked at.
fn arrn<const N: usize, const OWN: bool>() {
    let live = uv_live();
    let mut n = 0;
    let bs: [(Box<u32>, G); N] = core::array::from_fn(|_| {
        n += 1;
        Si::<u32>::make(n - 1)
    });
    let i = uv_pick(0, N - 1);
    let h = bs[i].1;
    let g = G { size: 4 * N, align: 4, meta: N, j: 4 * i + h.j, b: h.b, ..G0 };
    let s = bs.map(|x| emp(x.0));
    if uv_pick(0, 1) == 0 {
        // (not as a slice)
        let t: Emplacable<[u32; N], _> = s.into();
        match uv_pick(0, if OWN { 2 } else { 1 }) {
            0 => ok_ref::<Slice<u32>>(&by_hand(t)[..], &g),
            1 => ok_ref::<Slice<u32>>(&box_new_with(t)[..], &g),
            _ => drop(t),
        }
        if OWN {
            uv_assert(uv_live() == live, 266);
        }
        return;
    }
    let e: Emplacable<[u32], _> = s.into();
    eat::<Slice<u32>, _, OWN>(e, &g, Own { live, frees: false, dropped: 0 });
}
pub fn e_arr3<const OWN: bool>() {
    arrn::<3, OWN>()
}
pub fn e_arr7<const OWN: bool>() {
    arrn::<7, OWN>()
}

/// No elements at all.
pub fn e_arr0<const OWN: bool>() {
    let live = uv_live();
    let g = G { align: 4, ..G0 };
    let which = uv_pick(0, 2);
    if which == 2 {
        // (not as a slice)
        let s: [Emp<u32>; 0] = [];
        let t: Emplacable<[u32; 0], _> = s.into();
        match uv_pick(0, 1) {
            0 => ok_ref::<Slice<u32>>(&by_hand(t)[..], &g),
            _ => ok_ref::<Slice<u32>>(&box_new_with(t)[..], &g),
        }
        return;
    }
    let e: Emplacable<[u32], _> = if which == 0 {
        let a: [u32; 0] = [];
        let s: Emplacable<[u32; 0], <[u32; 0] as IntoEmplacable<[u32; 0]>>::Closure> = Emplacable::from(a);
        return eat::<Slice<u32>, _, OWN>(s.into(), &g, Own { live, frees: true, dropped: 0 });
    } else {
        let s: [Emp<u32>; 0] = [];
        s.into()
    };
    eat::<Slice<u32>, _, OWN>(e, &g, Own { live, frees: true, dropped: 0 });
}

/// A sized value as a trait object, a slice of zero-sized elements, a custom type.
pub fn e_uns<const OWN: bool>() {
    let live = uv_live();
    match uv_pick(0, 2) {
        0 => {
            let (s, g) = Dyn::make_sized(0);
            let e: Emplacable<Conc, _> = s.into();
            let e: Emplacable<dyn El, _> = e.unsize();
            eat::<Dyn, _, OWN>(e, &g, Own { live, frees: true, dropped: 1 });
        }
        1 => {
            let e: Emplacable<[Z; 3], _> = [Z, Z, Z].into();
            let g = G { meta: 3, k: 9, unit: 3, ..G0 };
            // (a vector does not keep the length of a slice of zero-sized elements)
            own::<SliceZ, _, OWN>(e.unsize(), &g, live);
        }
        _ => {
            let (s, g) = Cust::make_sized(0);
            let e: Emplacable<Dst<[u8; 4]>, _> = s.into();
            let e: Emplacable<Dst<[u8]>, _> = e.unsize();
            eat::<Cust, _, OWN>(e, &g, Own { live, frees: true, dropped: 0 });
        }
    }
}

/// The consumers that are not vectors.
fn own<Fa: Fam, C: EmplacableFn<Fa::T>, const OWN: bool>(e: Emplacable<Fa::T, C>, g: &G, live: usize) {
    match uv_pick(if OWN { 0 } else { 2 }, 3) {
        0 => {
            drop(e);
            uv_assert(drops(g.k) == g.unit, 240);
        }
        1 => {
            e.forget();
            uv_assert(drops(g.k) == 0, 241);
        }
        2 => {
            let b = box_new_with(e);
            ok_ref::<Fa>(&b, g);
            drop(b);
            uv_assert(drops(g.k) == g.unit, 242);
        }
        _ => {
            let b = raw::<Fa, C>(e, g);
            ok_ref::<Fa>(&b, g);
            drop(b);
            uv_assert(drops(g.k) == g.unit, 243);
        }
    }
    if OWN {
        uv_assert(uv_live() == live, 244);
    }
}

pub fn e_vecz<const OWN: bool>() {
    let live = uv_live();
    let (v, g) = SliceZ::vec(0);
    own::<SliceZ, _, OWN>(v.into(), &g, live);
}

pub fn e_boxz<const OWN: bool>() {
    let live = uv_live();
    let (v, g) = SliceZ::make(0);
    own::<SliceZ, _, OWN>(v.into(), &g, live);
}

pub fn e_stru8<const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Str::make(0);
    if uv_pick(0, 1) == 0 {
        let e = emp(b);
        let e: Emplacable<[u8], _> = e.into();
        eat::<Slice<u8>, _, OWN>(e, &g, Own { live, frees: true, dropped: 0 });
    } else {
        let l = uv_live();
        let e: Emplacable<str, _> = (&*b).into();
        let e: Emplacable<[u8], _> = e.into();
        eat::<Slice<u8>, _, OWN>(e, &g, Own { live: l, frees: true, dropped: 0 });
        ok_ref::<Str>(&b, &g);
    }
}

/// Yields `n` values, promises anything.
pub struct Src<Fa: Fam> {
    pub n: usize,
    pub i: usize,
    pub lo: usize,
    pub hi: Option<usize>,
    pub len: usize,
    
    pub ph: PhantomData<Fa>,
}

pub static mut SRC_DROPPED: usize = 0;

impl<Fa: Fam> Drop for Src<Fa> {
    fn drop(&mut self) {
        unsafe { SRC_DROPPED += 1 };
    }
}

pub const SRC_MAX: usize = 6;
pub static mut SRC_G: [G; SRC_MAX] = [G0; SRC_MAX];

/// How many items an iterator yields: up to three, or enough to grow a vector twice.
fn src_len() -> usize {
    [0, 1, 2, 3, SRC_MAX][uv_pick(0, 4)]
}

impl<Fa: Fam> Iterator for Src<Fa> {
    type Item = Emp<Fa::T>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.n {
            return None;
        }
        let (b, g) = Fa::make(self.i);
        unsafe { SRC_G[self.i] = g };
        self.i += 1;
        Some(emp(b))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}

impl<Fa: Fam> ExactSizeIterator for Src<Fa> {
    fn len(&self) -> usize {
        self.len
    }
}

impl<Fa: Fam> Src<Fa> {
    pub fn new(n: usize, lo: usize, hi: Option<usize>, len: usize) -> Self {
        Src { n, i: 0, lo, hi, len, ph: PhantomData }
    }
}

/// An exact-size iterator of emplacables as a slice.
pub fn e_iter<Fa: FamS1, const OWN: bool>() {
    let live = uv_live();
    let n = src_len();
    let e = Emplacable::<Fa::T, _>::from_iter(Src::<Fa>::new(n, n, Some(n), n));
    // (a vector does not keep the length of a slice of zero-sized elements)
    match uv_pick(if OWN { 0 } else { 2 }, if size_of::<Fa::T>() == 0 { 4 } else { 5 }) {
        0 => {
            drop(e);
            for i in 0..n {
                let g = unsafe { SRC_G[i] };
                uv_assert(drops(g.k) == total(&g, n), 250);
            }
        }
        1 => {
            e.forget();
            for i in 0..n {
                uv_assert(drops(i) == 0, 251);
            }
            return;
        }
        2 => items::<Fa, OWN>(n, box_new_with(e)),
        3 => items::<Fa, OWN>(n, rc_new_with(e)),
        4 => items::<Fa, OWN>(n, e.into_vec()),
        _ => {
            let mut v = UnsizedVec::<[Fa::T]>::new();
            v.push_with(e);
            uv_assert(v.len() == 1, 252);
            list::<Fa, OWN>(&v[0], n);
        }
    }
    if OWN {
        for i in 0..n {
            let g = unsafe { SRC_G[i] };
            uv_assert(drops(g.k) == total(&g, n), 254);
        }
        uv_assert(unsafe { SRC_DROPPED } == 1, 255);
        uv_assert(uv_live() == live, 256);
    }
}

/// An iterator that promises any number of items: the layout is the one of that many, or it panics.
pub fn e_len<Fa: FamS1, const OWN: bool>() {
    let live = uv_live();
    let len = uv_sym(0, usize::MAX);
    let n = uv_pick(0, 2);
    let r = catch(|| {
        let f = Emplacable::<Fa::T, _>::from_iter(Src::<Fa>::new(n, 0, None, len)).into_fn();
        let mut calls = 0;
        let mut emplacer = |l: Layout, m: usize, inner: &mut dyn FnMut(*mut PhantomData<[Fa::T]>)| {
            uv_assert(m == len, 245);
            uv_assert(l.align() == align_of::<Fa::T>(), 246);
            let (size, over) = size_of::<Fa::T>().overflowing_mul(len);
            uv_assert(!over & (size <= isize::MAX as usize) & (l.size() == size), 247);
            calls += 1;
            inner(ptr::null_mut());
        };
        f(unsafe { Emplacer::from_fn(&mut emplacer) });
        uv_assert(calls == 1, 248);
    });
    let most = if size_of::<Fa::T>() == 0 { usize::MAX } else { isize::MAX as usize / size_of::<Fa::T>() };
    // (rounding up to the alignment takes part of the range)
    uv_assert(r.is_some() | (len > most - align_of::<Fa::T>()), 249);
    if OWN {
        for i in 0..n {
            let g = unsafe { SRC_G[i] };
            uv_assert(drops(g.k) == if r.is_some() { total(&g, n) } else { 0 }, 253);
        }
        uv_assert(unsafe { SRC_DROPPED } == 1, 259);
        uv_assert(uv_live() == live, 263);
    }
}

pub trait FamS1: Fam<T: Sized> {}
impl<F: Fam<T: Sized>> FamS1 for F {}

pub fn list<Fa: FamS1, const OWN: bool>(s: &[Fa::T], n: usize) {
    uv_assert(s.len() == n, 257);
    for i in 0..n {
        let g = unsafe { SRC_G[i] };
        ok_ref::<Fa>(&s[i], &g);
        if OWN {
            uv_assert(drops(g.k) == 0, 258);
        }
    }
}

fn items<Fa: FamS1, const OWN: bool>(n: usize, b: impl core::ops::Deref<Target = [Fa::T]>) {
    list::<Fa, OWN>(&b, n);
}

/// Vec: FromIterator and Extend, whatever the iterator promises.
pub fn e_vext<Fa: FamS1, const OWN: bool>() {
    let live = uv_live();
    let n = src_len();
    let lo = uv_sym(0, 8);
    let hi = if uv_pick(0, 1) == 0 { None } else { Some(uv_sym(0, usize::MAX)) };
    let v: Vec<Fa::T> = if uv_pick(0, 1) == 0 {
        Src::<Fa>::new(n, lo, hi, 0).collect()
    } else {
        let mut v = Vec::with_capacity(uv_pick(0, 2));
        v.extend(Src::<Fa>::new(n, lo, hi, 0));
        v
    };
    list::<Fa, OWN>(&v, n);
    drop(v);
    if OWN {
        for i in 0..n {
            let g = unsafe { SRC_G[i] };
            uv_assert(drops(g.k) == total(&g, n), 260);
        }
        uv_assert(unsafe { SRC_DROPPED } == 1, 261);
        uv_assert(uv_live() == live, 262);
    }
}

/// Values passed by value.
pub fn e_val<Fa: Fam, const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Fa::make(0);
    macro_rules! holder {
        ($b:expr) => {{
            let b = $b;
            ok_ref::<Fa>(&*b, &g);
            uv_assert(drops(g.k) == 0, 270);
            drop(b);
            uv_assert(drops(g.k) == g.unit, 271);
        }};
    }
    match uv_pick(0, if OWN { 8 } else { 6 }) {
        0 => holder!(box_new(*b)),
        1 => holder!(box_pin(*b)),
        2 => holder!(rc_new(*b)),
        3 => holder!(rc_pin(*b)),
        4 => holder!(arc_new(*b)),
        5 => holder!(arc_pin(*b)),
        6 => holder!(with_emplacable_for(*b, |e| box_new_with(e))),
        7 => {
            with_emplacable_for(*b, |e| drop(e));
            uv_assert(drops(g.k) == g.unit, 272);
        }
        _ => {
            with_emplacable_for(*b, |e| e.forget());
            uv_assert(drops(g.k) == 0, 273);
        }
    }
    if OWN {
        uv_assert(uv_live() == live, 274);
    }
}

/// Straight into another vector.
pub fn e_valv<Fa: Fam, const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Fa::make(0);
    let mut v = UnsizedVec::<Fa::T>::new();
    with_emplacable_for(*b, |e| v.push_with(e));
    uv_assert(v.len() == 1, 275);
    ok_ref::<Fa>(&v[0], &g);
    drop(v);
    uv_assert(drops(g.k) == g.unit, 276);
    if OWN {
        uv_assert(uv_live() == live, 277);
    }
}

// ---- consumers for one type only
pub fn e_into<Fa: FamS, const OWN: bool>() {
    let live = uv_live();
    let (v, g) = if uv_pick(0, 1) == 0 {
        let (v, g) = Fa::vec(0);
        let e: Emplacable<[Fa::E], _> = v.into();
        (if uv_pick(0, 1) == 0 { e.into_vec() } else { Vec::from(e) }, g)
    } else {
        let (b, g) = Fa::make(0);
        (emp(b).into_vec(), g)
    };
    ok_ref::<Fa>(&v[..], &g);
    uv_assert(v.capacity() >= v.len(), 280);
    uv_assert(drops(g.k) == 0, 281);
    drop(v);
    uv_assert(drops(g.k) == g.unit, 282);
    if OWN {
        uv_assert(uv_live() == live, 283);
    }
}

macro_rules! owned {
    ($name:ident, $fam:ty, $o:ty, $as:expr) => {
        pub fn $name<const OWN: bool>() {
            let live = uv_live();
            let (b, g) = <$fam>::make(0);
            let mut b = Some(b);
            let s: $o = if uv_pick(0, 1) == 0 {
                emp(b.take().unwrap()).into()
            } else {
                let e: Emplacable<<$fam as Fam>::T, _> = (&**b.as_ref().unwrap()).into();
                e.into()
            };
            drop(b);
            ok_ref::<$fam>($as(&s), &g);
            drop(s);
            if OWN {
                uv_assert(uv_live() == live, 285);
            }
        }
    };
}

owned!(e_string, Str, String, |s: &String| -> &'static str { unsafe { &*(s.as_str() as *const str) } });
owned!(e_cstring, Cs, CString, |s: &CString| -> &'static CStr { unsafe { &*(s.as_c_str() as *const CStr) } });
owned!(e_osstring, Os, OsString, |s: &OsString| -> &'static OsStr { unsafe { &*(s.as_os_str() as *const OsStr) } });
owned!(e_pathbuf, Pa, PathBuf, |s: &PathBuf| -> &'static Path { unsafe { &*(s.as_path() as *const Path) } });

pub fn e_intostring<const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Str::make(0);
    let s = emp(b).into_string();
    ok_ref::<Str>(s.as_str(), &g);
    uv_assert(s.capacity() >= s.len(), 286);
    drop(s);
    if OWN {
        uv_assert(uv_live() == live, 287);
    }
}

/// The macros that make unsized values.
pub fn e_mac<const OWN: bool>() {
    let live = uv_live();
    match uv_pick(0, 4) {
        0 => {
            let (s, g) = Slice::<u32>::make_sized(0);
            let b: Box<[u32]> = box_new(unsize!(s, ([u32; 2]) -> [u32]));
            ok_ref::<Slice<u32>>(&b, &g);
        }
        1 => {
            let (s, g) = Dyn::make_sized(0);
            let b: Box<dyn El> = box_new(unsize!(s, (Conc) -> dyn El));
            ok_ref::<Dyn>(&*b, &g);
            uv_assert(drops(0) == 0, 290);
            drop(b);
            uv_assert(drops(0) == 1, 291);
        }
        2 => {
            let (s, g) = Dyn::make_sized(0);
            let mut v = UnsizedVec::<dyn El>::new();
            v.push(unsize!(s, (Conc) -> dyn El));
            ok_ref::<Dyn>(&v[0], &g);
            drop(v);
            uv_assert(drops(0) == 1, 292);
        }
        3 => {
            let b: Box<str> = box_new(by_value_str!("why h\u{e9}llo \u{4e16}\u{1f600}\0 there"));
            let want = "why h\u{e9}llo \u{4e16}\u{1f600}\0 there".as_bytes();
            uv_assert(b.len() == want.len(), 293);
            let i = uv_sym(0, want.len() - 1);
            uv_assert(b.as_bytes()[i] == want[i], 294);
        }
        _ => {
            let b: Box<str> = box_new(by_value_str!(""));
            uv_assert(b.len() == 0, 295);
        }
    }
    if OWN {
        uv_assert(uv_live() == live, 296);
    }
}

/// An emplacable written by hand: its closure is handed on unchanged.
pub fn e_hand<const OWN: bool>() {
    let live = uv_live();
    let (b, g) = Slice::<u8>::make(0);
    let p = Box::into_raw(b);
    let e = unsafe {
        Emplacable::<[u8], _>::from_fn(move |emplacer: &mut Emplacer<'_, [u8]>| {
            let f = emplacer.into_fn();
            f(Layout::for_value(&*p), p.len(), &mut |out: *mut PhantomData<[u8]>| {
                if !out.is_null() {
                    ptr::copy_nonoverlapping(p as *const u8, out as *mut u8, p.len());
                }
            });
            drop(Box::from_raw(p));
        })
    };
    eat::<Slice<u8>, _, OWN>(e, &g, Own { live, frees: true, dropped: 0 });
}

#[allow(dead_code)]
fn unused(_: Pin<Box<u8>>) {}
