//! Element families: how to make an arbitrary element, and what a correct reference to it looks like.
use crate::uv::*;
use core::ffi::CStr;
use core::marker::{PhantomData, Unsize};
use core::ptr;

/// What the model remembers about one element.
#[derive(Clone, Copy)]
pub struct G {
    pub size: usize,
    pub align: usize,
    pub meta: usize,
    /// An arbitrary byte offset inside the element, and the byte there.
    pub j: usize,
    pub b: u8,
    /// Number of the element, for its drop count.
    pub k: usize,
    /// How many counted destructor calls its drop makes.
    pub unit: usize,
}

pub const G0: G = G { size: 0, align: 1, meta: 0, j: 0, b: 0, k: 0, unit: 0 };

pub trait Fam: 'static {
    type T: ?Sized;
    /// The vector tracks alignment at run time.
    const DYN: bool;
    /// Sized element type.
    const SIZED: bool = false;
    /// Size of a sized element.
    const ONE: usize = 0;
    /// The quick tier explores fewer starting states.
    const FEW: bool = false;
    fn make(k: usize) -> (Box<Self::T>, G);
    fn meta(r: *const Self::T) -> usize;
}

/// Families with a sized type that coerces to the element type.
pub trait FamU: Fam {
    type S: Unsize<Self::T>;
    fn make_sized(k: usize) -> (Self::S, G);
}

/// Longer histories: no empty elements, and alignments of trait objects are fixed by number.
pub static mut LEAN: bool = false;

pub fn lean() -> bool {
    unsafe { LEAN }
}

/// Elements that can be read to the end: at most two items each.
pub static mut TINY: bool = false;

fn items(lo: usize, hi: usize) -> usize {
    if unsafe { TINY } { uv_pick(lo, if hi < ELMAX { 1 } else { 2 }) } else { uv_sym(lo, hi) }
}

/// Quick tier: trait objects in the starting state have fewer alignments, and the second one is not empty.
pub static mut FEW: bool = false;

pub fn few() -> bool {
    unsafe { FEW }
}

pub fn ghost(p: *const u8, size: usize, align: usize, meta: usize, k: usize) -> G {
    ghost_max(p, size, align, meta, k, ELMAX)
}

fn ghost_max(p: *const u8, size: usize, align: usize, meta: usize, k: usize, max: usize) -> G {
    let mut g = G { size, align, meta, k, ..G0 };
    if max == ELMAX && (lean() || k == 1 && few()) {
        uv_assume(size > 0);
    }
    let j = uv_sym(0, max);
    if uv_truth(size > 0) {
        uv_assume(j < size);
        g.j = j;
        g.b = unsafe { *p.add(j) };
    }
    g
}

/// One reference against its model entry.
pub fn ok_ref<F: Fam>(r: &F::T, g: &G) {
    let p = r as *const F::T as *const u8;
    uv_region(p, g.size, g.align);
    uv_assert(size_of_val(r) == g.size, 1);
    uv_assert(align_of_val(r) == g.align, 2);
    uv_assert(F::meta(r) == g.meta, 3);
    if uv_truth(g.size > 0) {
        uv_assert(unsafe { *p.add(g.j) } == g.b, 4);
    }
}

/// Drop counts by element number.
pub static mut DROPS: [usize; 10] = [0; 10];

pub fn drops(k: usize) -> usize {
    unsafe { DROPS[k] }
}

/// Set: the next destructor call panics.
pub static mut BOMB: usize = usize::MAX;

pub fn dropped(k: usize) {
    unsafe {
        DROPS[k] += 1;
        if BOMB == k {
            BOMB = usize::MAX;
            uv_panic();
        }
    }
}

pub struct Slice<E>(PhantomData<E>);

impl<E: 'static> Fam for Slice<E> {
    type T = [E];
    const DYN: bool = false;
    fn make(k: usize) -> (Box<[E]>, G) {
        let n = if size_of::<E>() == 0 { uv_sym(0, usize::MAX) } else { items(0, ELMAX / size_of::<E>()) };
        let size = n * size_of::<E>();
        let p = uv_alloc_sym(size, align_of::<E>());
        let g = ghost(p, size, align_of::<E>(), n, k);
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p as *mut E, n)) }, g)
    }
    fn meta(r: *const [E]) -> usize {
        r.len()
    }
}

pub fn sized_of<S>() -> S {
    let p = uv_alloc_sym(size_of::<S>(), align_of::<S>());
    unsafe { *Box::from_raw(p as *mut S) }
}

fn ghost_of<S>(s: &S, meta: usize, k: usize) -> G {
    ghost_max(s as *const S as *const u8, size_of::<S>(), align_of::<S>(), meta, k, size_of::<S>())
}

macro_rules! slice_u {
    ($e:ty, $n:expr) => {
        impl FamU for Slice<$e> {
            type S = [$e; $n];
            fn make_sized(k: usize) -> (Self::S, G) {
                let s: Self::S = sized_of();
                let g = ghost_of(&s, $n, k);
                (s, g)
            }
        }
    };
}

slice_u!(u8, 3);
slice_u!(u32, 2);

/// An element with a counted destructor.
pub struct D(pub u8, pub u8);

/// Elements cloned so far; the clone of number k has number k + 4.
pub static mut CLONES: usize = 0;
/// The clone that panics.
pub static mut CLONE_BOMB: usize = usize::MAX;

impl Clone for D {
    fn clone(&self) -> D {
        unsafe {
            if CLONES == CLONE_BOMB {
                uv_panic();
            }
            CLONES += 1;
        }
        D(self.0 + 4, self.1)
    }
}

impl Drop for D {
    fn drop(&mut self) {
        dropped(self.0 as usize);
    }
}

/// Slices of elements with a destructor.
pub struct SliceD;

impl Fam for SliceD {
    type T = [D];
    const DYN: bool = false;
    fn make(k: usize) -> (Box<[D]>, G) {
        let n = uv_pick(lean() as usize, 2 - lean() as usize * (k % 2));
        let p = uv_alloc_sym(2 * n, 1);
        for i in 0..n {
            unsafe { *p.add(2 * i) = k as u8 };
        }
        let b = unsafe { Box::from_raw(core::ptr::slice_from_raw_parts_mut(p as *mut D, n)) };
        let mut g = G { size: 2 * n, meta: n, k, unit: n, ..G0 };
        if n > 0 {
            g.j = 2 * n - 1;
            g.b = b[n - 1].1;
        }
        (b, g)
    }
    fn meta(r: *const [D]) -> usize {
        r.len()
    }
}

pub struct Str;

impl Fam for Str {
    type T = str;
    const DYN: bool = false;
    fn make(k: usize) -> (Box<str>, G) {
        let n = items(0, ELMAX);
        let p = uv_alloc_sym(n, 1);
        let g = ghost(p, n, 1, n, k);
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p, n) as *mut str) }, g)
    }
    fn meta(r: *const str) -> usize {
        (r as *const [u8]).len()
    }
}

pub struct Cs;

impl Fam for Cs {
    type T = CStr;
    const DYN: bool = false;
    fn make(k: usize) -> (Box<CStr>, G) {
        let n = items(1, ELMAX);
        let p = uv_alloc_sym(n, 1);
        let g = ghost(p, n, 1, n, k);
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p, n) as *mut CStr) }, g)
    }
    fn meta(r: *const CStr) -> usize {
        (r as *const [u8]).len()
    }
}

/// A trait object of any size and alignment.
pub trait El {
    fn id(&self) -> usize;
}

pub struct Dyn;

unsafe fn drop_el<const K: usize>(_p: *mut u8) {
    dropped(K);
}

fn id_el<const K: usize>(_p: *const u8) -> usize {
    K
}

pub fn forge(k: usize, size: usize, align: usize) -> *const u8 {
    let (d, m): (unsafe fn(*mut u8), fn(*const u8) -> usize) = match k {
        0 => (drop_el::<0>, id_el::<0>),
        1 => (drop_el::<1>, id_el::<1>),
        2 => (drop_el::<2>, id_el::<2>),
        3 => (drop_el::<3>, id_el::<3>),
        4 => (drop_el::<4>, id_el::<4>),
        5 => (drop_el::<5>, id_el::<5>),
        6 => (drop_el::<6>, id_el::<6>),
        7 => (drop_el::<7>, id_el::<7>),
        _ => (drop_el::<8>, id_el::<8>),
    };
    uv_forged(d, size, align, m)
}

pub fn dyn_ptr(p: *mut u8, vt: *const u8) -> *mut dyn El {
    unsafe { core::mem::transmute::<(*mut u8, *const u8), *mut dyn El>((p, vt)) }
}

/// Alignments of trait objects: below, at and above the ones a new vector starts with.
pub fn pick_align() -> usize {
    match uv_pick(0, 2) {
        0 => 1,
        1 => 4,
        _ => 1024,
    }
}

pub fn make_dyn(k: usize, align: usize) -> (Box<dyn El>, G) {
    let size = align * uv_sym(0, ELMAX / align);
    let vt = forge(k, size, align);
    let p = uv_alloc_sym(size, align);
    let mut g = ghost(p, size, align, vt as usize, k);
    g.unit = 1;
    (unsafe { Box::from_raw(dyn_ptr(p, vt)) }, g)
}

impl Fam for Dyn {
    type T = dyn El;
    const DYN: bool = true;
    const FEW: bool = true;
    fn make(k: usize) -> (Box<dyn El>, G) {
        let a = if lean() || unsafe { TINY } {
            [4, 1, 16, 2][k % 4]
        } else if few() && k == 0 {
            [1, 1024][uv_pick(0, 1)]
        } else if few() && k == 1 {
            4
        } else {
            pick_align()
        };
        make_dyn(k, a)
    }
    fn meta(r: *const dyn El) -> usize {
        unsafe { core::mem::transmute::<*const dyn El, (*const u8, usize)>(r).1 }
    }
}

pub struct Conc {
    pub a: u64,
    pub k: u8,
    pub c: [u8; 9],
}

impl El for Conc {
    fn id(&self) -> usize {
        self.k as usize
    }
}

impl Drop for Conc {
    fn drop(&mut self) {
        dropped(self.k as usize);
    }
}

impl FamU for Dyn {
    type S = Conc;
    fn make_sized(k: usize) -> (Conc, G) {
        let s = Conc { a: uv_sym(0, usize::MAX) as u64, k: k as u8, c: [uv_byte(); 9] };
        let meta = Self::meta(&s as &dyn El);
        let mut g = G { size: size_of::<Conc>(), align: align_of::<Conc>(), meta, k, j: core::mem::offset_of!(Conc, a), unit: 1, ..G0 };
        g.j += uv_sym(0, 7);
        g.b = unsafe { *(&raw const s as *const u8).add(g.j) };
        (s, g)
    }
}

/// A user-defined dynamically sized type.
#[repr(C)]
pub struct Dst<T: ?Sized> {
    pub h: u32,
    pub t: T,
}

pub struct Cust;

impl Fam for Cust {
    type T = Dst<[u8]>;
    const DYN: bool = true;
    fn make(k: usize) -> (Box<Dst<[u8]>>, G) {
        let n = uv_sym(0, ELMAX);
        let size = (n + 4 + 3) & !3;
        let p = uv_alloc_sym(size, 4);
        let g = ghost(p, size, 4, n, k);
        uv_assume(g.j < 4 + n);
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p, n) as *mut Dst<[u8]>) }, g)
    }
    fn meta(r: *const Dst<[u8]>) -> usize {
        (r as *const [u8]).len()
    }
}

impl FamU for Cust {
    type S = Dst<[u8; 4]>;
    fn make_sized(k: usize) -> (Self::S, G) {
        let s: Self::S = sized_of();
        let g = ghost_of(&s, 4, k);
        (s, g)
    }
}

/// A dynamically sized type with a destructor.
#[repr(C)]
pub struct DropDst {
    pub d: D,
    pub t: [u16],
}

pub struct CustD;

impl Fam for CustD {
    type T = DropDst;
    const DYN: bool = true;
    fn make(k: usize) -> (Box<DropDst>, G) {
        let n = uv_sym(0, ELMAX / 4);
        let size = 2 + 2 * n;
        let p = uv_alloc_sym(size, 2);
        unsafe { *p = k as u8 };
        let mut g = ghost(p, size, 2, n, k);
        g.unit = 1;
        (unsafe { Box::from_raw(ptr::slice_from_raw_parts_mut(p, n) as *mut DropDst) }, g)
    }
    fn meta(r: *const DropDst) -> usize {
        (r as *const [u8]).len()
    }
}

/// Sized elements.
pub struct Si<E>(PhantomData<E>);

impl<E: 'static> Fam for Si<E> {
    type T = E;
    const DYN: bool = false;
    const SIZED: bool = true;
    const ONE: usize = size_of::<E>();
    fn make(k: usize) -> (Box<E>, G) {
        let p = uv_alloc_sym(size_of::<E>(), align_of::<E>());
        let g = ghost_max(p, size_of::<E>(), align_of::<E>(), 0, k, size_of::<E>());
        (unsafe { Box::from_raw(p as *mut E) }, g)
    }
    fn meta(_: *const E) -> usize {
        0
    }
}

pub struct SiD;

impl Fam for SiD {
    type T = D;
    const DYN: bool = false;
    const SIZED: bool = true;
    const ONE: usize = 2;
    fn make(k: usize) -> (Box<D>, G) {
        let b = Box::new(D(k as u8, uv_byte()));
        let g = G { size: 2, k, j: 1, b: b.1, unit: 1, ..G0 };
        (b, g)
    }
    fn meta(_: *const D) -> usize {
        0
    }
}

/// Zero-sized elements with a destructor (counted together under number 9).
pub struct Z;

impl Drop for Z {
    fn drop(&mut self) {
        dropped(9);
    }
}
