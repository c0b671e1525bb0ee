//! Comparing, ordering, hashing: C14.
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};

// ---- elements whose comparison has any outcome there is, one for each ordered pair of elements
static mut TAB: [[u8; 8]; 8] = [[9; 8]; 8];
/// Total order: the outcome is never "none".
static mut TOTAL: bool = false;

fn outcome(l: usize, r: usize) -> Option<Ordering> {
    let c = unsafe { &mut TAB[l & 7][r & 7] };
    if *c == 9 {
        *c = uv_pick(0, if unsafe { TOTAL } { 2 } else { 3 }) as u8;
    }
    match *c {
        0 => Some(Ordering::Less),
        1 => Some(Ordering::Equal),
        2 => Some(Ordering::Greater),
        _ => None,
    }
}

pub trait Num {
    fn num(&self) -> usize;
}

impl Num for D {
    fn num(&self) -> usize {
        self.0 as usize
    }
}

impl Num for DropDst {
    fn num(&self) -> usize {
        self.d.0 as usize
    }
}

type DynEl = dyn El;

impl Num for DynEl {
    fn num(&self) -> usize {
        self.id()
    }
}

macro_rules! opaque {
    ($($l:ty, $r:ty;)*) => {
        $(
            impl PartialEq<$r> for $l {
                fn eq(&self, o: &$r) -> bool {
                    outcome(self.num(), o.num()) == Some(Ordering::Equal)
                }
            }
            impl PartialOrd<$r> for $l {
                fn partial_cmp(&self, o: &$r) -> Option<Ordering> {
                    outcome(self.num(), o.num())
                }
            }
        )*
    };
}

opaque! {
    D, D;
    DropDst, DropDst;
    DynEl, DynEl;
    DynEl, DropDst;
    DropDst, D;
    D, DynEl;
}

macro_rules! opaque_ord {
    ($($t:ty)*) => {
        $(
            impl Eq for $t {}
            impl Ord for $t {
                fn cmp(&self, o: &$t) -> Ordering {
                    outcome(self.num(), o.num()).unwrap_or(Ordering::Equal)
                }
            }
            impl Hash for $t {
                fn hash<H: Hasher>(&self, h: &mut H) {
                    h.write_u8(self.num() as u8);
                    if self.num() % 2 == 1 {
                        h.write_u32(77);
                    }
                }
            }
        )*
    };
}

opaque_ord! { D DropDst DynEl }

/// The element types of the left and of the right vector.
pub trait Pair: 'static {
    type A: Fam<T: PartialOrd<<Self::B as Fam>::T>>;
    type B: Fam;
}

impl<F: Fam> Pair for F
where
    F::T: PartialOrd,
{
    type A = F;
    type B = F;
}

pub struct DynDd;
impl Pair for DynDd {
    type A = Dyn;
    type B = CustD;
}

pub struct DdSi;
impl Pair for DdSi {
    type A = CustD;
    type B = SiD;
}

pub struct SiDyn;
impl Pair for SiDyn {
    type A = SiD;
    type B = Dyn;
}

/// A vector of up to `n` small elements, numbered from `base`, with or without spare room, in order or not.
fn side<F: Fam>(base: usize, n: usize) -> M<F> {
    unsafe { TINY = true };
    let mut m = M::<F>::new();
    if base == 0 && uv_pick(0, 1) == 1 {
        m.v = unsized_vec::UnsizedVec::with_capacity_bytes_align(4, 200, if F::DYN { 32 } else { 1 });
    }
    m.made = base;
    for _ in 0..uv_pick(0, n) {
        if base == 4 && m.n == 1 {
            m.insert(0);
        } else {
            m.push();
        }
    }
    m
}

/// Seven elements next to six or seven.
fn longs<F: Fam>() -> (M<F>, M<F>) {
    let r = M::<F>::roomy([7, 6][uv_pick(0, 1)]);
    (M::<F>::roomy(7), r)
}

fn sides<P: Pair>() -> (M<P::A>, M<P::B>) {
    let n = if uv_tier() == 0 { 2 } else { 3 };
    (side::<P::A>(0, n), side::<P::B>(4, n))
}

pub fn cmp_eq<P: Pair>() {
    let (l, r) = sides::<P>();
    same_eq::<P>(l, r);
}

pub fn cmp_long<F: Fam<T: Ord>>() {
    unsafe { TOTAL = uv_pick(0, 1) == 1 };
    let (l, r) = longs::<F>();
    match uv_pick(0, 2) {
        0 => same_eq::<F>(l, r),
        1 => same_partial::<F>(l, r),
        _ => {
            unsafe { TOTAL = true };
            same_total(l, r)
        }
    }
}

fn same_eq<P: Pair>(l: M<P::A>, r: M<P::B>) {
    let mut same = l.n == r.n;
    for i in 0..l.n {
        same = same && l.v[i] == r.v[i];
    }
    uv_assert((l.v == r.v) == same, 400);
    uv_assert((l.v != r.v) == !same, 401);
    l.check();
    r.check();
}

pub fn cmp_partial<P: Pair>() {
    let (l, r) = sides::<P>();
    same_partial::<P>(l, r);
}

fn same_partial<P: Pair>(l: M<P::A>, r: M<P::B>) {
    let mut want = Some(l.n.cmp(&r.n));
    let mut i = 0;
    while i < l.n && i < r.n {
        let c = l.v[i].partial_cmp(&r.v[i]);
        if c != Some(Ordering::Equal) {
            want = c;
            break;
        }
        i += 1;
    }
    uv_assert(l.v.partial_cmp(&r.v) == want, 402);
    uv_assert((l.v < r.v) == (want == Some(Ordering::Less)), 403);
    uv_assert((l.v <= r.v) == (want == Some(Ordering::Less) || want == Some(Ordering::Equal)), 404);
    uv_assert((l.v > r.v) == (want == Some(Ordering::Greater)), 405);
    uv_assert((l.v >= r.v) == (want == Some(Ordering::Greater) || want == Some(Ordering::Equal)), 406);
    l.check();
    r.check();
}

pub fn cmp_total<F: Fam<T: Ord>>() {
    unsafe { TOTAL = true };
    let (l, r) = sides::<F>();
    same_total(l, r);
}

fn same_total<F: Fam<T: Ord>>(l: M<F>, r: M<F>) {
    let mut want = l.n.cmp(&r.n);
    let mut i = 0;
    while i < l.n && i < r.n {
        let c = l.v[i].cmp(&r.v[i]);
        if c != Ordering::Equal {
            want = c;
            break;
        }
        i += 1;
    }
    uv_assert(l.v.cmp(&r.v) == want, 407);
    l.check();
    r.check();
}

/// Everything a hasher was fed, in order.
pub struct Rec {
    pub n: usize,
    pub log: [(u8, u64); 80],
}

impl Rec {
    pub fn new() -> Rec {
        Rec { n: 0, log: [(0, 0); 80] }
    }
    pub fn add(&mut self, k: u8, v: u64) {
        self.log[self.n] = (k, v);
        self.n += 1;
    }
    pub fn same(&self, o: &Rec, id: usize) {
        uv_assert(self.n == o.n, id);
        for i in 0..self.n {
            uv_assert(self.log[i].0 == o.log[i].0, id + 1);
            uv_assert(self.log[i].1 == o.log[i].1, id + 2);
        }
    }
}

impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.add(0, b.len() as u64);
        for x in b {
            self.add(1, *x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.add(2, x as u64);
    }
    fn write_u32(&mut self, x: u32) {
        self.add(3, x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.add(4, x);
    }
    fn write_usize(&mut self, x: usize) {
        self.add(5, x as u64);
    }
}

pub fn hash_all<F: Fam<T: Hash>>() {
    same_hash(side::<F>(0, 3));
}

pub fn hash_long<F: Fam<T: Hash>>() {
    same_hash(M::<F>::roomy(7));
}

fn same_hash<F: Fam<T: Hash>>(m: M<F>) {
    let mut a = Rec::new();
    m.v.hash(&mut a);
    let mut b = Rec::new();
    for i in 0..m.n {
        m.v[i].hash(&mut b);
    }
    a.same(&b, 410);
    m.check();
}
