//! A vector of sized elements next to a standard one: C16.
use crate::fam::*;
use crate::uv::*;
use emplacable::{Emplacable, EmplacableFn};
use unsized_vec::UnsizedVec;

pub trait Sz: 'static + Sized {
    const DROP: bool = false;
    /// Twice the same value.
    fn twin(k: usize) -> (Self, Self);
    fn same(a: &Self, b: &Self) -> bool;
    /// Overwrites both with the same value.
    fn put(a: &mut Self, b: &mut Self);
}

macro_rules! sz {
    ($($t:ty => $e:expr;)*) => { $(
        impl Sz for $t {
            fn twin(_: usize) -> ($t, $t) { let x: $t = $e; (x, x) }
            fn same(a: &$t, b: &$t) -> bool { a == b }
            fn put(a: &mut $t, b: &mut $t) { let x: $t = $e; *a = x; *b = x; }
        }
    )* };
}

fn any32() -> u32 {
    uv_sym(0, u32::MAX as usize) as u32
}

sz! {
    u32 => any32();
    u64 => uv_sym(0, usize::MAX) as u64;
    [u32; 3] => [any32(), any32(), any32()];
    () => ();
    One => One(uv_byte());
}

/// One byte (`Vec<u8>` itself exists only as machine code).
#[derive(Clone, Copy, PartialEq)]
pub struct One(u8);

/// Over-aligned elements of 32 bytes.
#[derive(Clone, Copy, PartialEq)]
#[repr(align(32))]
pub struct Big(u8);

impl Sz for Big {
    fn twin(_: usize) -> (Big, Big) {
        let x = Big(uv_byte());
        (x, x)
    }
    fn same(a: &Big, b: &Big) -> bool {
        a.0 == b.0
    }
    fn put(a: &mut Big, b: &mut Big) {
        a.0 = uv_byte();
        b.0 = a.0;
    }
}

/// Numbers 0..=4 for the vector under test, 5..=9 for the standard one.
impl Sz for D {
    const DROP: bool = true;
    fn twin(k: usize) -> (D, D) {
        let b = uv_byte();
        (D(k as u8, b), D(k as u8 + 5, b))
    }
    fn same(a: &D, b: &D) -> bool {
        (a.0 + 5 == b.0) & (a.1 == b.1)
    }
    fn put(a: &mut D, b: &mut D) {
        a.1 = uv_byte();
        b.1 = a.1;
    }
}

/// Zero-sized elements with a destructor, counted for each side.
pub struct ZA<const K: usize>;

pub static mut ZDROPS: [usize; 2] = [0; 2];

impl<const K: usize> Drop for ZA<K> {
    fn drop(&mut self) {
        unsafe { ZDROPS[K] += 1 };
    }
}

/// The pair under test and its standard counterpart, which may differ in type.
pub trait Kind {
    type A: 'static;
    type B: 'static;
    fn twin(k: usize) -> (Self::A, Self::B);
    fn same(a: &Self::A, b: &Self::B) -> bool;
    fn put(a: &mut Self::A, b: &mut Self::B);
}

pub struct Same<E>(core::marker::PhantomData<E>);

impl<E: Sz> Kind for Same<E> {
    type A = E;
    type B = E;
    fn twin(k: usize) -> (E, E) {
        E::twin(k)
    }
    fn same(a: &E, b: &E) -> bool {
        E::same(a, b)
    }
    fn put(a: &mut E, b: &mut E) {
        E::put(a, b)
    }
}

pub struct Zeros;

impl Kind for Zeros {
    type A = ZA<0>;
    type B = ZA<1>;
    fn twin(_: usize) -> (ZA<0>, ZA<1>) {
        (ZA, ZA)
    }
    fn same(_: &ZA<0>, _: &ZA<1>) -> bool {
        true
    }
    fn put(_: &mut ZA<0>, _: &mut ZA<1>) {}
}

struct Both<K: Kind> {
    u: UnsizedVec<K::A>,
    v: Vec<K::B>,
    made: usize,
    live0: usize,
}

fn e<T>(t: T) -> Emplacable<T, impl EmplacableFn<T>> {
    Emplacable::from(t)
}

impl<K: Kind> Both<K> {
    fn new() -> Self {
        let live0 = uv_live();
        let v = Vec::new();
        let u = match uv_pick(0, 4) {
            0 => UnsizedVec::new(),
            1 => UnsizedVec::with_capacity(uv_sym(0, 64)),
            2 => UnsizedVec::with_capacity_bytes(uv_sym(0, 64), uv_sym(0, 1 << 10)),
            3 => UnsizedVec::with_capacity_bytes_align(uv_sym(0, 64), uv_sym(0, 1 << 10), 16),
            _ => UnsizedVec::from(Vec::with_capacity(uv_sym(0, 64))),
        };
        Both { u, v, made: 0, live0 }
    }

    fn make(&mut self) -> (K::A, K::B) {
        self.made += 1;
        K::twin(self.made - 1)
    }

    fn push(&mut self) {
        let (a, b) = self.make();
        self.u.push(a);
        self.v.push(b);
    }

    /// An index in range, one at the end, or any that is too large.
    fn index(&self) -> usize {
        let n = self.v.len();
        let i = uv_pick(0, n + 1);
        if i <= n { i } else { uv_sym(n + 1, usize::MAX) }
    }

    fn check(&self) {
        let (u, v) = (&self.u, &self.v);
        uv_assert(u.len() == v.len(), 600);
        uv_assert(u.is_empty() == v.is_empty(), 601);
        uv_assert(u.capacity() >= u.len(), 602);
        let s = size_of::<K::A>();
        if s == 0 {
            uv_assert(u.capacity() == v.capacity(), 603);
            uv_assert(u.byte_capacity() == 0, 604);
        } else {
            uv_assert(u.byte_capacity() == u.capacity() * s, 605);
        }
        uv_assert(u.byte_len() == u.len() * s, 606);
        uv_assert(u.align() == align_of::<K::A>(), 607);
        let mut i = 0;
        while i < v.len() {
            match u.get(i) {
                None => uv_assert(false, 608),
                Some(r) => {
                    uv_region(r as *const K::A as *const u8, s, align_of::<K::A>());
                    uv_assert(K::same(r, &v[i]), 609)
                }
            }
            i += 1;
        }
        uv_assert(u.get(i).is_none(), 610);
    }

    fn one(a: Option<&K::A>, b: Option<&K::B>) {
        match (a, b) {
            (None, None) => (),
            (Some(a), Some(b)) => uv_assert(K::same(a, b), 611),
            _ => uv_assert(false, 612),
        }
    }

    fn step(&mut self) {
        match uv_pick(0, 15) {
            0 => self.push(),
            1 => {
                let (a, b) = self.make();
                self.u.push_with(e(a));
                self.v.push(b);
            }
            2 => {
                let i = self.index();
                let (a, b) = self.make();
                let u = &mut self.u;
                let v = &mut self.v;
                let r = catch(|| u.insert(i, a));
                let q = if i <= v.len() { Some(v.insert(i, b)) } else { None };
                uv_assert(r.is_some() == q.is_some(), 620);
            }
            3 => {
                let i = self.index();
                let (a, b) = self.make();
                let u = &mut self.u;
                let v = &mut self.v;
                let r = catch(|| u.insert_with(i, e(a)));
                let q = if i <= v.len() { Some(v.insert(i, b)) } else { None };
                uv_assert(r.is_some() == q.is_some(), 621);
            }
            4 => {
                let i = self.index();
                let u = &mut self.u;
                let r = catch(|| u.remove_into(i).get());
                let q = if i < self.v.len() { Some(self.v.remove(i)) } else { None };
                Self::one(r.as_ref(), q.as_ref());
            }
            5 => {
                let r = self.u.pop_into().map(|x| x.get());
                let q = self.v.pop();
                Self::one(r.as_ref(), q.as_ref());
            }
            6 => {
                let i = self.index();
                Self::one(self.u.get(i), self.v.get(i));
                Self::one(self.u.get_mut(i).map(|x| &*x), self.v.get_mut(i).map(|x| &*x));
                let u = &self.u;
                let r = catch(|| &u[i] as *const K::A);
                uv_assert(r.is_some() == (i < self.v.len()), 622);
            }
            7 => {
                let i = uv_pick(0, self.v.len());
                if i < self.v.len() {
                    match uv_pick(0, 1) {
                        0 => K::put(&mut self.u[i], &mut self.v[i]),
                        _ => match self.u.iter_mut().nth(i) {
                            None => uv_assert(false, 623),
                            Some(r) => K::put(r, &mut self.v[i]),
                        },
                    }
                }
            }
            8 => {
                let (mut a, mut b) = (self.u.iter(), self.v.iter());
                for _ in 0..2 {
                    match uv_pick(0, 3) {
                        0 => Self::one(a.next(), b.next()),
                        1 => Self::one(a.next_back(), b.next_back()),
                        2 => {
                            let n = uv_sym(0, usize::MAX);
                            Self::one(a.nth(n), b.nth(n));
                        }
                        _ => {
                            let n = uv_sym(0, usize::MAX);
                            Self::one(a.nth_back(n), b.nth_back(n));
                        }
                    }
                    uv_assert(a.len() == b.len(), 624);
                    uv_assert(a.size_hint() == b.size_hint(), 625);
                }
                Self::one(a.last(), b.last());
            }
            9 => match uv_pick(0, 2) {
                0 => self.u.reserve(uv_sym(0, 64)),
                1 => self.u.reserve_exact(uv_sym(0, 64)),
                _ => uv_assert(self.u.try_reserve(uv_sym(0, 64)).is_ok(), 626),
            },
            10 => {
                // too many bytes; no limit when there are none
                let n = uv_sym(isize::MAX as usize, usize::MAX);
                let r = self.u.try_reserve(n).is_ok();
                let q = self.v.try_reserve(n).is_ok();
                uv_assert(r == q, 627);
            }
            11 => {
                self.u.shrink_to(uv_sym(0, 64));
                uv_assert(self.u.capacity() >= self.u.len(), 628);
            }
            12 => self.u.shrink_to_fit(),
            13 => {
                let (a, b) = self.make();
                let (c, d) = self.make();
                self.u.extend([e(a), e(c)]);
                self.v.extend([b, d]);
            }
            14 => {
                let u = core::mem::replace(&mut self.u, UnsizedVec::new());
                let w: Vec<K::A> = u.into();
                uv_assert(w.len() == self.v.len(), 629);
                for i in 0..w.len() {
                    uv_assert(K::same(&w[i], &self.v[i]), 630);
                }
                self.u = w.into();
            }
            _ => {
                let mut n = 0;
                for r in &self.u {
                    Self::one(Some(r), self.v.get(n));
                    n += 1;
                }
                uv_assert(n == self.v.len(), 631);
            }
        }
    }

    fn finish(self) {
        drop(self.u);
        drop(self.v);
        for i in 0..5 {
            uv_assert(drops(i) == drops(i + 5), 640);
            uv_assert(drops(i) <= 1, 641);
        }
        unsafe { uv_assert(ZDROPS[0] == ZDROPS[1], 642) };
        uv_assert(uv_live() == self.live0, 643);
    }
}

pub fn sized2<K: Kind>() {
    let mut b = Both::<K>::new();
    for _ in 0..uv_pick(0, 2) {
        b.push();
    }
    b.check();
    b.step();
    b.check();
    b.finish();
}

/// Two operations in a row.
pub fn sized3<K: Kind>() {
    let mut b = Both::<K> { u: UnsizedVec::new(), v: Vec::new(), made: 0, live0: uv_live() };
    b.push();
    b.step();
    b.step();
    b.check();
    b.finish();
}
