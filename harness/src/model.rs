//! A vector next to the list it has to be equal to.
use crate::fam::*;
use crate::uv::*;
use emplacable::{Emplacable, box_new_with};
use unsized_vec::UnsizedVec;

pub const N: usize = 8;

pub type Emp<T> = Emplacable<T, <Box<T> as emplacable::IntoEmplacable<T>>::Closure>;

/// The emplacable that moves a value out of its box.
pub fn emp<T: ?Sized>(b: Box<T>) -> Emp<T> {
    b.into()
}

pub fn pad(n: usize, a: usize) -> usize {
    (n + (a - 1)) & !(a - 1)
}

pub struct M<F: Fam> {
    pub v: UnsizedVec<F::T>,
    pub g: [G; N],
    pub n: usize,
    pub made: usize,
    pub all: [G; 9],
    /// Destructor not to be called (forgotten).
    pub lost: [bool; 9],
    pub live0: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub struct Caps(pub usize, pub usize, pub usize);

impl<F: Fam> M<F> {
    pub fn new() -> Self {
        let live0 = uv_live();
        unsafe { FEW = F::FEW && uv_tier() == 0 };
        M { v: UnsizedVec::new(), g: [G0; N], n: 0, made: 0, all: [G0; 9], lost: [false; 9], live0 }
    }

    /// A vector with any spare capacity (and, where it matters, any of several alignments) and `n` arbitrary elements.
    pub fn pre(n: usize) -> Self {
        let mut m = Self::new();
        if uv_pick(0, 1) == 1 {
            let align = if few() { [1, 1024][uv_pick(0, 1)] } else if F::DYN { pick_align() } else { 1 };
            m.v = UnsizedVec::with_capacity_bytes_align(3 * uv_pick(0, 1), uv_sym(0, 4 * ELMAX), align);
        }
        for _ in 0..n {
            m.push();
        }
        m
    }

    /// A new vector with up to `n` elements.
    pub fn pre_upto(n: usize) -> Self {
        Self::pre(uv_pick(0, n))
    }

    /// `n` elements and no choice about the capacity.
    pub fn plain(n: usize) -> Self {
        let mut m = Self::new();
        for _ in 0..n {
            m.push();
        }
        m
    }

    /// `n` non-empty elements.
    pub fn lean(n: usize) -> Self {
        unsafe { LEAN = true };
        Self::plain(n)
    }

    /// `n` non-empty elements in a vector that had room for them from the start.
    pub fn roomy(n: usize) -> Self {
        unsafe { LEAN = true };
        let mut m = Self::new();
        m.v = UnsizedVec::with_capacity_bytes_align(n + 1, (n + 1) * ELMAX, if F::DYN { 16 } else { 1 });
        for _ in 0..n {
            m.push();
        }
        m
    }

    pub fn make(&mut self) -> (Box<F::T>, G) {
        let r = F::make(self.made);
        self.all[self.made] = r.1;
        self.made += 1;
        r
    }

    pub fn put(&mut self, i: usize, g: G) {
        let mut k = self.n;
        while k > i {
            self.g[k] = self.g[k - 1];
            k -= 1;
        }
        self.g[i] = g;
        self.n += 1;
    }

    pub fn take(&mut self, i: usize) -> G {
        let r = self.g[i];
        let mut k = i;
        while k + 1 < self.n {
            self.g[k] = self.g[k + 1];
            k += 1;
        }
        self.n -= 1;
        r
    }

    pub fn push(&mut self) {
        let (b, g) = self.make();
        let n = self.n;
        self.v.push(*b);
        self.put(n, g);
    }

    pub fn push_with(&mut self) {
        let (b, g) = self.make();
        let n = self.n;
        self.v.push_with(emp(b));
        self.put(n, g);
    }

    pub fn insert(&mut self, i: usize) {
        let (b, g) = self.make();
        self.v.insert(i, *b);
        self.put(i, g);
    }

    pub fn insert_with(&mut self, i: usize) {
        let (b, g) = self.make();
        self.v.insert_with(i, emp(b));
        self.put(i, g);
    }

    /// Any of the ways to add an element, at any valid index.
    pub fn add_any(&mut self) {
        match uv_pick(0, 3) {
            0 => self.push(),
            1 => self.push_with(),
            2 => {
                let i = uv_pick(0, self.n);
                self.insert(i);
            }
            _ => {
                let i = uv_pick(0, self.n);
                self.insert_with(i);
            }
        }
    }

    /// Takes an element out (the last one by `pop_into` when `i` is len) and gives it to the consumer number `how`.
    pub fn remove(&mut self, i: usize, how: usize) {
        let last = i == self.n;
        let g = self.take(if last { i - 1 } else { i });
        let before = drops(g.k);
        macro_rules! consume {
            ($e:expr) => {{
                let e = $e;
                match how {
                    0 => {
                        let b = box_new_with(e);
                        ok_ref::<F>(&b, &g);
                        uv_assert(drops(g.k) == before, 30);
                        drop(b);
                        uv_assert(drops(g.k) == before + g.unit, 31);
                    }
                    1 => {
                        let mut w = UnsizedVec::<F::T>::new();
                        w.push_with(e);
                        uv_assert(w.len() == 1, 32);
                        ok_ref::<F>(&w[0], &g);
                        uv_assert(drops(g.k) == before, 33);
                        drop(w);
                        uv_assert(drops(g.k) == before + g.unit, 34);
                    }
                    2 => {
                        drop(e);
                        uv_assert(drops(g.k) == before + g.unit, 35);
                    }
                    _ => {
                        e.forget();
                        self.lost[g.k] = true;
                        uv_assert(drops(g.k) == before, 36);
                    }
                }
            }};
        }
        if last {
            match self.v.pop_into() {
                None => uv_assert(false, 37),
                Some(e) => consume!(e),
            }
        } else {
            consume!(self.v.remove_into(i));
        }
    }

    pub fn remove_any(&mut self) {
        if self.n == 0 {
            uv_assert(self.v.pop_into().is_none(), 38);
        } else {
            let i = uv_pick(0, self.n);
            let how = uv_pick(0, 3);
            self.remove(i, how);
        }
    }

    pub fn caps(&self) -> Caps {
        Caps(self.v.capacity(), self.v.byte_capacity(), self.v.align())
    }

    pub fn used(&self) -> usize {
        let a = self.v.align();
        let mut t = 0;
        for i in 0..self.n {
            t += if F::DYN { pad(self.g[i].size, a) } else { self.g[i].size };
        }
        t
    }

    pub fn check(&self) {
        let v = &self.v;
        uv_assert(v.len() == self.n, 10);
        uv_assert(v.is_empty() == (self.n == 0), 11);
        uv_assert(v.len() <= v.capacity(), 12);
        uv_assert(v.byte_len() <= v.byte_capacity(), 13);
        uv_assert(v.align().is_power_of_two(), 9);
        let mut i = 0;
        let mut a = [0usize; N];
        while i < self.n {
            match v.get(i) {
                None => uv_assert(false, 14),
                Some(r) => {
                    ok_ref::<F>(r, &self.g[i]);
                    uv_assert(if F::DYN { v.align() >= self.g[i].align } else { v.align() == self.g[i].align }, 15);
                    a[i] = r as *const F::T as *const u8 as usize;
                }
            }
            let mut j = 0;
            while j < i {
                let (gi, gj) = (&self.g[i], &self.g[j]);
                uv_assert((gi.size == 0) | (gj.size == 0) | (a[i] >= a[j] + gj.size) | (a[j] >= a[i] + gi.size), 16);
                j += 1;
            }
            i += 1;
        }
        uv_assert(v.get(self.n).is_none(), 17);
        uv_assert(v.byte_len() == self.used(), 18);
    }

    /// Destructor calls so far: none for elements still in the vector.
    pub fn undropped(&self) {
        for i in 0..self.n {
            uv_assert(drops(self.g[i].k) == 0, 19);
        }
    }

    /// Drops the vector; by then every destructor has been called once and all memory is free again.
    pub fn finish(self) {
        self.undropped();
        let (live0, all, lost, made) = (self.live0, self.all, self.lost, self.made);
        drop(self.v);
        for i in 0..made {
            uv_assert(drops(i) == if lost[i] { 0 } else { all[i].unit }, 21);
        }
        uv_assert(uv_live() == live0, 20);
    }
}
