//! User code that panics: C11.
use crate::empl::*;
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use core::alloc::Layout;
use core::marker::PhantomData;
use core::ptr::{self, Pointee};
use emplacable::*;
use unsized_vec::UnsizedVec;

/// Panics before it asks for memory (0), before it writes (1), after it has written (2).
fn bad_emp<F: Fam>(b: Box<F::T>, when: usize) -> Emplacable<F::T, impl EmplacableFn<F::T>> {
    unsafe {
        Emplacable::from_fn(move |em: &mut Emplacer<'_, F::T>| {
            let b = b;
            if when == 0 {
                uv_panic();
            }
            let l = Layout::for_value(&*b);
            let meta = ptr::metadata(&*b);
            let src = &raw const *b as *const u8;
            em.into_fn()(l, meta, &mut |out: *mut PhantomData<F::T>| {
                if when == 1 {
                    uv_panic();
                }
                if !out.is_null() {
                    ptr::copy_nonoverlapping(src, out as *mut u8, l.size());
                }
                uv_panic();
            });
        })
    }
}

/// A consumer that panics before it takes the value.
fn bad_take<T: ?Sized, C: EmplacableFn<T>>(e: Emplacable<T, C>) {
    let f = e.into_fn();
    let mut em = |_: Layout, _: <T as Pointee>::Metadata, _: &mut dyn FnMut(*mut PhantomData<T>)| uv_panic();
    f(unsafe { Emplacer::from_fn(&mut em) });
}

/// The vector works as before.
fn go_on<F: Fam>(m: &mut M<F>) {
    m.check();
    if uv_pick(0, 1) == 0 {
        m.push();
    } else {
        let i = uv_pick(0, m.n);
        m.insert_with(i);
    }
    m.check();
}

/// Some elements; in the quick tier with fixed alignments and none of them empty.
fn some<F: Fam>(lo: usize, hi: usize) -> M<F> {
    let n = uv_pick(lo, hi);
    if F::FEW && uv_tier() == 0 { M::lean(n) } else { M::plain(n) }
}

/// The closure of an emplacable that is being added panics.
pub fn pan_add<F: Fam>() {
    let mut m = if uv_tier() == 1 { M::<F>::pre_upto(2) } else { some::<F>(0, 2) };
    let when = uv_pick(0, 2);
    let (b, g) = m.make();
    let op = uv_pick(0, 1);
    let i = if op == 1 { uv_pick(0, m.n) } else { 0 };
    let v = &mut m.v;
    let r = catch(|| {
        if op == 0 { v.push_with(bad_emp::<F>(b, when)) } else { v.insert_with(i, bad_emp::<F>(b, when)) }
    });
    uv_assert(r.is_none(), 300);
    uv_assert(drops(g.k) == g.unit, 301);
    go_on(&mut m);
    m.finish();
}

/// The same into a vector that has room already.
pub fn pan_roomy<F: Fam>() {
    let mut m = M::<F>::roomy(2);
    let when = uv_pick(1, 2);
    let (b, g) = m.make();
    let i = uv_pick(0, m.n);
    let v = &mut m.v;
    let r = catch(|| v.insert_with(i, bad_emp::<F>(b, when)));
    uv_assert(r.is_none(), 302);
    uv_assert(drops(g.k) == g.unit, 303);
    go_on(&mut m);
    m.finish();
}

/// The model after a removal that panicked.
fn removed<F: Fam>(m: &mut M<F>, i: usize) {
    let g = m.g[i];
    uv_assert(drops(g.k) <= g.unit, 310);
    if m.v.len() == m.n {
        // still there
        uv_assert((g.unit == 0) | (drops(g.k) == 0), 311);
    } else {
        m.take(i);
        m.lost[g.k] = drops(g.k) == 0;
    }
}

/// The consumer of a removed value panics before taking it.
pub fn pan_rem<F: Fam>() {
    let mut m = some::<F>(1, 3);
    let i = uv_pick(0, m.n);
    let v = &mut m.v;
    let last = i == m.n;
    let r = catch(|| if last { if let Some(e) = v.pop_into() { bad_take(e) } } else { bad_take(v.remove_into(i)) });
    uv_assert(r.is_none(), 312);
    removed(&mut m, if last { i - 1 } else { i });
    go_on(&mut m);
    m.finish();
}

/// The destructor of a removed value panics.
pub fn pan_bomb<F: Fam>() {
    let mut m = some::<F>(1, 3);
    let i = uv_pick(0, m.n);
    let last = i == m.n;
    let at = if last { i - 1 } else { i };
    let g = m.g[at];
    uv_assume(g.unit > 0);
    unsafe { BOMB = g.k };
    let v = &mut m.v;
    let r = catch(|| if last { drop(v.pop_into()) } else { drop(v.remove_into(i)) });
    uv_assert(r.is_none(), 313);
    uv_assert(drops(g.k) == g.unit, 314);
    uv_assert(m.v.len() == m.n - 1, 315);
    removed(&mut m, at);
    go_on(&mut m);
    m.finish();
}

/// A removed value is offered to a vector at an index that is out of range.
pub fn pan_other<F: Fam>() {
    let mut m = M::<F>::plain(2);
    let mut w = UnsizedVec::<F::T>::new();
    let i = uv_pick(0, 2);
    let at = if i == 2 { 1 } else { i };
    let k = uv_sym(1, usize::MAX);
    let (v, w2) = (&mut m.v, &mut w);
    let r = catch(|| {
        if i == 2 {
            if let Some(e) = v.pop_into() {
                w2.insert_with(k, e)
            }
        } else {
            w2.insert_with(k, v.remove_into(i))
        }
    });
    uv_assert(r.is_none(), 316);
    let g = m.g[at];
    uv_assert(drops(g.k) == g.unit, 317);
    uv_assert(w.is_empty(), 318);
    removed(&mut m, at);
    drop(w);
    go_on(&mut m);
    m.finish();
}

/// A destructor panics while the vector is dropped.
pub fn pan_drop<F: Fam>() {
    let m = some::<F>(1, 3);
    let k = uv_pick(0, m.n - 1);
    uv_assume(m.g[k].unit > 0);
    unsafe { BOMB = k };
    let (all, made) = (m.all, m.made);
    let v = m.v;
    let r = catch(|| drop(v));
    uv_assert(r.is_none(), 320);
    for i in 0..made {
        uv_assert(drops(i) <= all[i].unit, 321);
    }
    uv_assert(drops(k) >= 1, 322);
}

/// Memory of a box that could not be filled.
pub fn pan_box<F: Fam>() {
    let live = uv_live();
    let (b, g) = F::make(0);
    let when = uv_pick(0, 2);
    let how = uv_pick(0, 3);
    let r = catch(|| {
        let e = bad_emp::<F>(b, when);
        match how {
            0 => drop(box_new_with(e)),
            1 => drop(box_pin_with(e)),
            2 => drop(rc_new_with(e)),
            _ => drop(arc_new_with(e)),
        }
    });
    uv_assert(r.is_none(), 325);
    uv_assert(drops(g.k) == g.unit, 326);
    uv_assert(uv_live() == live, 327);
}

/// The closure given to with_emplacable_for panics with the emplacable in hand.
pub fn pan_wef<F: Fam>() {
    let (b, g) = F::make(0);
    let how = uv_pick(0, 2);
    let r = catch(|| {
        with_emplacable_for(*b, |e| {
            match how {
                0 => drop(e),
                1 => e.forget(),
                _ => drop(box_new_with(e)),
            }
            uv_panic();
        })
    });
    uv_assert(r.is_none(), 330);
    uv_assert(drops(g.k) <= g.unit, 331);
}

// ---- clones
/// Cloning elements into a vector, a box, a Vec; the n-th clone panics.
pub fn pan_clone() {
    let live = uv_live();
    let mut v = UnsizedVec::<[D]>::new();
    v.push_unsize([D(0, 7)]);
    let src = [D(1, uv_byte()), D(1, uv_byte()), D(1, uv_byte())];
    let at = uv_pick(0, 3);
    unsafe { CLONE_BOMB = at };
    let how = uv_pick(0, 3);
    let w = &mut v;
    let s = &src[..];
    let r = catch(|| {
        let e: Emplacable<[D], _> = s.into();
        match how {
            0 => w.push_with(e),
            1 => w.insert_with(0, e),
            2 => drop(box_new_with(e)),
            _ => drop(e.into_vec()),
        }
    });
    uv_assert(r.is_some() == (at == 3), 335);
    uv_assert(drops(1) == 0, 336);
    uv_assert(drops(5) <= 3, 337);
    let n = if at == 3 && how < 2 { 2 } else { 1 };
    uv_assert(v.len() == n, 338);
    let first = &v[if n == 2 && how == 1 { 1 } else { 0 }];
    uv_assert(first.len() == 1, 339);
    uv_assert(first[0].1 == 7, 340);
    if n == 2 {
        let c = &v[if how == 1 { 0 } else { 1 }];
        uv_assert(c.len() == 3, 341);
        for i in 0..3 {
            uv_assert(c[i].1 == src[i].1, 342);
        }
    }
    drop(v);
    uv_assert(drops(0) == 1, 343);
    drop(src);
    uv_assert(drops(1) == 3, 344);
    uv_assert(drops(5) <= 3, 345);
    uv_assert(uv_live() == live, 346);
}

/// Cloning a vector; the n-th clone panics.
pub fn pan_vclone() {
    let live = uv_live();
    let n = uv_pick(0, 3);
    let mut v = UnsizedVec::<D>::new();
    let mut want = [0u8; 3];
    for i in 0..n {
        want[i] = uv_byte();
        v.push(D(i as u8, want[i]));
    }
    let at = uv_pick(0, n);
    unsafe { CLONE_BOMB = at };
    let s = &v;
    let r = catch(|| s.clone());
    uv_assert(r.is_some() == (at == n), 350);
    for i in 0..n {
        uv_assert(drops(i) == 0, 351);
        uv_assert(v[i].1 == want[i], 352);
    }
    match r {
        Some(c) => {
            uv_assert(c.len() == n, 353);
            for i in 0..n {
                uv_assert(c[i].1 == want[i], 354);
                uv_assert(c[i].0 as usize == i + 4, 355);
            }
        }
        None => (),
    }
    for i in 0..n {
        uv_assert(drops(i + 4) == (i < at) as usize, 356);
    }
    v.push(D(3, 9));
    uv_assert(v.len() == n + 1, 357);
    uv_assert(v[n].1 == 9, 358);
    drop(v);
    for i in 0..n {
        uv_assert(drops(i) == 1, 359);
    }
    uv_assert(uv_live() == live, 360);
}

// ---- iterators
/// Yields `n` values, then panics or ends.
struct BadIter<F: Fam> {
    i: usize,
    n: usize,
    bomb: bool,
    len: usize,
    lo: usize,
    ph: PhantomData<F>,
}

impl<F: Fam> Iterator for BadIter<F> {
    type Item = Emp<F::T>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i == self.n {
            if self.bomb {
                uv_panic();
            }
            return None;
        }
        let (b, g) = F::make(2 + self.i);
        unsafe { SRC_G[self.i] = g };
        self.i += 1;
        Some(emp(b))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, None)
    }
}

impl<F: Fam> ExactSizeIterator for BadIter<F> {
    fn len(&self) -> usize {
        self.len
    }
}

/// The iterator panics in the middle of extend: the vector has the values that were yielded, or fewer.
pub fn pan_ext<F: Fam>() {
    let mut m = some::<F>(0, 1);
    let n0 = m.n;
    m.made = 2;
    let n = uv_pick(0, 2);
    let lo = uv_pick(0, 3);
    let v = &mut m.v;
    let r = catch(|| v.extend(BadIter::<F> { i: 0, n, bomb: true, len: 0, lo, ph: PhantomData }));
    uv_assert(r.is_none(), 365);
    for i in 0..n {
        let g = unsafe { SRC_G[i] };
        m.all[2 + i] = g;
        m.made += 1;
        if m.v.len() > n0 + i {
            m.put(n0 + i, g);
        } else {
            uv_assert(drops(g.k) <= g.unit, 366);
            m.lost[g.k] = drops(g.k) == 0;
        }
    }
    if n0 == 0 {
        m.all[0] = G0;
    }
    m.all[1] = G0;
    go_on(&mut m);
    m.finish();
}

/// The iterator panics in the middle of collect.
pub fn pan_col<F: Fam>() {
    let live = uv_live();
    let n = uv_pick(0, 2);
    let lo = uv_pick(0, 3);
    let r = catch(|| BadIter::<F> { i: 0, n, bomb: true, len: 0, lo, ph: PhantomData }.collect::<UnsizedVec<F::T>>());
    uv_assert(r.is_none(), 367);
    for i in 0..n {
        let g = unsafe { SRC_G[i] };
        uv_assert(drops(g.k) == g.unit, 368);
    }
    uv_assert(uv_live() == live, 369);
}

/// An exact-size iterator that yields more or fewer values than it says, or panics.
pub fn pan_iter<F: FamS1>() {
    let mut v = UnsizedVec::<[F::T]>::new();
    let n = uv_pick(0, 2);
    let len = uv_pick(0, 3);
    let bomb = uv_pick(0, 1) == 1;
    let how = uv_pick(0, if size_of::<F::T>() == 0 { 2 } else { 3 });
    let w = &mut v;
    let r = catch(|| {
        let e = Emplacable::<F::T, _>::from_iter(BadIter::<F> { i: 0, n, bomb, len, lo: 0, ph: PhantomData });
        match how {
            0 => drop(e),
            1 => {
                let b = box_new_with(e);
                uv_assert(b.len() == len, 370);
                for i in 0..len {
                    let g = unsafe { SRC_G[i] };
                    ok_ref::<F>(&b[i], &g);
                    uv_assert(drops(g.k) == 0, 371);
                }
            }
            2 => e.forget(),
            _ => w.push_with(e),
        }
    });
    if how == 3 {
        // a slice is only there when enough values were
        uv_assert(v.len() == r.is_some() as usize, 372);
        if r.is_some() {
            uv_assert(v[0].len() == len, 373);
            for i in 0..len {
                let g = unsafe { SRC_G[i] };
                ok_ref::<F>(&v[0][i], &g);
                uv_assert(drops(g.k) == 0, 374);
            }
        }
    }
    if how == 1 || how == 3 {
        uv_assert((r.is_none()) | (n >= len), 375);
    }
    drop(v);
    for i in 0..n {
        let g = unsafe { SRC_G[i] };
        uv_assert(drops(g.k) <= g.unit, 376);
    }
}

/// One of several emplacables in an array panics.
pub fn pan_arr() {
    let which = uv_pick(0, 1);
    let when = uv_pick(0, 2);
    let how = uv_pick(0, 1);
    let (a, ga) = SiD::make(0);
    let (b, gb) = SiD::make(1);
    let mut v = UnsizedVec::<[D]>::new();
    let w = &mut v;
    let r = catch(|| {
        let (x, y) = (if which == 0 { when } else { 9 }, if which == 1 { when } else { 9 });
        let arr = [mixed(a, x), mixed(b, y)];
        let e: Emplacable<[D], _> = arr.into();
        if how == 0 { drop(box_new_with(e)) } else { w.push_with(e) }
    });
    uv_assert(r.is_none(), 380);
    uv_assert(v.len() == 0, 381);
    uv_assert(drops(ga.k) <= 1, 382);
    uv_assert(drops(gb.k) <= 1, 383);
    v.push_unsize([D(2, 3)]);
    uv_assert(v.len() == 1, 384);
    uv_assert(v[0][0].1 == 3, 385);
    drop(v);
    uv_assert(drops(2) == 1, 386);
}

/// Like bad_emp, but does its work when `when` is 9.
fn mixed(b: Box<D>, when: usize) -> Emplacable<D, impl EmplacableFn<D>> {
    unsafe {
        Emplacable::from_fn(move |em: &mut Emplacer<'_, D>| {
            let p = Box::into_raw(b);
            if when == 0 {
                uv_panic();
            }
            em.into_fn()(Layout::new::<D>(), (), &mut |out: *mut PhantomData<D>| {
                if when == 1 {
                    uv_panic();
                }
                if !out.is_null() {
                    ptr::copy_nonoverlapping(p as *const u8, out as *mut u8, 2);
                }
                if when == 2 {
                    uv_panic();
                }
            });
            drop(Box::from_raw(p as *mut core::mem::ManuallyDrop<D>));
        })
    }
}
