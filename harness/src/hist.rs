//! Adding, removing, access: C01, C02, C04, C05, C06, C17.
use crate::fam::*;
use crate::model::*;
use crate::uv::*;

// ---- C01
pub fn push1<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    m.push();
    m.check();
    m.finish();
}

pub fn push_with1<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    m.push_with();
    m.check();
    m.finish();
}

pub fn insert1<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    let i = uv_pick(0, m.n);
    m.insert(i);
    m.check();
    m.finish();
}

pub fn insert_with1<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    let i = uv_pick(0, m.n);
    m.insert_with(i);
    m.check();
    m.finish();
}

/// `push_unsize` and `insert_unsize` of a sized value.
pub fn unsize1<F: FamU>() {
    let mut m = M::<F>::pre_upto(2);
    let (s, g) = F::make_sized(m.made);
    m.all[m.made] = g;
    m.made += 1;
    if uv_pick(0, 1) == 0 {
        m.v.push_unsize(s);
        m.put(m.n, g);
    } else {
        let i = uv_pick(0, m.n);
        m.v.insert_unsize(i, s);
        m.put(i, g);
    }
    m.check();
    m.finish();
}

/// Three additions of any kind, one after the other.
pub fn add3<F: Fam>() {
    let mut m = if F::FEW && uv_tier() == 0 { M::<F>::lean(0) } else { M::<F>::new() };
    for _ in 0..3 {
        m.add_any();
    }
    m.check();
    m.finish();
}

pub fn add4<F: Fam>() {
    let mut m = M::<F>::lean(0);
    for _ in 0..4 {
        m.add_any();
    }
    m.check();
    m.finish();
}

// ---- C02
pub fn remove1<F: Fam>() {
    let mut m = M::<F>::plain(uv_pick(0, 3));
    let c = m.caps();
    m.remove_any();
    uv_assert(m.caps() == c, 40);
    m.check();
    m.finish();
}

/// Removal after the alignment or the capacity was changed.
pub fn remove_pre<F: Fam>() {
    let mut m = M::<F>::pre(uv_pick(1, 2));
    m.remove_any();
    m.check();
    m.finish();
}

pub fn remove2<F: Fam>() {
    let mut m = M::<F>::lean(3);
    m.remove_any();
    m.remove_any();
    m.check();
    m.finish();
}

/// Removed, then added to again.
pub fn remove_add<F: Fam>() {
    let mut m = M::<F>::lean(2);
    m.remove_any();
    m.add_any();
    m.check();
    m.finish();
}

/// From one vector straight into another, at any place of a vector that already has an element.
pub fn remove_into_other<F: Fam>() {
    let mut m = M::<F>::plain(2);
    let (b, g) = m.make();
    let mut w = unsized_vec::UnsizedVec::<F::T>::new();
    w.push(*b);
    let i = uv_pick(0, 1);
    let h = m.take(i);
    let k = uv_pick(0, 1);
    w.insert_with(k, m.v.remove_into(i));
    m.check();
    uv_assert(w.len() == 2, 41);
    ok_ref::<F>(&w[k], &h);
    ok_ref::<F>(&w[1 - k], &g);
    uv_assert(drops(h.k) == 0, 42);
    uv_assert(drops(g.k) == 0, 43);
    drop(w);
    m.finish();
}

// ---- C04
/// Any index that is too large, in every operation that takes one.
pub fn index_out<F: Fam>() {
    let mut m = M::<F>::plain(uv_pick(0, 2));
    let c = m.caps();
    let n = m.n;
    let op = uv_pick(0, 6);
    let lo = if op == 4 || op == 5 { n + 1 } else { n };
    let i = uv_sym(lo, usize::MAX);
    match op {
        0 => uv_assert(m.v.get(i).is_none(), 50),
        1 => uv_assert(m.v.get_mut(i).is_none(), 51),
        2 => {
            let v = &m.v;
            let r = catch(|| {
                let _ = &v[i];
            });
            uv_assert(r.is_none(), 52);
        }
        3 => {
            let v = &mut m.v;
            let r = catch(|| {
                let _ = &mut v[i];
            });
            uv_assert(r.is_none(), 53);
        }
        4 => {
            let (b, g) = m.make();
            let v = &mut m.v;
            let r = catch(|| v.insert(i, *b));
            uv_assert(r.is_none(), 54);
            uv_assert(drops(g.k) == g.unit, 55);
        }
        5 => {
            let (b, g) = m.make();
            let v = &mut m.v;
            let r = catch(|| v.insert_with(i, emp(b)));
            uv_assert(r.is_none(), 56);
            uv_assert(drops(g.k) == g.unit, 57);
        }
        _ => {
            let v = &mut m.v;
            let r = catch(|| drop(v.remove_into(i)));
            uv_assert(r.is_none(), 58);
        }
    }
    uv_assert(m.caps() == c, 59);
    m.check();
    m.finish();
}

/// Any index below len gives that element and nothing panics.
pub fn index_in<F: Fam>() {
    let mut m = M::<F>::plain(uv_pick(1, 3));
    let i = uv_pick(0, m.n - 1);
    let g = m.g[i];
    let a = match m.v.get(i) {
        None => {
            uv_assert(false, 60);
            return;
        }
        Some(r) => {
            ok_ref::<F>(r, &g);
            r as *const F::T as *const u8 as usize
        }
    };
    ok_ref::<F>(&m.v[i], &g);
    uv_assert(&m.v[i] as *const F::T as *const u8 as usize == a, 61);
    let p = match m.v.get_mut(i) {
        None => {
            uv_assert(false, 62);
            return;
        }
        Some(r) => {
            ok_ref::<F>(r, &g);
            r as *mut F::T as *mut u8
        }
    };
    uv_assert(p as usize == a, 63);
    let q = &mut m.v[i] as *mut F::T;
    uv_assert(q as *mut u8 as usize == a, 64);
    unsafe {
        uv_assert(m.v.get_unchecked(i) as *const F::T as *const u8 as usize == a, 65);
        uv_assert(m.v.get_unchecked_mut(i) as *mut F::T as *mut u8 as usize == a, 66);
        uv_assert(F::meta(m.v.get_unchecked(i)) == g.meta, 67);
    }
    // writing through the reference changes this element only
    if g.unit == 0 && uv_truth(g.size > 0) {
        let b = uv_byte();
        unsafe { *p.add(g.j) = b };
        m.g[i].b = b;
    }
    m.check();
    m.finish();
}

pub fn insert_unsize_out<F: FamU>() {
    let mut m = M::<F>::plain(uv_pick(0, 1));
    let c = m.caps();
    let i = uv_sym(m.n + 1, usize::MAX);
    let (s, g) = F::make_sized(m.made);
    m.all[m.made] = g;
    m.made += 1;
    let v = &mut m.v;
    let r = catch(|| v.insert_unsize(i, s));
    uv_assert(r.is_none(), 70);
    uv_assert(drops(g.k) == g.unit, 71);
    uv_assert(m.caps() == c, 72);
    m.check();
    m.finish();
}

// ---- C05, C06, C17: mixed histories
fn step<F: Fam>(m: &mut M<F>) {
    match uv_pick(0, 4) {
        0 => m.push(),
        1 => {
            let i = uv_pick(0, m.n);
            m.insert_with(i);
        }
        2 => m.remove_any(),
        3 => m.v.shrink_to_fit(),
        _ => {
            let a = if F::DYN { pick_align() } else { 1 };
            m.v.reserve_capacity_bytes_align(uv_sym(0, 8), uv_sym(0, ELMAX), a);
        }
    }
}

pub fn mix2<F: Fam>() {
    let mut m = M::<F>::plain(1);
    for _ in 0..2 {
        step(&mut m);
    }
    m.check();
    m.finish();
}

pub fn mix3<F: Fam>() {
    let mut m = M::<F>::lean(1);
    for _ in 0..3 {
        step(&mut m);
    }
    m.check();
    m.finish();
}

pub fn mix4<F: Fam>() {
    let mut m = M::<F>::lean(1);
    for _ in 0..4 {
        step(&mut m);
    }
    m.check();
    m.finish();
}

/// One operation (two in the thorough tier) on six elements.
pub fn long<F: Fam>() {
    let deep = uv_tier() > 0;
    let mut m = if !deep || uv_pick(0, 1) == 0 { M::<F>::roomy(6) } else { M::<F>::lean(6) };
    for _ in 0..if deep { uv_pick(1, 2) } else { 1 } {
        match uv_pick(0, 3) {
            0 if m.n == 7 => (),
            0 => m.add_any(),
            1 => m.remove_any(),
            2 => m.v.shrink_to_fit(),
            _ => m.v.reserve_capacity_bytes_align(uv_sym(0, 8), uv_sym(0, ELMAX), if F::DYN { 1024 } else { 1 }),
        }
    }
    m.check();
    m.finish();
}

/// An empty or non-empty vector that is simply dropped.
pub fn drop1<F: Fam>() {
    let m = M::<F>::pre_upto(3);
    m.check();
    m.finish();
}

/// Only reading: nothing changes.
pub fn read_only<F: Fam>() {
    let m = M::<F>::pre(2);
    let c = m.caps();
    let l = m.v.byte_len();
    let mut n = 0;
    for r in &m.v {
        ok_ref::<F>(r, &m.g[n]);
        n += 1;
    }
    uv_assert(n == 2, 80);
    uv_assert(m.caps() == c, 81);
    uv_assert(m.v.byte_len() == l, 82);
    m.check();
    m.finish();
}
