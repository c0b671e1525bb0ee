//! Reserving, shrinking, realigning, failing: C07, C08, C09, C10.
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use unsized_vec::UnsizedVec;

const ZSTCAP: usize = usize::MAX;

/// One of the twelve reserve functions; `kind`: 0 elements only, 1 and bytes, 2 and alignment. False: an error was returned.
fn reserve<T: ?Sized>(v: &mut UnsizedVec<T>, kind: usize, exact: bool, fallible: bool, a: usize, b: usize, al: usize) -> bool {
    match (kind, exact, fallible) {
        (0, false, false) => v.reserve(a),
        (0, true, false) => v.reserve_exact(a),
        (0, false, true) => return v.try_reserve(a).is_ok(),
        (0, true, true) => return v.try_reserve_exact(a).is_ok(),
        (1, false, false) => v.reserve_capacity_bytes(a, b),
        (1, true, false) => v.reserve_exact_capacity_bytes(a, b),
        (1, false, true) => return v.try_reserve_capacity_bytes(a, b).is_ok(),
        (1, true, true) => return v.try_reserve_exact_capacity_bytes(a, b).is_ok(),
        (_, false, false) => v.reserve_capacity_bytes_align(a, b, al),
        (_, true, false) => v.reserve_exact_capacity_bytes_align(a, b, al),
        (_, false, true) => return v.try_reserve_capacity_bytes_align(a, b, al).is_ok(),
        (_, true, true) => return v.try_reserve_exact_capacity_bytes_align(a, b, al).is_ok(),
    }
    true
}

/// What a successful reserve call promises.
fn promised<F: Fam>(m: &M<F>, kind: usize, a: usize, b: usize, al: usize) {
    let v = &m.v;
    uv_assert(v.capacity() >= m.n, 100);
    uv_assert(v.capacity() - m.n >= a, 101);
    if kind > 0 && !(F::SIZED && v.capacity() == ZSTCAP) {
        uv_assert(v.byte_capacity() >= v.byte_len(), 102);
        uv_assert(v.byte_capacity() - v.byte_len() >= b, 103);
    }
    if kind > 1 && F::DYN {
        uv_assert(v.align() >= al, 104);
    }
}

/// The exact functions do not allocate more than was asked for, and nothing when there is enough.
fn frugal<F: Fam>(m: &M<F>, c: Caps, a: usize, b: usize) {
    let d = m.caps();
    if F::SIZED {
        uv_assert((d.0 == c.0) | (d.0 == m.n + a) | (d.1 < m.v.byte_len() + b + F::ONE), 116);
    } else {
        uv_assert((d.0 == c.0) | (d.0 == m.n + a), 117);
        if d.2 == c.2 {
            // rounded up to the alignment
            uv_assert((d.1 == c.1) | (d.1 < m.v.byte_len() + b + d.2), 118);
        }
    }
}

fn addr<F: Fam>(m: &M<F>, i: usize) -> usize {
    &m.v[i] as *const F::T as *const u8 as usize
}

/// Adds an element that fits in the reported capacities: nothing is allocated, nothing before it moves.
fn add_fitting<F: Fam>(m: &mut M<F>) {
    let (b, g) = m.make();
    uv_assume(m.v.capacity() > m.n);
    uv_assume(g.align <= m.v.align());
    let a = m.v.align();
    let need = if F::DYN { pad(g.size, a) } else { g.size };
    if !(F::SIZED && m.v.capacity() == ZSTCAP) {
        uv_assume(need <= m.v.byte_capacity() - m.v.byte_len());
    }
    let c = m.caps();
    let first = if m.n > 0 { addr(m, 0) } else { 0 };
    let how = uv_pick(0, 3);
    let i = if how < 2 { m.n } else { uv_pick(0, m.n) };
    let n = uv_allocs();
    match how {
        0 => m.v.push(*b),
        1 => m.v.push_with(emp(b)),
        2 => m.v.insert(i, *b),
        _ => m.v.insert_with(i, emp(b)),
    }
    uv_assert(uv_allocs() == n, 105);
    uv_assert(m.caps() == c, 106);
    m.put(i, g);
    if i > 0 {
        uv_assert(addr(m, 0) == first, 107);
    }
}

fn res_align<F: Fam>() -> usize {
    if F::DYN { [1, 8, 32][uv_pick(0, 2)] } else { 1 }
}

// ---- C07
/// Any reserve function in any state, then an element that fits.
pub fn reserve1<F: Fam>() {
    let mut m = M::<F>::pre_upto(1);
    // the others are the third with nothing asked for
    let kind = if few() { 2 } else { uv_pick(0, 2) };
    let exact = uv_pick(0, 1) == 1;
    let fallible = uv_pick(0, 1) == 1;
    let a = uv_sym(0, 64);
    let b = if kind > 0 { uv_sym(0, 4 * ELMAX) } else { 0 };
    let al = if kind > 1 { res_align::<F>() } else { 1 };
    let c = m.caps();
    let r = reserve(&mut m.v, kind, exact, fallible, a, b, al);
    uv_assert(r, 108);
    promised(&m, kind, a, b, al);
    if exact {
        frugal(&m, c, a, b);
    }
    m.check();
    add_fitting(&mut m);
    m.check();
    m.finish();
}

/// Reserved in a vector with two elements, whose padding may change; two elements added.
pub fn reserve2<F: Fam>() {
    let mut m = M::<F>::lean(2);
    let a = 2;
    let b = uv_sym(0, 4 * ELMAX);
    let al = res_align::<F>();
    let exact = uv_pick(0, 1) == 1;
    reserve(&mut m.v, 2, exact, false, a, b, al);
    promised(&m, 2, a, b, al);
    add_fitting(&mut m);
    add_fitting(&mut m);
    m.check();
    m.finish();
}

pub fn with_cap<F: Fam>() {
    let mut m = M::<F>::new();
    let kind = uv_pick(0, 2);
    let a = uv_sym(0, 64);
    let b = uv_sym(0, 4 * ELMAX);
    let al = res_align::<F>();
    m.v = match kind {
        0 => UnsizedVec::with_capacity(a),
        1 => UnsizedVec::with_capacity_bytes(a, b),
        _ => UnsizedVec::with_capacity_bytes_align(a, b, al),
    };
    promised(&m, kind, a, b, al);
    m.check();
    add_fitting(&mut m);
    add_fitting(&mut m);
    m.check();
    m.finish();
}

/// When push or insert has to make room at an unchanged alignment, it at least doubles what is full.
pub fn growth<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    let c = m.caps();
    let (b, g) = m.make();
    let i = if uv_pick(0, 1) == 0 {
        m.v.push(*b);
        m.n
    } else {
        let i = uv_pick(0, m.n);
        m.v.insert(i, *b);
        i
    };
    m.put(i, g);
    let d = m.caps();
    uv_assert(d.0 >= c.0, 110);
    uv_assert(d.1 >= c.1, 111);
    uv_assert(d.2 >= c.2, 112);
    uv_assert((d.0 == c.0) | (d.0 / 2 >= c.0), 113);
    if d.2 == c.2 {
        uv_assert((d.1 == c.1) | (d.1 / 2 >= c.1), 114);
    }
    m.check();
    m.finish();
}

// ---- C08
fn max_align<F: Fam>(m: &M<F>) -> usize {
    let mut a = 1;
    for i in 0..m.n {
        if m.g[i].align > a {
            a = m.g[i].align;
        }
    }
    a
}

/// Any shrink function with any bounds, and its promises.
fn shrink_any<F: Fam>(m: &mut M<F>) {
    let c = m.caps();
    let op = uv_pick(0, 3);
    let a = if op > 0 { uv_sym(0, usize::MAX) } else { 0 };
    let b = if op > 1 { uv_sym(0, usize::MAX) } else { 0 };
    let al = if op == 3 && F::DYN { [1, 2, 8, 1 << 20, 1 << 63][uv_pick(0, 4)] } else { 1 };
    match op {
        0 => m.v.shrink_to_fit(),
        1 => m.v.shrink_to(a),
        2 => m.v.shrink_capacity_bytes_to(a, b),
        _ => m.v.shrink_capacity_bytes_align_to(a, b, al),
    }
    let d = m.caps();
    uv_assert(d.0 <= c.0, 120);
    uv_assert(d.1 <= c.1, 121);
    uv_assert(d.2 <= c.2, 122);
    uv_assert((d.0 >= a) | (d.0 == c.0), 123);
    if op == 1 && c.0 != ZSTCAP {
        // what nobody asked to keep goes
        uv_assert((d.0 < c.0) | (c.0 <= a) | (c.0 == m.n), 133);
    }
    uv_assert(d.0 >= m.n, 124);
    uv_assert(d.1 >= m.v.byte_len(), 125);
    if op == 0 {
        if c.0 != ZSTCAP {
            uv_assert(d.0 == m.n, 126);
        }
        uv_assert(d.1 == m.v.byte_len(), 127);
        if F::DYN {
            uv_assert(d.2 == max_align(m), 128);
        }
    }
    if op == 1 && !F::SIZED {
        uv_assert(d.1 == c.1, 129);
    }
    if op == 1 || op == 2 {
        uv_assert(d.2 == c.2, 130);
    }
    if op > 1 {
        uv_assert((d.1 >= b) | (d.1 == c.1), 131);
    }
    if op == 3 && F::DYN {
        uv_assert((d.2 >= al) | (d.2 == c.2), 132);
    }
    m.check();
}

pub fn shrink1<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    shrink_any(&mut m);
    m.finish();
}

/// The vector works on after it was shrunk.
pub fn shrink_use<F: Fam>() {
    let mut m = M::<F>::pre_upto(1);
    shrink_any(&mut m);
    if uv_pick(0, 1) == 1 {
        m.remove_any();
    } else if F::DYN && uv_tier() == 0 {
        [M::push, |m: &mut M<F>| m.insert_with(0)][uv_pick(0, 1)](&mut m);
    } else {
        m.add_any();
    }
    m.check();
    m.finish();
}

/// Three elements, one of them taken out, shrunk.
pub fn shrink_rem<F: Fam>() {
    let mut m = M::<F>::roomy(3);
    let i = uv_pick(0, 2);
    m.remove(i, 2);
    shrink_any(&mut m);
    m.finish();
}

// ---- C09
fn realign_step<F: Fam>(m: &mut M<F>, few: bool) {
    let alt = |a: usize, b: usize| if few { a } else { [a, b][uv_pick(0, 1)] };
    match uv_pick(0, 4) {
        0 => {
            let al = alt(32, 2);
            m.v.reserve_capacity_bytes_align(0, 0, al);
            uv_assert(m.v.align() >= al, 140);
        }
        1 => {
            let al = alt(1024, 8);
            m.v.reserve_exact_capacity_bytes_align(1, uv_sym(0, ELMAX), al);
            uv_assert(m.v.align() >= al, 141);
        }
        2 => m.v.shrink_to_fit(),
        3 => m.v.shrink_capacity_bytes_align_to(uv_sym(0, 4), uv_sym(0, 4 * ELMAX), alt(2, 8)),
        _ if few => [M::push, |m: &mut M<F>| m.insert_with(0)][uv_pick(0, 1)](m),
        _ => m.add_any(),
    }
}

/// Up to two elements of any alignment, one change.
pub fn realign1<F: Fam>() {
    let mut m = M::<F>::pre_upto(2);
    realign_step(&mut m, false);
    m.check();
    m.finish();
}

/// Two elements, two changes.
pub fn realign2<F: Fam>() {
    let mut m = M::<F>::lean(2);
    realign_step(&mut m, uv_tier() == 0);
    realign_step(&mut m, uv_tier() == 0);
    m.check();
    m.finish();
}

/// Three elements; raised and lowered again, with an element gone in between.
pub fn realign3<F: Fam>() {
    let mut m = M::<F>::lean(3);
    if uv_pick(0, 1) == 1 {
        m.v.reserve_capacity_bytes_align(0, uv_sym(0, ELMAX), [8, 1024][uv_pick(0, 1)]);
    }
    m.check();
    m.remove(uv_pick(0, 2), 2);
    m.v.shrink_capacity_bytes_align_to(0, 0, [1, 4][uv_pick(0, 1)]);
    m.check();
    m.add_any();
    m.check();
    m.finish();
}

/// Three elements, two changes.
pub fn realign4<F: Fam>() {
    let mut m = M::<F>::lean(3);
    realign_step(&mut m, false);
    realign_step(&mut m, false);
    m.check();
    m.finish();
}

/// Two elements, three changes.
pub fn realign5<F: Fam>() {
    let mut m = M::<F>::lean(2);
    for _ in 0..3 {
        realign_step(&mut m, false);
    }
    m.check();
    m.finish();
}

// ---- C10
/// Any amount and any alignment whatsoever.
pub fn reserve_big<F: Fam>() {
    let quick = F::DYN && uv_tier() == 0;
    let mut m = if quick { M::<F>::lean(uv_pick(0, 1)) } else { M::<F>::pre_upto(1) };
    // the others are the third with nothing asked for
    let kind = if quick { 2 } else { uv_pick(0, 2) };
    let exact = uv_pick(0, 1) == 1;
    let fallible = uv_pick(0, 1) == 1;
    let a = uv_sym(0, usize::MAX);
    let b = if kind > 0 { uv_sym(0, usize::MAX) } else { 0 };
    let al = if quick {
        [1, 1 << 29, 1 << 63][uv_pick(0, 2)]
    } else if kind > 1 && F::DYN {
        [1, 16, 1 << 29, 1 << 62, 1 << 63][uv_pick(0, 4)]
    } else {
        1
    };
    if fallible {
        if reserve(&mut m.v, kind, exact, true, a, b, al) {
            promised(&m, kind, a, b, al);
        }
    } else {
        // the allocation error handler does not return
        uv_allow_oom(true);
        let v = &mut m.v;
        if catch(|| reserve(v, kind, exact, false, a, b, al)).is_some() {
            promised(&m, kind, a, b, al);
        }
    }
    m.check();
    if al > 1 << 20 {
        // nothing that is aligned like this can be allocated
        m.v.shrink_to_fit();
        m.check();
    }
    // an enormous capacity may just have been reserved
    uv_allow_oom(true);
    m.push();
    m.check();
    m.finish();
}

/// Huge amounts reserved in a vector with two elements whose padding may change.
pub fn reserve_big2<F: Fam>() {
    let mut m = M::<F>::lean(2);
    let exact = uv_pick(0, 1) == 1;
    let a = uv_sym(0, usize::MAX);
    let b = uv_sym(0, usize::MAX);
    let al = if F::DYN && uv_tier() == 0 {
        [16, 64, 1 << 62][uv_pick(0, 2)]
    } else if F::DYN {
        [1, 16, 64, 1 << 29, 1 << 62, 1 << 63][uv_pick(0, 5)]
    } else {
        1
    };
    if reserve(&mut m.v, 2, exact, true, a, b, al) {
        promised(&m, 2, a, b, al);
    }
    m.check();
    if al > 1 << 20 {
        m.v.shrink_to_fit();
    }
    uv_allow_oom(true);
    if F::DYN && uv_tier() == 0 { m.push() } else { m.add_any() }
    m.check();
    m.finish();
}

/// Any allocation request fails.
pub fn alloc_fail<F: Fam>() {
    let quick = F::DYN && uv_tier() == 0;
    let mut m = M::<F>::lean(uv_pick(0, 2));
    let kind = if quick { 2 } else { uv_pick(0, 2) };
    let exact = uv_pick(0, 1) == 1;
    let a = uv_sym(0, 64);
    let b = if kind > 0 { uv_sym(0, ELMAX) } else { 0 };
    let al = if quick { [1, 32][uv_pick(0, 1)] } else if kind > 1 { res_align::<F>() } else { 1 };
    uv_fail_at(uv_pick(0, 3));
    let ok = reserve(&mut m.v, kind, exact, true, a, b, al);
    uv_fail_at(usize::MAX);
    if ok {
        promised(&m, kind, a, b, al);
    }
    m.check();
    if quick { m.push() } else { m.add_any() }
    m.check();
    m.finish();
}

/// A request for more than was asked for fails, and what was asked for can be had.
pub fn alloc_fallback<F: Fam>() {
    let mut m = M::<F>::lean(uv_pick(1, 2));
    let (cap, al) = (m.v.byte_capacity(), m.v.align());
    let unused = cap - m.v.byte_len();
    let b = uv_sym(0, 4 * ELMAX);
    uv_assume(b.saturating_sub(unused) < cap);
    uv_fail_at(0);
    let ok = if uv_pick(0, 1) == 0 { m.v.try_reserve_capacity_bytes(0, b).is_ok() } else { m.v.try_reserve_capacity_bytes_align(0, b, al).is_ok() };
    uv_fail_at(usize::MAX);
    uv_assert(ok, 129);
    promised(&m, 1, 0, b, 1);
    m.check();
    m.push();
    m.check();
    m.finish();
}

/// An allocation fails while an element is added or the vector is shrunk.
pub fn alloc_fail_op<F: Fam>() {
    let mut m = M::<F>::lean(uv_pick(1, 2));
    let pre = uv_pick(0, 1);
    if pre == 1 {
        m.v.reserve_capacity_bytes_align(4, ELMAX, if F::DYN { 32 } else { 1 });
    }
    let k = uv_pick(0, 2);
    match uv_pick(0, 3) {
        0 => {
            let (b, g) = m.make();
            uv_fail_at(k);
            m.v.push(*b);
            uv_fail_at(usize::MAX);
            m.put(m.n, g);
        }
        1 => {
            let (b, g) = m.make();
            uv_fail_at(k);
            m.v.insert(0, *b);
            uv_fail_at(usize::MAX);
            m.put(0, g);
        }
        2 => {
            uv_fail_at(k);
            m.v.shrink_to_fit();
            uv_fail_at(usize::MAX);
        }
        _ => {
            let b = uv_sym(0, 4 * ELMAX);
            uv_fail_at(k);
            m.v.shrink_capacity_bytes_align_to(0, b, 8);
            uv_fail_at(usize::MAX);
        }
    }
    m.check();
    m.push();
    m.check();
    m.finish();
}

/// An alignment that is not a power of two.
pub fn bad_align<F: Fam>() {
    let mut m = M::<F>::pre(uv_pick(0, 1));
    let al = match uv_pick(0, 2) {
        0 => 0,
        1 => usize::MAX,
        _ => uv_sym(0, usize::MAX),
    };
    uv_assume(!al.is_power_of_two());
    let op = uv_pick(0, 4);
    let a = uv_sym(0, 4);
    let b = uv_sym(0, ELMAX);
    let v = &mut m.v;
    let r = match op {
        0 => catch(|| v.shrink_capacity_bytes_align_to(a, b, al)),
        1 => catch(|| drop(UnsizedVec::<F::T>::with_capacity_bytes_align(a, b, al))),
        2 => catch(|| v.reserve_capacity_bytes_align(a, b, al)),
        3 => catch(|| drop(v.try_reserve_capacity_bytes_align(a, b, al))),
        _ => catch(|| drop(v.try_reserve_exact_capacity_bytes_align(a, b, al))),
    };
    uv_assert(r.is_none() == F::DYN, 150);
    m.check();
    m.push();
    m.check();
    m.finish();
}
