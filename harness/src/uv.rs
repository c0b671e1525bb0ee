//! Intrinsics: symbolic in the engine, recorded values in the native replay.
#![allow(dead_code)]

unsafe extern "Rust" {
    /// Any value in lo..=hi, all of them explored at once.
    pub safe fn uv_sym(lo: usize, hi: usize) -> usize;
    /// Any byte.
    pub safe fn uv_byte() -> u8;
    /// Any value in lo..=hi, one path per value.
    pub safe fn uv_pick(lo: usize, hi: usize) -> usize;
    pub safe fn uv_assume(b: bool);
    pub safe fn uv_assert(b: bool, id: usize);
    /// Heap block of `size` bytes of arbitrary contents (dangling when 0).
    pub safe fn uv_alloc_sym(size: usize, align: usize) -> *mut u8;
    /// Asserts that p..p+n lies in one live object and that p is aligned.
    pub safe fn uv_region(p: *const u8, n: usize, align: usize);
    /// Live heap blocks now; allocation requests so far.
    pub safe fn uv_live() -> usize;
    pub safe fn uv_allocs() -> usize;
    /// The n-th allocation request from now fails (usize::MAX: none).
    pub safe fn uv_fail_at(n: usize);
    /// From here on running out of memory through the allocation error handler is in order.
    pub safe fn uv_allow_oom(b: bool);
    /// Value recorded for comparison with the native run.
    pub safe fn uv_observe(v: usize);
    /// 0 quick, 1 thorough.
    pub safe fn uv_tier() -> usize;
    pub safe fn uv_cover(id: usize);
    /// Splits the path on a condition.
    pub safe fn uv_truth(b: bool) -> bool;
    pub safe fn uv_conc(v: usize) -> usize;
    pub safe fn uv_forged(drop: unsafe fn(*mut u8), size: usize, align: usize, method: fn(*const u8) -> usize) -> *const u8;
    /// Runs f(data); 1 when it panicked.
    pub safe fn uv_catch(f: unsafe fn(*mut u8), data: *mut u8) -> usize;
    pub safe fn uv_panic() -> !;
    /// Nothing is known about what happens here.
    pub safe fn uv_unsupported() -> !;
}

/// The allocator refuses anything larger.
pub const LIMIT: usize = 1 << 28;
/// Largest element.
pub const ELMAX: usize = 1 << 20;

unsafe fn trampoline<R, F: FnOnce() -> R>(p: *mut u8) {
    let slot = unsafe { &mut *(p as *mut (Option<F>, Option<R>)) };
    let f = slot.0.take().unwrap();
    slot.1 = Some(f());
}

/// None when the closure panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    let mut slot: (Option<F>, Option<R>) = (Some(f), None);
    let r = uv_catch(trampoline::<R, F>, &raw mut slot as *mut u8);
    if r == 1 { None } else { slot.1.take() }
}
