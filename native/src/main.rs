//! Runs one harness on recorded inputs against the really compiled code.
//!
//!     uvnative HARNESS INPUTS FILL
//!
//! Exit status: 0 the harness finished and nothing was wrong, 70 a property was violated,
//! 71 an uncaught panic, 72 the run asked for other inputs than were recorded, a signal otherwise.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
}

const LIMIT: usize = 1 << 28;
const PAGE: usize = 4096;
const ARENA: usize = 1 << 40;
const MAXB: usize = 1 << 16;

#[derive(Clone, Copy)]
struct Block {
    lo: usize,
    hi: usize,
    p: usize,
    size: usize,
    align: usize,
    live: bool,
}

static mut ON: bool = false;
static mut BASE: usize = 0;
static mut TOP: usize = 0;
static mut BLOCKS: [Block; MAXB] = [Block { lo: 0, hi: 0, p: 0, size: 0, align: 0, live: false }; MAXB];
static mut NB: usize = 0;
static mut LIVE: usize = 0;
static mut ALLOCS: usize = 0;
static mut FAILAT: usize = usize::MAX;
static mut FILL: u8 = 0xa5;
const CANARY: u8 = 0x5c;

struct A;

fn bad(msg: &str) -> ! {
    unsafe {
        ON = false;
    }
    println!("UV-VIOLATION {msg}");
    let _ = std::io::stdout().flush();
    unsafe { _exit(70) }
}

fn inside(p: usize) -> bool {
    unsafe { BASE != 0 && p >= BASE && p < BASE + ARENA }
}

unsafe fn find(p: usize) -> usize {
    unsafe {
        for i in 0..NB {
            if BLOCKS[i].p == p {
                return i;
            }
        }
        NB
    }
}

/// Each block sits on pages of its own, next to an inaccessible page, at an address that is
/// aligned exactly as asked and no more; freed pages become inaccessible.
unsafe fn take(size: usize, align: usize, count: bool) -> *mut u8 {
    unsafe {
        if count {
            ALLOCS += 1;
            if FAILAT != usize::MAX {
                if FAILAT == 0 {
                    FAILAT = usize::MAX;
                    return std::ptr::null_mut();
                }
                FAILAT -= 1;
            }
        }
        if size > LIMIT || align > LIMIT {
            return std::ptr::null_mut();
        }
        let body = (size + 2 * align + 64 + PAGE - 1) / PAGE * PAGE;
        let lo = (TOP + 2 * align - 1) / (2 * align).max(PAGE) * (2 * align).max(PAGE) + PAGE;
        let end = lo + body;
        let mut p = (end - size) & !(align - 1);
        if p % (2 * align) == 0 {
            p -= align;
        }
        TOP = end + PAGE;
        if TOP > BASE + ARENA || NB == MAXB {
            println!("UV-ERROR arena exhausted");
            _exit(73);
        }
        if mprotect(lo as *mut u8, body, 3) != 0 {
            println!("UV-ERROR mprotect");
            _exit(73);
        }
        let p8 = p as *mut u8;
        std::ptr::write_bytes(p8, FILL, size);
        for a in p.max(lo + 32) - 32..p {
            *(a as *mut u8) = CANARY;
        }
        for a in p + size..end {
            *(a as *mut u8) = CANARY;
        }
        BLOCKS[NB] = Block { lo, hi: end, p, size, align, live: true };
        NB += 1;
        LIVE += 1;
        p8
    }
}

unsafe fn put(p: usize, size: usize, align: usize) {
    unsafe {
        let i = find(p);
        if i == NB {
            bad("free of a pointer that is not the start of a block");
        }
        let b = &mut BLOCKS[i];
        if !b.live {
            bad("double free");
        }
        if b.size != size || b.align != align {
            bad("free with another layout than it was allocated with");
        }
        check_block(b);
        b.live = false;
        LIVE -= 1;
        mprotect(b.lo as *mut u8, b.hi - b.lo, 0);
    }
}

unsafe fn check_block(b: &Block) {
    unsafe {
        for a in (b.p.max(b.lo + 32) - 32..b.p).chain(b.p + b.size..b.hi) {
            if *(a as *const u8) != CANARY {
                bad("write outside a block");
            }
        }
    }
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if !ON {
                return System.alloc(l);
            }
            if l.size() == 0 {
                bad("allocation of zero bytes");
            }
            take(l.size(), l.align(), true)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if !inside(p as usize) {
                if ON {
                    // a block from before, or garbage; System would abort on garbage
                }
                return System.dealloc(p, l);
            }
            let on = ON;
            ON = false;
            put(p as usize, l.size(), l.align());
            ON = on;
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            if !inside(p as usize) {
                return System.realloc(p, l, n);
            }
            let i = find(p as usize);
            if i == NB || !BLOCKS[i].live || BLOCKS[i].size != l.size() || BLOCKS[i].align != l.align() {
                bad("realloc of no live block, or with another layout");
            }
            if n == 0 {
                bad("realloc to zero bytes");
            }
            let q = take(n, l.align(), true);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                put(p as usize, l.size(), l.align());
            }
            q
        }
    }
}

#[global_allocator]
static GLOBAL: A = A;

// ---------------------------------------------------------------- inputs
enum In {
    S(u64),
    M(usize, Vec<(usize, u8)>),
}

static mut INPUTS: Vec<In> = Vec::new();
static mut NEXT: usize = 0;
static mut TRACE: Vec<u64> = Vec::new();

fn diverged(msg: &str) -> ! {
    unsafe { ON = false }
    println!("UV-DIVERGED {msg}");
    let _ = std::io::stdout().flush();
    unsafe { _exit(72) }
}

/// Runs without the checking allocator.
fn off<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let on = ON;
        ON = false;
        let r = f();
        ON = on;
        r
    }
}

fn trace(v: u64) {
    off(|| unsafe { TRACE.push(v) })
}

fn scalar() -> u64 {
    unsafe {
        let i = NEXT;
        NEXT += 1;
        match INPUTS.get(i) {
            Some(In::S(v)) => *v,
            Some(_) => diverged("a scalar is asked for where memory was recorded"),
            None => diverged("more inputs are asked for than were recorded"),
        }
    }
}

#[unsafe(no_mangle)]
pub fn uv_sym(lo: usize, hi: usize) -> usize {
    let v = scalar() as usize;
    if v < lo || v > hi {
        diverged("value outside its range");
    }
    v
}
#[unsafe(no_mangle)]
pub fn uv_pick(lo: usize, hi: usize) -> usize {
    uv_sym(lo, hi)
}
#[unsafe(no_mangle)]
pub fn uv_tier() -> usize {
    scalar() as usize
}
#[unsafe(no_mangle)]
pub fn uv_byte() -> u8 {
    scalar() as u8
}
#[unsafe(no_mangle)]
pub fn uv_assume(b: bool) {
    if !b {
        diverged("assumption fails");
    }
}
#[unsafe(no_mangle)]
pub fn uv_assert(b: bool, id: usize) {
    if !b {
        unsafe { ON = false }
        bad(&format!("harness assertion {id}"));
    }
    trace(id as u64);
}
#[unsafe(no_mangle)]
pub fn uv_alloc_sym(size: usize, align: usize) -> *mut u8 {
    unsafe {
        let i = NEXT;
        NEXT += 1;
        let Some(In::M(n, bytes)) = INPUTS.get(i) else { diverged("memory is asked for where a scalar was recorded") };
        if *n != size {
            diverged("other block size than recorded");
        }
        if size == 0 {
            return align as *mut u8;
        }
        let f = FAILAT;
        FAILAT = usize::MAX;
        let p = take(size, align, false);
        FAILAT = f;
        for (k, b) in bytes {
            if *k < size {
                *p.add(*k) = *b;
            }
        }
        p
    }
}
#[unsafe(no_mangle)]
pub fn uv_region(p: *const u8, n: usize, align: usize) {
    let a = p as usize;
    if a == 0 || a % align != 0 {
        bad("misaligned or null reference");
    }
    if n == 0 {
        return;
    }
    unsafe {
        if inside(a) {
            for i in 0..NB {
                let b = &BLOCKS[i];
                if a >= b.p && a - b.p <= b.size && n <= b.size - (a - b.p) {
                    if !b.live {
                        bad("reference into freed memory");
                    }
                    return;
                }
            }
            bad("reference outside any block");
        }
        if a < 65536 {
            bad("reference to unallocated memory");
        }
    }
}
#[unsafe(no_mangle)]
pub fn uv_live() -> usize {
    let v = unsafe { LIVE };
    trace(v as u64);
    v
}
#[unsafe(no_mangle)]
pub fn uv_allocs() -> usize {
    let v = unsafe { ALLOCS };
    trace(v as u64);
    v
}
#[unsafe(no_mangle)]
pub fn uv_fail_at(n: usize) {
    unsafe { FAILAT = n }
}
#[unsafe(no_mangle)]
pub fn uv_allow_oom(_: bool) {}

#[unsafe(no_mangle)]
pub fn uv_observe(v: usize) {
    trace(v as u64);
}
#[unsafe(no_mangle)]
pub fn uv_cover(_: usize) {}
#[unsafe(no_mangle)]
pub fn uv_truth(b: bool) -> bool {
    b
}
#[unsafe(no_mangle)]
pub fn uv_conc(v: usize) -> usize {
    v
}
#[unsafe(no_mangle)]
pub fn uv_forged(drop: unsafe fn(*mut u8), size: usize, align: usize, method: fn(*const u8) -> usize) -> *const u8 {
    off(|| Box::leak(Box::new([drop as usize, size, align, method as usize])).as_ptr() as *const u8)
}
#[unsafe(no_mangle)]
pub fn uv_catch(f: unsafe fn(*mut u8), data: *mut u8) -> usize {
    let r = catch_unwind(AssertUnwindSafe(|| unsafe { f(data) }));
    unsafe { ON = false }
    let v = match r {
        Ok(()) => 0,
        Err(e) => {
            drop(e);
            1
        }
    };
    unsafe { ON = true }
    trace(v as u64);
    v
}
#[unsafe(no_mangle)]
pub fn uv_unsupported() -> ! {
    unsafe { _exit(72) }
}

#[unsafe(no_mangle)]
pub fn uv_panic() -> ! {
    panic!("uv_panic")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for (n, _) in uvh::TABLE {
            println!("{n}");
        }
        return;
    }
    let f = uvh::TABLE.iter().find(|(n, _)| *n == a[1]).expect("no such harness").1;
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let ins: Vec<In> = text
        .lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut w = l.split_whitespace();
            let k = w.next().unwrap();
            let n: u64 = w.next().unwrap().parse().unwrap();
            if k == "s" {
                In::S(n)
            } else {
                let v = w
                    .map(|x| {
                        let (o, b) = x.split_once(':').unwrap();
                        (o.parse().unwrap(), b.parse().unwrap())
                    })
                    .collect();
                In::M(n as usize, v)
            }
        })
        .collect();
    unsafe {
        INPUTS = ins;
        FILL = a[3].parse().unwrap();
        BASE = mmap(std::ptr::null_mut(), ARENA, 0, 0x4022, -1, 0) as usize;
        assert!(BASE as isize != -1);
        TOP = BASE;
    }
    // the machinery of a panic allocates; those blocks are not the harness's
    std::panic::set_hook(Box::new(|_| unsafe { ON = false }));
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
        unsafe { ON = true }
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe { ON = false }
        r.is_err()
    });
    let panicked = t.unwrap().join().unwrap_or(true);
    unsafe {
        if panicked {
            println!("UV-PANIC uncaught");
            let _ = std::io::stdout().flush();
            _exit(71);
        }
        for i in 0..NB {
            if BLOCKS[i].live {
                check_block(&BLOCKS[i]);
            }
        }
        if NEXT != INPUTS.len() {
            diverged("fewer inputs were asked for than recorded");
        }
        let t: Vec<String> = TRACE.iter().map(|x| x.to_string()).collect();
        println!("UV-OK {}", t.join(" "));
    }
}
