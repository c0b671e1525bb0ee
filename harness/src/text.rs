//! Debug text: C19.
use crate::cmp::Num;
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use core::fmt::{self, Debug, Formatter, FormattingOptions, Write};

const LEN: usize = 300;

/// A writer with limited room.
struct Txt {
    n: usize,
    room: usize,
    b: [u8; LEN],
}

impl Write for Txt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.as_bytes() {
            if self.n == self.room {
                return Err(fmt::Error);
            }
            self.b[self.n] = *c;
            self.n += 1;
        }
        Ok(())
    }
}

/// The element whose formatting fails.
static mut BAD: usize = usize::MAX;
static mut CHAR: [u8; 8] = [0; 8];

fn dbg<T: Num + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result {
    let k = t.num();
    f.write_str(["", "b", "c\nd", "\n"][k & 3])?;
    if k == unsafe { BAD } {
        return Err(fmt::Error);
    }
    if f.alternate() {
        f.write_str("#")?;
    }
    if f.sign_plus() {
        f.write_str("+")?;
    }
    if f.width() == Some(5) {
        f.write_str("5")?;
    }
    if f.precision() == Some(2) {
        f.write_str(".2")?;
    }
    let c = unsafe { CHAR[k & 7] };
    let c = [c];
    f.write_str(unsafe { core::str::from_utf8_unchecked(&c) })
}

type DynEl = dyn El;

macro_rules! numbered {
    ($($t:ty)*) => { $(
        impl Debug for $t {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                dbg(self, f)
            }
        }
    )* };
}

numbered! { D DropDst DynEl }

pub fn debug_all<F: Fam<T: Debug>>() {
    unsafe { TINY = true };
    let mut m = M::<F>::new();
    if uv_pick(0, 1) == 1 {
        m.v = unsized_vec::UnsizedVec::with_capacity_bytes_align(4, 200, if F::DYN { 32 } else { 1 });
    }
    for k in 0..uv_pick(0, 3) {
        // any character, a line break among them
        let c = uv_byte();
        uv_assume(c < 0x80);
        unsafe { CHAR[k] = c };
        if m.n == 1 {
            m.insert(0);
        } else {
            m.push();
        }
    }
    let mut o = FormattingOptions::new();
    if uv_pick(0, 1) == 1 {
        o.alternate(true);
    }
    let kind = uv_pick(0, 2);
    if kind == 1 {
        o.width(Some(5));
        o.precision(Some(2));
        o.sign(Some(fmt::Sign::Plus));
    }
    if kind == 2 {
        unsafe { BAD = uv_pick(0, 1) };
    }
    let room = if uv_pick(0, 1) == 0 { LEN } else { uv_pick(0, 9) };
    same_text(&m, &mut o, room);
    m.check();
    m.finish();
}

fn same_text<F: Fam<T: Debug>>(m: &M<F>, o: &mut FormattingOptions, room: usize) {
    let mut a = Txt { n: 0, room, b: [0; LEN] };
    let ra = m.v.fmt(&mut o.create_formatter(&mut a));
    let l: Vec<&F::T> = (0..m.n).map(|i| &m.v[i]).collect();
    let mut b = Txt { n: 0, room, b: [0; LEN] };
    let rb = l[..].fmt(&mut o.create_formatter(&mut b));
    drop(l);
    uv_assert(ra == rb, 720);
    uv_assert(a.n == b.n, 721);
    for i in 0..b.n {
        uv_assert(a.b[i] == b.b[i], 722);
    }
}

/// Seven elements.
pub fn debug_long<F: Fam<T: Debug>>() {
    unsafe { TINY = true };
    let mut m = M::<F>::roomy(0);
    for k in 0..7 {
        unsafe { CHAR[k] = b'p' + k as u8 };
        m.push();
    }
    let mut o = FormattingOptions::new();
    if uv_pick(0, 1) == 1 {
        o.alternate(true);
    }
    let room = [LEN, 30][uv_pick(0, 1)];
    same_text(&m, &mut o, room);
    m.check();
    m.finish();
}
