//! Serialising: C18.
use crate::cmp::Num;
use crate::fam::*;
use crate::model::*;
use crate::uv::*;
use core::fmt;
use serde::ser::{self, Impossible, Serialize, SerializeSeq, Serializer};

/// Everything a serialiser was told, in order, and the call at which it fails.
pub struct Log {
    n: usize,
    fail: usize,
    tok: usize,
    log: [(u8, usize); 80],
}

#[derive(Debug, PartialEq)]
pub struct Er(usize);

impl fmt::Display for Er {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

impl core::error::Error for Er {}

impl ser::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Er {
        Er(7)
    }
}

impl Log {
    fn ev(&mut self, k: u8, v: usize) -> Result<(), Er> {
        self.log[self.n] = (k, v);
        self.n += 1;
        if self.n == self.fail { Err(Er(self.tok)) } else { Ok(()) }
    }
}

pub struct S<'a>(&'a mut Log);
pub struct Q<'a>(&'a mut Log);

impl SerializeSeq for Q<'_> {
    type Ok = usize;
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> {
        self.0.ev(3, 0)?;
        // where each element ends
        let r = t.serialize(S(self.0))?;
        self.0.ev(4, r)
    }
    fn end(self) -> Result<usize, Er> {
        self.0.ev(5, 0)?;
        Ok(self.0.tok)
    }
}

macro_rules! scalars {
    ($($f:ident $t:ty, $k:expr;)*) => { $(
        fn $f(self, v: $t) -> Result<usize, Er> {
            self.0.ev($k, v as usize)?;
            Ok($k)
        }
    )* };
}

macro_rules! never {
    ($($f:ident ($($a:ty),*) $r:ty;)*) => { $(
        fn $f(self, $(_: $a),*) -> Result<$r, Er> {
            uv_assert(false, 700);
            Err(Er(8))
        }
    )* };
}

impl<'a> Serializer for S<'a> {
    type Ok = usize;
    type Error = Er;
    type SerializeSeq = Q<'a>;
    type SerializeTuple = Q2<'a>;
    type SerializeTupleStruct = Impossible<usize, Er>;
    type SerializeTupleVariant = Impossible<usize, Er>;
    type SerializeMap = Impossible<usize, Er>;
    type SerializeStruct = Impossible<usize, Er>;
    type SerializeStructVariant = Impossible<usize, Er>;
    fn serialize_seq(self, n: Option<usize>) -> Result<Q<'a>, Er> {
        match n {
            None => self.0.ev(1, 0)?,
            Some(n) => self.0.ev(2, n)?,
        }
        Ok(Q(self.0))
    }
    fn serialize_str(self, v: &str) -> Result<usize, Er> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<usize, Er> {
        self.0.ev(6, v.len())?;
        for b in v {
            self.0.ev(7, *b as usize)?;
        }
        Ok(6)
    }
    fn serialize_unit(self) -> Result<usize, Er> {
        self.0.ev(8, 0)?;
        Ok(8)
    }
    fn serialize_tuple(self, n: usize) -> Result<Q2<'a>, Er> {
        self.0.ev(9, n)?;
        Ok(Q2(self.0))
    }
    scalars! {
        serialize_bool bool, 20; serialize_i8 i8, 21; serialize_i16 i16, 22; serialize_i32 i32, 23; serialize_i64 i64, 24;
        serialize_u8 u8, 25; serialize_u16 u16, 26; serialize_u32 u32, 27; serialize_u64 u64, 28; serialize_char char, 29;
    }
    never! {
        serialize_f32(f32) usize; serialize_f64(f64) usize; serialize_none() usize;
        serialize_unit_struct(&'static str) usize; serialize_unit_variant(&'static str, u32, &'static str) usize;
        serialize_tuple_struct(&'static str, usize) Impossible<usize, Er>;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) Impossible<usize, Er>;
        serialize_map(Option<usize>) Impossible<usize, Er>;
        serialize_struct(&'static str, usize) Impossible<usize, Er>;
        serialize_struct_variant(&'static str, u32, &'static str, usize) Impossible<usize, Er>;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<usize, Er> {
        Err(Er(8))
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<usize, Er> {
        Err(Er(8))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<usize, Er> {
        Err(Er(8))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<usize, Er> {
        Err(Er(8))
    }
}

pub struct Q2<'a>(&'a mut Log);

impl ser::SerializeTuple for Q2<'_> {
    type Ok = usize;
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> {
        self.0.ev(10, 0)?;
        t.serialize(S(self.0))?;
        Ok(())
    }
    fn end(self) -> Result<usize, Er> {
        self.0.ev(11, 0)?;
        Ok(self.0.tok)
    }
}

/// The element that has an error of its own.
static mut BAD: usize = usize::MAX;

fn ser_num<T: Num + ?Sized, Z: Serializer>(t: &T, z: Z) -> Result<Z::Ok, Z::Error> {
    let k = t.num();
    if k == unsafe { BAD } {
        return Err(ser::Error::custom(""));
    }
    z.serialize_u64(k as u64)
}

type DynEl = dyn El;

macro_rules! numbered {
    ($($t:ty)*) => { $(
        impl Serialize for $t {
            fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
                ser_num(self, z)
            }
        }
    )* };
}

numbered! { D DropDst DynEl }

pub fn ser_all<F: Fam<T: Serialize>>() {
    unsafe { TINY = true };
    let mut m = M::<F>::new();
    if uv_pick(0, 1) == 1 {
        m.v = unsized_vec::UnsizedVec::with_capacity_bytes_align(4, 200, if F::DYN { 32 } else { 1 });
    }
    for _ in 0..uv_pick(0, 3) {
        if m.n == 1 {
            m.insert(0);
        } else {
            m.push();
        }
    }
    let fail = uv_pick(0, 14);
    if fail == 0 {
        unsafe { BAD = [usize::MAX, 1][uv_pick(0, 1)] };
    }
    let tok = uv_sym(100, usize::MAX);
    same_calls(&m, fail, tok);
    m.check();
    m.finish();
}

fn same_calls<F: Fam<T: Serialize>>(m: &M<F>, fail: usize, tok: usize) {
    let mut a = Log { n: 0, fail, tok, log: [(0, 0); 80] };
    let got = m.v.serialize(S(&mut a));
    let mut b = Log { n: 0, fail, tok, log: [(0, 0); 80] };
    let want = (|| {
        let mut q = S(&mut b).serialize_seq(Some(m.n))?;
        for i in 0..m.n {
            q.serialize_element(&m.v[i])?;
        }
        q.end()
    })();
    match (got, want) {
        (Ok(x), Ok(y)) => uv_assert(x == y, 710),
        (Err(x), Err(y)) => uv_assert(x == y, 711),
        _ => uv_assert(false, 712),
    }
    uv_assert(a.n == b.n, 713);
    for i in 0..b.n {
        uv_assert(a.log[i].0 == b.log[i].0, 714);
        uv_assert(a.log[i].1 == b.log[i].1, 715);
    }
}

/// Seven elements.
pub fn ser_long<F: Fam<T: Serialize>>() {
    unsafe { TINY = true };
    let mut m = M::<F>::roomy(0);
    for _ in 0..7 {
        m.push();
    }
    same_calls(&m, [0, 30][uv_pick(0, 1)], uv_sym(100, usize::MAX));
    m.check();
    m.finish();
}
