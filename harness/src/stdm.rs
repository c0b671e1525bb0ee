//! Stand-ins for functions of the standard library that are only available as machine code.
//! The engine runs them in place of the real ones; the native replay runs the real ones.
use std::alloc::Layout;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::path::{Path, PathBuf};

#[repr(C)]
struct Counts(usize, usize);

/// `alloc::rc::rc_inner_layout_for_value_layout`, `alloc::sync::arcinner_layout_for_value_layout`
#[unsafe(no_mangle)]
pub fn uvstd_rc_layout(l: Layout) -> Layout {
    match Layout::new::<Counts>().extend(l) {
        Ok((l, _)) => l.pad_to_align(),
        Err(_) => crate::uv::uv_panic(),
    }
}

#[unsafe(no_mangle)]
pub fn uvstd_into_c_string(b: Box<CStr>) -> CString {
    unsafe { CString::from_vec_with_nul_unchecked_(Box::from_raw(Box::into_raw(b) as *mut [u8])) }
}

trait FromBytes {
    unsafe fn from_vec_with_nul_unchecked_(b: Box<[u8]>) -> Self;
}

impl FromBytes for CString {
    unsafe fn from_vec_with_nul_unchecked_(b: Box<[u8]>) -> Self {
        // a CString is a boxed slice
        unsafe { core::mem::transmute(b) }
    }
}

#[unsafe(no_mangle)]
pub fn uvstd_into_os_string(b: Box<OsStr>) -> OsString {
    let b: Box<[u8]> = unsafe { Box::from_raw(Box::into_raw(b) as *mut [u8]) };
    unsafe { OsString::from_encoded_bytes_unchecked(b.into_vec()) }
}

#[unsafe(no_mangle)]
pub fn uvstd_into_path_buf(b: Box<Path>) -> PathBuf {
    let b: Box<OsStr> = unsafe { Box::from_raw(Box::into_raw(b) as *mut OsStr) };
    PathBuf::from(uvstd_into_os_string(b))
}

// ---- core::fmt: how lists, sets and tuples are laid out as text
use core::fmt::{self, Arguments, Debug, Formatter, FormattingOptions, Write};
use core::marker::PhantomData;
use core::mem::transmute;
use core::ptr::NonNull;

/// `core::fmt::Formatter`
struct Fm<'a> {
    _options: FormattingOptions,
    buf: &'a mut (dyn Write + 'a),
}

/// `core::fmt::DebugList`, `DebugSet`
pub struct Ls<'a, 'b> {
    fmt: &'a mut Formatter<'b>,
    result: fmt::Result,
    has_fields: bool,
}

/// `core::fmt::DebugTuple`
pub struct Tu<'a, 'b> {
    fmt: &'a mut Formatter<'b>,
    result: fmt::Result,
    fields: usize,
    empty_name: bool,
}

fn buf<'x>(f: &'x mut Formatter<'_>) -> &'x mut (dyn Write + 'x) {
    let m: &'x mut Fm<'x> = unsafe { transmute(f) };
    &mut *m.buf
}

fn w(f: &mut Formatter<'_>, s: &str) -> fmt::Result {
    buf(f).write_str(s)
}

/// Indents every line.
struct Padded<'a> {
    buf: &'a mut dyn Write,
    on_newline: &'a mut bool,
}

impl Write for Padded<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if *self.on_newline {
                self.buf.write_str("    ")?;
            }
            let from = i;
            *self.on_newline = false;
            while i < b.len() && !*self.on_newline {
                *self.on_newline = b[i] == b'\n';
                i += 1;
            }
            self.buf.write_str(unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(b.as_ptr().add(from), i - from)) })?;
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        if *self.on_newline {
            self.buf.write_str("    ")?;
        }
        *self.on_newline = c == '\n';
        self.buf.write_char(c)
    }
}

fn padded(f: &mut Formatter<'_>, e: &dyn Debug, tail: &str) -> fmt::Result {
    let o = f.options();
    let mut nl = true;
    let mut p = Padded { buf: buf(f), on_newline: &mut nl };
    e.fmt(&mut o.create_formatter(&mut p))?;
    p.write_str(tail)
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_write_str(f: &mut Formatter<'_>, s: &str) -> fmt::Result {
    w(f, s)
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_write_char(f: &mut Formatter<'_>, c: char) -> fmt::Result {
    buf(f).write_char(c)
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_list<'a, 'b>(f: &'a mut Formatter<'b>) -> Ls<'a, 'b> {
    let result = w(f, "[");
    Ls { fmt: f, result, has_fields: false }
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_set<'a, 'b>(f: &'a mut Formatter<'b>) -> Ls<'a, 'b> {
    let result = w(f, "{");
    Ls { fmt: f, result, has_fields: false }
}

fn entry(l: &mut Ls<'_, '_>, e: &dyn Debug) -> fmt::Result {
    l.result?;
    if l.fmt.alternate() {
        if !l.has_fields {
            w(l.fmt, "\n")?;
        }
        padded(l.fmt, e, ",\n")
    } else {
        if l.has_fields {
            w(l.fmt, ", ")?;
        }
        e.fmt(l.fmt)
    }
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_entry<'x, 'a, 'b>(l: &'x mut Ls<'a, 'b>, e: &dyn Debug) -> &'x mut Ls<'a, 'b> {
    l.result = entry(l, e);
    l.has_fields = true;
    l
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_list_end(l: &mut Ls<'_, '_>) -> fmt::Result {
    if l.result.is_ok() {
        l.result = w(l.fmt, "]");
    }
    l.result
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_set_end(l: &mut Ls<'_, '_>) -> fmt::Result {
    if l.result.is_ok() {
        l.result = w(l.fmt, "}");
    }
    l.result
}

fn open_end(l: &mut Ls<'_, '_>, end: [&str; 3]) -> fmt::Result {
    l.result?;
    let s = if !l.has_fields {
        end[0]
    } else if l.fmt.alternate() {
        let mut nl = true;
        Padded { buf: buf(l.fmt), on_newline: &mut nl }.write_str("..\n")?;
        end[1]
    } else {
        end[2]
    };
    w(l.fmt, s)
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_list_open(l: &mut Ls<'_, '_>) -> fmt::Result {
    l.result = open_end(l, ["..]", "]", ", ..]"]);
    l.result
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_set_open(l: &mut Ls<'_, '_>) -> fmt::Result {
    l.result = open_end(l, ["..}", "}", ", ..}"]);
    l.result
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_tuple<'a, 'b>(f: &'a mut Formatter<'b>, name: &str) -> Tu<'a, 'b> {
    let result = w(f, name);
    Tu { fmt: f, result, fields: 0, empty_name: name.is_empty() }
}

fn field(t: &mut Tu<'_, '_>, e: &dyn Debug) -> fmt::Result {
    t.result?;
    if t.fmt.alternate() {
        if t.fields == 0 {
            w(t.fmt, "(\n")?;
        }
        padded(t.fmt, e, ",\n")
    } else {
        w(t.fmt, if t.fields == 0 { "(" } else { ", " })?;
        e.fmt(t.fmt)
    }
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_field<'x, 'a, 'b>(t: &'x mut Tu<'a, 'b>, e: &dyn Debug) -> &'x mut Tu<'a, 'b> {
    t.result = field(t, e);
    t.fields += 1;
    t
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_tuple_end(t: &mut Tu<'_, '_>) -> fmt::Result {
    if t.fields > 0 && t.result.is_ok() {
        if t.fields == 1 && t.empty_name && !t.fmt.alternate() {
            t.result = w(t.fmt, ",");
        }
        if t.result.is_ok() {
            t.result = w(t.fmt, ")");
        }
    }
    t.result
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_field1(f: &mut Formatter<'_>, name: &str, e: &dyn Debug) -> fmt::Result {
    let mut t = uvstd_fmt_tuple(f, name);
    uvstd_fmt_field(&mut t, e);
    uvstd_fmt_tuple_end(&mut t)
}

/// `core::fmt::Arguments`
struct Args<'a> {
    pieces: &'a [&'static str],
    fmt: Option<&'a [usize]>,
    args: &'a [Arg<'a>],
}

/// `core::fmt::rt::Argument`
#[allow(dead_code)]
enum Arg<'a> {
    Placeholder { value: NonNull<()>, show: unsafe fn(NonNull<()>, &mut Formatter<'_>) -> fmt::Result, _l: PhantomData<&'a ()> },
    Count(u16),
}

fn pieces(out: &mut dyn Write, o: FormattingOptions, a: Arguments<'_>) -> fmt::Result {
    let a: Args<'_> = unsafe { transmute(a) };
    if a.fmt.is_some() {
        // only plain placeholders
        crate::uv::uv_unsupported();
    }
    for i in 0..a.pieces.len() {
        if !a.pieces[i].is_empty() {
            out.write_str(a.pieces[i])?;
        }
        if i < a.args.len() {
            match a.args[i] {
                Arg::Count(_) => crate::uv::uv_unsupported(),
                Arg::Placeholder { value, show, .. } => unsafe { show(value, &mut o.create_formatter(&mut *out))? },
            }
        }
    }
    Ok(())
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_write(out: &mut dyn Write, a: Arguments<'_>) -> fmt::Result {
    pieces(out, FormattingOptions::new(), a)
}

#[unsafe(no_mangle)]
pub fn uvstd_fmt_write_fmt(f: &mut Formatter<'_>, a: Arguments<'_>) -> fmt::Result {
    pieces(buf(f), FormattingOptions::new(), a)
}
