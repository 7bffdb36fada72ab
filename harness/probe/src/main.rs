//! Serves reading and writing requests with speedy as it is in one configuration.
//! Request: u32 length, kind, context, alignment, entry, data. Response: u32 length, text.
#![allow(unused_imports)]
use speedy::{BigEndian, Context, Endianness, Error, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::collections::*;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::net::*;
use std::num::*;
use std::ops::*;
use std::sync::atomic::*;
#[cfg(feature = "derive")]
mod shared;
#[cfg(feature = "derive")]
use shared::*;

fn hex(b: &[u8]) -> String { let mut s = vec![0; b.len() * 2]; let mut k = 0; while k < b.len() { s[2 * k] = b"0123456789abcdef"[(b[k] >> 4) as usize]; s[2 * k + 1] = b"0123456789abcdef"[(b[k] & 15) as usize]; k += 1; } String::from_utf8(s).unwrap() }
/// A digest of how a value looks in the debugger, so that what is read is seen before it is written again.
struct Digest(u64);
impl std::fmt::Write for Digest { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3) } Ok(()) } }
fn looks(v: &dyn std::fmt::Debug) -> String { let mut d = Digest(0xcbf29ce484222325); let _ = write!(d, "{:?}", v); format!("{:x}", d.0) }
fn err(e: &Error) -> String {
    #[cfg(feature = "alloc")]
    let text = !e.to_string().is_empty();
    #[cfg(not(feature = "alloc"))]
    let text = true;
    format!("{}{}", if e.is_eof() { "eof" } else { "err" }, if text { "" } else { " without a message" })
}
/// Writes the value every way there is and reports the bytes, or how the ways differ.
#[inline(never)]
fn rewrite<C: Context<Error = Error>, T: Writable<C>>(v: &T, make: fn() -> C) -> String {
    let n = match v.bytes_needed() { Ok(n) => n, Err(e) => return err(&e) };
    if light() { let mut b = vec![0; n]; return match v.write_to_buffer_with_ctx(make(), &mut b) { Ok(()) => hex(&b), Err(e) => err(&e) }; }
    let mut b = vec![0xaa; n + 3];
    if let Err(e) = v.write_to_buffer_with_ctx(make(), &mut b) { return err(&e); }
    if b[n..] != [0xaa; 3] { return "writes behind the predicted size".into(); }
    b.truncate(n);
    let mut exact = vec![0x55; n];
    if v.write_to_buffer_with_ctx_mut(&mut make(), &mut exact).is_err() || exact != b { return "an exactly sized buffer behaves differently".into(); }
    if n > 0 { let mut short = vec![0; n - 1]; match v.write_to_buffer_with_ctx(make(), &mut short) { Ok(()) => return "fits a buffer which is too short".into(), Err(_) => {} } }
    #[cfg(feature = "alloc")]
    match v.write_to_vec_with_ctx(make()) { Ok(x) => if x != b { return format!("write_to_vec differs: {} and {}", hex(&x), hex(&b)) }, Err(e) => return format!("write_to_vec fails: {}", err(&e)) }
    #[cfg(feature = "std")]
    { let mut x = vec![]; match v.write_to_stream_with_ctx(make(), &mut x) { Ok(()) => if x != b { return format!("write_to_stream differs: {} and {}", hex(&x), hex(&b)) }, Err(e) => return format!("write_to_stream fails: {}", err(&e)) } }
    hex(&b)
}
#[inline(never)]
fn show<'a, C: Context<Error = Error>, T: std::fmt::Debug + Readable<'a, C> + Writable<LittleEndian> + Writable<BigEndian> + Writable<Endianness> + Writable<C>>(out: &mut String, who: &str, r: Result<T, Error>, n: Option<usize>, make: fn() -> C) {
    let _ = write!(out, "{} ", who);
    match r {
        Err(e) => { let _ = writeln!(out, "{}", err(&e)); }
        Ok(v) => {
            let l = rewrite::<LittleEndian, T>(&v, || LittleEndian {});
            let b = rewrite::<BigEndian, T>(&v, || BigEndian {});
            if light() { let _ = writeln!(out, "ok {} {} {} {}", n.map_or(-1, |n| n as i64), l, b, looks(&v)); return; }
            let l2 = rewrite::<Endianness, T>(&v, || Endianness::LittleEndian);
            let b2 = rewrite::<Endianness, T>(&v, || Endianness::BigEndian);
            let c = rewrite::<C, T>(&v, make);
            let e = if make().endianness() == Endianness::LittleEndian { &l } else { &b };
            let odd = if l != l2 || b != b2 || c != *e { format!(" contexts differ: {} {} {}", l2, b2, c) } else { String::new() };
            let _ = writeln!(out, "ok {} {} {} {}{}", n.map_or(-1, |n| n as i64), l, b, looks(&v), odd);
        }
    }
}
macro_rules! apart { ($($n:ident $c:ident $t:ident ($($a:ident: $at:ty),*) -> $r:ty = $e:expr;)*) => { $(#[inline(never)] fn $n<$c: Context<Error = Error>, $t: Readable<'static, $c>>($($a: $at),*) -> $r { $e })* } }
apart! {
    r0 C T (c: C, b: &'static [u8]) -> (Result<T, Error>, usize) = T::read_with_length_from_buffer_with_ctx(c, b);
    r1 C T (c: C, b: &'static [u8]) -> (Result<T, Error>, usize) = T::read_with_length_from_buffer_copying_data_with_ctx(c, b);
    r2 C T (c: C, b: &'static [u8]) -> Result<T, Error> = T::read_from_buffer_with_ctx(c, b);
    r3 C T (c: C, b: &'static [u8]) -> Result<T, Error> = T::read_from_buffer_copying_data_with_ctx(c, b);
}
#[cfg(feature = "std")]
apart! {
    r4 C T (c: C, b: &'static [u8]) -> Result<T, Error> = T::read_from_stream_unbuffered_with_ctx(c, b);
    r5 C T (c: C, b: &'static [u8]) -> Result<T, Error> = T::read_from_stream_buffered_with_ctx(c, b);
}
fn run<C: Context<Error = Error>, T>(b: &'static [u8], make: fn() -> C) -> String
where T: std::fmt::Debug + Readable<'static, C> + Writable<LittleEndian> + Writable<BigEndian> + Writable<Endianness> + Writable<C> {
    let mut o = String::new();
    let (r, n) = r0::<C, T>(make(), b); show(&mut o, "borrow", r, Some(n), make);
    let (r, n) = r1::<C, T>(make(), b); show(&mut o, "copy", r, Some(n), make);
    #[cfg(feature = "std")]
    if light() && STREAMS.with(|s| s.get()) { show(&mut o, "copy", r5::<C, T>(make(), b), None, make); }
    if light() { let _ = writeln!(o, "min {}", <T as Readable<'static, C>>::minimum_bytes_needed()); return o; }
    show(&mut o, "borrow", r2::<C, T>(make(), b), None, make);
    show(&mut o, "copy", r3::<C, T>(make(), b), None, make);
    #[cfg(feature = "std")]
    if STREAMS.with(|s| s.get()) {
        show(&mut o, "copy", r4::<C, T>(make(), b), None, make);
        show(&mut o, "copy", r5::<C, T>(make(), b), None, make);
    }
    let _ = writeln!(o, "min {}", <T as Readable<'static, C>>::minimum_bytes_needed());
    o
}
type Serve = fn(&'static [u8]) -> String;
struct Entry([Option<Serve>; 4]);
fn entry<T>() -> Entry
where T: std::fmt::Debug + Readable<'static, LittleEndian> + Readable<'static, BigEndian> + Readable<'static, Endianness> + Writable<LittleEndian> + Writable<BigEndian> + Writable<Endianness> {
    Entry([Some(|b| run::<LittleEndian, T>(b, || LittleEndian {})), Some(|b| run::<BigEndian, T>(b, || BigEndian {})), Some(|b| run::<Endianness, T>(b, || Endianness::LittleEndian)), Some(|b| run::<Endianness, T>(b, || Endianness::BigEndian))])
}
#[cfg(target_endian = "little")]
type Native = LittleEndian;
#[cfg(target_endian = "big")]
type Native = BigEndian;
/// Borrowed data of more than a byte is only to be had in the machine's own byte order.
fn native<T>() -> Entry
where T: std::fmt::Debug + Readable<'static, Native> + Writable<LittleEndian> + Writable<BigEndian> + Writable<Endianness> {
    let f: Option<Serve> = Some(|b| run::<Native, T>(b, || Native {}));
    if cfg!(target_endian = "big") { Entry([None, f, None, None]) } else { Entry([f, None, None, None]) }
}
/// Borrowed bytes, writable without alloc too.
struct Raw(&'static [u8]);
impl std::fmt::Debug for Raw { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<C: Context> Readable<'static, C> for Raw {
    fn read_from<R: Reader<'static, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(Raw(<&'static [u8]>::read_from(r)?)) }
    fn minimum_bytes_needed() -> usize { <&'static [u8] as Readable<'static, C>>::minimum_bytes_needed() }
}
impl<C: Context> Writable<C> for Raw {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u32(self.0.len() as u32)?; w.write_bytes(self.0) }
}
macro_rules! one {
    (core $v:ident $t:ty) => { $v.push(Some(entry::<$t>())); };
    (alloc $v:ident $t:ty) => { one!(@ "alloc" $v $t) };
    (std $v:ident $t:ty) => { one!(@ "std" $v $t) };
    (derive $v:ident $t:ty) => { one!(@ "derive" $v $t) };
    (dalloc $v:ident $t:ty) => { one!(@ "dalloc" $v $t) };
    (dstd $v:ident $t:ty) => { one!(@ "dstd" $v $t) };
    (ext $v:ident $t:ty) => { one!(@ "ext" $v $t) };
    (native $v:ident $t:ty) => { #[cfg(feature = "alloc")] $v.push(Some(native::<$t>())); #[cfg(not(feature = "alloc"))] $v.push(None); };
    (ncore $v:ident $t:ty) => { $v.push(Some(native::<$t>())); };
    (nderive $v:ident $t:ty) => { #[cfg(feature = "dalloc")] $v.push(Some(native::<$t>())); #[cfg(not(feature = "dalloc"))] $v.push(None); };
    (@ $f:literal $v:ident $t:ty) => { #[cfg(feature = $f)] $v.push(Some(entry::<$t>())); #[cfg(not(feature = $f))] $v.push(None); };
}
macro_rules! entries { ($($l:ident $t:ty => $m:ty);* $(;)?) => { fn table() -> Vec<Option<Entry>> { let mut v = vec![]; $( one!($l v $t); )* v } } }
include!("types.rs");

// ---- sequences of reader and writer operations ----
thread_local! { static SCRIPT: std::cell::RefCell<(Vec<u8>, String)> = const { std::cell::RefCell::new((vec![], String::new())) }; }
thread_local! { static LIGHT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// The interpreted machines are slow: only the essential there.
fn light() -> bool { LIGHT.with(|l| l.get()) }
thread_local! { static STREAMS: std::cell::Cell<bool> = const { std::cell::Cell::new(true) }; }
struct Script;
fn log(s: std::fmt::Arguments) { SCRIPT.with(|x| { let _ = x.borrow_mut().1.write_fmt(s); }) }
impl<'a, C: Context> Readable<'a, C> for Script {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let ops = SCRIPT.with(|x| x.borrow().0.clone());
        let mut k = 0;
        while k + 1 < ops.len() {
            let (op, n) = (ops[k], ops[k + 1] as usize);
            k += 2;
            match op {
                0 => log(format_args!("{} ", r.read_u8()?)), 1 => log(format_args!("{} ", r.read_i8()?)), 2 => log(format_args!("{} ", r.read_u16()?)), 3 => log(format_args!("{} ", r.read_i16()?)),
                4 => log(format_args!("{} ", r.read_u32()?)), 5 => log(format_args!("{} ", r.read_i32()?)), 6 => log(format_args!("{} ", r.read_u64()?)), 7 => log(format_args!("{} ", r.read_i64()?)),
                8 => log(format_args!("{} ", r.read_u128()?)), 9 => log(format_args!("{} ", r.read_i128()?)), 10 => log(format_args!("{} ", r.read_f32()?.to_bits())), 11 => log(format_args!("{} ", r.read_f64()?.to_bits())),
                12 => log(format_args!("{} ", r.read_u64_varint()?)), 13 => log(format_args!("{} ", r.peek_u64_varint()?)),
                14 => log(format_args!("{} ", r.peek_u8()?)), 15 => log(format_args!("{} ", r.peek_u16()?)), 16 => log(format_args!("{} ", r.peek_u32()?)), 17 => log(format_args!("{} ", r.peek_u64()?)),
                18 => { let mut b = [0; 256]; r.read_bytes(&mut b[..n])?; log(format_args!("{} ", hex(&b[..n]))) }
                19 => { let mut b = [0; 256]; r.peek_bytes(&mut b[..n])?; log(format_args!("{} ", hex(&b[..n]))) }
                20 => { r.skip_bytes(n)?; log(format_args!("skip ")) }
                21 => { let v: u32 = r.read_value()?; log(format_args!("{} ", v)) }
                22 => { let v: [u16; 5] = r.read_value()?; log(format_args!("{:?} ", v)) }
                #[cfg(feature = "alloc")]
                23 => { let v: Vec<u16> = r.read_vec(n)?; log(format_args!("{:?} ", v)) }
                #[cfg(feature = "alloc")]
                24 => { let v: Cow<[u32]> = r.read_cow(n)?; log(format_args!("{:?} ", v)) }
                #[cfg(feature = "alloc")]
                25 => { let v = r.read_string(n)?; log(format_args!("{} ", hex(v.as_bytes()))) }
                _ => log(format_args!("none ")),
            }
        }
        Ok(Script)
    }
    fn minimum_bytes_needed() -> usize { 0 }
}
fn script<C: Context<Error = Error>>(ops: Vec<u8>, b: &'static [u8], make: fn() -> C) -> String {
    let mut o = String::new();
    let start = || SCRIPT.with(|x| *x.borrow_mut() = (ops.clone(), String::new()));
    let mut done = |r: Result<Script, Error>, n: Option<usize>| { let t = SCRIPT.with(|x| x.borrow().1.clone()); let _ = writeln!(o, "{}{} {}", t, match &r { Ok(_) => "ok".into(), Err(e) => err(e) }, n.map_or(-1, |n| n as i64)); };
    start(); let (r, n) = Script::read_with_length_from_buffer_with_ctx(make(), b); let n = if r.is_ok() { Some(n) } else { None }; done(r, n);
    start(); let (r, n) = Script::read_with_length_from_buffer_copying_data_with_ctx(make(), b); let n = if r.is_ok() { Some(n) } else { None }; done(r, n);
    #[cfg(feature = "std")]
    {
        start(); let r = Script::read_from_stream_unbuffered_with_ctx(make(), b); done(r, None);
        start(); let r = Script::read_from_stream_buffered_with_ctx(make(), b); done(r, None);
    }
    o
}
/// Writes what the operations say: each operation is followed by its operands in little endian.
struct Sink<'x>(&'x [u8]);
impl<'x, C: Context> Writable<C> for Sink<'x> {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        let mut b = self.0;
        while !b.is_empty() {
            let op = b[0];
            let mut take = |n: usize| { let mut v = 0u128; for i in 0..n { v |= (b[1 + i] as u128) << (8 * i) } b = &b[1 + n..]; v };
            match op {
                0 => { let v = take(1); w.write_u8(v as u8)? } 1 => { let v = take(1); w.write_i8(v as i8)? } 2 => { let v = take(2); w.write_u16(v as u16)? } 3 => { let v = take(2); w.write_i16(v as i16)? }
                4 => { let v = take(4); w.write_u32(v as u32)? } 5 => { let v = take(4); w.write_i32(v as i32)? } 6 => { let v = take(8); w.write_u64(v as u64)? } 7 => { let v = take(8); w.write_i64(v as i64)? }
                8 => { let v = take(16); w.write_u128(v)? } 9 => { let v = take(16); w.write_i128(v as i128)? } 10 => { let v = take(4); w.write_f32(f32::from_bits(v as u32))? } 11 => { let v = take(8); w.write_f64(f64::from_bits(v as u64))? }
                12 => { let v = take(8); w.write_u64_varint(v as u64)? }
                13 => { let n = b[1] as usize; w.write_bytes(&b[2..2 + n])?; b = &b[2 + n..]; }
                14 => { let n = b[1] as usize; let mut s = [0u16; 256]; for i in 0..n { s[i] = u16::from_le_bytes([b[2 + 2 * i], b[3 + 2 * i]]) } w.write_slice(&s[..n])?; b = &b[2 + 2 * n..]; }
                15 => { let v = take(8); w.write_value(&(v as u64))? }
                _ => { let n = b[1] as usize; w.write_collection(&b[2..2 + n])?; b = &b[2 + n..]; }
            }
        }
        Ok(())
    }
}

fn answer(t: &[Option<Entry>], q: &[u8]) -> String {
    let (kind, ctx, align, idx) = (q[0], q[1], q[2] as usize & 15, q[3] as usize | (q[4] as usize) << 8);
    STREAMS.with(|s| s.set(kind & 0x80 == 0 || kind == 255));
    LIGHT.with(|l| l.set(kind & 0x40 != 0 && kind != 255));
    let kind = kind & 0x3f;
    let q = &q[5..];
    let (ops, data) = if kind == 1 { q.split_at(idx) } else { (&q[..0], q) };
    // the input, at the wanted alignment, with nothing behind it
    let mut store = vec![0u128; data.len() / 16 + 3];
    let b: &'static [u8] = unsafe { let p = (store.as_mut_ptr() as *mut u8).add(align); std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()); std::slice::from_raw_parts(p, data.len()) };
    match kind {
        0 => match &t[idx] {
            None => "absent".into(),
            Some(e) => match e.0[ctx as usize & 3] { Some(f) => f(b), None => "absent".into() },
        },
        1 => { let o = ops.to_vec(); match ctx { 0 => script(o, b, || LittleEndian {}), 1 => script(o, b, || BigEndian {}), 2 => script(o, b, || Endianness::LittleEndian), _ => script(o, b, || Endianness::BigEndian) } }
        2 => { let s = Sink(b); match ctx { 0 => rewrite(&s, || LittleEndian {}), 1 => rewrite(&s, || BigEndian {}), 2 => rewrite(&s, || Endianness::LittleEndian), _ => rewrite(&s, || Endianness::BigEndian) } }
        _ => { let mut o = String::new(); for x in t { o.push(if x.is_some() { 'y' } else { 'n' }) } let _ = write!(o, " {} {}", std::mem::size_of::<usize>(), if cfg!(target_endian = "big") { "big" } else { "little" }); o }
    }
}
fn main() {
    let t = table();
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut n = [0; 4];
        if i.read_exact(&mut n).is_err() { return; }
        let mut q = vec![0; u32::from_le_bytes(n) as usize];
        if i.read_exact(&mut q).is_err() { return; }
        let a = answer(&t, &q);
        let mut m = (a.len() as u32).to_le_bytes().to_vec();
        m.extend_from_slice(a.as_bytes());
        o.write_all(&m).unwrap();
        o.flush().unwrap();
    }
}
