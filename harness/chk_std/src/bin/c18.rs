use chk_std::*;
use model::codec::varint;
use model::{Out, M};
use pbt::io::{Sched, ScriptRead};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{BigEndian, Context, Endianness, IsEof, LittleEndian, Readable, Reader};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::mem::{align_of, size_of};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { /** can only be borrowed */ Only, /** bytes or a string */ Bytes, /** any other copy-on-write slice */ Multi }
/// A part of a value that lies, or may lie, in the input.
#[derive(Clone, Debug)]
struct Piece { off: usize, ptr: usize, len: usize, align: usize, size: usize, borrowed: bool, kind: Kind, until_end: bool }
/// Values that know where their parts lie in their own encoding.
trait V: Sized + 'static {
    fn gen(s: &mut Src) -> Self;
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>);
}
macro_rules! plain { ($($t:ty),*) => { $(impl V for $t { fn gen(s: &mut Src) -> Self { M::gen(s) } fn walk(&self, o: &mut Out, _: &mut Vec<Piece>) { self.enc(o) } })* } }
plain! { u8, i8, u16, u32, u64, bool, char, f32, f64, String, u128 }

/// Elements of borrowed slices.
trait E: Copy + PartialEq + std::fmt::Debug + 'static { fn gen(s: &mut Src) -> Self; fn put(&self, o: &mut Out); }
macro_rules! elem { ($($t:ty),*) => { $(impl E for $t { fn gen(s: &mut Src) -> Self { M::gen(s) } fn put(&self, o: &mut Out) { self.enc(o) } })* } }
elem! { u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, char, bool }
macro_rules! estruct {
    ($($(#[$m:meta])* $n:ident { $($f:ident: $t:ident),* })*) => { $(
        #[derive(Readable, speedy::Writable, Clone, Copy, PartialEq, Debug)]
        $(#[$m])*
        struct $n { $($f: $t),* }
        impl E for $n { fn gen(s: &mut Src) -> Self { $n { $($f: E::gen(s)),* } } fn put(&self, o: &mut Out) { let $n { $($f),* } = *self; $(E::put(&$f, o);)* } }
    )* }
}
estruct! {
    #[repr(C)] Quad { a: u16, b: u8, c: u8 }
    #[repr(packed)] Packed { a: u8, b: u32, c: u16 }
    #[repr(packed)] Bytes3 { a: u8, b: i8, c: u8 }
    #[repr(transparent)] Wrap { x: u32 }
    #[repr(transparent)] WrapByte { x: u8 }
    #[repr(C)] Padded { a: u8, b: u32 }
    One { x: u64 }
    TwoSame { x: i16, y: i16 }
}
fn walk_slice<T: E>(v: &[T], o: &mut Out, p: &mut Vec<Piece>, borrowed: bool, kind: Kind) {
    p.push(Piece { off: o.b.len(), ptr: v.as_ptr() as usize, len: std::mem::size_of_val(v), align: align_of::<T>(), size: size_of::<T>(), borrowed, kind, until_end: false });
    for x in v { x.put(o) }
}
fn walk_str(v: &str, o: &mut Out, p: &mut Vec<Piece>, borrowed: bool, kind: Kind) {
    p.push(Piece { off: o.b.len(), ptr: v.as_ptr() as usize, len: v.len(), align: 1, size: 1, borrowed, kind, until_end: false });
    o.raw(v.as_bytes())
}
fn kind_of<T>() -> Kind { if size_of::<T>() == 1 { Kind::Bytes } else { Kind::Multi } }
fn cow_walk<T: E>(v: &Cow<'static, [T]>, o: &mut Out, p: &mut Vec<Piece>) { walk_slice(v, o, p, matches!(v, Cow::Borrowed(_)), byte_kind::<T>()) }
/// `Bytes` for the byte types proper.
fn byte_kind<T: 'static>() -> Kind { if std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>() || std::any::TypeId::of::<T>() == std::any::TypeId::of::<i8>() { kind_of::<T>() } else { Kind::Multi } }
fn gen_vec<T: E>(s: &mut Src) -> Vec<T> { let n = s.len(); (0..n).map(|_| T::gen(s)).collect() }
thread_local! { static KEEP: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// Lives until the end of the case.
fn keep<T: 'static>(v: Vec<T>) -> &'static [T] { let b: Box<[T]> = v.into_boxed_slice(); let p: *const [T] = &*b; KEEP.with(|k| k.borrow_mut().push(Box::new(b))); unsafe { &*p } }
fn gen_str(s: &mut Src) -> String { String::gen_m(s) }
trait GenM { fn gen_m(s: &mut Src) -> Self; }
impl GenM for String { fn gen_m(s: &mut Src) -> Self { <String as M>::gen(s) } }
fn gen_sstr(s: &mut Src) -> &'static str { let v = gen_str(s).into_bytes(); std::str::from_utf8(keep(v)).unwrap() }

impl V for &'static str { fn gen(s: &mut Src) -> Self { gen_sstr(s) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u32(self.len() as u32); walk_str(self, o, p, true, Kind::Only) } }
impl<T: E> V for &'static [T] { fn gen(s: &mut Src) -> Self { keep(gen_vec(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u32(self.len() as u32); walk_slice(self, o, p, true, Kind::Only) } }
impl<T: E, const N: usize> V for &'static [T; N] {
    fn gen(s: &mut Src) -> Self { let v: Vec<T> = (0..N).map(|_| T::gen(s)).collect(); keep(v).try_into().unwrap() }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { walk_slice(&self[..], o, p, true, Kind::Only) }
}
impl V for Cow<'static, str> { fn gen(s: &mut Src) -> Self { Cow::Owned(gen_str(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u32(self.len() as u32); walk_str(self, o, p, matches!(self, Cow::Borrowed(_)), Kind::Bytes) } }
impl<T: E> V for Cow<'static, [T]> { fn gen(s: &mut Src) -> Self { Cow::Owned(gen_vec(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u32(self.len() as u32); cow_walk(self, o, p) } }
impl<T: V> V for Vec<T> { fn gen(s: &mut Src) -> Self { let n = s.len(); s.nested(n, |s| (0..n).map(|_| T::gen(s)).collect()) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u32(self.len() as u32); for x in self { x.walk(o, p) } } }
impl<T: V> V for Option<T> { fn gen(s: &mut Src) -> Self { if s.chance(3, 4) { Some(T::gen(s)) } else { None } } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { match self { None => o.u8(0), Some(x) => { o.u8(1); x.walk(o, p) } } } }
impl<T: V, U: V> V for Result<T, U> { fn gen(s: &mut Src) -> Self { if s.bool() { Ok(T::gen(s)) } else { Err(U::gen(s)) } } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { match self { Err(x) => { o.u8(0); x.walk(o, p) } Ok(x) => { o.u8(1); x.walk(o, p) } } } }
impl<T: V> V for Box<T> { fn gen(s: &mut Src) -> Self { Box::new(T::gen(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { (**self).walk(o, p) } }
impl<T: V, const N: usize> V for [T; N] { fn gen(s: &mut Src) -> Self { std::array::from_fn(|_| T::gen(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { for x in self { x.walk(o, p) } } }
impl<A: V, B: V> V for (A, B) { fn gen(s: &mut Src) -> Self { (A::gen(s), B::gen(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { self.0.walk(o, p); self.1.walk(o, p) } }
impl<A: V, B: V, C: V> V for (A, B, C) { fn gen(s: &mut Src) -> Self { (A::gen(s), B::gen(s), C::gen(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { self.0.walk(o, p); self.1.walk(o, p); self.2.walk(o, p) } }
impl<A: V, B: V, C: V, D: V> V for (A, B, C, D) { fn gen(s: &mut Src) -> Self { (A::gen(s), B::gen(s), C::gen(s), D::gen(s)) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { self.0.walk(o, p); self.1.walk(o, p); self.2.walk(o, p); self.3.walk(o, p) } }
impl<K: V + Ord, T: V> V for BTreeMap<K, T> { fn gen(s: &mut Src) -> Self { let n = s.len(); s.nested(n, |s| (0..n).map(|_| (K::gen(s), T::gen(s))).collect()) } fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u32(self.len() as u32); for (k, x) in self { k.walk(o, p); x.walk(o, p) } } }

fn short_str(s: &mut Src, max: usize) -> String { let t = gen_str(s); let mut k = t.len().min(max); while !t.is_char_boundary(k) { k -= 1 } t[..k].to_string() }
fn short_bytes(s: &mut Src, max: usize) -> Vec<u8> { let n = s.len().min(max); s.bytes(n) }
fn skeep(t: String) -> &'static str { std::str::from_utf8(keep(t.into_bytes())).unwrap() }

#[derive(Readable, Debug)]
struct Prefixes<'a> { a: u8, #[speedy(length_type = u8)] s: &'a str, #[speedy(length_type = u16)] b: &'a [u8], #[speedy(length_type = u64_varint)] c: Cow<'a, str>, #[speedy(length_type = u7)] d: Cow<'a, [u8]>, #[speedy(length_type = u64)] e: Cow<'a, [u16]>, f: u32, #[speedy(length_type = u64_varint)] g: &'a [u8] }
impl V for Prefixes<'static> {
    fn gen(s: &mut Src) -> Self { Prefixes { a: V::gen(s), s: skeep(short_str(s, 255)), b: keep(short_bytes(s, 60000)), c: Cow::Owned(gen_str(s)), d: Cow::Owned(short_bytes(s, 127)), e: Cow::Owned(gen_vec(s)), f: V::gen(s), g: keep(short_bytes(s, 60000)) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) {
        o.u8(self.a); o.u8(self.s.len() as u8); walk_str(self.s, o, p, true, Kind::Only); o.u16(self.b.len() as u16); walk_slice(self.b, o, p, true, Kind::Only);
        o.raw(&varint(self.c.len() as u64)); walk_str(&self.c, o, p, matches!(self.c, Cow::Borrowed(_)), Kind::Bytes);
        o.u8(self.d.len() as u8); cow_walk(&self.d, o, p); o.u64(self.e.len() as u64); cow_walk(&self.e, o, p); o.u32(self.f);
        o.raw(&varint(self.g.len() as u64)); walk_slice(self.g, o, p, true, Kind::Only);
    }
}
#[derive(Readable, Debug)]
struct Exprs<'a> { n: u8, #[speedy(length = n)] s: &'a str, m: u16, #[speedy(length = m / 2)] b: Cow<'a, [u8]>, k: u8, #[speedy(length = (k & 15) + 1)] c: Cow<'a, [u32]>, #[speedy(length = n)] d: Cow<'a, str>, #[speedy(length = 3)] e: &'a [u8], z: u16 }
impl V for Exprs<'static> {
    fn gen(s: &mut Src) -> Self {
        let t = short_str(s, 255); let b = short_bytes(s, 30000); let k = s.int(8) as u8; let n = t.len() as u8;
        let d: String = "x".repeat(n as usize);
        Exprs { n, s: skeep(t), m: 2 * b.len() as u16 + s.below(2) as u16, b: Cow::Owned(b), k, c: Cow::Owned((0..(k & 15) + 1).map(|_| E::gen(s)).collect()), d: Cow::Owned(d), e: keep(s.bytes(3)), z: V::gen(s) }
    }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) {
        o.u8(self.n); walk_str(self.s, o, p, true, Kind::Only); o.u16(self.m); cow_walk(&self.b, o, p); o.u8(self.k); cow_walk(&self.c, o, p);
        walk_str(&self.d, o, p, matches!(self.d, Cow::Borrowed(_)), Kind::Bytes); walk_slice(self.e, o, p, true, Kind::Only); o.u16(self.z);
    }
}
/// Copy-on-write only, so that every reader can read it.
#[derive(Readable, Debug)]
struct Cows<'a> { x: u8, a: Cow<'a, str>, b: Cow<'a, [u8]>, c: Cow<'a, [i8]>, d: Cow<'a, [u64]>, e: Option<Cow<'a, str>>, #[speedy(length_type = u8)] f: Option<Cow<'a, [u8]>>, g: Cow<'a, [Quad]>, h: (Cow<'a, [u16]>, u8), i: Vec<Cow<'a, str>> }
impl V for Cows<'static> {
    fn gen(s: &mut Src) -> Self { Cows { x: V::gen(s), a: V::gen(s), b: V::gen(s), c: V::gen(s), d: V::gen(s), e: V::gen(s), f: if s.bool() { Some(Cow::Owned(short_bytes(s, 255))) } else { None }, g: V::gen(s), h: V::gen(s), i: { let n = s.usize_below(4); (0..n).map(|_| V::gen(s)).collect() } } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) {
        self.x.walk(o, p); self.a.walk(o, p); self.b.walk(o, p); self.c.walk(o, p); self.d.walk(o, p); self.e.walk(o, p);
        match &self.f { None => o.u8(0), Some(b) => { o.u8(1); o.u8(b.len() as u8); cow_walk(b, o, p) } }
        self.g.walk(o, p); self.h.walk(o, p); self.i.walk(o, p);
    }
}
#[derive(Readable, Debug)]
struct Rest<'a> { x: u16, s: &'a str, #[speedy(length = ..)] rest: &'a [u8] }
impl V for Rest<'static> {
    fn gen(s: &mut Src) -> Self { Rest { x: V::gen(s), s: V::gen(s), rest: keep(short_bytes(s, 60000)) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u16(self.x); self.s.walk(o, p); walk_slice(self.rest, o, p, true, Kind::Only); p.last_mut().unwrap().until_end = true; }
}
#[derive(Readable, Debug)]
struct RestStr<'a> { x: u8, #[speedy(length = ..)] rest: &'a str }
impl V for RestStr<'static> {
    fn gen(s: &mut Src) -> Self { RestStr { x: V::gen(s), rest: gen_sstr(s) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u8(self.x); walk_str(self.rest, o, p, true, Kind::Only); p.last_mut().unwrap().until_end = true; }
}
#[derive(Readable, Debug)]
struct RestCow<'a> { x: u8, y: Cow<'a, [u8]>, #[speedy(length = ..)] rest: Cow<'a, [u8]> }
impl V for RestCow<'static> {
    fn gen(s: &mut Src) -> Self { RestCow { x: V::gen(s), y: V::gen(s), rest: Cow::Owned(short_bytes(s, 60000)) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { o.u8(self.x); self.y.walk(o, p); cow_walk(&self.rest, o, p); let l = p.last_mut().unwrap(); l.until_end = true; l.kind = Kind::Multi; }
}
#[derive(Readable, Debug)]
#[speedy(tag_type = u8)]
enum Choice<'a> { A(&'a str), B { x: u16, #[speedy(length_type = u7)] y: Cow<'a, [u8]>, z: Cow<'a, str> }, #[speedy(tag = 200)] C(&'a [u8], u8, Cow<'a, [u32]>), D }
impl V for Choice<'static> {
    fn gen(s: &mut Src) -> Self { match s.below(4) { 0 => Choice::A(V::gen(s)), 1 => Choice::B { x: V::gen(s), y: Cow::Owned(short_bytes(s, 127)), z: V::gen(s) }, 2 => Choice::C(V::gen(s), V::gen(s), V::gen(s)), _ => Choice::D } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) {
        match self {
            Choice::A(s) => { o.u8(0); s.walk(o, p) }
            Choice::B { x, y, z } => { o.u8(1); o.u16(*x); o.u8(y.len() as u8); cow_walk(y, o, p); z.walk(o, p) }
            Choice::C(a, b, c) => { o.u8(200); a.walk(o, p); b.walk(o, p); c.walk(o, p) }
            Choice::D => o.u8(201),
        }
    }
}
#[derive(Readable, Debug)]
struct Attrs<'a, T> { #[speedy(constant_prefix = "HDR")] a: &'a str, #[speedy(skip)] k: u32, b: T, #[speedy(default_on_eof)] c: Cow<'a, [u8]>, #[speedy(default_on_eof)] d: &'a str }
impl<T: V> V for Attrs<'static, T> {
    fn gen(s: &mut Src) -> Self { Attrs { a: V::gen(s), k: 0, b: V::gen(s), c: V::gen(s), d: V::gen(s) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { assert!(self.k == 0, "a skipped field was read"); o.raw(b"HDR"); self.a.walk(o, p); self.b.walk(o, p); self.c.walk(o, p); self.d.walk(o, p) }
}
#[derive(Readable, Debug)]
struct Native<'a> { p: u8, xs: Vec<&'a [u8]>, o: Option<&'a [u8; 4]>, q: Cow<'a, [f64]>, pk: &'a [Packed], by: &'a [Bytes3], w: &'a [WrapByte] }
impl V for Native<'static> {
    fn gen(s: &mut Src) -> Self { Native { p: V::gen(s), xs: { let n = s.usize_below(4); (0..n).map(|_| V::gen(s)).collect() }, o: V::gen(s), q: V::gen(s), pk: V::gen(s), by: V::gen(s), w: V::gen(s) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { self.p.walk(o, p); self.xs.walk(o, p); self.o.walk(o, p); self.q.walk(o, p); self.pk.walk(o, p); self.by.walk(o, p); self.w.walk(o, p) }
}
/// Multi-byte borrowed slices exist in the native static context only.
struct Wide<'a> { p: u8, a: &'a [u32], b: &'a [u16; 3], s: &'a str, c: &'a [Wrap], d: Option<&'a [u128]> }
impl<'a> Readable<'a, LittleEndian> for Wide<'a> {
    fn read_from<R: Reader<'a, LittleEndian>>(r: &mut R) -> Result<Self, speedy::Error> { Ok(Wide { p: r.read_value()?, a: r.read_value()?, b: r.read_value()?, s: r.read_value()?, c: r.read_value()?, d: r.read_value()? }) }
    fn minimum_bytes_needed() -> usize { 20 }
}
impl V for Wide<'static> {
    fn gen(s: &mut Src) -> Self { Wide { p: V::gen(s), a: V::gen(s), b: V::gen(s), s: V::gen(s), c: V::gen(s), d: V::gen(s) } }
    fn walk(&self, o: &mut Out, p: &mut Vec<Piece>) { self.p.walk(o, p); self.a.walk(o, p); self.b.walk(o, p); self.s.walk(o, p); self.c.walk(o, p); self.d.walk(o, p) }
}

trait Walk { fn parts(&self, o: &mut Out, p: &mut Vec<Piece>); }
impl<T: V> Walk for T { fn parts(&self, o: &mut Out, p: &mut Vec<Piece>) { V::walk(self, o, p) } }
type BW = Box<dyn Walk>;
struct Vt<C: Ctl> {
    name: &'static str,
    gen: fn(&mut Src) -> BW,
    buf: fn(C, &'static [u8]) -> (Result<BW, C::Er>, usize),
    plain: fn(C, &'static [u8]) -> Result<BW, C::Er>,
    other: fn(usize, C, &[u8], Sched) -> Result<BW, C::Er>,
    /// A repeated key makes the offsets meaningless.
    map: bool,
}
fn bw<T: V, X>(r: Result<T, X>) -> Result<BW, X> { r.map(|v| Box::new(v) as BW) }
fn vt<C: Ctl, T: V + Readable<'static, C>>(name: &'static str) -> Vt<C> {
    Vt {
        name,
        map: name.contains("Map"),
        gen: |s| Box::new(<T as V>::gen(s)),
        buf: |c, b| { let (r, n) = T::read_with_length_from_buffer_with_ctx(c, b); (bw(r), n) },
        plain: |c, b| bw(T::read_from_buffer_with_ctx(c, b)),
        other: |how, c, b, sched| match how {
            0 => bw(T::read_from_buffer_copying_data_with_ctx(c, b)),
            1 => bw(T::read_with_length_from_buffer_copying_data_with_ctx(c, b).0),
            2 => { let mut c = c; bw(T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, b).0) }
            3 => bw(T::read_from_stream_unbuffered_with_ctx(c, ScriptRead::new(b, sched))),
            4 => bw(T::read_from_stream_buffered_with_ctx(c, ScriptRead::new(b, sched))),
            5 => { let p = model::props::tmp("c18"); std::fs::write(&p.0, b).unwrap(); bw(T::read_from_file_with_ctx(c, &p.0)) }
            _ => bw(T::read_from(&mut MyReader { data: b, pos: 0, ctx: c, hint: true })),
        },
    }
}
const OTHERS: &[&str] = &["copying buffer", "copying buffer with length", "copying buffer with a borrowed context", "unbuffered stream", "buffered stream", "file", "user's reader"];
macro_rules! vts { ($c:ty; $($t:ty),* $(,)?) => { vec![$(vt::<$c, $t>(stringify!($t))),*] } }
type S = &'static str;
type B = &'static [u8];
type CS = Cow<'static, str>;
type CB = Cow<'static, [u8]>;
macro_rules! common {
    ($c:ty) => { vts![$c; S, B, &'static [i8], &'static [u8; 5], &'static [i8; 1], &'static [u8; 0], CS, CB, Cow<'static, [i8]>, Cow<'static, [u16]>, Cow<'static, [i32]>, Cow<'static, [u64]>, Cow<'static, [u128]>, Cow<'static, [f32]>, Cow<'static, [f64]>,
        Cow<'static, [Quad]>, Cow<'static, [Packed]>, Cow<'static, [Bytes3]>, Cow<'static, [Wrap]>, Cow<'static, [WrapByte]>, Cow<'static, [Padded]>, Cow<'static, [One]>, Cow<'static, [TwoSame]>, Cow<'static, [char]>, Cow<'static, [bool]>,
        &'static [Packed], &'static [Bytes3], &'static [WrapByte], &'static [Packed; 2],
        Vec<S>, Vec<CS>, Vec<B>, Vec<CB>, Option<S>, Option<CB>, Result<S, CB>, Box<S>, [CS; 3], [B; 2], (u8, S), (S, CB, u16), (u8, Cow<'static, [u32]>, u16, CS), Vec<(u8, Cow<'static, [u16]>)>, Vec<Vec<S>>, BTreeMap<S, CB>, BTreeMap<u8, CS>, BTreeMap<CS, B>,
        Prefixes<'static>, Exprs<'static>, Cows<'static>, Rest<'static>, RestStr<'static>, RestCow<'static>, Choice<'static>, Attrs<'static, u16>, Attrs<'static, CS>, Native<'static>, Vec<Choice<'static>>, (u8, Cows<'static>), Option<Prefixes<'static>>, (u16, Native<'static>)] }
}
fn native_types() -> Vec<Vt<LittleEndian>> {
    let mut v = common!(LittleEndian);
    v.extend(vts![LittleEndian; &'static [u16], &'static [i16], &'static [u32], &'static [i32], &'static [u64], &'static [i64], &'static [u128], &'static [i128], &'static [f32], &'static [f64], &'static [Wrap], &'static [u16; 3], &'static [u32; 1], &'static [f64; 4], &'static [u64; 0], &'static [u128; 2],
        Vec<&'static [u16]>, (u8, &'static [u32]), Option<&'static [u64]>, (S, &'static [f64], B), Wide<'static>, Vec<Wide<'static>>, BTreeMap<S, &'static [u16]>, Box<&'static [i32]>]);
    v
}

/// `damaged`: an empty part may be the default of a field which was not there.
fn check_pieces(who: &str, base: usize, data: &[u8], p: &[Piece], damaged: bool) -> Res {
    // a damaged varint may be longer than it has to be
    let longer = damaged && who.contains("Prefixes");
    for x in p {
        if x.borrowed {
            ensure!(x.ptr % x.align == 0, "{}: a borrowed part is not aligned to {}: it lies at byte {} of the input, which lies at …{:x}", who, x.align, x.off, base & 0xff);
            if x.len > 0 {
                if longer { ensure!(x.ptr >= base + x.off && x.ptr + x.len <= base + data.len(), "{}: a borrowed part of {} bytes lies outside of the input {}", who, x.len, hex(data)); continue; }
                ensure!(x.ptr == base + x.off, "{}: a borrowed part of {} bytes lies at {} instead of at byte {} of the input of {} bytes {}", who, x.len, if x.ptr >= base && x.ptr < base + data.len() { format!("byte {}", x.ptr - base) } else { "a place outside of the input".into() }, x.off, data.len(), hex(data));
                ensure!(x.off + x.len <= data.len(), "{}: a borrowed part ends behind the input", who);
            }
        } else {
            ensure!(x.kind != Kind::Bytes || (damaged && x.len == 0), "{}: bytes or a string were copied instead of borrowed, at byte {} of {}", who, x.off, hex(data));
            if x.len > 0 { ensure!(x.ptr + x.len <= base || x.ptr >= base + data.len(), "{}: an owned part lies within the input", who); }
        }
    }
    Ok(())
}
fn views<C: Ctl>(cname: &str, types: &[Vt<C>], s: &mut Src, cx: &mut Cx) -> Res {
    let i = s.cycle(types.len());
    let t = &types[i];
    let be = match C::FIXED { Some(b) => b, None => s.bool() };
    let b = s.draw(2000, |r| match r.below(40) { 0 => 1500 + r.below(500), 1..=3 => 100 + r.below(200), _ => 1 + r.below(12) });
    s.budget = b as usize;
    let r = views_of(cname, t, s, cx, be);
    KEEP.with(|k| k.borrow_mut().clear());
    r
}
fn views_of<C: Ctl>(cname: &str, t: &Vt<C>, s: &mut Src, cx: &mut Cx, be: bool) -> Res {
    let v = (t.gen)(s);
    let (mut o, mut want) = (Out::new(be), vec![]);
    v.parts(&mut o, &mut want);
    let enc = o.b;
    if enc.len() > 900_000 { return Ok(()); }
    let place = s.below(48) as usize;
    cx.note(|| format!("{} in {} context, {} endian, at alignment {}: {}", t.name, cname, if be { "big" } else { "little" }, place & 15, hex(&enc)));
    if want.iter().any(|p| p.len > 0) { let mut k = enc.clone(); k.push(place as u8 & 15); cx.nontrivial(t.name, &k); cx.label(t.name); }
    let until_end = want.iter().any(|p| p.until_end);
    let must = want.iter().any(|p| p.kind == Kind::Only);
    let filled = want.iter().any(|p| p.kind == Kind::Only && p.len > 0);
    // from a buffer, at every alignment, flush against an unmapped page or with other data around it
    let tail = if until_end || s.bool() { 0 } else { s.usize_below(9) };
    let mut data = enc.clone();
    data.extend(s.bytes(tail));
    let plain = s.chance(1, 4);
    pbt::sys::with_guard(0, |g| -> Res {
        let b = if place >= 32 { g.start(&data, place & 15) } else { g.end(&data, place & 15) };
        let base = b.as_ptr() as usize;
        let who = format!("{} ({} context, {} endian) from a buffer", t.name, cname, if be { "big" } else { "little" });
        let (r, n) = if plain { let r = (t.plain)(C::make(be), b); let n = enc.len(); (r, n) } else { (t.buf)(C::make(be), b) };
        let unaligned = |p: &Piece| p.kind == Kind::Only && (base + p.off) % p.align != 0;
        let swapped = |p: &Piece| p.kind == Kind::Only && p.size > 1 && be;
        let must_fail = want.iter().any(|p| p.len > 0 && (unaligned(p) || swapped(p)));
        let may_fail = want.iter().any(|p| unaligned(p) || swapped(p));
        match r {
            Ok(v) => {
                ensure!(!must_fail, "{}: succeeds although a part cannot be borrowed (unaligned or in the wrong byte order)", who);
                let (mut o, mut p) = (Out::new(be), vec![]);
                v.parts(&mut o, &mut p);
                ensure!(o.b == enc, "{}: a value with the encoding {} is read from {}", who, hex(&o.b), hex(&enc));
                ensure!(n == enc.len(), "{}: {} bytes consumed instead of {}", who, n, enc.len());
                ensure!(p.len() == want.len(), "{}: different parts", who);
                check_pieces(&who, base, b, &p, false)?;
                drop(v);
                ensure!(b[..] == data[..], "{}: the input was changed", who);
            }
            Err(e) => { ensure!(may_fail, "{}: fails with: {}; {}", who, e, hex(&enc)); ensure!(!e.is_eof(), "{}: not being able to borrow is taken for the end of input: {}", who, e); }
        }
        Ok(())
    })?;
    // from everything else
    let how = { let k = s.usize_below(OTHERS.len() * 3); if k == 5 { 5 } else { let k = k % OTHERS.len(); if k == 5 { 0 } else { k } } };
    let sched = Sched::gen(s, true);
    let base = data.as_ptr() as usize;
    let who = format!("{} ({} context, {} endian) from a {}", t.name, cname, if be { "big" } else { "little" }, OTHERS[how]);
    match (t.other)(how, C::make(be), &data, sched) {
        Ok(v) => {
            ensure!(!filled, "{}: succeeds although the type can only be borrowed", who);
            let (mut o, mut p) = (Out::new(be), vec![]);
            v.parts(&mut o, &mut p);
            ensure!(o.b == enc, "{}: a value with the encoding {} is read from {}", who, hex(&o.b), hex(&enc));
            for x in &p {
                if x.len == 0 { continue; }
                ensure!(!x.borrowed, "{}: something was borrowed, at byte {} of {}", who, x.off, hex(&data));
                ensure!(x.ptr + x.len <= base || x.ptr >= base + data.len(), "{}: a part lies within the input", who);
            }
        }
        Err(e) => { ensure!(must, "{}: fails with: {}; {}", who, e, hex(&enc)); ensure!(!e.is_eof(), "{}: not being able to borrow is taken for the end of input: {}", who, e); }
    }
    Ok(())
}
/// Damaged input: whatever is returned still lies within the buffer.
fn hostile<C: Ctl>(cname: &str, types: &[Vt<C>], s: &mut Src, cx: &mut Cx) -> Res {
    let i = s.cycle(types.len());
    let t = &types[i];
    if t.map { return Ok(()); }
    let be = match C::FIXED { Some(b) => b, None => s.bool() };
    s.budget = 1 + s.usize_below(10);
    let v = (t.gen)(s);
    let (mut o, mut want) = (Out::new(be), vec![]);
    v.parts(&mut o, &mut want);
    drop(v);
    KEEP.with(|k| k.borrow_mut().clear());
    let mut data = o.b;
    for _ in 0..1 + s.below(3) {
        match s.below(6) {
            0 => { let n = s.usize_below(data.len() + 1); data.truncate(n); }
            1 => { let n = s.usize_below(20); let b = s.bytes(n); data.extend(b); }
            2 | 3 if !data.is_empty() => { let k = s.usize_below(data.len()); data[k] = s.int(8) as u8; }
            4 if data.len() >= 4 => { let k = s.usize_below(data.len() - 3); let n = match s.below(4) { 0 => s.int(32) as u32, 1 => (data.len() - k - 4) as u32, 2 => (data.len() - k - 4) as u32 + 1, _ => s.below(data.len() as u64 + 1) as u32 }; data[k..k + 4].copy_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() }); }
            _ => { let k = s.usize_below(data.len() + 1); data.insert(k, s.int(8) as u8); }
        }
    }
    let gap = s.usize_below(16);
    cx.note(|| format!("{} in {} context, {} endian: {}", t.name, cname, if be { "big" } else { "little" }, hex(&data)));
    cx.nontrivial(t.name, &data);
    pbt::sys::with_guard(0, |g| -> Res {
        let b = g.end(&data, gap);
        let base = b.as_ptr() as usize;
        let (r, n) = (t.buf)(C::make(be), b);
        ensure!(n <= data.len(), "{}: {} bytes consumed of {}", t.name, n, data.len());
        if let Ok(v) = r {
            cx.label("accepted");
            let (mut o, mut p) = (Out::new(be), vec![]);
            v.parts(&mut o, &mut p);
            let who = format!("{} ({} context, {} endian) from a damaged buffer", t.name, cname, if be { "big" } else { "little" });
            check_pieces(&who, base, b, &p, true)?;
        }
        Ok(())
    })
}
/// The borrowing operations of a reader, called by hand.
#[derive(Clone, Debug)]
enum Op { Borrow(usize), Temp(usize), Rest, U8, U32, Bytes(usize), Skip(usize), Peek, Cow(usize), CowU16(usize) }
thread_local! { static OPS: std::cell::RefCell<(Vec<Op>, Vec<Got>)> = const { std::cell::RefCell::new((vec![], vec![])) }; }
#[derive(Clone, Debug, PartialEq)]
enum Got { At(usize, usize, bool), Owned(Vec<u8>), Eof, Bad, No, Done }
struct Hand;
impl<'a, C: Context> Readable<'a, C> for Hand where C::Error: IsEof {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let ops = OPS.with(|o| o.borrow().0.clone());
        for op in ops {
            fn at<E: IsEof>(x: Option<Result<&[u8], E>>) -> Got { match x { None => Got::No, Some(Ok(b)) => Got::At(b.as_ptr() as usize, b.len(), true), Some(Err(e)) => if e.is_eof() { Got::Eof } else { Got::Bad } } }
            fn done<T, E: IsEof>(x: Result<T, E>) -> Got { match x { Ok(_) => Got::Done, Err(e) => if e.is_eof() { Got::Eof } else { Got::Bad } } }
            let g = match op {
                Op::Borrow(n) => at(r.read_bytes_borrowed(n)),
                Op::Temp(n) => at(r.read_bytes_borrowed_from_reader(n)),
                Op::Rest => match r.read_bytes_borrowed_until_eof() { None => Got::No, Some(b) => Got::At(b.as_ptr() as usize, b.len(), true) },
                Op::U8 => done(r.read_u8()),
                Op::U32 => done(r.read_u32()),
                Op::Bytes(n) => { let mut b = vec![0; n]; done(r.read_bytes(&mut b)) }
                Op::Skip(n) => done(r.skip_bytes(n)),
                Op::Peek => done(r.peek_u16()),
                Op::Cow(n) => match r.read_cow::<u8>(n) { Ok(Cow::Borrowed(b)) => Got::At(b.as_ptr() as usize, b.len(), true), Ok(Cow::Owned(b)) => Got::Owned(b), Err(e) => if e.is_eof() { Got::Eof } else { Got::Bad } },
                Op::CowU16(n) => match r.read_cow::<u16>(n) { Ok(Cow::Borrowed(b)) => Got::At(b.as_ptr() as usize, 2 * b.len(), b.as_ptr() as usize % 2 == 0), Ok(Cow::Owned(b)) => Got::Owned(b.iter().flat_map(|x| x.to_ne_bytes()).collect()), Err(e) => if e.is_eof() { Got::Eof } else { Got::Bad } },
            };
            OPS.with(|o| o.borrow_mut().1.push(g));
        }
        Ok(Hand)
    }
}
fn by_hand(s: &mut Src, cx: &mut Cx) -> Res {
    let n = match s.below(10) { 0 => 8000 + s.usize_below(20000), _ => s.usize_below(64) };
    let data = { let pat = s.bytes(29); (0..n).map(|k| pat[k % 29] ^ (k >> 5) as u8).collect::<Vec<u8>>() };
    let mut ops = vec![];
    let mut left = n;
    for _ in 0..1 + s.usize_below(12) {
        let k = match s.below(6) { 0 => left, 1 => left + 1, _ => s.usize_below(left.min(24) + 1) };
        let op = match s.below(11) { 0..=2 => Op::Borrow(k), 3 => Op::Temp(k), 4 => if s.chance(1, 4) { Op::Rest } else { Op::Peek }, 5 => Op::U8, 6 => Op::U32, 7 => Op::Bytes(k), 8 => Op::Skip(k), 9 => Op::Cow(k), _ => Op::CowU16(k / 2) };
        let take = match op { Op::Borrow(k) | Op::Temp(k) | Op::Bytes(k) | Op::Skip(k) | Op::Cow(k) => k, Op::CowU16(k) => 2 * k, Op::Rest => left, Op::U8 => 1, Op::U32 => 4, Op::Peek => 0 };
        let need = if matches!(op, Op::Peek) { 2 } else { take };
        if need > left && matches!(op, Op::Peek) { continue; }
        ops.push((op, n - left, take));
        if need > left { break; }
        left -= take;
    }
    cx.note(|| format!("{} bytes, {:?}", n, ops));
    let mut k = format!("{:?}", ops).into_bytes(); k.push(n as u8);
    cx.nontrivial("by hand", &k);
    let be = s.bool();
    let kind = s.usize_below(3);
    OPS.with(|o| *o.borrow_mut() = (ops.iter().map(|x| x.0.clone()).collect(), vec![]));
    let place = s.usize_below(32);
    pbt::sys::with_guard(0, |g| -> Res {
        let b = if place >= 16 { g.start(&data, place - 16) } else { g.end(&data, place) };
        let base = b.as_ptr() as usize;
        let ok = match kind {
            0 => Hand::read_from_buffer_with_ctx(end(be), b).is_ok(),
            1 => Hand::read_from_buffer_copying_data_with_ctx(end(be), b).is_ok(),
            _ => Hand::read_from_stream_buffered_with_ctx(end(be), ScriptRead::new(b, Sched::gen(s, true))).is_ok(),
        };
        let name = ["buffer", "copying buffer", "stream"][kind];
        ensure!(ok, "the routine itself failed");
        let got = OPS.with(|o| std::mem::take(&mut o.borrow_mut().1));
        for ((op, at, take), got) in ops.iter().zip(&got) {
            let (at, take) = (*at, *take);
            let fits = at + take <= n;
            match (op, kind) {
                (Op::Borrow(_) | Op::Rest, 1 | 2) => { if let Got::At(_, l, _) = got { ensure!(*l == 0, "{}: {:?} at byte {} borrows although the reader copies", name, op, at); } }
                (Op::Cow(_) | Op::CowU16(_), 1 | 2) => if fits { match got { Got::Owned(v) => ensure!(v.len() == take, "{}: {:?} at byte {} gives {} bytes", name, op, at, v.len()), Got::At(_, 0, _) => {} g => fail!("{}: {:?} at byte {} gives {:?}", name, op, at, g) } },
                (Op::Temp(_), 1 | 2) => if let Got::At(p, l, _) = got { ensure!(*l == take, "{}: {:?} at byte {} gives {} bytes", name, op, at, l); if kind == 1 && *l > 0 { ensure!(*p == base + at, "{}: {:?} at byte {} gives bytes from elsewhere", name, op, at); } },
                (Op::Borrow(_) | Op::Temp(_) | Op::Rest | Op::Cow(_), _) => if fits { ensure!(matches!(got, Got::At(p, l, _) if *l == take && (*l == 0 || *p == base + at)), "{}: {:?} at byte {} of {} (which lies at {:x}) gives {:x?}", name, op, at, n, base, got) } else { ensure!(*got == Got::Eof, "{}: {:?} at byte {} of {} gives {:x?}", name, op, at, n, got) },
                (Op::CowU16(_), _) => if fits { match got { Got::At(p, l, aligned) => ensure!(*aligned && *l == take && (*l == 0 || *p == base + at) && (!be || take == 0), "{}: {:?} at byte {} of {} gives {:x?}, in {} endian", name, op, at, n, got, if be { "big" } else { "little" }), Got::Owned(v) => ensure!(v.len() == take, "{}: {:?} at byte {} gives {} bytes", name, op, at, v.len()), g => fail!("{}: {:?} at byte {} gives {:?}", name, op, at, g) } } else { ensure!(*got == Got::Eof, "{}: {:?} at byte {} of {} gives {:x?}", name, op, at, n, got) },
                _ => if fits { ensure!(*got == Got::Done, "{}: {:?} at byte {} of {} gives {:x?}", name, op, at, n, got) } else { ensure!(*got == Got::Eof, "{}: {:?} at byte {} of {} gives {:x?}", name, op, at, n, got) },
            }
            if !fits || (kind != 0 && *got == Got::No) { break; }
        }
        Ok(())
    })
}
fn main() {
    let mut m = pbt::Main::new("C18", "values of about eighty borrowing and copy-on-write types (nested, derived, with every length attribute) read at sixteen alignments from buffers at guard pages, from copying readers, streams and files, with the address of every borrowed part compared with the place the reference encoder puts it; damaged inputs; borrowing operations by hand; non-trivial = distinct (type, encoding, alignment) with a non-empty borrowable part");
    let t: Vec<Vt<Endianness>> = common!(Endianness);
    m.section("run-time byte order", 480_000, 4_000_000, move |s, cx| views("Endianness", &t, s, cx));
    let t: Vec<Vt<UCtx>> = common!(UCtx);
    m.section("user context", 160_000, 800_000, move |s, cx| views("user", &t, s, cx));
    let t = native_types();
    m.section("little endian", 480_000, 4_000_000, move |s, cx| views("LittleEndian", &t, s, cx));
    let t: Vec<Vt<BigEndian>> = common!(BigEndian);
    m.section("big endian", 160_000, 800_000, move |s, cx| views("BigEndian", &t, s, cx));
    let t: Vec<Vt<Endianness>> = common!(Endianness);
    m.section("damaged, run-time", 320_000, 3_000_000, move |s, cx| hostile("Endianness", &t, s, cx));
    let t = native_types();
    m.section("damaged, little endian", 320_000, 3_000_000, move |s, cx| hostile("LittleEndian", &t, s, cx));
    m.section("operations by hand", 480_000, 4_000_000, by_hand);
    m.section("beyond 32 bits", 8_000, 200_000, model::huge::read);
    m.run()
}
