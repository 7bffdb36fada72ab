//! Fields which run to the end of the input: what is wrong among their elements is not the end.
use crate::props::tmp;
use crate::Out;
use pbt::io::{Sched, ScriptRead, FAULT_MSG};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{Endianness, Error, IsEof, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::*;

fn ctx(be: bool) -> Endianness { if be { Endianness::BigEndian } else { Endianness::LittleEndian } }
/// An element: encodings of it which are fine, and encodings which are not (though complete).
trait Item: Sized + Clone + 'static {
    const NAME: &'static str;
    fn put(s: &mut Src, o: &mut Out, ok: bool);
    fn back(&self, be: bool) -> Vec<u8>;
}
#[derive(Readable, Writable, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
#[speedy(tag_type = u8)]
enum Tagged { #[speedy(tag = 3)] A, #[speedy(tag = 200)] B(u16) }
#[derive(Readable, Writable, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
#[speedy(tag_type = u64_varint)]
enum Wide { #[speedy(tag = 7)] A(u8), #[speedy(tag = 70000)] B { x: char } }
#[derive(Readable, Writable, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Marked { #[speedy(constant_prefix = "ok")] x: u8 }
#[derive(Readable, Writable, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Mixed { x: u8, c: char, t: Option<NonZeroU8> }
/// Refuses odd numbers, in words of its own.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Picky(u16);
impl<'a, C: speedy::Context> Readable<'a, C> for Picky {
    fn read_from<R: speedy::Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let x = r.read_u16()?;
        if x & 1 == 1 { return Err(Error::custom("an odd number").into()); }
        Ok(Picky(x))
    }
    fn minimum_bytes_needed() -> usize { 2 }
}
impl<C: speedy::Context> Writable<C> for Picky {
    fn write_to<W: ?Sized + speedy::Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u16(self.0) }
}
macro_rules! item {
    ($($t:ty, $s:ident, $o:ident, $ok:ident => $e:expr;)*) => { $( impl Item for $t {
        const NAME: &'static str = stringify!($t);
        fn put($s: &mut Src, $o: &mut Out, $ok: bool) { $e }
        fn back(&self, be: bool) -> Vec<u8> { self.write_to_vec_with_ctx(ctx(be)).unwrap_or_default() }
    } )* };
}
fn code(s: &mut Src, ok: bool) -> u32 { if ok { crate::std_types::gen_char(s) as u32 } else { match s.below(4) { 0 => 0xd800 + s.below(0x800) as u32, 1 => 0x110000 + s.below(3) as u32, 2 => 0x110000 + s.int(31) as u32, _ => !0 } } }
fn nonzero(s: &mut Src, bits: u32, ok: bool) -> u64 { if ok { s.int(bits).max(1) } else { 0 } }
fn text(s: &mut Src, o: &mut Out, ok: bool) {
    let n = s.usize_below(6);
    let mut t: Vec<u8> = (0..n).flat_map(|_| crate::std_types::gen_char(s).to_string().into_bytes()).collect();
    if !ok { let i = if s.bool() { t.len() } else { 0 }; t.insert(i, *s.pick(&[0x80, 0xff, 0xbf, 0xc0])); }
    o.u32(t.len() as u32); o.raw(&t)
}
item! {
    char, s, o, ok => { let x = code(s, ok); o.u32(x) };
    NonZeroU8, s, o, ok => { let x = nonzero(s, 8, ok); o.u8(x as u8) };
    NonZeroU16, s, o, ok => { let x = nonzero(s, 16, ok); o.u16(x as u16) };
    NonZeroI32, s, o, ok => { let x = nonzero(s, 32, ok); o.u32(x as u32) };
    NonZeroI64, s, o, ok => { let x = nonzero(s, 64, ok); o.u64(x) };
    String, s, o, ok => text(s, o, ok);
    Box<str>, s, o, ok => text(s, o, ok);
    std::net::IpAddr, s, o, ok => { let v6 = s.bool(); if ok { o.u8(v6 as u8) } else { let b = 2 + s.below(254) as u8; o.u8(b) } let x = s.u128(); if v6 || !ok { o.u128(x) } else { o.u32(x as u32) } };
    std::time::Duration, s, o, ok => { let x = if ok { s.int(40) } else { !0 }; o.u64(x); let n = if ok { s.below(1_000_000_000) } else { 1_000_000_000 + s.below(1000) }; o.u32(n as u32) };
    Tagged, s, o, ok => { if !ok { let mut b = s.int(8) as u8; if b == 3 || b == 200 { b = 0 } o.u8(b) } else if s.bool() { o.u8(3) } else { o.u8(200); let x = s.int(16) as u16; o.u16(x) } };
    Wide, s, o, ok => { if s.bool() { let mut t = 7; if !ok { t = s.int(40); if t == 7 || t == 70000 { t = 8 } } o.varint(t); let x = s.int(8) as u8; o.u8(x) } else { o.varint(70000); let x = code(s, ok); o.u32(x) } };
    Marked, s, o, ok => { if ok { o.raw(b"ok") } else { o.raw(*s.pick(&[b"oj", b"Ok", b"ko", b"\0\0"])) } let x = s.int(8) as u8; o.u8(x) };
    Mixed, s, o, ok => { let x = s.int(8) as u8; o.u8(x); let first = ok || s.bool(); let c = code(s, first); o.u32(c); let some = !ok || s.bool(); o.u8(some as u8); if some { let second = ok || !first; let z = nonzero(s, 8, second); o.u8(z as u8) } };
    Picky, s, o, ok => { let x = s.int(16) as u16 & !1 | !ok as u16; o.u16(x) };
    (u8, char), s, o, ok => { let x = s.int(8) as u8; o.u8(x); let c = code(s, ok); o.u32(c) };
    [NonZeroU8; 2], s, o, ok => { let first = ok || s.bool(); let a = nonzero(s, 8, first); o.u8(a as u8); let b = nonzero(s, 8, ok || !first); o.u8(b as u8) };
    Option<NonZeroU16>, s, o, ok => { let some = !ok || s.bool(); o.u8(some as u8); if some { let x = nonzero(s, 16, ok); o.u16(x as u16) } };
    Vec<char>, s, o, ok => { let n = s.usize_below(3) + !ok as usize; o.u32(n as u32); for i in 0..n { let c = code(s, ok || i != 0); o.u32(c) } };
    Result<char, Tagged>, s, o, ok => { if s.bool() { o.u8(1); char::put(s, o, ok) } else { o.u8(0); Tagged::put(s, o, ok) } };
}
/// Encodings of the parts of what was read, in order or (keyed) sorted.
type Parts = Vec<Vec<u8>>;
struct Kind { name: &'static str, item: &'static str, keyed: u8, framed: bool, put: fn(&mut Src, &mut Out, bool), put2: fn(&mut Src, &mut Out, bool), buf: fn(bool, &[u8]) -> (Result<Parts, Error>, usize), copy: fn(bool, &[u8]) -> (Result<Parts, Error>, usize), unbuf: fn(bool, &mut ScriptRead) -> Result<Parts, Error>, bufd: fn(bool, &mut ScriptRead) -> Result<Parts, Error>, file: fn(bool, &std::path::Path) -> Result<Parts, Error> }
fn byte(s: &mut Src, o: &mut Out, _: bool) { let x = s.int(8) as u8; o.u8(x) }
fn nothing(_: &mut Src, _: &mut Out, _: bool) {}
macro_rules! kinds {
    ($v:ident, $t:ty; $($name:literal $keyed:literal $framed:literal $put2:expr, { $($def:tt)* } $x:ident, $be:ident => $parts:expr;)*) => { $( {
        type T = $t;
        #[derive(Readable)] $($def)*
        fn parts($x: S, $be: bool) -> Parts { $parts }
        $v.push(Kind {
            name: $name, item: <T as Item>::NAME, keyed: $keyed, framed: $framed, put: <T as Item>::put, put2: $put2,
            buf: |be, b| { let (r, n) = S::read_with_length_from_buffer_with_ctx(ctx(be), b); (r.map(|x| parts(x, be)), n) },
            copy: |be, b| { let (r, n) = S::read_with_length_from_buffer_copying_data_with_ctx(ctx(be), b); (r.map(|x| parts(x, be)), n) },
            unbuf: |be, r| S::read_from_stream_unbuffered_with_ctx(ctx(be), r).map(|x| parts(x, be)),
            bufd: |be, r| S::read_from_stream_buffered_with_ctx(ctx(be), r).map(|x| parts(x, be)),
            file: |be, p| S::read_from_file_with_ctx(ctx(be), p).map(|x| parts(x, be)),
        });
    } )* };
}
fn list<'a, T: Item>(be: bool, i: impl IntoIterator<Item = &'a T>) -> Parts { i.into_iter().map(|x| x.back(be)).collect() }
fn pairs<K: Item, V: Item>(be: bool, i: impl IntoIterator<Item = (K, V)>) -> Parts { i.into_iter().map(|(k, v)| { let mut b = k.back(be); b.extend(v.back(be)); b }).collect() }
item! { u8, s, o, _ok => { let x = s.int(8) as u8; o.u8(x) }; }
macro_rules! lists { ($v:ident; $($t:ty),*) => { $( kinds! { $v, $t;
    "Vec" 0 false nothing, { struct S { a: u8, #[speedy(length = ..)] d: Vec<T> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, &x.d)); p };
    "Cow of a slice" 0 false nothing, { struct S<'a> { a: u8, #[speedy(length = ..)] d: Cow<'a, [T]> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, x.d.iter())); p };
    "Vec in a tuple" 0 false nothing, { struct S(u8, #[speedy(length = ..)] Vec<T>); } x, be => { let mut p = vec![vec![x.0]]; p.extend(list(be, &x.1)); p };
    "Vec in a variant" 0 false nothing, { #[speedy(tag_type = u8)] #[allow(dead_code)] enum S { #[speedy(tag = 9)] A { #[speedy(length = ..)] d: Vec<T> }, #[speedy(tag = 0)] B } } x, be => { match x { S::A { d } => { let mut p = vec![vec![9]]; p.extend(list(be, &d)); p } S::B => vec![vec![0]] } };
    "framed Vec which may be missing" 0 true nothing, { struct S { a: u8, #[speedy(default_on_eof)] d: Vec<T> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, &x.d)); p };
    "map to it" 1 false |s, o, ok| <T as Item>::put(s, o, ok), { struct S { a: u8, #[speedy(length = ..)] d: HashMap<u8, T> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(pairs(be, x.d)); p };
    "ordered map to it" 1 false |s, o, ok| <T as Item>::put(s, o, ok), { struct S { a: u8, #[speedy(length = ..)] d: BTreeMap<u8, T> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(pairs(be, x.d)); p };
    "Cow of an ordered map to it" 1 false |s, o, ok| <T as Item>::put(s, o, ok), { struct S { a: u8, #[speedy(length = ..)] d: Cow<'static, BTreeMap<u8, T>> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(pairs(be, x.d.into_owned())); p };
} )* } }
macro_rules! keys { ($v:ident; $($t:ty),*) => { $( kinds! { $v, $t;
    "set" 2 false nothing, { struct S { a: u8, #[speedy(length = ..)] d: HashSet<T> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, &x.d)); p };
    "ordered set" 2 false nothing, { struct S { a: u8, #[speedy(length = ..)] d: BTreeSet<T> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, &x.d)); p };
    "Cow of a set" 2 false nothing, { struct S { a: u8, #[speedy(length = ..)] d: Cow<'static, HashSet<T>> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, x.d.iter())); p };
    "Cow of an ordered set" 2 false nothing, { struct S { a: u8, #[speedy(length = ..)] d: Cow<'static, BTreeSet<T>> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(list(be, x.d.iter())); p };
    "map from it" 2 false byte, { struct S { a: u8, #[speedy(length = ..)] d: HashMap<T, u8> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(pairs(be, x.d)); p };
    "ordered map from it" 2 false byte, { struct S { a: u8, #[speedy(length = ..)] d: BTreeMap<T, u8> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(pairs(be, x.d)); p };
    "Cow of a map from it" 2 false byte, { struct S { a: u8, #[speedy(length = ..)] d: Cow<'static, HashMap<T, u8>> } } x, be => { let mut p = vec![vec![x.a]]; p.extend(pairs(be, x.d.into_owned())); p };
} )* } }
fn kinds() -> Vec<Kind> {
    let mut v: Vec<Kind> = vec![];
    lists! { v; char, NonZeroU8, NonZeroU16, NonZeroI32, NonZeroI64, String, Box<str>, std::net::IpAddr, std::time::Duration, Tagged, Wide, Marked, Mixed, Picky, (u8, char), [NonZeroU8; 2], Option<NonZeroU16>, Vec<char>, Result<char, Tagged> }
    keys! { v; char, NonZeroU8, NonZeroI64, String, std::net::IpAddr, Tagged, Wide, Marked, Mixed, Picky, (u8, char), Option<NonZeroU16>, Vec<char> }
    v
}
thread_local! { static KINDS: Vec<Kind> = kinds(); }
/// All elements are there, or the one which is wrong is reported; a failing stream is not the end either.
pub fn rest(s: &mut Src, cx: &mut Cx) -> Res { KINDS.with(|k| { let i = s.cycle(k.len()); case(s, cx, &k[i]) }) }
fn case(s: &mut Src, cx: &mut Cx, k: &Kind) -> Res {
    let be = s.bool();
    let n = 1 + if s.chance(1, 6) { s.usize_below(60) } else { s.usize_below(5) };
    let wrong = if s.chance(2, 3) { Some(s.usize_below(n)) } else { None };
    let mut o = Out::new(be);
    let a = if k.name == "Vec in a variant" { 9 } else { s.int(8) as u8 };
    o.u8(a);
    if k.framed { o.u32(n as u32) }
    let mut items: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..n {
        let (at, ok) = (o.b.len(), Some(i) != wrong);
        if k.keyed == 1 { byte(s, &mut o, true) } else { (k.put)(s, &mut o, ok) }
        let mid = o.b.len();
        (k.put2)(s, &mut o, ok);
        items.push((o.b[at..mid].to_vec(), o.b[at..].to_vec()));
    }
    let b = o.b;
    let mut want: Parts = vec![vec![a]];
    if k.keyed == 0 { want.extend(items.into_iter().map(|i| i.1)) } else { let m: BTreeMap<Vec<u8>, Vec<u8>> = items.into_iter().collect(); want.extend(m.into_values()) }
    want[1..].sort();
    let what = format!("{} of {}{}, {} elements", k.name, k.item, if be { " BE" } else { "" }, n);
    let what = match wrong { Some(i) => format!("{}, number {} of them invalid", what, i), None => what };
    cx.note(|| format!("{}: {}", what, hex(&b)));
    cx.sample(|| format!("{}: {}", what, hex(&b)));
    cx.label(k.name); cx.label(k.item); cx.label(if wrong.is_some() { "with an invalid element" } else { "all valid" });
    if wrong.map_or(true, |i| i > 0) { cx.nontrivial(k.name, &b) }
    let judge = |r: Result<Parts, Error>, who: &str| -> Res {
        match (r, wrong) {
            (Ok(mut p), None) => { p[1..].sort(); ensure!(p == want, "{}: the {} gives {} elements {:?} for {}", what, who, p.len() - 1, p.iter().map(|x| hex(x)).collect::<Vec<_>>(), hex(&b)) }
            (Ok(p), Some(_)) => fail!("{}: the {} accepts {} as {} elements", what, who, hex(&b), p.len() - 1),
            (Err(e), None) => fail!("{}: the {} refuses {}: {}", what, who, hex(&b), e),
            (Err(e), Some(_)) => ensure!(!e.is_eof(), "{}: the {} reports the end of input for {}: {}", what, who, hex(&b), e),
        }
        Ok(())
    };
    pbt::sys::with_guard(0, |g| {
        let inp = g.end(&b, 0);
        let (r, m) = (k.buf)(be, inp);
        if wrong.is_none() { ensure!(m == b.len(), "{}: {} of {} bytes consumed", what, m, b.len()) }
        judge(r, "buffer reader")?;
        let (r, m) = (k.copy)(be, inp);
        if wrong.is_none() { ensure!(m == b.len(), "{}: {} of {} bytes consumed", what, m, b.len()) }
        judge(r, "copying reader")
    })?;
    judge((k.unbuf)(be, &mut ScriptRead::new(&b, Sched::gen(s, true))), "unbuffered stream reader")?;
    judge((k.bufd)(be, &mut ScriptRead::new(&b, Sched::gen(s, true))), "buffered stream reader")?;
    if s.chance(1, 20) { let f = tmp("rest"); std::fs::write(&f.0, &b).unwrap(); judge((k.file)(be, &f.0), "file reader")? }
    // a stream which fails, rather than ends, at some point
    if wrong.is_none() {
        let at = s.usize_below(b.len() + 1);
        let at = if k.framed { at.min(b.len() - 1) } else { at };
        let kind = *s.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::TimedOut, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::InvalidData, std::io::ErrorKind::BrokenPipe]);
        for buffered in [false, true] {
            let mut st = ScriptRead::new(&b, Sched::gen(s, true));
            st.fault = Some((at, kind)); st.once = s.bool();
            let r = if buffered { (k.bufd)(be, &mut st) } else { (k.unbuf)(be, &mut st) };
            match r {
                // (a reader which asks for no more than it needs does not see what lies behind)
                Ok(_) if st.fault_hits == 0 => {}
                Ok(p) => fail!("{}: {} elements are read from a stream which fails ({:?}) at byte {} of {} ({})", what, p.len() - 1, kind, at, hex(&b), if buffered { "buffered" } else { "unbuffered" }),
                Err(e) => ensure!(!e.is_eof() && e.to_string().contains(FAULT_MSG), "{}: a stream which fails ({:?}) at byte {} of {} is reported as: {}", what, kind, at, hex(&b), e),
            }
        }
    }
    Ok(())
}
