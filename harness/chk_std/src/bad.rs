//! User code which contradicts itself: readers, streams, sinks, elements and contexts that lie.
//! Everything is drawn while it runs, from the case's choices. Runs natively and interpreted.
use speedy::{Context, Endianness, Error, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use pbt::{ensure, Fail, Res, Src};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static S: Cell<*mut Src> = const { Cell::new(std::ptr::null_mut()) };
    /// What the user's code saw that it must not see.
    static SAW: RefCell<Option<String>> = const { RefCell::new(None) };
    static BUDGET: Cell<u32> = const { Cell::new(0) };
    static LIES: Cell<u32> = const { Cell::new(0) };
    /// How short the elements claim to be when they are read. (An allocation that fails ends the program, so this one stays as it is.)
    static MINIMUM: Cell<usize> = const { Cell::new(0) };
    static FEW: Cell<bool> = const { Cell::new(false) };
    static LIVE: RefCell<Vec<bool>> = const { RefCell::new(vec![]) };
}
fn src<R>(f: impl FnOnce(&mut Src) -> R) -> R { f(unsafe { &mut *S.with(|s| s.get()) }) }
/// The byte values with which unused memory is filled; they occur in no input.
const POISON: [u8; 2] = [0xC5, 0x5C];
fn poisoned(b: &[u8]) -> bool {
    // (the interpreter notices by itself, where one looks)
    if cfg!(miri) { return (0..b.len()).filter(|i| *i < 8 || *i + 8 > b.len() || i % 512 == 0).fold(0u32, |a, i| a.wrapping_add(b[i] as u32)) == u32::MAX; }
    b.iter().any(|b| POISON.contains(b))
}
fn report(what: String) { SAW.with(|s| { s.borrow_mut().get_or_insert(what); }) }
fn spy(who: &str, b: &[u8]) { if b.len() <= 1 << 16 && poisoned(b) { report(format!("{} is shown uninitialised memory, in {} bytes", who, b.len())) } }
fn lie() -> bool {
    let l = src(|s| s.chance(1, 4));
    if l { LIES.with(|n| n.set(n.get() + 1)) }
    l
}
/// One of the user's calls; after too many of them the user gives up.
fn tired() -> bool { BUDGET.with(|b| { let n = b.get(); b.set(n.saturating_sub(1)); n == 0 }) }
struct Oops;
fn oops() -> ! { std::panic::resume_unwind(Box::new(Oops)) }

/// Leaves a recognisable pattern where the library's local variables will be.
#[inline(never)]
fn paint() { if !cfg!(miri) { let mut a = [0u8; 3000]; for i in 0..a.len() { unsafe { a.as_mut_ptr().add(i).write_volatile(POISON[0]) } } std::hint::black_box(&mut a); } }

fn byte(s: &mut Src) -> u8 { let b = if s.chance(2, 3) { s.below(9) as u8 } else { s.int(8) as u8 }; if POISON.contains(&b) { b ^ 1 } else { b } }
/// An input without poison, at the end of accessible memory.
fn data(s: &mut Src, what: &str) -> &'static [u8] {
    let n = s.len() + s.usize_below(24);
    let mut v = Vec::new();
    while v.len() < n {
        match s.below(5) {
            0 => v.extend_from_slice(&(s.below(12) as u32).to_le_bytes()),
            1 => v.extend_from_slice(&(s.below(12) as u32).to_be_bytes()),
            2 => { let n = s.below(6); v.extend_from_slice(&(n as u32).to_le_bytes()); for _ in 0..n { v.push(b"abcdef\xce\xbb"[s.usize_below(8)]) } }
            3 => { for _ in 0..1 + s.below(40) { v.push(byte(s)) } }
            _ => v.push(byte(s)),
        }
    }
    // (whatever declares more than a megabyte would only waste time)
    for i in 0..v.len() { if i % 4 == 3 && v[i.saturating_sub(3)..=i].iter().filter(|b| **b != 0).count() > 1 && s.chance(3, 4) { v[i] = 0 } }
    // (elements of no size need no input, so their number decides how long it takes)
    if what.contains("Nothing") { for (i, b) in v.iter_mut().enumerate() { if i % 4 != 1 { *b = 0 } else { *b &= 1 } } FEW.with(|f| f.set(true)) }
    place(&v, s.usize_below(8))
}
#[cfg(not(miri))]
fn place(v: &[u8], gap: usize) -> &'static [u8] { pbt::sys::with_guard(0, |g| g.end(v, if gap < 5 { 0 } else { gap })) }
#[cfg(miri)]
fn place(v: &[u8], gap: usize) -> &'static [u8] {
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align(v.len() + gap + 1, 16).unwrap()).add(gap);
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
        std::slice::from_raw_parts(p, v.len())
    }
}

// ---- contexts ----
/// A context which cannot make up its mind.
pub struct Wob { pattern: u64, at: Cell<u32> }
impl Context for Wob {
    type Error = Error;
    fn endianness(&self) -> Endianness { let i = self.at.get(); self.at.set((i + 1) % 64); if self.pattern >> i & 1 == 1 { Endianness::BigEndian } else { Endianness::LittleEndian } }
}
pub trait Mk: Context<Error = Error> { fn mk(s: &mut Src) -> Self; }
impl Mk for Wob { fn mk(s: &mut Src) -> Wob { let p = match s.below(3) { 0 => 0, 1 => u64::MAX, _ => s.int(64) }; Wob { pattern: p, at: Cell::new(0) } } }
impl Mk for LittleEndian { fn mk(_: &mut Src) -> Self { LittleEndian {} } }
impl Mk for Endianness { fn mk(s: &mut Src) -> Self { if s.bool() { Endianness::BigEndian } else { Endianness::LittleEndian } } }

// ---- readers ----
pub struct Liar<C> { data: &'static [u8], pos: usize, ctx: C }
fn err() -> Error { if src(|s| s.bool()) { Error::custom("no") } else { <u8 as Readable<Endianness>>::read_from_stream_unbuffered_with_ctx(Endianness::LittleEndian, io::empty()).unwrap_err() } }
impl<C: Mk> Liar<C> {
    fn take(&mut self, n: usize) -> Option<&'static [u8]> { let r = self.data[self.pos..].get(..n); if r.is_some() { self.pos += n } r }
    /// Some piece of the input, of whatever length.
    fn piece(&mut self, n: usize) -> &'static [u8] {
        let rest = &self.data[self.pos..];
        let all = self.data;
        src(|s| match s.below(7) {
            0 => &rest[..n.saturating_sub(1).min(rest.len())],
            1 => &rest[..(n / 2).min(rest.len())],
            2 => &rest[..(n + 1).min(rest.len())],
            3 => rest,
            4 => { let m = n.saturating_sub(1).min(all.len()); &all[all.len() - m..] }
            5 => &[],
            _ => { let a = s.usize_below(all.len() + 1); let b = a + s.usize_below(all.len() - a + 1); &all[a..b] }
        })
    }
    fn borrow(&mut self, n: usize) -> Option<Result<&'static [u8], Error>> {
        if tired() { return Some(Err(err())); }
        if lie() { return match src(|s| s.below(4)) { 0 => None, 1 => Some(Err(err())), _ => Some(Ok(self.piece(n))) }; }
        Some(self.take(n).ok_or_else(err))
    }
    fn fill(&mut self, out: &mut [u8], advance: bool) -> Result<(), Error> {
        spy("a reader", out);
        if tired() { return Err(err()); }
        if lie() {
            match src(|s| s.below(6)) {
                0 => return Ok(()),
                1 => { let k = src(|s| s.usize_below(out.len() + 1)).min(self.data.len()); out[..k].copy_from_slice(&self.data[..k]); return Ok(()) }
                2 => return Err(err()),
                3 => { let k = src(|s| s.usize_below(self.data.len() + 1)); self.pos = k; return Ok(()) }
                4 if !FEW.with(|f| f.get()) => { for b in out.iter_mut().take(64) { *b = src(byte) } return Ok(()) }
                _ => oops(),
            }
        }
        let b = self.data[self.pos..].get(..out.len()).ok_or_else(err)?;
        out.copy_from_slice(b);
        if advance { self.pos += b.len() }
        Ok(())
    }
}
impl<C: Mk> Reader<'static, C> for Liar<C> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), Error> { self.fill(out, true) }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), Error> { self.fill(out, false) }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
    fn can_read_at_least(&self, n: usize) -> Option<bool> {
        if lie() { return match src(|s| s.below(3)) { 0 => None, 1 if n <= 1 << 16 => Some(true), _ => Some(false) }; }
        Some(self.data.len() - self.pos >= n)
    }
    fn read_bytes_borrowed(&mut self, n: usize) -> Option<Result<&'static [u8], Error>> { self.borrow(n) }
    fn read_bytes_borrowed_from_reader<'r>(&'r mut self, n: usize) -> Option<Result<&'r [u8], Error>> { self.borrow(n) }
    fn read_bytes_borrowed_until_eof(&mut self) -> Option<&'static [u8]> {
        if lie() { return if src(|s| s.bool()) { None } else { Some(self.piece(self.data.len() - self.pos)) }; }
        let n = self.data.len() - self.pos;
        self.take(n)
    }
}
/// A stream which says what it likes about how much it delivered.
pub struct LyingStream { data: &'static [u8], pos: usize }
impl Read for LyingStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        spy("a stream", buf);
        if tired() { return Ok(0); }
        let left = self.data.len() - self.pos;
        if lie() {
            match src(|s| s.below(7)) {
                0 => return Ok(buf.len()),
                1 => return Ok(buf.len().wrapping_add(1 + src(|s| s.usize_below(9000)))),
                2 => return Ok(usize::MAX - src(|s| s.usize_below(20))),
                3 => return Err(io::Error::new(if src(|s| s.bool()) { io::ErrorKind::Interrupted } else { io::ErrorKind::Other }, "no")),
                4 => { let n = left.min(buf.len()); buf[..n].copy_from_slice(&self.data[self.pos..][..n]); return Ok(src(|s| s.usize_below(n + 1))) }
                5 => { for b in buf.iter_mut() { *b = 1 } return Ok(buf.len() / 2) }
                _ => oops(),
            }
        }
        let n = left.min(buf.len()).min(src(|s| if s.bool() { usize::MAX } else { s.usize_below(20) + 1 }));
        buf[..n].copy_from_slice(&self.data[self.pos..][..n]);
        self.pos += n;
        Ok(n)
    }
}

// ---- what values must look like, whatever happened ----
pub trait Look { fn look(&self) -> Res; }
fn clean(b: &[u8], what: &str) -> Res { ensure!(!poisoned(b), "{} consists of uninitialised memory: {}", what, pbt::hex(&b[..b.len().min(64)])); Ok(()) }
macro_rules! num { ($($t:ty)*) => { $(impl Look for $t { fn look(&self) -> Res { clean(&self.to_ne_bytes(), stringify!($t)) } })* } }
num! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64 usize }
impl Look for bool { fn look(&self) -> Res { let b = unsafe { std::ptr::read_volatile(self as *const bool as *const u8) }; ensure!(b <= 1, "a bool of value {}", b); Ok(()) } }
impl Look for char { fn look(&self) -> Res { let c = unsafe { std::ptr::read_volatile(self as *const char as *const u32) }; ensure!(char::from_u32(c).is_some(), "a char of value {:x}", c); Ok(()) } }
impl Look for str { fn look(&self) -> Res { ensure!(std::str::from_utf8(self.as_bytes()).is_ok(), "a string which is not UTF-8: {}", pbt::hex(self.as_bytes())); clean(self.as_bytes(), "a string") } }
impl Look for String { fn look(&self) -> Res { self.as_str().look() } }
impl<T: Look> Look for [T] { fn look(&self) -> Res { for x in self { x.look()? } Ok(()) } }
impl<T: Look, const N: usize> Look for [T; N] { fn look(&self) -> Res { self[..].look() } }
impl<T: Look> Look for Vec<T> { fn look(&self) -> Res { self[..].look() } }
impl<T: Look + ?Sized> Look for Box<T> { fn look(&self) -> Res { (**self).look() } }
impl<T: Look + ?Sized> Look for &T { fn look(&self) -> Res { ensure!(std::mem::size_of_val(*self) == 0 || (*self as *const T as *const u8 as usize) % std::mem::align_of_val(*self) == 0, "a reference which is not aligned"); (**self).look() } }
impl<T: Look + ?Sized + ToOwned> Look for Cow<'_, T> { fn look(&self) -> Res { (&**self).look() } }
impl<T: Look> Look for Option<T> { fn look(&self) -> Res { self.iter().try_for_each(|x| x.look()) } }
impl<T: Look, E: Look> Look for Result<T, E> { fn look(&self) -> Res { match self { Ok(x) => x.look(), Err(x) => x.look() } } }
impl<T: Look> Look for BTreeSet<T> { fn look(&self) -> Res { self.iter().try_for_each(|x| x.look()) } }
impl<T: Look> Look for HashSet<T> { fn look(&self) -> Res { self.iter().try_for_each(|x| x.look()) } }
impl<K: Look, V: Look> Look for BTreeMap<K, V> { fn look(&self) -> Res { self.iter().try_for_each(|(k, v)| { k.look()?; v.look() }) } }
impl<K: Look, V: Look> Look for HashMap<K, V> { fn look(&self) -> Res { self.iter().try_for_each(|(k, v)| { k.look()?; v.look() }) } }
impl Look for () { fn look(&self) -> Res { Ok(()) } }
impl<A: Look> Look for (A,) { fn look(&self) -> Res { self.0.look() } }
impl<A: Look, B: Look> Look for (A, B) { fn look(&self) -> Res { self.0.look()?; self.1.look() } }
impl<A: Look, B: Look, C: Look> Look for (A, B, C) { fn look(&self) -> Res { self.0.look()?; self.1.look()?; self.2.look() } }
impl Look for std::time::Duration { fn look(&self) -> Res { ensure!(self.subsec_nanos() < 1_000_000_000, "a duration with too many nanoseconds"); Ok(()) } }
impl Look for std::num::NonZeroU32 { fn look(&self) -> Res { let n = unsafe { std::ptr::read_volatile(self as *const Self as *const u32) }; ensure!(n != 0, "a zero NonZeroU32"); clean(&n.to_ne_bytes(), "NonZeroU32") } }
impl Look for Endianness { fn look(&self) -> Res { Ok(()) } }
macro_rules! look { ($($t:ty { $($f:tt)* })*) => { $(impl Look for $t { fn look(&self) -> Res { $({ let x = self.$f; let _ = x; x.look()?; })* Ok(()) } })* } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct Flat { a: u32, b: u16, c: u16 }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct Tight { a: u8, b: u32, c: u16 }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct Thin(u64);
#[derive(Readable, Writable, Clone, Copy)] pub struct Nothing;
look! { Flat { a b c } Tight { a b c } Thin { 0 } Nothing {} }
#[derive(Readable, Writable, Clone)] pub struct Views<'a> { n: u8, #[speedy(length = n)] a: &'a [u8], b: &'a str, #[speedy(length_type = u8)] c: &'a [u16], #[speedy(length_type = u64_varint)] d: Cow<'a, [u32]>, #[speedy(length = ..)] e: &'a [i8] }
impl Look for Views<'_> { fn look(&self) -> Res { self.a.look()?; self.b.look()?; self.c.look()?; self.d.look()?; self.e.look() } }
#[derive(Readable, Writable, Clone)] pub struct Texts<'a> { #[speedy(length_type = u8)] a: &'a str, #[speedy(length_type = u16)] b: Cow<'a, str>, #[speedy(constant_prefix = "ab")] c: u8, #[speedy(length = ..)] d: &'a str }
impl Look for Texts<'_> { fn look(&self) -> Res { self.a.look()?; self.b.look()?; self.d.look() } }
#[derive(Readable, Writable, Clone)] pub struct Tail { a: u16, #[speedy(default_on_eof)] b: u32, #[speedy(length = ..)] c: Vec<u16> }
impl Look for Tail { fn look(&self) -> Res { self.a.look()?; self.b.look()?; self.c.look() } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16, peek_tag)] pub enum Peek { A(u16), B { t: u16, x: String }, C(u32, bool) }
impl Look for Peek { fn look(&self) -> Res { match self { Peek::A(x) => x.look(), Peek::B { t, x } => { t.look()?; x.look() } Peek::C(x, y) => { x.look()?; y.look() } } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Pick { A, B(char), C(Vec<Flat>), D([Tight; 3]), E(Box<Pick>) }
impl Look for Pick { fn look(&self) -> Res { match self { Pick::A => Ok(()), Pick::B(x) => x.look(), Pick::C(x) => x.look(), Pick::D(x) => x.look(), Pick::E(x) => x.look() } } }

/// Reads one value; the value may be anything of its type, but must be of its type.
fn read_with<C: Mk, T: Readable<'static, C> + Look>(how: u32, d: &'static [u8], c: C) -> Res {
    paint();
    let r = catch_unwind(AssertUnwindSafe(|| match how {
        0 => T::read_from(&mut Liar { data: d, pos: 0, ctx: c }),
        1 => T::read_from_stream_unbuffered_with_ctx(c, LyingStream { data: d, pos: 0 }),
        2 => T::read_from_stream_buffered_with_ctx(c, LyingStream { data: d, pos: 0 }),
        _ => T::read_from_buffer_with_ctx(c, d),
    }));
    if let Ok(Ok(v)) = &r { v.look()?; }
    let _ = catch_unwind(AssertUnwindSafe(|| drop(r)));
    Ok(())
}
type Case<C> = (&'static str, fn(u32, &'static [u8], C) -> Res);
macro_rules! types { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), read_with::<_, $t> as _)),*] } }
fn any_order<C: Mk>() -> Vec<Case<C>> {
    types! { u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, usize, bool, char, String, &'static str, &'static [u8], &'static [i8], &'static [u8; 5], Cow<'static, str>, Cow<'static, [u8]>, Cow<'static, [u16]>, Cow<'static, [u64]>, Cow<'static, [char]>,
        Vec<u8>, Vec<u16>, Vec<i32>, Vec<u64>, Vec<u128>, Vec<f32>, Vec<bool>, Vec<char>, Vec<String>, Vec<Vec<u16>>, Vec<(u8, u32)>, Vec<Option<u16>>, Vec<&'static str>, Vec<Flat>, Vec<Tight>, Vec<Thin>, Vec<Nothing>, Vec<[u16; 3]>, Box<[u32]>, Box<str>, Box<[String]>,
        [u8; 16], [u16; 5], [u32; 4], [u64; 3], [bool; 4], [char; 3], [String; 3], [Flat; 3], [Tight; 3], [[u8; 3]; 3], [u32; 40], BTreeSet<u8>, BTreeSet<u32>, BTreeSet<char>, HashSet<u16>, HashSet<String>, BTreeMap<u8, u8>, BTreeMap<u16, u32>, BTreeMap<String, u8>, BTreeMap<u8, Vec<u8>>, HashMap<u8, u8>, HashMap<u32, u64>, HashMap<u8, Cow<'static, [u16]>>,
        Option<u32>, Option<bool>, Result<u8, String>, (u8, u16), (bool, char, String), std::time::Duration, std::num::NonZeroU32, Option<std::num::NonZeroU32>, Endianness, Flat, Tight, Thin, Views<'static>, Texts<'static>, Tail, Peek, Pick, Vec<Pick>, Vec<Peek>, [Peek; 2], Cow<'static, [Flat]>, Cow<'static, [Tight]>, Cow<'static, [Nothing]>,
        Raw<0>, Raw<1>, Raw<2>, Raw<3> }
}
fn native() -> Vec<Case<LittleEndian>> {
    if !cfg!(target_endian = "little") { return vec![]; }
    types! { &'static [u16], &'static [u32], &'static [u64], &'static [u128], &'static [i16; 3], &'static [f64; 2], &'static [f32; 0], Cow<'static, [u32]>, Vec<u32>, (u8, &'static [u16]), (u8, &'static [u32; 2], u8), Vec<&'static [u16]>, Option<&'static [i32; 3]>, BTreeMap<u16, &'static [u16]> }
}
/// A routine of the user's own, with operations on the reader drawn as it goes.
pub struct Raw<const K: u8>(Vec<u8>);
impl<const K: u8> Look for Raw<K> { fn look(&self) -> Res { clean(&self.0, "what a reader operation returns") } }
impl<C: Context, const K: u8> Readable<'static, C> for Raw<K> {
    fn read_from<R: Reader<'static, C>>(r: &mut R) -> Result<Self, C::Error> {
        let mut seen = vec![];
        for _ in 0..1 + src(|s| s.below(6)) {
            if tired() { break }
            let n = src(|s| s.usize_below(20));
            macro_rules! see { ($e:expr) => { { let x = $e; if let Err(f) = x.look() { report(f.msg) } } } }
            match src(|s| s.below(30)) {
                0 => { let mut b = vec![1; n]; r.read_bytes(&mut b)?; seen.extend(b) }
                1 => { let mut b = vec![1; n]; r.peek_bytes(&mut b)?; seen.extend(b) }
                2 => r.skip_bytes(n)?,
                3 => see!(r.read_vec::<u8>(n)?), 4 => see!(r.read_vec::<u32>(n)?), 5 => see!(r.read_vec::<char>(n)?), 6 => see!(r.read_vec::<Tight>(n)?), 7 => see!(r.read_vec::<[u16; 3]>(n)?),
                8 => see!(r.read_cow::<u8>(n)?), 9 => see!(r.read_cow::<u16>(n)?), 10 => see!(r.read_cow::<u64>(n)?), 11 => see!(r.read_cow::<Flat>(n)?),
                12 => see!(r.read_string(n)?),
                13 => see!(r.read_collection::<u8, Vec<u8>>(n)?), 14 => see!(r.read_collection::<u32, Vec<u32>>(n)?), 15 => see!(r.read_collection::<u64, BTreeSet<u64>>(n)?), 16 => see!(r.read_collection::<Flat, Vec<Flat>>(n)?), 17 => see!(r.read_collection::<Tight, Box<[Tight]>>(n)?), 18 => see!(r.read_collection::<char, String>(n)?),
                19 => see!(r.read_key_value_collection::<u8, u8, Vec<_>>(n)?), 20 => see!(r.read_key_value_collection::<u16, u64, Vec<_>>(n)?), 21 => see!(r.read_key_value_collection::<u32, Tight, Vec<_>>(n)?), 22 => see!(r.read_key_value_collection::<u8, char, BTreeMap<_, _>>(n)?),
                23 => see!(r.read_vec_until_eof::<u16>()?), 24 => see!(r.read_collection_until_eof::<u32, Vec<u32>>()?),
                25 => { r.read_u64_varint()?; } 26 => { r.peek_u64_varint()?; }
                27 => { if let Some(b) = r.read_bytes_borrowed(n) { see!(b?) } } 28 => { if let Some(b) = r.read_bytes_borrowed_from_reader(n) { see!(b?) } }
                _ => match src(|s| s.below(13)) { 0 => see!(r.read_u8()?), 1 => see!(r.read_u16()?), 2 => see!(r.read_u32()?), 3 => see!(r.read_u64()?), 4 => see!(r.read_u128()?), 5 => see!(r.read_f32()?), 6 => see!(r.read_f64()?), 7 => see!(r.peek_u8()?), 8 => see!(r.peek_u16()?), 9 => see!(r.peek_u32()?), 10 => see!(r.peek_u64()?), 11 => see!(r.peek_u128()?), _ => see!(r.peek_f64()?) },
            }
        }
        Ok(Raw(seen))
    }
}

// ---- elements ----
/// An element which is inconsistent about everything; it knows whether it is alive.
pub struct El { id: usize, x: u32 }
impl El {
    fn new(x: u32) -> El { El { id: LIVE.with(|l| { let mut l = l.borrow_mut(); l.push(true); l.len() - 1 }), x } }
    fn check(&self) { LIVE.with(|l| { if l.borrow().get(self.id) != Some(&true) { report(format!("an element is used which does not exist ({:x})", self.id)) } }) }
}
impl Drop for El { fn drop(&mut self) { self.check(); LIVE.with(|l| { if let Some(x) = l.borrow_mut().get_mut(self.id) { *x = false } }) } }
impl Look for El { fn look(&self) -> Res { self.check(); Ok(()) } }
impl Clone for El { fn clone(&self) -> El { self.check(); El::new(self.x) } }
impl PartialEq for El { fn eq(&self, o: &El) -> bool { self.check(); o.check(); if lie() { src(|s| s.bool()) } else { self.x == o.x } } }
impl Eq for El {}
impl PartialOrd for El { fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for El { fn cmp(&self, o: &El) -> std::cmp::Ordering { self.check(); o.check(); if lie() { [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][src(|s| s.usize_below(3))] } else { self.x.cmp(&o.x) } } }
impl std::hash::Hash for El { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.check(); if lie() { h.write_u64(src(|s| s.int(64))) } else { h.write_u32(self.x) } } }
fn size() -> usize { if lie() { src(|s| match s.below(4) { 0 => 0, 1 => 1, 2 => s.usize_below(100), _ => (1usize << 63).wrapping_add(s.usize_below(3)) }) } else { 4 } }
impl<'a, C: Context> Readable<'a, C> for El {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        if lie() { match src(|s| s.below(3)) { 0 => oops(), 1 => return Err(Error::custom("no").into()), _ => { r.read_u8()?; return Ok(El::new(0)) } } }
        Ok(El::new(r.read_u32()?))
    }
    fn minimum_bytes_needed() -> usize { MINIMUM.with(|m| m.get()) }
}
impl<C: Context> Writable<C> for El {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        self.check();
        if lie() { match src(|s| s.below(4)) { 0 => oops(), 1 => return Err(Error::custom("no").into()), 2 => { let n = src(|s| s.usize_below(40)); return w.write_bytes(&[7; 40][..n]) } _ => return w.write_slice(&[self.x; 5]) } }
        w.write_u32(self.x)
    }
    fn bytes_needed(&self) -> Result<usize, C::Error> { if lie() && src(|s| s.chance(1, 4)) { return Err(Error::custom("no").into()); } Ok(size()) }
}
/// Of no size, but writes and reads bytes, and cannot say how many.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Zel;
impl Look for Zel { fn look(&self) -> Res { Ok(()) } }
impl<'a, C: Context> Readable<'a, C> for Zel {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { if tired() { return Err(Error::custom("tired").into()); } if lie() { if src(|s| s.bool()) { oops() } return Err(Error::custom("no").into()); } r.read_u8()?; Ok(Zel) }
    fn minimum_bytes_needed() -> usize { MINIMUM.with(|m| m.get()) }
}
impl<C: Context> Writable<C> for Zel {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { if lie() { return w.write_u64(3); } w.write_u8(3) }
    fn bytes_needed(&self) -> Result<usize, C::Error> { Ok(size()) }
}
#[derive(Readable, Writable, Clone)] pub struct Els<T> { a: T, b: Vec<T>, n: u8, #[speedy(length = n)] c: Vec<T>, d: [T; 2], #[speedy(default_on_eof)] e: u8, #[speedy(length = ..)] f: Vec<T> }
impl<T: Look> Look for Els<T> { fn look(&self) -> Res { self.a.look()?; self.b.look()?; self.c.look()?; self.d.look()?; self.f.look() } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum OneEl { A, B(El), C { x: Vec<El>, y: Option<El> }, D(Box<OneEl>) }
impl Look for OneEl { fn look(&self) -> Res { match self { OneEl::A => Ok(()), OneEl::B(x) => x.look(), OneEl::C { x, y } => { x.look()?; y.look() } OneEl::D(x) => x.look() } } }
macro_rules! els { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), read_with::<Wob, $t> as _, write_el::<$t> as _)),*] } }
type ElCase = (&'static str, fn(u32, &'static [u8], Wob) -> Res, fn(&mut Src, &'static [u8]) -> Res);
fn elements() -> Vec<ElCase> {
    els! { El, Vec<El>, [El; 3], [El; 0], Box<[El]>, Box<El>, Option<El>, Result<El, El>, (El, u8), (El, El, El), BTreeSet<El>, HashSet<El>, BTreeMap<El, El>, HashMap<El, u8>, BTreeMap<u8, El>, Vec<[El; 2]>, Vec<Vec<El>>, [Vec<El>; 2], Cow<'static, [El]>, Vec<(u8, El)>, std::ops::Range<El>, Els<El>, Els<u8>, Els<Flat>, OneEl, Vec<OneEl>,
        smallvec::SmallVec<[El; 2]>, indexmap_v1::IndexMap<El, u8>, indexmap_v2::IndexMap<El, El>, indexmap_v2::IndexSet<El>, Vec<Zel>, [Zel; 3], BTreeSet<Zel>, Cow<'static, [Zel]>, Els<Zel>, HashMap<u8, Zel> }
}
impl<T: Look> Look for std::ops::Range<T> { fn look(&self) -> Res { self.start.look()?; self.end.look() } }
impl<A: smallvec::Array> Look for smallvec::SmallVec<A> where A::Item: Look { fn look(&self) -> Res { self[..].look() } }
impl<K: Look, V: Look> Look for indexmap_v1::IndexMap<K, V> { fn look(&self) -> Res { self.iter().try_for_each(|(k, v)| { k.look()?; v.look() }) } }
impl<K: Look, V: Look> Look for indexmap_v2::IndexMap<K, V> { fn look(&self) -> Res { self.iter().try_for_each(|(k, v)| { k.look()?; v.look() }) } }
impl<K: Look> Look for indexmap_v2::IndexSet<K> { fn look(&self) -> Res { self.iter().try_for_each(|k| k.look()) } }
/// Reads a value as honestly as this type can, and writes it in every way.
fn write_el<T: Readable<'static, Wob> + Writable<Wob> + Look>(s: &mut Src, d: &'static [u8]) -> Res {
    let c = Wob::mk(s);
    let way = s.below(4);
    let room = s.usize_below(200);
    paint();
    let r = catch_unwind(AssertUnwindSafe(|| -> Option<Res> {
        let v = T::read_from_buffer_with_ctx(c, d).ok()?;
        let c = src(Wob::mk);
        Some((|| match way {
            0 => { if let Ok(b) = v.write_to_vec_with_ctx(c) { clean(&b, "what was written to a vector")? } Ok(()) }
            1 => { let (buf, front) = out(room); let _ = v.write_to_buffer_with_ctx(c, buf); ensure!(front.iter().all(|b| *b == 0xEE), "writes before the buffer"); Ok(()) }
            2 => { let _ = v.write_to_stream_with_ctx(c, Sink); Ok(()) }
            _ => { let mut w = Count(0, c); let _ = v.write_to(&mut w); Ok(()) }
        })())
    }));
    match r { Ok(Some(r)) => r, _ => Ok(()) }
}
/// A buffer before memory which cannot be accessed, and what is in front of it.
#[cfg(not(miri))]
fn out(n: usize) -> (&'static mut [u8], &'static mut [u8]) { let b = pbt::sys::with_guard(1, |g| g.end_mut(n + 64, 0xEE)); let (a, b) = b.split_at_mut(64); (b, a) }
#[cfg(miri)]
fn out(n: usize) -> (&'static mut [u8], &'static mut [u8]) { (Box::leak(vec![0xEE; n].into_boxed_slice()), &mut []) }
struct Sink;
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if poisoned(b) { report("uninitialised memory is written".into()) }
        if tired() { return Ok(0); }
        if lie() { return match src(|s| s.below(4)) { 0 => Ok(b.len() + 1 + src(|s| s.usize_below(100))), 1 => Ok(usize::MAX), 2 => Ok(0), _ => Err(io::Error::new(io::ErrorKind::Other, "no")) }; }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct Count(usize, Wob);
impl Writer<Wob> for Count {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), Error> { if poisoned(b) { report("uninitialised memory is written".into()) } self.0 += b.len(); if lie() { return Err(Error::custom("no")); } Ok(()) }
    fn context(&self) -> &Wob { &self.1 }
    fn context_mut(&mut self) -> &mut Wob { &mut self.1 }
    fn can_write_at_least(&self, _: usize) -> Option<bool> { if lie() { Some(src(|s| s.bool())) } else { None } }
}

// ---- a great many elements of no size ----
#[derive(Readable, Writable, Clone, Copy)] struct L8<'a> { #[speedy(length_type = u8)] a: &'a [Nothing] }
#[derive(Readable, Writable, Clone, Copy)] struct L16<'a> { #[speedy(length_type = u16)] a: &'a [Nothing] }
#[derive(Readable, Writable, Clone, Copy)] struct L7<'a> { #[speedy(length_type = u7)] a: &'a [Nothing] }
#[derive(Readable, Writable, Clone, Copy)] struct L64<'a> { #[speedy(length_type = u64)] a: &'a [Nothing] }
#[derive(Readable, Writable, Clone)] struct Lv<'a> { #[speedy(length_type = u64_varint)] a: Cow<'a, [Nothing]> }

pub struct Done { pub what: String, pub data: Vec<u8>, pub lies: u32 }
pub const KINDS: &[&str] = &["readers", "streams", "elements"];
/// Runs one case; `Ok` tells what it was.
pub fn case(kind: usize, s: &mut Src) -> (Done, Res) {
    S.with(|p| p.set(s));
    SAW.with(|x| *x.borrow_mut() = None);
    LIES.with(|l| l.set(0));
    LIVE.with(|l| l.borrow_mut().clear());
    BUDGET.with(|b| b.set(300));
    FEW.with(|f| f.set(false));
    s.budget = 24;
    let least = match s.below(6) { 0 => 0, 1 => 1, 2 => s.usize_below(100), 3 => (1usize << 63).wrapping_add(s.usize_below(3)), _ => 4 };
    MINIMUM.with(|m| m.set(least));
    let (what, d, r) = match kind {
        0 | 1 => {
            let how = if kind == 0 { 0 } else { 1 + s.below(2) as u32 };
            match s.below(4) {
                0 => { let t = native(); if t.is_empty() { return (Done { what: String::new(), data: vec![], lies: 0 }, Ok(())); } let (n, f) = t[s.usize_below(t.len())]; let d = data(s, n); (n, d, f(how, d, LittleEndian {})) }
                1 => { let t = any_order::<Wob>(); let (n, f) = t[s.usize_below(t.len())]; let d = data(s, n); let c = Wob::mk(s); (n, d, f(how, d, c)) }
                2 => { let t = any_order::<LittleEndian>(); let (n, f) = t[s.usize_below(t.len())]; let d = data(s, n); (n, d, f(how, d, LittleEndian {})) }
                _ => { let t = any_order::<Endianness>(); let (n, f) = t[s.usize_below(t.len())]; let d = data(s, n); let c = Endianness::mk(s); (n, d, f(how, d, c)) }
            }
        }
        _ => {
            let t = elements();
            let (n, f, g) = t[s.usize_below(t.len())];
            let d = data(s, n);
            let how = s.below(6) as u32;
            (n, d, if how < 4 { let c = Wob::mk(s); f(how, d, c) } else { g(s, d) })
        }
    };
    let done = Done { what: format!("{} ({})", what, KINDS[kind]), data: d.to_vec(), lies: LIES.with(|l| l.get()) };
    let r = r.and_then(|_| match SAW.with(|x| x.borrow_mut().take()) { Some(m) => Err(Fail::new(m)), None => Ok(()) });
    let r = r.map_err(|f| Fail::new(format!("{}, from {}: {}", done.what, pbt::hex(&done.data), f.msg)));
    S.with(|p| p.set(std::ptr::null_mut()));
    (done, r)
}
/// Very long slices of elements of no size: the length is written, or refused.
pub fn many(s: &mut Src) -> (Done, Res) {
    let n = match s.below(4) { 0 => usize::MAX - s.usize_below(3), 1 => (1usize << 63).wrapping_add(s.usize_below(5)).wrapping_sub(2), 2 => 1usize.wrapping_shl(s.below(64) as u32).wrapping_add(s.usize_below(3)).wrapping_sub(1), _ => s.int(64) as usize };
    // (the elements occupy nothing, so they can be at any aligned address)
    let v: &'static [Nothing] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
    let which = s.usize_below(7);
    // (in the other order elements are written one at a time, which takes forever where so many are allowed)
    let be = if ![2, 3, 5].contains(&which) { cfg!(target_endian = "big") } else { s.bool() };
    let c = || if be { Endianness::BigEndian } else { Endianness::LittleEndian };
    let fixed = |w: u32| -> Option<Vec<u8>> { if w < 64 && (n as u64) >> w != 0 { return None; } let b = (n as u64).to_le_bytes(); let mut b = b[..(w as usize + 7) / 8].to_vec(); if be { b.reverse() } Some(b) };
    let want = match which { 0 | 1 | 5 => fixed(32), 2 => fixed(8), 3 => fixed(16), 4 => fixed(64), 6 => { let mut o = model::Out::new(be); o.varint(n as u64); Some(o.b) } _ => None };
    let want = if which == 5 { fixed(7) } else { want };
    let (got, need) = match which {
        0 => (v.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&v)),
        1 => { let v = Cow::Borrowed(v); (v.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&v)) }
        2 => (L8 { a: v }.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&L8 { a: v })),
        3 => (L16 { a: v }.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&L16 { a: v })),
        4 => (L64 { a: v }.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&L64 { a: v })),
        5 => (L7 { a: v }.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&L7 { a: v })),
        _ => { let v = Lv { a: Cow::Borrowed(v) }; (v.write_to_vec_with_ctx(c()), Writable::<Endianness>::bytes_needed(&v)) }
    };
    let done = Done { what: format!("{} elements without size, {}", n, ["a slice", "a copy-on-write slice", "a length of u8", "of u16", "of u64", "of u7", "a varint"][which]), data: n.to_le_bytes().to_vec(), lies: 1 };
    let r = (|| {
        match (&want, &got) {
            (Some(w), Ok(g)) => ensure!(w == g, "{}: written as {} instead of {}", done.what, pbt::hex(g), pbt::hex(w)),
            (None, Err(_)) => {}
            _ => pbt::fail!("{}: {:?} instead of {:?}", done.what, got.as_ref().map(|b| pbt::hex(b)), want.as_ref().map(|b| pbt::hex(b))),
        }
        if let (Some(w), Ok(n)) = (&want, &need) { ensure!(w.len() == *n, "{}: the predicted size is {} instead of {}", done.what, n, w.len()) }
        Ok(())
    })();
    (done, r)
}
#[allow(dead_code)] fn _is<T: IsEof>() {}
