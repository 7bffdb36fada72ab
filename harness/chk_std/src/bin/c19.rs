use chk_std::*;
use model::Out;
use pbt::io::{Sched, ScriptRead};
use pbt::{ensure, Cx, Res, Src};
use speedy::{Context, Endianness, Error, Readable, Reader};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What happened to every element constructed in this case.
#[derive(Default)]
struct Ledger { drops: Vec<u32>, wrong: Vec<String>, zst_made: i64, zst_dropped: i64 }
thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }
const MAGIC: u64 = 0x7ac4ed_11fe5a5e;
const BAD: u8 = 251;
const PANIC: u8 = 252;
/// An element's identity.
#[derive(Debug)]
struct Id { magic: u64, id: usize }
impl Id {
    fn new() -> Id { L.with(|l| { let mut l = l.borrow_mut(); l.drops.push(0); Id { magic: MAGIC ^ (l.drops.len() as u64 - 1), id: l.drops.len() - 1 } }) }
}
impl Drop for Id {
    fn drop(&mut self) {
        let (magic, id) = (self.magic, self.id);
        let _ = L.try_with(|l| {
            let mut l = l.borrow_mut();
            if id >= l.drops.len() || magic != MAGIC ^ id as u64 { l.wrong.push(format!("something that was never constructed is dropped (identity {:x})", id)); return; }
            l.drops[id] += 1;
            let n = l.drops[id];
            if n > 1 { l.wrong.push(format!("element {} is dropped {} times", id, n)); }
        });
    }
}
fn decide<E: From<Error>>(k: u8) -> Result<(), E> { match k { BAD => Err(Error::custom("refused by the element").into()), PANIC => panic!("element panics"), _ => Ok(()) } }

/// Types that can describe an encoding of theirs, and list the elements they own.
trait X: Sized + 'static {
    /// Appends an encoding; `marks` receives the place of each byte that decides over an element.
    fn bytes(s: &mut Src, o: &mut Out, marks: &mut Vec<usize>);
    fn ids(&self, out: &mut Vec<usize>);
    /// How many elements without identity are in there.
    fn zsts(&self) -> i64 { 0 }
}
fn mark(s: &mut Src, o: &mut Out, marks: &mut Vec<usize>) -> u8 { let k = s.below(240) as u8; marks.push(o.b.len()); o.u8(k); k }

macro_rules! element {
    ($(#[$m:meta])* $n:ident, $pad:ty, $zero:expr, $extra:expr, $min:expr) => {
        $(#[$m])*
        #[derive(Debug)]
        struct $n { id: Id, key: u8, #[allow(dead_code)] pad: $pad, tail: u64 }
        impl<'a, C: Context> Readable<'a, C> for $n {
            fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
                let key = r.read_u8()?;
                decide::<C::Error>(key)?;
                let id = Id::new();
                // may fail with the identity already taken
                for _ in 0..$extra { r.read_u8()?; }
                Ok($n { tail: !(id.id as u64), id, key, pad: $zero })
            }
            fn minimum_bytes_needed() -> usize { $min }
        }
        impl X for $n {
            fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { mark(s, o, m); for k in 0..$extra { o.u8(k as u8) } }
            fn ids(&self, out: &mut Vec<usize>) { assert!(self.id.magic == MAGIC ^ self.id.id as u64 && self.tail == !(self.id.id as u64), "an element in the result was damaged"); out.push(self.id.id) }
        }
        impl Clone for $n { fn clone(&self) -> Self { let id = Id::new(); $n { tail: !(id.id as u64), id, key: self.key, pad: $zero } } }
        impl Default for $n { fn default() -> Self { let id = Id::new(); $n { tail: !(id.id as u64), id, key: 0, pad: $zero } } }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.key == o.key } }
        impl Eq for $n {}
        impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $n { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.key.cmp(&o.key) } }
        impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h) } }
    };
}
element!(Small, (), (), 0, 1);
element!(Four, (), (), 3, 4);
element!(Vague, u16, 7, 2, 0);
element!(Large, [u64; 40], [3; 40], 1, 2);
element!(#[repr(align(64))] Aligned, u8, 1, 0, 0);
/// Occupies no memory, but is counted.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Nil;
impl Nil { fn new() -> Nil { L.with(|l| l.borrow_mut().zst_made += 1); Nil } }
impl Drop for Nil { fn drop(&mut self) { let _ = L.try_with(|l| l.borrow_mut().zst_dropped += 1); } }
impl Clone for Nil { fn clone(&self) -> Nil { Nil::new() } }
impl Default for Nil { fn default() -> Nil { Nil::new() } }
impl<'a, C: Context> Readable<'a, C> for Nil {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let k = r.read_u8()?; decide::<C::Error>(k)?; Ok(Nil::new()) }
    fn minimum_bytes_needed() -> usize { 1 }
}
impl X for Nil {
    fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { mark(s, o, m); }
    fn ids(&self, _: &mut Vec<usize>) {}
    fn zsts(&self) -> i64 { 1 }
}
macro_rules! plain { ($($t:ty, $n:expr;)*) => { $(impl X for $t { fn bytes(s: &mut Src, o: &mut Out, _: &mut Vec<usize>) { let v = s.int(8 * $n); o.uint(v as u128, $n) } fn ids(&self, _: &mut Vec<usize>) {} })* } }
plain! { u8, 1; u16, 2; u32, 4; u64, 8; }
impl X for String { fn bytes(s: &mut Src, o: &mut Out, _: &mut Vec<usize>) { let n = s.usize_below(5); o.u32(n as u32); for _ in 0..n { o.u8(b'a') } } fn ids(&self, _: &mut Vec<usize>) {} }

fn many<T: X>(s: &mut Src, n: usize, o: &mut Out, m: &mut Vec<usize>) { s.nested(n, |s| for _ in 0..n { T::bytes(s, o, m) }) }
macro_rules! seq {
    ($([$($g:tt)*] $t:ty, $e:ty;)*) => { $(impl<$($g)*> X for $t {
        fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { let n = s.len(); o.u32(n as u32); many::<$e>(s, n, o, m) }
        fn ids(&self, out: &mut Vec<usize>) { for x in self.iter() { x.ids(out) } }
        fn zsts(&self) -> i64 { self.iter().map(|x| x.zsts()).sum() }
    })* }
}
seq! {
    [T: X] Vec<T>, T; [T: X] Box<[T]>, T; [T: X + Clone] Cow<'static, [T]>, T; [T: X + Ord] BTreeSet<T>, T; [T: X + Hash + Eq] HashSet<T>, T; [T: X + Clone + Ord] Cow<'static, BTreeSet<T>>, T;
    [T: X] smallvec::SmallVec<[T; 3]>, T; [T: X + Hash + Eq] indexmap_v1::IndexSet<T>, T; [T: X + Hash + Eq] indexmap_v2::IndexSet<T>, T;
}
macro_rules! map {
    ($([$($g:tt)*] $t:ty;)*) => { $(impl<$($g)*> X for $t {
        fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { let n = s.len(); o.u32(n as u32); many::<(K, T)>(s, n, o, m) }
        fn ids(&self, out: &mut Vec<usize>) { for (k, x) in self.iter() { k.ids(out); x.ids(out) } }
        fn zsts(&self) -> i64 { self.iter().map(|(k, x)| k.zsts() + x.zsts()).sum() }
    })* }
}
map! { [K: X + Ord, T: X] BTreeMap<K, T>; [K: X + Hash + Eq, T: X] HashMap<K, T>; [K: X + Hash + Eq, T: X] indexmap_v1::IndexMap<K, T>; [K: X + Hash + Eq, T: X] indexmap_v2::IndexMap<K, T>; }
impl<T: X, const N: usize> X for [T; N] { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { many::<T>(s, N, o, m) } fn ids(&self, out: &mut Vec<usize>) { for x in self { x.ids(out) } } fn zsts(&self) -> i64 { self.iter().map(|x| x.zsts()).sum() } }
impl<T: X> X for Option<T> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { if s.chance(3, 4) { o.u8(1); T::bytes(s, o, m) } else { o.u8(0) } } fn ids(&self, out: &mut Vec<usize>) { if let Some(x) = self { x.ids(out) } } fn zsts(&self) -> i64 { self.as_ref().map_or(0, |x| x.zsts()) } }
impl<T: X, U: X> X for Result<T, U> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { if s.bool() { o.u8(1); T::bytes(s, o, m) } else { o.u8(0); U::bytes(s, o, m) } } fn ids(&self, out: &mut Vec<usize>) { match self { Ok(x) => x.ids(out), Err(x) => x.ids(out) } } fn zsts(&self) -> i64 { match self { Ok(x) => x.zsts(), Err(x) => x.zsts() } } }
impl<T: X> X for Box<T> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { T::bytes(s, o, m) } fn ids(&self, out: &mut Vec<usize>) { (**self).ids(out) } fn zsts(&self) -> i64 { (**self).zsts() } }
impl<T: X> X for std::ops::Range<T> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { T::bytes(s, o, m); T::bytes(s, o, m) } fn ids(&self, out: &mut Vec<usize>) { self.start.ids(out); self.end.ids(out) } fn zsts(&self) -> i64 { self.start.zsts() + self.end.zsts() } }
impl<T: X> X for std::ops::RangeInclusive<T> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { T::bytes(s, o, m); T::bytes(s, o, m) } fn ids(&self, out: &mut Vec<usize>) { self.start().ids(out); self.end().ids(out) } fn zsts(&self) -> i64 { self.start().zsts() + self.end().zsts() } }
macro_rules! tuple { ($($($n:ident $k:tt),*;)*) => { $(impl<$($n: X),*> X for ($($n,)*) { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { $($n::bytes(s, o, m);)* } fn ids(&self, out: &mut Vec<usize>) { $(self.$k.ids(out);)* } fn zsts(&self) -> i64 { 0 $(+ self.$k.zsts())* } })* } }
tuple! { A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10; }

macro_rules! record {
    ($n:ident { $($f:ident),* }, |$s:ident, $o:ident, $m:ident| $b:block) => { impl X for $n {
        fn bytes($s: &mut Src, $o: &mut Out, $m: &mut Vec<usize>) $b
        fn ids(&self, out: &mut Vec<usize>) { $(self.$f.ids(out);)* }
        fn zsts(&self) -> i64 { 0 $(+ self.$f.zsts())* }
    } }
}
#[derive(Readable, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Two { a: Small, b: Four }
record!(Two { a, b }, |s, o, m| { Small::bytes(s, o, m); Four::bytes(s, o, m) });
#[derive(Readable)]
struct Attrs { a: Small, #[speedy(constant_prefix = "ab")] b: Four, #[speedy(skip)] c: Large, #[speedy(length_type = u8)] d: Vec<Vague>, n: u8, #[speedy(length = n)] e: Vec<Two>, f: u16, #[speedy(length_type = u16)] g: BTreeMap<Small, Four>, #[speedy(length_type = u64_varint)] h: HashSet<Vague>, #[speedy(default_on_eof)] i: Four, #[speedy(default_on_eof)] j: Vec<Small> }
record!(Attrs { a, b, c, d, e, g, h, i, j }, |s, o, m| {
    Small::bytes(s, o, m); o.raw(b"ab"); m.push(o.b.len() - 1); Four::bytes(s, o, m);
    let n = s.len(); o.u8(n.min(200) as u8); many::<Vague>(s, n.min(200), o, m);
    let n = s.len().min(99); o.u8(n as u8); many::<Two>(s, n, o, m);
    o.u16(9);
    let n = s.len(); o.u16(n as u16); many::<(Small, Four)>(s, n, o, m);
    let n = s.len().min(120); o.u8(n as u8); many::<Vague>(s, n, o, m);
    Four::bytes(s, o, m); Vec::<Small>::bytes(s, o, m);
});
#[derive(Readable)]
struct Rest { a: Two, #[speedy(length = ..)] b: Vec<Vague> }
record!(Rest { a, b }, |s, o, m| { Two::bytes(s, o, m); let n = s.len(); many::<Vague>(s, n, o, m) });
#[derive(Readable)]
struct RestMap { a: Small, #[speedy(length = ..)] b: BTreeMap<Small, Two> }
record!(RestMap { a, b }, |s, o, m| { Small::bytes(s, o, m); let n = s.len(); many::<(Small, Two)>(s, n, o, m) });
#[derive(Readable)]
struct RestCow<'a> { a: Four, #[speedy(length = ..)] b: Cow<'a, [Four]> }
impl X for RestCow<'static> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { Four::bytes(s, o, m); let n = s.len(); many::<Four>(s, n, o, m) } fn ids(&self, out: &mut Vec<usize>) { self.a.ids(out); self.b.ids(out) } }
#[derive(Readable)]
#[speedy(tag_type = u8)]
enum Choice { A, B(Small, Vec<Four>, Large), C { x: Box<[Two]>, #[speedy(length_type = u7)] y: Vec<Nil>, z: Option<Aligned> }, D(Box<Vec<Choice>>) }
impl X for Choice {
    fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) {
        match if s.budget > 3 { s.below(4) } else { s.below(3) } {
            0 => o.u8(0),
            1 => { o.u8(1); Small::bytes(s, o, m); Vec::<Four>::bytes(s, o, m); Large::bytes(s, o, m) }
            2 => { o.u8(2); Box::<[Two]>::bytes(s, o, m); let n = s.len().min(127); o.u8(n as u8); many::<Nil>(s, n, o, m); Option::<Aligned>::bytes(s, o, m) }
            _ => { o.u8(3); let n = s.len().min(5); o.u32(n as u32); s.nested(n + 2, |s| for _ in 0..n { Choice::bytes(s, o, m) }) }
        }
    }
    fn ids(&self, out: &mut Vec<usize>) { match self { Choice::A => {} Choice::B(a, b, c) => { a.ids(out); b.ids(out); c.ids(out) } Choice::C { x, y: _, z } => { x.ids(out); z.ids(out) } Choice::D(v) => v.ids(out) } }
    fn zsts(&self) -> i64 { match self { Choice::C { y, .. } => y.len() as i64, Choice::D(v) => v.zsts(), _ => 0 } }
}
#[derive(Readable)]
struct Gen<T, U> { a: T, b: Vec<U>, c: [T; 2] }
impl<T: X, U: X> X for Gen<T, U> { fn bytes(s: &mut Src, o: &mut Out, m: &mut Vec<usize>) { T::bytes(s, o, m); Vec::<U>::bytes(s, o, m); T::bytes(s, o, m); T::bytes(s, o, m) } fn ids(&self, out: &mut Vec<usize>) { self.a.ids(out); self.b.ids(out); self.c.ids(out) } fn zsts(&self) -> i64 { self.a.zsts() + self.b.zsts() + self.c.zsts() } }
/// Vectors read by hand.
struct ByHand { a: Vec<Four>, b: Vec<Small> }
impl<'a, C: Context> Readable<'a, C> for ByHand {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let n = r.read_u8()? as usize;
        let a = r.read_vec(n)?;
        let n = r.read_u8()? as usize;
        let c: Cow<[Small]> = r.read_cow(n)?;
        let d: std::collections::VecDeque<Vague> = r.read_collection(n)?;
        let e: Vec<(Small, Two)> = r.read_key_value_collection(n)?;
        assert!(d.len() == n && e.len() == n);
        Ok(ByHand { a, b: c.into_owned() })
    }
}
record!(ByHand { a, b }, |s, o, m| { let n = s.len().min(250); o.u8(n as u8); many::<Four>(s, n, o, m); let n = s.len().min(80); o.u8(n as u8); many::<Small>(s, n, o, m); many::<Vague>(s, n, o, m); many::<(Small, Two)>(s, n, o, m) });

struct Done { ids: Vec<usize>, zsts: i64, keep: Box<dyn std::any::Any> }
struct Xt { name: &'static str, bytes: fn(&mut Src, &mut Out, &mut Vec<usize>), read: fn(usize, Endianness, &'static [u8], ScriptRead) -> Result<Done, Error>, /** keeps fewer elements than it reads */ drops: bool, /** a short input is not always an error */ lax: bool }
fn xt<T: X + Readable<'static, Endianness>>(name: &'static str) -> Xt {
    fn done<T: X>(r: Result<T, Error>) -> Result<Done, Error> { r.map(|v| { let mut ids = vec![]; v.ids(&mut ids); Done { ids, zsts: v.zsts(), keep: Box::new(v) } }) }
    Xt {
        name,
        drops: name.contains("Map") || name.contains("Set") || name.contains("Attrs") || name.contains("ByHand"),
        lax: name.contains("Rest") || name.contains("Attrs"),
        bytes: T::bytes,
        read: |how, e, b, stream| match how {
            0 => done(T::read_from_buffer_with_ctx(e, b)),
            1 => done(T::read_from_buffer_copying_data_with_ctx(e, b)),
            2 => done(T::read_from_stream_unbuffered_with_ctx(e, stream)),
            3 => done(T::read_from_stream_buffered_with_ctx(e, stream)),
            _ => done(T::read_from(&mut MyReader { data: b, pos: 0, ctx: e, hint: how == 5 })),
        },
    }
}
const READERS: &[&str] = &["buffer", "copying buffer", "unbuffered stream", "buffered stream", "user's reader", "user's reader with hint"];
macro_rules! xts { ($v:expr; $($t:ty),* $(,)?) => { $($v.push(xt::<$t>(stringify!($t)));)* } }
macro_rules! over { ($v:expr; $($e:ty),*) => { $(
    xts![$v; Vec<$e>, Box<[$e]>, [$e; 1], [$e; 3], [$e; 40], Cow<'static, [$e]>, smallvec::SmallVec<[$e; 3]>, Option<$e>, Box<$e>, Result<$e, Vec<$e>>, ($e, $e), (u16, $e, Vec<$e>, $e), std::ops::Range<$e>, std::ops::RangeInclusive<$e>, BTreeSet<$e>, HashSet<$e>, Vec<Vec<$e>>, Vec<[$e; 3]>, [Vec<$e>; 2], [[$e; 2]; 3], Option<Vec<$e>>, Vec<Option<$e>>, BTreeMap<u8, $e>, HashMap<$e, $e>];
)* } }
fn types() -> Vec<Xt> {
    let mut v = vec![];
    over![v; Small, Four, Vague, Large, Aligned, Nil, Two];
    xts![v; (Small, Four, Vague, Large, Aligned, Nil, Two, Small, Four, Small, Four), Attrs, Attrs, Attrs, Rest, RestMap, RestCow<'static>, Choice, Choice, Vec<Choice>, Gen<Small, Four>, Gen<Vec<Two>, Option<Large>>, ByHand, ByHand, Vec<Attrs>, [Attrs; 2], [Choice; 3], Box<[Choice]>,
        indexmap_v1::IndexMap<Small, Two>, indexmap_v2::IndexMap<Small, Two>, indexmap_v1::IndexSet<Four>, indexmap_v2::IndexSet<Four>, BTreeMap<Two, Vec<Small>>, HashMap<Vague, [Small; 2]>, Cow<'static, BTreeSet<Two>>,
        Vec<(u8, Small)>, Vec<(Small, String)>, [(Large, u64); 2], Vec<BTreeMap<Small, Box<Four>>>, [smallvec::SmallVec<[Small; 3]>; 2], Result<(Small, Two), [Four; 5]>, [[[Small; 2]; 2]; 2], Vec<Result<Two, Nil>>];
    v
}
fn run(types: &[Xt], s: &mut Src, cx: &mut Cx) -> Res {
    let i = s.cycle(types.len());
    let t = &types[i];
    s.scale_small();
    if s.chance(1, 20) { s.budget = 400; }
    let be = s.bool();
    let (mut o, mut marks) = (Out::new(be), vec![]);
    (t.bytes)(s, &mut o, &mut marks);
    let mut data = o.b;
    if data.len() > 200_000 { return Ok(()); }
    #[derive(Debug, Clone, Copy, PartialEq)]
    enum Fault { None, Cut(usize), Bad(usize), Panic(usize), Io(usize) }
    let how = s.usize_below(READERS.len());
    let fault = match s.below(8) {
        0 => Fault::None,
        1..=3 if !data.is_empty() => Fault::Cut(s.usize_below(data.len())),
        4 | 5 if !marks.is_empty() => Fault::Bad(*s.pick(&marks)),
        6 if !marks.is_empty() => Fault::Panic(*s.pick(&marks)),
        7 if !data.is_empty() && (how == 2 || how == 3) => Fault::Io(s.usize_below(data.len())),
        _ => Fault::None,
    };
    match fault { Fault::Cut(n) => data.truncate(n), Fault::Bad(k) => data[k] = BAD, Fault::Panic(k) => data[k] = PANIC, _ => {} }
    cx.note(|| format!("{} from a {}, {} endian, {:?}: {}", t.name, READERS[how], if be { "big" } else { "little" }, fault, pbt::hex(&data)));
    if fault != Fault::None { let mut k = data.clone(); k.push(how as u8); cx.nontrivial(t.name, &k); }
    let who = format!("{} from a {}, {:?}", t.name, READERS[how], fault);
    L.with(|l| *l.borrow_mut() = Ledger::default());
    let mut stream = ScriptRead::new(&data, Sched::gen(s, true));
    if let Fault::Io(k) = fault { stream.fault = Some((k, std::io::ErrorKind::TimedOut)); }
    let r = pbt::sys::with_guard(0, |g| { let b = g.end(&data, 0); catch_unwind(AssertUnwindSafe(|| (t.read)(how, end(be), b, stream))) });
    let wrong = || L.with(|l| l.borrow().wrong.first().cloned());
    if let Some(w) = wrong() { return Err(pbt::Fail::new(format!("{}: {}", who, w))); }
    match r {
        Err(p) => {
            let msg = p.downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            ensure!(matches!(fault, Fault::Panic(_)) && msg.contains("element panics"), "{}: panics: {}", who, msg);
            cx.label("element panicked");
            let (made, dropped) = L.with(|l| { let l = l.borrow(); (l.zst_made, l.zst_dropped) });
            ensure!(dropped <= made, "{}: {} elements without size are dropped although only {} were constructed", who, dropped, made);
        }
        Ok(Err(_)) => {
            ensure!(fault != Fault::None, "{}: reading fails", who);
            cx.label("failed");
            L.with(|l| -> Res {
                let l = l.borrow();
                for (k, n) in l.drops.iter().enumerate() { ensure!(*n == 1, "{}: element {} of {} constructed ones is dropped {} times after the failure", who, k, l.drops.len(), n); }
                ensure!(l.zst_made == l.zst_dropped, "{}: {} elements without size are constructed and {} dropped after the failure", who, l.zst_made, l.zst_dropped);
                if l.drops.len() > 1 { cx.label("failed after two or more elements"); }
                Ok(())
            })?;
        }
        Ok(Ok(v)) => {
            ensure!(fault == Fault::None || t.lax || matches!(fault, Fault::Panic(_) | Fault::Bad(_) | Fault::Io(_)), "{}: succeeds", who);
            cx.label("succeeded");
            L.with(|l| -> Res {
                let l = l.borrow();
                let mut seen = HashSet::new();
                for k in &v.ids { ensure!(seen.insert(*k), "{}: the result owns element {} twice", who, k); ensure!(l.drops[*k] == 0, "{}: element {} of the result was dropped already", who, k); }
                for (k, n) in l.drops.iter().enumerate() {
                    if seen.contains(&k) { continue; }
                    ensure!(*n == 1, "{}: element {} is neither in the result nor dropped once ({} times)", who, k, n);
                    ensure!(t.drops || t.lax, "{}: element {} was dropped although reading succeeded", who, k);
                }
                ensure!(l.zst_made - l.zst_dropped == v.zsts, "{}: {} elements without size constructed, {} dropped and {} in the result", who, l.zst_made, l.zst_dropped, v.zsts);
                Ok(())
            })?;
            drop(v.keep);
            if let Some(w) = wrong() { return Err(pbt::Fail::new(format!("{}: {}", who, w))); }
            L.with(|l| -> Res {
                let l = l.borrow();
                for (k, n) in l.drops.iter().enumerate() { ensure!(*n == 1, "{}: element {} is dropped {} times with the result", who, k, n); }
                ensure!(l.zst_made == l.zst_dropped, "{}: {} elements without size constructed and {} dropped", who, l.zst_made, l.zst_dropped);
                Ok(())
            })?;
        }
    }
    Ok(())
}
fn main() {
    let mut m = pbt::Main::new("C19", "about two hundred container and composite types over elements with an identity (small, large, over-aligned, without size, with and without a declared minimum), read from six readers with the input cut, an element refusing, an element panicking or the stream failing at a random place; a ledger of every constructed element; non-trivial = distinct faulty inputs by type and reader");
    let t = types();
    m.section("ledger", 2_250_000, 10_000_000, move |s, cx| run(&t, s, cx));
    m.run()
}
