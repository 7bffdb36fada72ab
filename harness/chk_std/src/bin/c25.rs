use chk_std::{end, MyReader, MyWriter, UErr};
use model::codec::varint;
use pbt::io::{Sched, ScriptRead, ScriptWrite, WFault};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// The user's context: a counter, the byte order, and a log of everything that was done with it.
#[derive(Debug)]
struct Hist { be: bool, count: u64, sum: u64, log: Rc<RefCell<Vec<Entry>>> }
/// Which routine saw the context, and in what state.
#[derive(Clone, Debug, PartialEq)]
struct Entry { who: u32, count: u64, be: bool, sum: u64 }
impl Context for Hist { type Error = UErr; fn endianness(&self) -> Endianness { end(self.be) } }
impl Hist {
    fn new(be: bool, start: u64) -> (Hist, Rc<RefCell<Vec<Entry>>>) { let log = Rc::new(RefCell::new(vec![])); (Hist { be, count: start, sum: start * 7, log: log.clone() }, log) }
    /// Everything a routine does with the context.
    fn visit(&mut self, n: &Node) -> Result<(), UErr> {
        self.log.borrow_mut().push(Entry { who: n.val, count: self.count, be: self.be, sum: self.sum });
        self.count += 1;
        self.sum = self.sum.wrapping_mul(31).wrapping_add(n.val as u64);
        match n.op { 1 => self.be = !self.be, 2 => self.be = true, 3 => self.be = false, FAIL => return Err(UErr::User(self.sum ^ 0x5555)), _ => {} }
        Ok(())
    }
}
const FAIL: u8 = 9;
/// A routine that consults and changes the context.
#[derive(Clone, PartialEq, Debug, Default)]
struct Node { op: u8, val: u32, width: u16 }
fn agree<C: Context>(a: Endianness, c: &C) { assert!(a == c.endianness(), "endianness() and context() disagree") }
impl<'a> Readable<'a, Hist> for Node {
    fn read_from<R: Reader<'a, Hist>>(r: &mut R) -> Result<Self, UErr> {
        agree(r.endianness(), r.context());
        let op = r.read_u8()?;
        let val = r.read_u32()?;
        let mut n = Node { op, val, width: 0 };
        r.context_mut().visit(&n)?;
        agree(r.endianness(), r.context());
        n.width = r.read_u16()?;
        Ok(n)
    }
    fn minimum_bytes_needed() -> usize { 7 }
}
impl Writable<Hist> for Node {
    fn write_to<W: ?Sized + Writer<Hist>>(&self, w: &mut W) -> Result<(), UErr> {
        agree(w.endianness(), w.context());
        w.write_u8(self.op)?;
        w.write_u32(self.val)?;
        w.context_mut().visit(self)?;
        agree(w.endianness(), w.context());
        w.write_u16(self.width)
    }
    fn bytes_needed(&self) -> Result<usize, UErr> { Ok(7) }
}
/// The sequential model: what is written, in which state, until something fails.
struct Model { b: Vec<u8>, ctx: Hist, failed: Option<u64>, /** refusals are ignored */ deaf: bool }
impl Model {
    fn new(be: bool, start: u64) -> Model { Model { b: vec![], ctx: Hist::new(be, start).0, failed: None, deaf: false } }
    fn uint(&mut self, v: u128, n: usize) { if self.failed.is_some() { return; } for i in 0..n { let k = if self.ctx.be { n - 1 - i } else { i }; self.b.push((v >> (8 * k)) as u8); } }
    fn raw(&mut self, b: &[u8]) { if self.failed.is_none() { self.b.extend_from_slice(b) } }
}
trait Y: Sized + PartialEq + std::fmt::Debug + 'static {
    fn gen(s: &mut Src) -> Self;
    fn enc(&self, m: &mut Model);
}
impl Y for Node {
    fn gen(s: &mut Src) -> Self { let one_in = REFUSAL.with(|r| r.get()); let refuse = one_in > 0 && s.chance(1, one_in); Node { op: if refuse { FAIL } else { match s.below(9) { 0..=2 => 1, 3 => 2, 4 => 3, _ => 0 } }, val: s.int(32) as u32, width: s.int(16) as u16 } }
    fn enc(&self, m: &mut Model) {
        m.uint(self.op as u128, 1); m.uint(self.val as u128, 4);
        if m.failed.is_none() { if let Err(UErr::User(n)) = m.ctx.visit(self) { if !m.deaf { m.failed = Some(n) } } }
        m.uint(self.width as u128, 2);
    }
}
macro_rules! plain { ($($t:ty, $n:expr;)*) => { $(impl Y for $t { fn gen(s: &mut Src) -> Self { s.int(8 * $n) as $t } fn enc(&self, m: &mut Model) { m.uint(*self as u128, $n) } })* } }
plain! { u8, 1; i8, 1; u16, 2; i16, 2; u32, 4; i32, 4; u64, 8; i64, 8; usize, 8; }
impl Y for u128 { fn gen(s: &mut Src) -> Self { s.u128() } fn enc(&self, m: &mut Model) { m.uint(*self, 16) } }
impl Y for char { fn gen(s: &mut Src) -> Self { model::std_types::gen_char(s) } fn enc(&self, m: &mut Model) { m.uint(*self as u128, 4) } }
impl Y for bool { fn gen(s: &mut Src) -> Self { s.bool() } fn enc(&self, m: &mut Model) { m.uint(*self as u128, 1) } }
impl Y for f32 { fn gen(s: &mut Src) -> Self { s.int(20) as f32 } fn enc(&self, m: &mut Model) { m.uint(self.to_bits() as u128, 4) } }
impl Y for f64 { fn gen(s: &mut Src) -> Self { s.int(40) as f64 } fn enc(&self, m: &mut Model) { m.uint(self.to_bits() as u128, 8) } }
impl Y for String { fn gen(s: &mut Src) -> Self { let n = s.usize_below(9); (0..n).map(|_| model::std_types::gen_char(s)).collect() } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); m.raw(self.as_bytes()) } }
impl Y for () { fn gen(_: &mut Src) -> Self {} fn enc(&self, _: &mut Model) {} }
#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Pk { a: u16, b: i16, c: u32 }
impl Y for Pk { fn gen(s: &mut Src) -> Self { Pk { a: Y::gen(s), b: Y::gen(s), c: Y::gen(s) } } fn enc(&self, m: &mut Model) { self.a.enc(m); (self.b as u16).enc(m); self.c.enc(m) } }
#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)]
#[repr(packed)]
struct Pp { a: u8, b: u64 }
impl Y for Pp { fn gen(s: &mut Src) -> Self { Pp { a: Y::gen(s), b: Y::gen(s) } } fn enc(&self, m: &mut Model) { self.a.enc(m); ({ self.b }).enc(m) } }
impl<T: Y> Y for Vec<T> { fn gen(s: &mut Src) -> Self { let n = s.len(); s.nested(n, |s| (0..n).map(|_| T::gen(s)).collect()) } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for x in self { x.enc(m) } } }
impl<T: Y> Y for Box<[T]> { fn gen(s: &mut Src) -> Self { Vec::<T>::gen(s).into() } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for x in self.iter() { x.enc(m) } } }
impl<T: Y + Clone> Y for Cow<'static, [T]> { fn gen(s: &mut Src) -> Self { Cow::Owned(Vec::<T>::gen(s)) } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for x in self.iter() { x.enc(m) } } }
impl<T: Y> Y for smallvec::SmallVec<[T; 2]> { fn gen(s: &mut Src) -> Self { Vec::<T>::gen(s).into() } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for x in self.iter() { x.enc(m) } } }
impl<T: Y> Y for Option<T> { fn gen(s: &mut Src) -> Self { if s.chance(3, 4) { Some(T::gen(s)) } else { None } } fn enc(&self, m: &mut Model) { match self { None => m.uint(0, 1), Some(x) => { m.uint(1, 1); x.enc(m) } } } }
impl<T: Y, U: Y> Y for Result<T, U> { fn gen(s: &mut Src) -> Self { if s.bool() { Ok(T::gen(s)) } else { Err(U::gen(s)) } } fn enc(&self, m: &mut Model) { match self { Err(x) => { m.uint(0, 1); x.enc(m) } Ok(x) => { m.uint(1, 1); x.enc(m) } } } }
impl<T: Y> Y for Box<T> { fn gen(s: &mut Src) -> Self { Box::new(T::gen(s)) } fn enc(&self, m: &mut Model) { (**self).enc(m) } }
impl<T: Y, const N: usize> Y for [T; N] { fn gen(s: &mut Src) -> Self { std::array::from_fn(|_| T::gen(s)) } fn enc(&self, m: &mut Model) { for x in self { x.enc(m) } } }
impl<T: Y> Y for std::ops::Range<T> { fn gen(s: &mut Src) -> Self { T::gen(s)..T::gen(s) } fn enc(&self, m: &mut Model) { self.start.enc(m); self.end.enc(m) } }
impl<T: Y> Y for std::ops::RangeInclusive<T> { fn gen(s: &mut Src) -> Self { T::gen(s)..=T::gen(s) } fn enc(&self, m: &mut Model) { self.start().enc(m); self.end().enc(m) } }
impl<K: Y + Ord, T: Y> Y for BTreeMap<K, T> { fn gen(s: &mut Src) -> Self { let n = s.len(); s.nested(n, |s| (0..n).map(|_| (K::gen(s), T::gen(s))).collect()) } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for (k, x) in self { k.enc(m); x.enc(m) } } }
impl<T: Y + Ord> Y for BTreeSet<T> { fn gen(s: &mut Src) -> Self { let n = s.len(); (0..n).map(|_| T::gen(s)).collect() } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for x in self { x.enc(m) } } }
impl<K: Y + Eq + std::hash::Hash, T: Y> Y for indexmap_v2::IndexMap<K, T> { fn gen(s: &mut Src) -> Self { let n = s.len(); s.nested(n, |s| (0..n).map(|_| (K::gen(s), T::gen(s))).collect()) } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for (k, x) in self { k.enc(m); x.enc(m) } } }
impl<K: Y + Eq + std::hash::Hash, T: Y> Y for indexmap_v1::IndexMap<K, T> { fn gen(s: &mut Src) -> Self { let n = s.len(); s.nested(n, |s| (0..n).map(|_| (K::gen(s), T::gen(s))).collect()) } fn enc(&self, m: &mut Model) { m.uint(self.len() as u128, 4); for (k, x) in self { k.enc(m); x.enc(m) } } }
macro_rules! tuple { ($($($n:ident $k:tt),*;)*) => { $(impl<$($n: Y),*> Y for ($($n,)*) { fn gen(s: &mut Src) -> Self { ($($n::gen(s),)*) } fn enc(&self, m: &mut Model) { $(self.$k.enc(m);)* } })* } }
tuple! { A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; A 0, B 1, C 2, D 3, E 4, F 5, G 6; }

fn few<T: Y>(s: &mut Src, max: usize) -> Vec<T> { let n = s.len().min(max); s.nested(n, |s| (0..n).map(|_| T::gen(s)).collect()) }
#[derive(Readable, Writable, PartialEq, Debug)]
struct Plain<T> { a: T, b: u32, c: T, d: u16, e: u64 }
impl Y for Plain<Node> {
    fn gen(s: &mut Src) -> Self { Plain { a: Y::gen(s), b: Y::gen(s), c: Y::gen(s), d: Y::gen(s), e: Y::gen(s) } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); x.b.enc(o); x.c.enc(o); x.d.enc(o); x.e.enc(o) } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
struct Bulk<T> { a: T, b: Vec<u16>, c: T, d: [u32; 3], e: T, f: String, g: Vec<Pk>, h: T, i: Vec<Pp>, j: u128 }
impl Y for Bulk<Node> {
    fn gen(s: &mut Src) -> Self { Bulk { a: Y::gen(s), b: Y::gen(s), c: Y::gen(s), d: Y::gen(s), e: Y::gen(s), f: Y::gen(s), g: Y::gen(s), h: Y::gen(s), i: Y::gen(s), j: Y::gen(s) } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); x.b.enc(o); x.c.enc(o); x.d.enc(o); x.e.enc(o); x.f.enc(o); x.g.enc(o); x.h.enc(o); x.i.enc(o); x.j.enc(o) } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
struct Lengths<T> { a: T, #[speedy(length_type = u16)] b: Vec<T>, n: u8, #[speedy(length = n)] c: Vec<T>, #[speedy(length_type = u64)] d: Vec<u32>, e: T, #[speedy(length_type = u64_varint)] f: Vec<T>, #[speedy(varint)] v: u64, g: T, #[speedy(length_type = u8)] h: String, m: u16, #[speedy(length = m)] i: Vec<u64>, #[speedy(length_type = u16)] j: BTreeMap<u16, T> }
impl Y for Lengths<Node> {
    fn gen(s: &mut Src) -> Self { { let c: Vec<Node> = few(s, 200); let i: Vec<u64> = few(s, 200); Lengths { a: Y::gen(s), b: Y::gen(s), n: c.len() as u8, c, d: Y::gen(s), e: Y::gen(s), f: few(s, 120), v: s.int(64), g: Y::gen(s), h: Y::gen(s), m: i.len() as u16, i, j: Y::gen(s) } } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); o.uint(x.b.len() as u128, 2); for y in &x.b { y.enc(o) } o.uint(x.n as u128, 1); for y in &x.c { y.enc(o) } o.uint(x.d.len() as u128, 8); for y in &x.d { y.enc(o) } x.e.enc(o); o.raw(&varint(x.f.len() as u64)); for y in &x.f { y.enc(o) } o.raw(&varint(x.v)); x.g.enc(o); o.uint(x.h.len() as u128, 1); o.raw(x.h.as_bytes()); o.uint(x.m as u128, 2); for y in &x.i { y.enc(o) } o.uint(x.j.len() as u128, 2); for (k, y) in &x.j { k.enc(o); y.enc(o) } } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
struct Marks<T> { a: T, #[speedy(constant_prefix = "\x01\x02")] b: T, #[speedy(skip)] c: Option<u32>, d: Option<T>, e: (u16, T, u32), f: Box<T>, #[speedy(length_type = u8)] g: Option<Vec<T>>, h: u16 }
impl Y for Marks<Node> {
    fn gen(s: &mut Src) -> Self { Marks { a: Y::gen(s), b: Y::gen(s), c: None, d: Y::gen(s), e: Y::gen(s), f: Y::gen(s), g: if s.bool() { Some(few(s, 200)) } else { None }, h: Y::gen(s) } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); o.raw(&[1, 2]); x.b.enc(o); x.d.enc(o); x.e.enc(o); x.f.enc(o); match &x.g { None => o.uint(0, 1), Some(v) => { o.uint(1, 1); o.uint(v.len() as u128, 1); for y in v { y.enc(o) } } } x.h.enc(o) } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
struct Rest<T> { a: T, b: u32, #[speedy(length = ..)] c: Vec<T> }
impl Y for Rest<Node> {
    fn gen(s: &mut Src) -> Self { Rest { a: Y::gen(s), b: Y::gen(s), c: Y::gen(s) } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); x.b.enc(o); for y in &x.c { y.enc(o) } } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
struct RestMap<T> { a: T, #[speedy(length = ..)] c: BTreeMap<u16, T> }
impl Y for RestMap<Node> {
    fn gen(s: &mut Src) -> Self { RestMap { a: Y::gen(s), c: Y::gen(s) } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); for (k, y) in &x.c { k.enc(o); y.enc(o) } } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
struct Late<T> where T: Default { a: u16, #[speedy(default_on_eof)] b: T, #[speedy(default_on_eof)] c: Vec<T>, #[speedy(default_on_eof)] d: u32 }
impl Y for Late<Node> {
    fn gen(s: &mut Src) -> Self { Late { a: Y::gen(s), b: Y::gen(s), c: Y::gen(s), d: Y::gen(s) } }
    fn enc(&self, o: &mut Model) { let x = self; { x.a.enc(o); x.b.enc(o); x.c.enc(o); x.d.enc(o) } }
}
#[derive(Readable, Writable, PartialEq, Debug)]
#[speedy(tag_type = u16)]
enum Choice<T> { A(T, u32), B { x: u16, y: Vec<T>, z: u16 }, #[speedy(tag = 0x0102)] C, D(Box<(T, T)>, u64) }
impl Y for Choice<Node> {
    fn gen(s: &mut Src) -> Self { match s.below(4) { 0 => Choice::A(Y::gen(s), Y::gen(s)), 1 => Choice::B { x: Y::gen(s), y: Y::gen(s), z: Y::gen(s) }, 2 => Choice::C, _ => Choice::D(Y::gen(s), Y::gen(s)) } }
    fn enc(&self, o: &mut Model) { match self { Choice::A(a, b) => { o.uint(0, 2); a.enc(o); b.enc(o) } Choice::B { x, y, z } => { o.uint(1, 2); x.enc(o); y.enc(o); z.enc(o) } Choice::C => o.uint(0x102, 2), Choice::D(a, b) => { o.uint(0x103, 2); a.enc(o); b.enc(o) } } }
}
/// A hand-written routine that calls others and looks at the context between them.
#[derive(PartialEq, Debug)]
struct Outer { a: Node, list: Vec<u32>, b: Node, more: Vec<Node>, c: Node, tail: u64 }
impl<'a> Readable<'a, Hist> for Outer {
    fn read_from<R: Reader<'a, Hist>>(r: &mut R) -> Result<Self, UErr> {
        let a: Node = r.read_value()?;
        let n = r.read_u16()? as usize;
        let list = r.read_vec(n)?;
        let before = r.context().count;
        let b: Node = r.read_value()?;
        assert!(r.context().count == before + 1, "a routine's change to the context is lost");
        let n = r.read_u64_varint()? as usize;
        let more: Vec<Node> = r.read_collection(n)?;
        assert!(r.context().count == before + 1 + n as u64, "changes made within a collection are lost");
        let c = Node::read_from(r)?;
        Ok(Outer { a, list, b, more, c, tail: r.read_u64()? })
    }
}
impl Writable<Hist> for Outer {
    fn write_to<W: ?Sized + Writer<Hist>>(&self, w: &mut W) -> Result<(), UErr> {
        w.write_value(&self.a)?;
        w.write_u16(self.list.len() as u16)?;
        w.write_slice(&self.list)?;
        let before = w.context().count;
        w.write_value(&self.b)?;
        assert!(w.context().count == before + 1, "a routine's change to the context is lost");
        w.write_u64_varint(self.more.len() as u64)?;
        w.write_collection(&self.more)?;
        assert!(w.context().count == before + 1 + self.more.len() as u64, "changes made within a collection are lost");
        self.c.write_to(w)?;
        w.write_u64(self.tail)
    }
}
impl Y for Outer {
    fn gen(s: &mut Src) -> Self { Outer { a: Y::gen(s), list: Y::gen(s), b: Y::gen(s), more: Y::gen(s), c: Y::gen(s), tail: Y::gen(s) } }
    fn enc(&self, m: &mut Model) { self.a.enc(m); m.uint(self.list.len() as u128, 2); for x in &self.list { x.enc(m) } self.b.enc(m); m.raw(&varint(self.more.len() as u64)); for x in &self.more { x.enc(m) } self.c.enc(m); self.tail.enc(m) }
}
/// Brings its own size prediction, as a routine that consults the context has to.
struct Root<'x, T> { v: &'x T, size: usize }
impl<'x, T: Writable<Hist>> Writable<Hist> for Root<'x, T> {
    fn write_to<W: ?Sized + Writer<Hist>>(&self, w: &mut W) -> Result<(), UErr> { w.write_value(self.v) }
    fn bytes_needed(&self) -> Result<usize, UErr> { Ok(self.size) }
}

/// Types with parts which an end of input completes.
const LAX: &[&str] = &["Late", "Rest"];
const READERS: &[&str] = &["read_from_buffer", "read_with_length_from_buffer", "read_from_buffer_copying_data", "read_with_length_from_buffer_copying_data", "read_with_length_from_buffer_copying_data_with_ctx_mut", "read_from_stream_unbuffered", "read_from_stream_buffered", "user's reader", "read_from_file"];
const WRITERS: &[&str] = &["write_to_vec", "write_to_vec_with_ctx_mut", "write_to_buffer", "write_to_buffer_with_ctx_mut", "write_to_stream", "user's writer", "write_to_file"];
type Log = Rc<RefCell<Vec<Entry>>>;
/// What the caller's context must be after a call which succeeded, or failed with the user's own error.
fn after(who: &str, c: &Hist, m: &Hist) -> Res { ensure!(c.be == m.be && c.count == m.count && c.sum == m.sum, "{}: the caller's context ends with byte order {}, count {} and sum {:x} instead of {}, {} and {:x}", who, if c.be { "big" } else { "little" }, c.count, c.sum, if m.be { "big" } else { "little" }, m.count, m.sum); Ok(()) }
#[derive(PartialEq, Clone, Copy, Debug)]
enum Plan { Whole, /** a routine raises an error */ Own, /** the input or the room ends early */ Cut(usize) }
fn check_log(who: &str, log: &Log, model: &[Entry], plan: Plan) -> Res {
    let l = log.borrow();
    let ok = match plan { Plan::Cut(_) => model.starts_with(&l), _ => *l == *model };
    if !ok {
        let k = l.iter().zip(model).take_while(|(a, b)| a == b).count();
        fail!("{}: routine call {} finds the context in the state {:?} instead of {:?} ({} calls instead of {})", who, k, l.get(k), model.get(k), l.len(), model.len());
    }
    Ok(())
}
fn check_err(who: &str, e: UErr, m: &Model, plan: Plan, eof: bool) -> Res {
    match (plan, e) {
        (Plan::Own, UErr::User(n)) => ensure!(Some(n) == m.failed, "{}: the error of the user's routine comes back as {:x} instead of {:x?}", who, n, m.failed),
        (Plan::Own, UErr::Lib(e)) => fail!("{}: the error of the user's routine comes back as an error of the library: {}", who, e),
        (Plan::Whole, UErr::Lib(e)) => fail!("{}: fails with: {}", who, e),
        (Plan::Whole, UErr::User(n)) => fail!("{}: fails with the user's error {:x} which no routine raised", who, n),
        (Plan::Cut(_), UErr::Lib(e)) => ensure!(!eof || e.is_eof(), "{}: cut short, it fails with: {}", who, e),
        (Plan::Cut(_), UErr::User(n)) => fail!("{}: cut short, it fails with the user's error {:x} which no routine raised", who, n),
    }
    Ok(())
}
fn read<T: Y + Readable<'static, Hist>>(name: &str, s: &mut Src, v: &T, be: bool, start: u64, m: &Model, enc: &[u8], plan: Plan, lax: bool) -> Res {
    let how = { let k = s.usize_below(40); if k == 8 { 8 } else { k % 8 } };
    let who = format!("{} with {}, {:?}", name, READERS[how], plan);
    let (ctx, log) = Hist::new(be, start);
    let data = match plan { Plan::Cut(n) => &enc[..n], _ => enc };
    let sched = Sched::gen(s, true);
    let (r, n) = pbt::sys::with_guard(0, |g| -> Result<(Result<T, UErr>, Option<usize>), pbt::Fail> {
        let b = g.end(data, 0);
        Ok(match how {
            0 => (T::read_from_buffer_with_ctx(ctx, b), None),
            1 => { let (r, n) = T::read_with_length_from_buffer_with_ctx(ctx, b); (r, Some(n)) }
            2 => (T::read_from_buffer_copying_data_with_ctx(ctx, b), None),
            3 => { let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx(ctx, b); (r, Some(n)) }
            4 => { let mut c = ctx; let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, b); if matches!((&r, plan), (Ok(_), Plan::Whole) | (Err(_), Plan::Own)) { after(&who, &c, &m.ctx)?; } else { ensure!(c.count == start + log.borrow().len() as u64, "{}: the caller's context has lost changes", who); } (r, Some(n)) }
            5 => (T::read_from_stream_unbuffered_with_ctx(ctx, ScriptRead::new(b, sched)), None),
            6 => (T::read_from_stream_buffered_with_ctx(ctx, ScriptRead::new(b, sched)), None),
            7 => { let mut r = MyReader { data: b, pos: 0, ctx, hint: s.bool() }; let x = T::read_from(&mut r); if x.is_ok() && plan == Plan::Whole { after(&who, &r.ctx, &m.ctx)?; } let n = r.pos; (x, Some(n)) }
            _ => { let p = model::props::tmp("c25"); std::fs::write(&p.0, b).unwrap(); (T::read_from_file_with_ctx(ctx, &p.0), None) }
        })
    })?;
    match r {
        Ok(x) => {
            if lax && plan != Plan::Whole { return Ok(()); }
            ensure!(plan == Plan::Whole, "{}: succeeds", who);
            ensure!(x == *v, "{}: gives {:?} instead of {:?}", who, x, v);
            if let Some(n) = n { ensure!(n == enc.len(), "{}: consumes {} bytes of {}", who, n, enc.len()); }
        }
        Err(e) => check_err(&who, e, m, plan, true)?,
    }
    check_log(&who, &log, &m.ctx.log.borrow(), plan)
}
fn write<T: Y + Writable<Hist>>(name: &str, s: &mut Src, v: &T, be: bool, start: u64, m: &Model, plan: Plan) -> Res {
    let mut how = { let k = s.usize_below(60); if k == 6 { 6 } else { k % 6 } };
    if plan != Plan::Whole && how == 6 { how = 4; }
    let room = match plan { Plan::Cut(n) => n, _ => m.b.len() };
    let who = format!("{} with {}, {:?}", name, WRITERS[how], plan);
    let (ctx, log) = Hist::new(be, start);
    // an own error strikes before all is written; predict more than enough then, which the failing call cannot notice
    let t = Root { v, size: if plan == Plan::Own { m.b.len() + 64 } else if how < 4 { room } else { m.b.len() } };
    let done = |c: &Hist, r: &Result<(), UErr>| -> Res { if matches!((r, plan), (Ok(_), Plan::Whole) | (Err(_), Plan::Own)) { after(&who, c, &m.ctx) } else { ensure!(c.count == start + log.borrow().len() as u64, "{}: the caller's context has lost changes", who); Ok(()) } };
    let mut out: Vec<u8> = vec![];
    let r: Result<(), UErr> = match how {
        0 => t.write_to_vec_with_ctx(ctx).map(|b| out = b),
        1 => { let mut c = ctx; let r = t.write_to_vec_with_ctx_mut(&mut c).map(|b| out = b); done(&c, &r)?; r }
        2 | 3 => {
            let extra = s.usize_below(4);
            let (mut r, mut c) = (Ok(()), ctx);
            pbt::sys::with_guard(1, |g| -> Res {
                let b = g.end_mut(t.size + extra, 0xcc);
                if how == 2 { r = t.write_to_buffer_with_ctx(std::mem::replace(&mut c, Hist::new(be, 0).0), b); }
                else { r = t.write_to_buffer_with_ctx_mut(&mut c, b); done(&c, &r)?; }
                out = b[..t.size].to_vec();
                Ok(())
            })?;
            if r.is_err() { out.clear(); }
            r
        }
        4 => { let mut w = ScriptWrite::new(Sched::gen(s, true)); if let Plan::Cut(n) = plan { w.fault = Some((n, WFault::Err(std::io::ErrorKind::StorageFull))); } let r = t.write_to_stream_with_ctx(ctx, &mut w); out = w.out; r }
        5 => { let mut w = MyWriter { out: vec![], ctx, room: Some(room) }; let r = t.write_to(&mut w); done(&w.ctx, &r)?; out = w.out; r }
        _ => { let p = model::props::tmp("c25"); let r = t.write_to_file_with_ctx(ctx, &p.0); out = std::fs::read(&p.0).unwrap_or_default(); r }
    };
    match r {
        Ok(()) => { ensure!(plan == Plan::Whole, "{}: succeeds", who); ensure!(out == m.b, "{}: writes {} instead of {}", who, hex(&out), hex(&m.b)); }
        Err(e) => { check_err(&who, e, m, plan, false)?; ensure!(m.b.starts_with(&out), "{}: wrote {}, which is no prefix of {}", who, hex(&out), hex(&m.b)); }
    }
    check_log(&who, &log, &m.ctx.log.borrow(), plan)
}
type Check = fn(&'static str, &mut Src, &mut Cx) -> Res;
struct Yt { name: &'static str, run: Check, failing: Check }
fn yt<T: Y + Readable<'static, Hist> + Writable<Hist>>(name: &'static str) -> Yt { Yt { name, run: run::<T>, failing: failing::<T> } }
fn run<T: Y + Readable<'static, Hist> + Writable<Hist>>(name: &'static str, s: &mut Src, cx: &mut Cx) -> Res {
    s.scale_small();
    if s.chance(1, 25) { s.budget = 500; }
    let be = s.bool();
    let start = s.int(20);
    let v = T::gen(s);
    let mut m = Model::new(be, start);
    v.enc(&mut m);
    let visits = m.ctx.log.borrow().len();
    cx.note(|| format!("{}, {} endian at first, counter {}: {:?}", name, if be { "big" } else { "little" }, start, v));
    if visits > 0 { cx.nontrivial(name, &m.b); cx.label(name); }
    for _ in 0..3 {
        read(name, s, &v, be, start, &m, &m.b, Plan::Whole, false)?;
        write(name, s, &v, be, start, &m, Plan::Whole)?;
    }
    let lax = LAX.iter().any(|x| name.contains(x));
    if !m.b.is_empty() {
        let n = s.usize_below(m.b.len());
        read(name, s, &v, be, start, &m, &m.b, Plan::Cut(n), lax)?;
        let n = s.usize_below(m.b.len());
        write(name, s, &v, be, start, &m, Plan::Cut(n))?;
    }
    Ok(())
}
thread_local! { static REFUSAL: Cell<u64> = const { Cell::new(0) }; }
/// The same with routines, somewhere, that refuse.
fn failing<T: Y + Readable<'static, Hist> + Writable<Hist>>(name: &'static str, s: &mut Src, cx: &mut Cx) -> Res {
    s.scale_small();
    let be = s.bool();
    let start = s.int(20);
    let one_in = *s.pick(&[2, 5, 20, 100]);
    REFUSAL.with(|r| r.set(one_in));
    let v = T::gen(s);
    REFUSAL.with(|r| r.set(0));
    let mut m = Model::new(be, start);
    v.enc(&mut m);
    cx.note(|| format!("{}, {} endian at first, counter {}, refused as {:x?}: {:?}", name, if be { "big" } else { "little" }, start, m.failed, v));
    let Some(n) = m.failed else { return Ok(()) };
    // an end of input is what some fields are there to take
    if UErr::User(n).is_eof() && LAX.iter().any(|x| name.contains(x)) { return Ok(()); }
    cx.nontrivial(name, &m.b);
    cx.label(name);
    // behind the refusal there is as much as the complete encoding would have, and it does not matter what
    let mut whole = Model::new(be, start);
    whole.deaf = true;
    v.enc(&mut whole);
    let mut enc = m.b.clone();
    let fill = *s.pick(&[0u8, 1, 0xff]);
    enc.resize(whole.b.len() + s.usize_below(20), fill);
    for _ in 0..2 {
        read(name, s, &v, be, start, &m, &enc, Plan::Own, false)?;
        write(name, s, &v, be, start, &m, Plan::Own)?;
    }
    Ok(())
}
fn types() -> Vec<Yt> {
    macro_rules! yts { ($($t:ty),* $(,)?) => { vec![$(yt::<$t>(stringify!($t))),*] } }
    type N = Node;
    yts![N, Vec<N>, Box<[N]>, Cow<'static, [N]>, smallvec::SmallVec<[N; 2]>, Option<N>, Result<N, (N, u16)>, Box<N>, [N; 1], [N; 5], (N,), (u8, N, u16), (N, u64, N, Vec<u16>, N, f64, char), std::ops::Range<N>, std::ops::RangeInclusive<N>, BTreeMap<u16, N>, indexmap_v1::IndexMap<u32, N>, indexmap_v2::IndexMap<u64, N>,
        Vec<(N, u16)>, Vec<Vec<N>>, Vec<Option<N>>, [Vec<N>; 2], Option<Vec<(u32, N)>>, (N, Vec<u16>), (N, [u32; 4]), (N, Vec<Pk>), (N, Vec<Pp>), (N, BTreeMap<u16, u32>), (N, BTreeSet<u64>), (N, Cow<'static, [u64]>), (N, Box<[f32]>), (N, String, u16), Vec<(N, Vec<i16>)>, Vec<(N, usize)>, (N, Option<u64>, N, Result<u16, u32>, N), Vec<(u128, N)>, BTreeMap<u8, Vec<N>>,
        Plain<N>, Plain<N>, Bulk<N>, Bulk<N>, Lengths<N>, Lengths<N>, Marks<N>, Marks<N>, Rest<N>, RestMap<N>, Late<N>, Choice<N>, Choice<N>, Outer, Outer, Vec<Plain<N>>, Vec<Choice<N>>, Box<[Bulk<N>]>, Option<Lengths<N>>, (Outer, Plain<N>), [Choice<N>; 3], Vec<Outer>, BTreeMap<u16, Marks<N>>]
}
fn main() {
    let mut m = pbt::Main::new("C25", "the value contains at least one routine which consults and may change the context (errors: at least one which refuses); distinct by type and encoding");
    m.section("history", 600_000, 4_000_000, |s, cx| { let t = types(); let i = s.cycle(t.len()); (t[i].run)(t[i].name, s, cx) });
    m.section("errors", 600_000, 4_000_000, |s, cx| { let t = types(); let i = s.cycle(t.len()); (t[i].failing)(t[i].name, s, cx) });
    m.run()
}
