use chk_std::*;
use model::{Out, M};
use pbt::io::{Sched, ScriptWrite};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{BigEndian, Context, Endianness, Error, LittleEndian, Readable, Writable, Writer};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Pk { a: u16, b: u8, c: u8 }
impl M for Pk {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { Pk { a: s.int(16) as u16, b: s.int(8) as u8, c: s.int(8) as u8 } }
    fn enc(&self, o: &mut Out) { o.u16(self.a); o.u8(self.b); o.u8(self.c) }
    fn dec(_: &mut model::In) -> Result<Self, model::DE> { unreachable!() }
}
#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Padded { a: u8, b: u32, c: u16 }
impl M for Padded {
    const MIN: usize = 7;
    fn gen(s: &mut Src) -> Self { Padded { a: s.int(8) as u8, b: s.int(32) as u32, c: s.int(16) as u16 } }
    fn enc(&self, o: &mut Out) { o.u8(self.a); o.u32(self.b); o.u16(self.c) }
    fn dec(_: &mut model::In) -> Result<Self, model::DE> { unreachable!() }
}
#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)]
#[repr(packed)]
struct Pp { a: u8, b: u32 }
impl M for Pp {
    const MIN: usize = 5;
    fn gen(s: &mut Src) -> Self { Pp { a: s.int(8) as u8, b: s.int(32) as u32 } }
    fn enc(&self, o: &mut Out) { o.u8(self.a); o.u32({ self.b }) }
    fn dec(_: &mut model::In) -> Result<Self, model::DE> { unreachable!() }
}
#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)]
#[repr(transparent)]
struct Tw(u64);
impl M for Tw {
    const MIN: usize = 8;
    fn gen(s: &mut Src) -> Self { Tw(s.int(64)) }
    fn enc(&self, o: &mut Out) { o.u64(self.0) }
    fn dec(_: &mut model::In) -> Result<Self, model::DE> { unreachable!() }
}
#[derive(Readable, Writable, Clone, PartialEq, Debug)]
enum Shape { Nothing, Dot(u16), #[speedy(tag = 9)] Line { from: u8, #[speedy(length_type = u8)] to: Vec<u16> } }
impl M for Shape {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { match s.below(3) { 0 => Shape::Nothing, 1 => Shape::Dot(s.int(16) as u16), _ => Shape::Line { from: s.int(8) as u8, to: { let n = s.usize_below(4); (0..n).map(|_| s.int(16) as u16).collect() } } } }
    fn enc(&self, o: &mut Out) { match self { Shape::Nothing => o.u32(0), Shape::Dot(x) => { o.u32(1); o.u16(*x) } Shape::Line { from, to } => { o.u32(9); o.u8(*from); o.u8(to.len() as u8); for x in to { o.u16(*x) } } } }
    fn dec(_: &mut model::In) -> Result<Self, model::DE> { unreachable!() }
}

macro_rules! kinds {
    ($($n:ident = $k:expr, $t:ty;)*) => {
        #[derive(Clone, Debug)]
        enum Val { $($n($t)),* }
        #[derive(Clone, Debug)]
        enum Vals { $($n(Vec<$t>)),* }
        impl Val {
            fn gen(s: &mut Src, k: usize) -> Val { match k { $($k => Val::$n(M::gen(s)),)* _ => unreachable!() } }
            fn enc(&self, o: &mut Out) { match self { $(Val::$n(x) => x.enc(o)),* } }
            fn put<C: Context, W: ?Sized + Writer<C>>(&self, w: &mut W, by_ref: bool) -> Result<(), C::Error> { match self { $(Val::$n(x) => if by_ref { w.write_value(&x) } else { w.write_value(x) }),* } }
            fn direct<C: Context, W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { match self { $(Val::$n(x) => x.write_to(w)),* } }
        }
        impl Vals {
            fn gen(s: &mut Src, k: usize, n: usize) -> Vals { match k { $($k => Vals::$n((0..n).map(|_| M::gen(s)).collect()),)* _ => unreachable!() } }
            fn enc(&self, o: &mut Out) { match self { $(Vals::$n(v) => for x in v { x.enc(o) }),* } }
            fn len(&self) -> usize { match self { $(Vals::$n(v) => v.len()),* } }
            fn slice<C: Context, W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { match self { $(Vals::$n(v) => w.write_slice(v)),* } }
            fn coll<C: Context, W: ?Sized + Writer<C>>(&self, w: &mut W, how: usize) -> Result<(), C::Error> { match self { $(Vals::$n(v) => match how { 0 => w.write_collection(v), 1 => w.write_collection(v.clone()), _ => w.write_collection(v.iter().filter(|_| true)) }),* } }
            fn counted<C: Context, W: ?Sized + Writer<C>>(&self, w: &mut W, how: usize) -> Result<(), C::Error> { match self { $(Vals::$n(v) => match how { 0 => w.write_value(v), 1 => v[..].write_to(w), 2 => w.write_value(&&v[..]), 3 => w.write_value(&v.clone().into_boxed_slice()), _ => w.write_value(&Cow::Borrowed(&v[..])) }),* } }
        }
        const KINDS: usize = [$($k),*].len();
    }
}
kinds! {
    U8 = 0, u8; I8 = 1, i8; U16 = 2, u16; I16 = 3, i16; U32 = 4, u32; I32 = 5, i32; U64 = 6, u64; I64 = 7, i64; U128 = 8, u128; I128 = 9, i128; F32 = 10, f32; F64 = 11, f64;
    Bool = 12, bool; Char = 13, char; Str = 14, String; Pair = 15, (u8, u16); Arr = 16, [u16; 3]; Opt = 17, Option<u32>; Pkt = 18, Pk; Pad = 19, Padded; Pack = 20, Pp; Trans = 21, Tw;
    Enum = 22, Shape; Unit = 23, (); Vec16 = 24, Vec<u16>; Map = 25, BTreeMap<u8, u16>; Res = 26, Result<u16, u8>; Size = 27, usize; Nz = 28, std::num::NonZeroU32; Set = 29, BTreeSet<i16>;
    Nest = 30, Vec<Vec<u8>>; Big = 31, [u64; 40]; Tup = 32, (u8, (u16, Option<u64>), [i8; 2]); Rng = 33, std::ops::Range<u16>; Dur = 34, std::time::Duration; BoxS = 35, Box<str>;
}

#[derive(Clone, Debug)]
enum Op {
    Bytes(Vec<u8>), Prim(usize, u128), Var(u64), Value(Val, bool), Direct(Val), Slice(Vals), Coll(Vals, usize), Counted(Vals, usize), Text(String, usize),
    Nested(Vec<Op>, usize), Can(usize), Endian, EndianByte, Set(bool), Fail,
}
/// A reference of the size of the encoding; the order of bytes does not matter here.
fn enc(ops: &[Op], o: &mut Out) -> bool {
    for op in ops {
        match op {
            Op::Bytes(b) => o.raw(b),
            Op::Prim(k, v) => o.uint(*v, [1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 4, 8][*k]),
            Op::Var(v) => o.varint(*v),
            Op::Value(v, _) | Op::Direct(v) => v.enc(o),
            Op::Slice(v) | Op::Coll(v, _) => v.enc(o),
            Op::Counted(v, _) => { o.u32(v.len() as u32); v.enc(o) }
            Op::Text(t, _) => { o.u32(t.len() as u32); o.raw(t.as_bytes()) }
            Op::Nested(ops, how) => {
                let half = ops.len() / 2;
                match how {
                    0 => if !enc(ops, o) { return false; },
                    1 => { o.u8(0x51); if !enc(ops, o) { return false; } o.u16(0x6172) }
                    2 => { o.u32(2); if !enc(&ops[..half], o) || !enc(&ops[half..], o) { return false; } }
                    3 => { o.u8(1); if !enc(ops, o) { return false; } }
                    4 => { o.u16(0x1122); if !enc(&ops[..half], o) { return false; } o.u32(0x33445566); o.u32(1); if !enc(&ops[half..], o) { return false; } }
                    5 => { o.u32(3); if !enc(&ops[..half], o) { return false; } o.u64(5); if !enc(&ops[half..], o) { return false; } }
                    6 => { if !enc(&ops[..half], o) || !enc(&ops[half..], o) { return false; } }
                    7 => { o.u32(2); o.u16(0x0100); if !enc(&ops[..half], o) { return false; } o.u16(0x0201); if !enc(&ops[half..], o) { return false; } }
                    _ => { o.u8(0); if !enc(ops, o) { return false; } }
                }
            }
            Op::Can(_) | Op::Endian => {}
            Op::EndianByte => { let b = o.be; o.u8(b as u8) }
            Op::Set(be) => o.be = *be,
            Op::Fail => return false,
        }
    }
    true
}
#[derive(Debug, Clone, PartialEq)]
enum Obs { Can(usize, Option<bool>), Endian(bool) }
thread_local! { static LOG: RefCell<Vec<(usize, Obs)>> = const { RefCell::new(Vec::new()) }; static WATCH: RefCell<usize> = const { RefCell::new(0) }; }
thread_local! { static SETTER: std::cell::Cell<unsafe fn(*mut (), bool)> = const { std::cell::Cell::new(set_none) }; }
unsafe fn set_none(_: *mut (), _: bool) { unreachable!() }
unsafe fn set_ctx<C: Ctl>(c: *mut (), be: bool) { (*(c as *mut C)).set(be) }
/// Every context of a case is of the type `use_ctx` was called with.
fn set_order<C: Context>(c: &mut C, be: bool) { unsafe { SETTER.with(|x| x.get())(c as *mut C as *mut (), be) } }
fn use_ctx<C: Ctl>() { SETTER.with(|x| x.set(set_ctx::<C>)) }
fn log(o: Obs) { let w = WATCH.with(|x| *x.borrow()); LOG.with(|x| x.borrow_mut().push((w, o))) }
#[derive(Writable)]
struct Fields { a: u16, p: Plain, b: u32, #[speedy(length_type = u32)] q: Vec<Plain> }
#[derive(Writable)]
enum Choice { #[allow(dead_code)] X, #[speedy(tag = 3)] Y(Plain, u64, Plain) }

fn put<C: Context, W: ?Sized + Writer<C>>(ops: &[Op], w: &mut W, on: bool) -> Result<(), C::Error> {
    for op in ops {
        let r = match op {
            Op::Bytes(b) => w.write_bytes(b),
            Op::Prim(k, v) => { let v = *v; match k { 0 => w.write_u8(v as u8), 1 => w.write_i8(v as i8), 2 => w.write_u16(v as u16), 3 => w.write_i16(v as i16), 4 => w.write_u32(v as u32), 5 => w.write_i32(v as i32), 6 => w.write_u64(v as u64), 7 => w.write_i64(v as i64), 8 => w.write_u128(v), 9 => w.write_i128(v as i128), 10 => w.write_f32(f32::from_bits(v as u32)), _ => w.write_f64(f64::from_bits(v as u64)) } }
            Op::Var(v) => w.write_u64_varint(*v),
            Op::Value(v, r) => v.put(w, *r),
            Op::Direct(v) => v.direct(w),
            Op::Slice(v) => v.slice(w),
            Op::Coll(v, how) => v.coll(w, *how),
            Op::Counted(v, how) => v.counted(w, *how),
            Op::Text(t, how) => match how { 0 => t.as_str().write_to(w), 1 => w.write_value(&t.as_str()), 2 => w.write_value(t), 3 => w.write_value(&Cow::Borrowed(t.as_str())), _ => w.write_value(&t.clone().into_boxed_str()) },
            Op::Nested(ops, how) => {
                let half = ops.len() / 2;
                let all = || Plain { ops: ops.clone(), on };
                let (x, y) = (Plain { ops: ops[..half].to_vec(), on }, Plain { ops: ops[half..].to_vec(), on });
                match how {
                    0 => w.write_value(&all()),
                    1 => w.write_value(&(0x51u8, all(), 0x6172u16)),
                    2 => w.write_value(&vec![x, y]),
                    3 => w.write_value(&Some(all())),
                    4 => w.write_value(&Fields { a: 0x1122, p: x, b: 0x33445566, q: vec![y] }),
                    5 => w.write_value(&Choice::Y(x, 5, y)),
                    6 => w.write_value(&[x, y]),
                    7 => w.write_value(&BTreeMap::from([(0x0100u16, x), (0x0201, y)])),
                    _ => w.write_value(&Result::<u64, Box<Plain>>::Err(Box::new(all()))),
                }
            }
            Op::Can(n) => { log(Obs::Can(*n, w.can_write_at_least(*n))); Ok(()) }
            Op::Endian => { log(Obs::Endian(w.endianness() == Endianness::BigEndian)); Ok(()) }
            Op::EndianByte => { let b = w.endianness() == Endianness::BigEndian; w.write_u8(b as u8) }
            Op::Set(be) => { set_order(w.context_mut(), *be); assert!(w.context().endianness() == end(*be) && w.endianness() == end(*be), "the context does not keep what is put into it"); Ok(()) }
            Op::Fail => Err(Error::custom("the user's own").into()),
        };
        if on { r? } else { let _ = r; }
    }
    Ok(())
}
/// Relies on the library's size prediction.
#[derive(Debug)]
struct Plain { ops: Vec<Op>, on: bool }
impl<C: Context> Writable<C> for Plain { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { put(&self.ops, w, self.on) } }
/// Brings its own.
#[derive(Debug)]
struct Own { ops: Vec<Op>, size: usize, on: bool }
impl<C: Context> Writable<C> for Own {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { put(&self.ops, w, self.on) }
    fn bytes_needed(&self) -> Result<usize, C::Error> { Ok(self.size) }
}

fn gen_val(s: &mut Src) -> Val { let k = s.usize_below(KINDS); s.budget = 6; Val::gen(s, k) }
fn gen_vals(s: &mut Src, big: bool) -> Vals { let k = if big { s.usize_below(24) } else { s.usize_below(KINDS) }; let n = if big { s.usize_below(3000) } else { s.usize_below(7) }; s.budget = 4; Vals::gen(s, k, n) }
fn gen_op(s: &mut Src, set: bool, depth: usize, big: bool) -> Op {
    match s.below(24) {
        0..=4 => { let k = s.usize_below(12); let v = s.u128(); Op::Prim(k, v & (u128::MAX >> (128 - 8 * [1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 4, 8][k]))) }
        5 | 6 => { let n = if big && s.bool() { s.usize_below(20000) } else { s.usize_below(12) }; Op::Bytes(s.bytes(n)) }
        7 | 8 => Op::Var(s.int(64)),
        9 | 10 => { let v = gen_val(s); Op::Value(v, s.bool()) }
        11 => Op::Direct(gen_val(s)),
        12 | 13 => { let b = big && s.chance(1, 3); Op::Slice(gen_vals(s, b)) }
        14 => { let v = gen_vals(s, false); Op::Coll(v, s.usize_below(3)) }
        15 | 16 => { let b = big && s.chance(1, 3); let v = gen_vals(s, b); Op::Counted(v, s.usize_below(5)) }
        17 => { s.budget = 9; let t = String::gen(s); Op::Text(t, s.usize_below(5)) }
        18 => if depth > 0 { let n = s.usize_below(6); let v = (0..n).map(|_| gen_op(s, set, depth - 1, false)).collect(); Op::Nested(v, s.usize_below(9)) } else { Op::Endian },
        19 => Op::Can(match s.below(4) { 0 => s.int(40) as usize, 1 => s.usize_below(200), _ => s.usize_below(12) }),
        20 => Op::Endian,
        21 => if set { Op::EndianByte } else { Op::Endian },
        22 => if set { Op::Set(s.bool()) } else { Op::Prim(s.usize_below(2), 7) },
        _ => if set { Op::Set(s.bool()) } else { Op::Var(s.below(300)) },
    }
}
/// What the observations must be: the expected log, with the room left at each question.
fn expect(ops: &[Op], o: &mut Out, total: usize, log: &mut Vec<(usize, Obs)>) {
    fn walk(ops: &[Op], o: &mut Out, out: &mut Vec<(usize, bool)>) {
        // one operation at a time, so that the position before it is known
        for op in ops {
            match op {
                Op::Nested(inner, how) => {
                    let half = inner.len() / 2;
                    match how {
                        0 => walk(inner, o, out),
                        1 => { o.u8(0); walk(inner, o, out); o.u16(0) }
                        2 => { o.u32(0); walk(inner, o, out) }
                        3 => { o.u8(0); walk(inner, o, out) }
                        4 => { o.u16(0); walk(&inner[..half], o, out); o.u64(0); walk(&inner[half..], o, out) }
                        5 => { o.u32(0); walk(&inner[..half], o, out); o.u64(0); walk(&inner[half..], o, out) }
                        6 => walk(inner, o, out),
                        7 => { o.u32(0); o.u16(0); walk(&inner[..half], o, out); o.u16(0); walk(&inner[half..], o, out) }
                        _ => { o.u8(0); walk(inner, o, out) }
                    }
                }
                Op::Can(_) | Op::Endian => out.push((o.b.len(), o.be)),
                _ => { enc(std::slice::from_ref(op), o); }
            }
        }
    }
    fn flat<'x>(ops: &'x [Op], out: &mut Vec<&'x Op>) { for op in ops { match op { Op::Nested(i, _) => flat(i, out), Op::Can(_) | Op::Endian => out.push(op), _ => {} } } }
    let (mut at, mut qs) = (vec![], vec![]);
    walk(ops, o, &mut at);
    flat(ops, &mut qs);
    for ((pos, be), q) in at.into_iter().zip(qs) {
        log.push((0, match q { Op::Can(n) => Obs::Can(*n, Some(total - pos >= *n)), _ => Obs::Endian(be) }));
    }
}
fn text(ops: &[Op]) -> String { let t = format!("{:?}", ops); if t.len() > 1500 { let mut k = 1500; while !t.is_char_boundary(k) { k -= 1 } format!("{}…", &t[..k]) } else { t } }

fn sinks<C: Ctl, T: Writable<C>>(cname: &str, what: &str, s: &mut Src, t: &T, ops: &[Op], want: &[u8], be: bool) -> Res {
    let n = want.len();
    let mut o = Out::new(be);
    let mut logged = vec![];
    expect(ops, &mut o, n, &mut logged);
    let start = || { LOG.with(|x| x.borrow_mut().clear()); };
    let who = |sink: &str| format!("{} context, {}, {}, {} endian at first: ", cname, what, sink, if be { "big" } else { "little" });
    // the questions asked of the writer; while the size is predicted, every question may go unanswered
    let check_log = |sink: &str, fixed: bool, predicted: bool| -> Res {
        let l = LOG.with(|x| std::mem::take(&mut *x.borrow_mut()));
        ensure!(l.len() == if predicted { 2 * logged.len() } else { logged.len() }, "{}{} questions were asked of the writer instead of {}; operations {}", who(sink), l.len(), logged.len(), text(ops));
        for ((_, got), (_, want)) in l[l.len() - logged.len()..].iter().zip(&logged) {
            let ok = match (got, want) { (Obs::Can(_, None), _) => true, (Obs::Can(_, Some(x)), Obs::Can(_, Some(y))) => !fixed || x == y, (a, b) => a == b };
            ensure!(ok, "{}the writer answers {:?} instead of {:?}; operations {}", who(sink), got, want, text(ops));
        }
        Ok(())
    };
    let plain = what == "default size";
    match t.bytes_needed() { Ok(x) => ensure!(x == n, "{}predicted size {} instead of {}; operations {}", who("size"), x, n, text(ops)), Err(e) => fail!("{}the size prediction fails: {}; operations {}", who("size"), e, text(ops)) }
    start();
    match s.below(3) {
        0 => match t.write_to_vec_with_ctx(C::make(be)) { Ok(b) => ensure!(b == want, "{}{} is written instead of {}; operations {}", who("vector"), hex(&b), hex(want), text(ops)), Err(e) => fail!("{}writing fails: {}; operations {}", who("vector"), e, text(ops)) },
        _ => {
            let mut c = C::make(be);
            match t.write_to_vec_with_ctx_mut(&mut c) { Ok(b) => ensure!(b == want, "{}{} is written instead of {}; operations {}", who("vector"), hex(&b), hex(want), text(ops)), Err(e) => fail!("{}writing fails: {}; operations {}", who("vector"), e, text(ops)) }
            ensure!((c.endianness() == Endianness::BigEndian) == o.be, "{}the caller's context ends in the wrong byte order; operations {}", who("vector"), text(ops));
        }
    }
    check_log("vector", true, plain)?;
    start();
    let extra = match s.below(3) { 0 => 0, 1 => 1 + s.usize_below(9), _ => 64 };
    let fill = s.int(8) as u8;
    let ctx_mut = s.bool();
    pbt::sys::with_guard(1, |g| -> Res {
        let b = g.end_mut(n + extra, fill);
        let r = if ctx_mut { let mut c = C::make(be); let r = t.write_to_buffer_with_ctx_mut(&mut c, b); if r.is_ok() { ensure!((c.endianness() == Endianness::BigEndian) == o.be, "{}the caller's context ends in the wrong byte order; operations {}", who("buffer"), text(ops)); } r } else { t.write_to_buffer_with_ctx(C::make(be), b) };
        match r { Ok(()) => {} Err(e) => fail!("{}writing into a buffer of {} bytes fails: {}; {} are needed; operations {}", who("buffer"), n + extra, e, n, text(ops)) }
        ensure!(b[..n] == *want, "{}{} is written instead of {}; operations {}", who("buffer"), hex(&b[..n]), hex(want), text(ops));
        ensure!(b[n..].iter().all(|x| *x == fill), "{}bytes behind the first {} of the buffer were changed; operations {}", who("buffer"), n, text(ops));
        Ok(())
    })?;
    check_log("buffer", true, plain)?;
    if n > 0 {
        let short = s.usize_below(n);
        pbt::sys::with_guard(1, |g| -> Res {
            let b = g.end_mut(short, fill);
            ensure!(t.write_to_buffer_with_ctx(C::make(be), b).is_err(), "{}{} bytes are said to fit into {}; operations {}", who("short buffer"), n, short, text(ops));
            Ok(())
        })?;
    }
    start();
    let mut w = ScriptWrite::new(Sched::gen(s, true));
    match t.write_to_stream_with_ctx(C::make(be), &mut w) { Ok(()) => ensure!(w.out == want, "{}{} is written instead of {}; operations {}", who("stream"), hex(&w.out), hex(want), text(ops)), Err(e) => fail!("{}writing fails: {}; operations {}", who("stream"), e, text(ops)) }
    check_log("stream", false, false)?;
    start();
    let mut w = MyWriter { out: vec![], ctx: C::make(be), room: None };
    match t.write_to(&mut w) { Ok(()) => ensure!(w.out == want, "{}{} is written instead of {}; operations {}", who("user's writer"), hex(&w.out), hex(want), text(ops)), Err(e) => fail!("{}writing fails: {}; operations {}", who("user's writer"), e, text(ops)) }
    check_log("user's writer", false, false)?;
    // the user's own writer gets full: an error, and only a prefix has arrived
    if n > 0 {
        let room = s.usize_below(n);
        let mut w = MyWriter { out: vec![], ctx: C::make(be), room: Some(room) };
        ensure!(t.write_to(&mut w).is_err(), "{}the error of a full writer is lost; operations {}", who("user's writer"), text(ops));
        ensure!(want.starts_with(&w.out), "{}{} was written before the writer was full, which is no prefix of {}; operations {}", who("user's writer"), hex(&w.out), hex(want), text(ops));
    }
    if s.chance(1, 40) {
        start();
        let p = model::props::tmp("c12");
        match t.write_to_file_with_ctx(C::make(be), &p.0) { Ok(()) => {} Err(e) => fail!("{}writing fails: {}; operations {}", who("file"), e, text(ops)) }
        let b = std::fs::read(&p.0).unwrap();
        ensure!(b == want, "{}{} is written instead of {}; operations {}", who("file"), hex(&b), hex(want), text(ops));
        check_log("file", false, false)?;
    }
    Ok(())
}
fn script<C: Ctl>(s: &mut Src, set: bool) -> (Vec<Op>, bool) {
    use_ctx::<C>();
    let be = match C::FIXED { Some(b) => b, None => s.bool() };
    let big = s.chance(1, 24);
    let count = s.usize_below(14);
    let set = set && C::FIXED.is_none();
    ((0..count).map(|_| gen_op(s, set, 2, big)).collect(), be)
}
fn run<C: Ctl>(cname: &str, s: &mut Src, cx: &mut Cx) -> Res {
    let own = s.bool();
    let (ops, be) = script::<C>(s, own);
    let mut o = Out::new(be);
    enc(&ops, &mut o);
    let want = o.b;
    cx.note(|| format!("{} context, {} endian: {:?}", cname, if be { "big" } else { "little" }, ops));
    if ops.len() > 2 { cx.nontrivial(cname, &want); }
    if own { let t = Own { size: want.len(), ops, on: true }; sinks::<C, _>(cname, "own size", s, &t, &t.ops, &want, be) }
    else { let t = Plain { ops, on: true }; sinks::<C, _>(cname, "default size", s, &t, &t.ops, &want, be) }
}
/// The context a user gets by not giving any.
fn implied(s: &mut Src, cx: &mut Cx) -> Res {
    let (ops, _) = script::<LittleEndian>(s, false);
    let mut o = Out::new(false);
    enc(&ops, &mut o);
    let want = o.b;
    cx.note(|| format!("{:?}", ops));
    if ops.len() > 2 { cx.nontrivial("implied", &want); }
    let t = Plain { ops, on: true };
    match Writable::<LittleEndian>::write_to_vec(&t) { Ok(b) => ensure!(b == want, "write_to_vec gives {} instead of {}", hex(&b), hex(&want)), Err(e) => fail!("write_to_vec: {}", e) }
    let mut b = vec![0xee; want.len() + 3];
    match Writable::<LittleEndian>::write_to_buffer(&t, &mut b) { Ok(()) => ensure!(b[..want.len()] == want && b[want.len()..] == [0xee; 3], "write_to_buffer gives {} instead of {}", hex(&b), hex(&want)), Err(e) => fail!("write_to_buffer: {}", e) }
    let mut b = vec![];
    match Writable::<LittleEndian>::write_to_stream(&t, &mut b) { Ok(()) => ensure!(b == want, "write_to_stream gives {} instead of {}", hex(&b), hex(&want)), Err(e) => fail!("write_to_stream: {}", e) }
    if s.chance(1, 8) {
        let p = model::props::tmp("c12");
        match Writable::<LittleEndian>::write_to_file(&t, &p.0) { Ok(()) => {} Err(e) => fail!("write_to_file: {}", e) }
        let b = std::fs::read(&p.0).unwrap();
        ensure!(b == want, "write_to_file gives {} instead of {}", hex(&b), hex(&want));
    }
    Ok(())
}
/// A routine whose size prediction falls short, or which goes on after an error.
fn short<C: Ctl>(s: &mut Src, cx: &mut Cx) -> Res {
    let (ops, be) = script::<C>(s, true);
    let mut o = Out::new(be);
    enc(&ops, &mut o);
    let want = o.b;
    if want.is_empty() { return Ok(()); }
    let size = match s.below(3) { 0 => want.len() - 1, 1 => s.usize_below(want.len()), _ => want.len() - 1 - s.usize_below(want.len().min(8)) };
    let on = s.chance(2, 3);
    cx.note(|| format!("{} bytes predicted instead of {}, {} after an error, {} endian: {:?}", size, want.len(), if on { "stops" } else { "goes on" }, if be { "big" } else { "little" }, ops));
    cx.nontrivial("short", &want);
    let t = Own { size, ops, on };
    if on {
        // a vector is either refused or right
        if let Ok(b) = Writable::<C>::write_to_vec_with_ctx(&t, C::make(be)) { ensure!(b == want, "vector: {} is written instead of {} or an error", hex(&b), hex(&want)); }
    }
    let extra = if s.bool() { 0 } else { s.usize_below(40) };
    let fill = s.int(8) as u8;
    pbt::sys::with_guard(1, |g| -> Res {
        let b = g.end_mut(size + extra, fill);
        let r = Writable::<C>::write_to_buffer_with_ctx(&t, C::make(be), b);
        if on { ensure!(r.is_err(), "buffer: {} bytes are written although {} were predicted", want.len(), size); }
        ensure!(b[size..].iter().all(|x| *x == fill), "buffer: bytes behind the {} predicted ones were written", size);
        Ok(())
    })
}
/// The user's own error comes through, and what was written before it is a prefix.
fn failing<C: Ctl>(s: &mut Src, cx: &mut Cx) -> Res {
    let (mut ops, be) = script::<C>(s, false);
    let k = s.usize_below(ops.len() + 1);
    let deep = s.bool();
    if deep { let how = s.usize_below(9); let mut inner = vec![gen_op(s, false, 0, false), gen_op(s, false, 0, false)]; let at = s.usize_below(3); inner.insert(at, Op::Fail); ops.insert(k, Op::Nested(inner, how)); } else { ops.insert(k, Op::Fail); }
    let mut o = Out::new(be);
    enc(&ops, &mut o);
    cx.note(|| format!("{} endian: {:?}", if be { "big" } else { "little" }, ops));
    cx.nontrivial("failing", &o.b);
    let t = Plain { ops, on: true };
    fn mine<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Res { match r { Ok(_) => fail!("{}: the error of the user's routine is lost", what), Err(e) => { ensure!(e.to_string().contains("the user's own"), "{}: the user's error turned into: {}", what, e); Ok(()) } } }
    mine(Writable::<C>::bytes_needed(&t), "size prediction")?;
    mine(t.write_to_vec_with_ctx(C::make(be)), "vector")?;
    let mut b = vec![0u8; o.b.len() + 50];
    mine(t.write_to_buffer_with_ctx(C::make(be), &mut b), "buffer")?;
    let mut w = ScriptWrite::new(Sched::gen(s, true));
    mine(t.write_to_stream_with_ctx(C::make(be), &mut w), "stream")?;
    ensure!(o.b.starts_with(&w.out) , "stream: {} was written before the error, which is no prefix of {}", hex(&w.out), hex(&o.b));
    Ok(())
}
/// A routine which tries what may not fit: what is refused leaves nothing behind, and what comes next follows what was written.
struct Tries<'x> { ops: &'x [Op], room: usize, model: RefCell<Result<Vec<u8>, String>>, be: bool }
fn atom(s: &mut Src, big: bool) -> Op {
    match s.below(8) {
        0..=2 => { let k = s.usize_below(12); let v = s.u128(); Op::Prim(k, v & (u128::MAX >> (128 - 8 * [1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 4, 8][k]))) }
        3 => { let n = if big { s.usize_below(20000) } else { s.usize_below(40) }; Op::Bytes(s.bytes(n)) }
        4 | 5 => Op::Var(s.int(64)),
        6 => { let k = s.usize_below(14); s.budget = 6; Op::Value(Val::gen(s, k), s.bool()) }
        _ => { let n = if big { s.usize_below(3000) } else { s.usize_below(30) }; s.budget = 4; Op::Slice(Vals::gen(s, 0, n)) }
    }
}
impl<'x, C: Context> Writable<C> for Tries<'x> {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        let mut out = Out::new(self.be);
        for (i, op) in self.ops.iter().enumerate() {
            let mut one = Out::new(self.be);
            enc(std::slice::from_ref(op), &mut one);
            let fits = out.b.len() + one.b.len() <= self.room;
            let can = w.can_write_at_least(one.b.len());
            let bad = if can == Some(!fits) { Some(format!("operation {}: can_write_at_least says {:?} although {} of {} bytes are written and {} more are asked for", i, can, out.b.len(), self.room, one.b.len())) } else {
                match put(std::slice::from_ref(op), w, true) {
                    Ok(()) if fits => { out.b.extend_from_slice(&one.b); None }
                    Err(_) if !fits => None,
                    Ok(()) => Some(format!("operation {} ({:?}): {} bytes fit behind {} of {}", i, op, one.b.len(), out.b.len(), self.room)),
                    Err(_) => Some(format!("operation {} ({:?}): {} bytes do not fit behind {} of {}", i, op, one.b.len(), out.b.len(), self.room)),
                }
            };
            if let Some(b) = bad { *self.model.borrow_mut() = Err(b); return Ok(()); }
        }
        *self.model.borrow_mut() = Ok(out.b);
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, C::Error> { Ok(self.room) }
}
fn tries<C: Ctl>(s: &mut Src, cx: &mut Cx) -> Res {
    use_ctx::<C>();
    let be = match C::FIXED { Some(b) => b, None => s.bool() };
    let big = s.chance(1, 24);
    let count = 1 + s.usize_below(12);
    let ops: Vec<Op> = (0..count).map(|_| atom(s, big)).collect();
    let mut all = Out::new(be);
    enc(&ops, &mut all);
    let room = match s.below(3) { 0 => s.usize_below(all.b.len() + 1), 1 => all.b.len().saturating_sub(1 + s.usize_below(4)), _ => s.usize_below(all.b.len().min(30) + 1) };
    // what should be there in the end
    let (mut want, mut refused, mut late) = (Out::new(be), 0, false);
    for op in &ops { let mut one = Out::new(be); enc(std::slice::from_ref(op), &mut one); if want.b.len() + one.b.len() <= room { want.b.extend_from_slice(&one.b); if refused > 0 && !one.b.is_empty() { late = true } } else { refused += 1 } }
    let want = want.b;
    cx.note(|| format!("{} bytes of room, {} endian: {:?}", room, if be { "big" } else { "little" }, ops));
    if late { cx.nontrivial("tries", &want); }
    let t = Tries { ops: &ops, room, model: RefCell::new(Ok(vec![])), be };
    let judge = |sink: &str| -> Res { match &*t.model.borrow() { Ok(b) => { ensure!(*b == want, "{}: {} was taken instead of {}", sink, hex(b), hex(&want)); Ok(()) } Err(e) => fail!("{}: {}; room for {}, operations {}", sink, e, room, text(&ops)) } };
    let extra = if s.bool() { 0 } else { s.usize_below(40) };
    let fill = s.int(8) as u8;
    pbt::sys::with_guard(1, |g| -> Res {
        let b = g.end_mut(room + extra, fill);
        let r = Writable::<C>::write_to_buffer_with_ctx(&t, C::make(be), b);
        judge("buffer")?;
        if let Err(e) = r { fail!("buffer: a routine which succeeds fails: {}", e) }
        ensure!(b[..want.len()] == want[..], "buffer: {} is written instead of {}; room for {}, operations {}", hex(&b[..want.len()]), hex(&want), room, text(&ops));
        ensure!(b[room..].iter().all(|x| *x == fill), "buffer: bytes behind the {} there was room for were written; operations {}", room, text(&ops));
        Ok(())
    })?;
    // (a vector is only promised for a prediction which comes true)
    if want.len() == room {
        let r = Writable::<C>::write_to_vec_with_ctx(&t, C::make(be));
        judge("vector")?;
        match r { Ok(b) => ensure!(b == want, "vector: {} is written instead of {}; operations {}", hex(&b), hex(&want), text(&ops)), Err(e) => fail!("vector: a routine which succeeds fails: {}", e) }
    }
    Ok(())
}
fn main() {
    let mut m = pbt::Main::new("C12", "random scripts of writer operations run on vectors, buffers at guard pages (exact, longer, shorter), scripted streams, files and a user's own writer and compared with the concatenation of reference encodings; routines with default and own size prediction, with predictions that fall short and with errors of their own; non-trivial = distinct outputs of scripts of three or more operations");
    m.section("run-time byte order", 300_000, 2_000_000, |s, cx| run::<Endianness>("Endianness", s, cx));
    m.section("user context", 90_000, 400_000, |s, cx| run::<UCtx>("user", s, cx));
    m.section("little endian", 75_000, 300_000, |s, cx| run::<LittleEndian>("LittleEndian", s, cx));
    m.section("big endian", 75_000, 300_000, |s, cx| run::<BigEndian>("BigEndian", s, cx));
    m.section("implied context", 75_000, 300_000, implied);
    m.section("too small a prediction", 150_000, 600_000, |s, cx| if s.bool() { short::<Endianness>(s, cx) } else { short::<UCtx>(s, cx) });
    m.section("errors of the routine", 120_000, 480_000, |s, cx| if s.bool() { failing::<Endianness>(s, cx) } else { failing::<UCtx>(s, cx) });
    m.section("tries which may not fit", 200_000, 800_000, |s, cx| match s.below(4) { 0 => tries::<LittleEndian>(s, cx), 1 => tries::<BigEndian>(s, cx), 2 => tries::<UCtx>(s, cx), _ => tries::<Endianness>(s, cx) });
    m.run()
}
