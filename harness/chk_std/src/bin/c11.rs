use chk_std::*;
use model::codec::{canon, unvarint};
use model::{In, Out, DE, M};
use pbt::io::{Sched, ScriptRead};
use pbt::{ensure, hex, Cx, Res, Src};
use speedy::{BigEndian, Endianness, LittleEndian, IsEof, Readable, Reader};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(speedy::Readable, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Pk { a: u16, b: u8, c: u8 }
impl M for Pk {
    const MIN: usize = 4;
    fn gen(_: &mut Src) -> Self { Pk { a: 0, b: 0, c: 0 } }
    fn enc(&self, o: &mut Out) { o.u16(self.a); o.u8(self.b); o.u8(self.c) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Pk { a: i.u16()?, b: i.u8()?, c: i.u8()? }) }
}
#[derive(speedy::Readable, Clone, Copy, PartialEq, Debug)]
#[repr(C, packed)]
struct Pp { a: u8, b: u32 }
impl M for Pp {
    const MIN: usize = 5;
    fn gen(_: &mut Src) -> Self { Pp { a: 0, b: 0 } }
    fn enc(&self, o: &mut Out) { o.u8(self.a); o.u32({ self.b }) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Pp { a: i.u8()?, b: i.u32()? }) }
}
#[derive(speedy::Readable, Clone, Copy, PartialEq, Debug)]
#[repr(transparent)]
struct Tw(f32);
impl M for Tw {
    const MIN: usize = 4;
    fn gen(_: &mut Src) -> Self { Tw(0.0) }
    fn enc(&self, o: &mut Out) { self.0.enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Tw(M::dec(i)?)) }
}
/// Declares no minimum although it needs a byte, and looks ahead before it reads.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Shy(u8);
impl<'a, C: speedy::Context> Readable<'a, C> for Shy {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let p = r.peek_u8()?; let x = r.read_u8()?; assert!(p == x, "peeked {} and read {}", p, x); Ok(Shy(x)) }
}
impl M for Shy {
    const MIN: usize = 0;
    fn gen(_: &mut Src) -> Self { Shy(0) }
    fn enc(&self, o: &mut Out) { o.u8(self.0) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Shy(i.u8()?)) }
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Read(usize), Peek(usize), Bytes(usize), PeekBytes(usize), Ptr(usize), PeekPtr(usize), Skip(usize), Var, PeekVar,
    Value(usize), Vec(usize, usize), Cow(usize, usize), Str(usize), Coll(usize, usize), Pairs(usize, usize),
    VecEnd(usize), CowEnd(usize), CollEnd(usize), Borrow(usize), BorrowR(usize), BorrowEnd, Can(usize), Endian, Set(bool),
}
#[derive(Clone, PartialEq, Debug)]
enum Obs { Val(Vec<u8>), Eof, Bad, No }
impl Obs { fn show(&self) -> String { match self { Obs::Val(b) => format!("the value {}", hex(b)), Obs::Eof => "end of input".into(), Obs::Bad => "an error other than end of input".into(), Obs::No => "nothing (not supported)".into() } } }

fn ob<T, E: IsEof>(r: Result<T, E>, f: impl FnOnce(T) -> Vec<u8>) -> Obs { match r { Ok(v) => Obs::Val(f(v)), Err(e) => if e.is_eof() { Obs::Eof } else { Obs::Bad } } }
fn de<T>(r: Result<T, DE>, f: impl FnOnce(T) -> Vec<u8>) -> Obs { match r { Ok(v) => Obs::Val(f(v)), Err(DE::Eof) => Obs::Eof, Err(_) => Obs::Bad } }
fn items<T: M>(v: &[T]) -> Vec<u8> { let mut o = Out::canon(); o.u64(v.len() as u64); for x in v { x.enc(&mut o) } o.b }

macro_rules! prims {
    ($($k:expr, $t:ty, $read:ident, $peek:ident;)*) => {
        fn prim<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize, peek: bool) -> Obs { match k { $($k => if peek { ob(r.$peek(), |v| canon(&v)) } else { ob(r.$read(), |v| canon(&v)) },)* _ => unreachable!() } }
        fn prim_model(i: &mut In, k: usize) -> Obs { match k { $($k => de(<$t as M>::dec(i), |v| canon(&v)),)* _ => unreachable!() } }
        const PRIMS: usize = [$($k),*].len();
        const PRIM_NAMES: &[&str] = &[$(stringify!($t)),*];
    }
}
prims! {
    0, u8, read_u8, peek_u8; 1, i8, read_i8, peek_i8; 2, u16, read_u16, peek_u16; 3, i16, read_i16, peek_i16; 4, u32, read_u32, peek_u32; 5, i32, read_i32, peek_i32;
    6, u64, read_u64, peek_u64; 7, i64, read_i64, peek_i64; 8, u128, read_u128, peek_u128; 9, i128, read_i128, peek_i128; 10, f32, read_f32, peek_f32; 11, f64, read_f64, peek_f64;
}
macro_rules! kinds {
    ($($k:expr, $t:ty;)*) => {
        fn value<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize) -> Obs { match k { $($k => ob(r.read_value::<$t>(), |v| canon(&v)),)* _ => unreachable!() } }
        fn vec<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize, n: usize) -> Obs { match k { $($k => ob(r.read_vec::<$t>(n), |v| items(&v)),)* _ => unreachable!() } }
        fn cow<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize, n: usize) -> Obs { match k { $($k => ob(r.read_cow::<$t>(n), |v| items(&v)),)* _ => unreachable!() } }
        fn coll<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize, n: usize) -> Obs { match k { $($k => ob(r.read_collection::<$t, Vec<$t>>(n), |v| items(&v)),)* _ => unreachable!() } }
        fn until_end<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize, how: usize) -> Obs { match k { $($k => match how { 0 => ob(r.read_vec_until_eof::<$t>(), |v| items(&v)), 1 => ob(r.read_cow_until_eof::<$t>(), |v| items(&v)), _ => ob(r.read_collection_until_eof::<$t, Vec<$t>>(), |v| items(&v)) },)* _ => unreachable!() } }
        fn value_model(i: &mut In, k: usize) -> Obs { match k { $($k => de(<$t as M>::dec(i), |v| canon(&v)),)* _ => unreachable!() } }
        fn many_model(i: &mut In, k: usize, n: usize) -> Obs { match k { $($k => de(i.many(n, <$t as M>::MIN, std::mem::size_of::<$t>(), <$t as M>::dec), |v| items(&v)),)* _ => unreachable!() } }
        fn until_end_model(i: &mut In, k: usize) -> Obs { match k { $($k => de(i.until_end(<$t as M>::dec), |v| items(&v)),)* _ => unreachable!() } }
        fn min_of(k: usize) -> usize { match k { $($k => <$t as M>::MIN,)* _ => unreachable!() } }
        const KINDS: usize = [$($k),*].len();
        const KIND_NAMES: &[&str] = &[$(stringify!($t)),*];
    }
}
kinds! {
    0, u8; 1, i8; 2, u16; 3, i32; 4, u64; 5, u128; 6, f32; 7, f64; 8, bool; 9, char; 10, String; 11, (u8, u16); 12, [u16; 3]; 13, Option<u8>; 14, Pk; 15, Pp; 16, Tw; 17, Shy;
    18, Vec<u16>; 19, Box<str>; 20, std::num::NonZeroU16; 21, BTreeMap<u8, u16>; 22, Result<u16, u8>; 23, usize; 24, [u8; 7]; 25, Box<[u32]>;
}
macro_rules! pairs {
    ($($k:expr, $a:ty, $b:ty;)*) => {
        fn pairs<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, k: usize, n: usize) -> Obs { match k { $($k => ob(r.read_key_value_collection::<$a, $b, Vec<($a, $b)>>(n), |v| items(&v)),)* _ => unreachable!() } }
        fn pairs_model(i: &mut In, k: usize, n: usize) -> Obs { match k { $($k => de(i.many(n, <($a, $b) as M>::MIN, 16, <($a, $b) as M>::dec), |v| items(&v)),)* _ => unreachable!() } }
        const PAIRS: usize = [$($k),*].len();
    }
}
pairs! { 0, u8, u8; 1, u16, u8; 2, u8, u32; 3, u64, u16; 4, u8, String; 5, i8, u8; 6, Pk, u8; 7, f64, f32; 8, bool, i8; 9, Tw, Pp; }

thread_local! { static RUN: RefCell<(Vec<Op>, Vec<Obs>)> = const { RefCell::new((Vec::new(), Vec::new())) }; }
struct Probe;
impl<'a, C: Ctl> Readable<'a, C> for Probe {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let n = RUN.with(|x| x.borrow().0.len());
        for k in 0..n {
            let op = RUN.with(|x| x.borrow().0[k].clone());
            let o = exec::<C, R>(r, &op);
            RUN.with(|x| x.borrow_mut().1.push(o));
        }
        Ok(Probe)
    }
}
fn exec<'a, C: Ctl, R: Reader<'a, C>>(r: &mut R, op: &Op) -> Obs {
    match *op {
        Op::Read(k) => prim::<C, R>(r, k, false),
        Op::Peek(k) => prim::<C, R>(r, k, true),
        Op::Bytes(n) => { let mut b = vec![0xa5; n]; ob(r.read_bytes(&mut b), |_| b) }
        Op::PeekBytes(n) => { let mut b = vec![0xa5; n]; ob(r.peek_bytes(&mut b), |_| b) }
        Op::Ptr(n) => { let mut b = vec![0xa5; n + 2]; let x = ob(unsafe { r.read_bytes_into_ptr(b.as_mut_ptr().add(1), n) }, |_| b[1..n + 1].to_vec()); assert!(b[0] == 0xa5 && b[n + 1] == 0xa5, "bytes outside the destination were written"); x }
        Op::PeekPtr(n) => { let mut b = vec![0xa5; n + 2]; let x = ob(unsafe { r.peek_bytes_into_ptr(b.as_mut_ptr().add(1), n) }, |_| b[1..n + 1].to_vec()); assert!(b[0] == 0xa5 && b[n + 1] == 0xa5, "bytes outside the destination were written"); x }
        Op::Skip(n) => ob(r.skip_bytes(n), |_| vec![]),
        Op::Var => ob(r.read_u64_varint(), |v| canon(&v)),
        Op::PeekVar => ob(r.peek_u64_varint(), |v| canon(&v)),
        Op::Value(k) => value::<C, R>(r, k),
        Op::Vec(k, n) => vec::<C, R>(r, k, n),
        Op::Cow(k, n) => cow::<C, R>(r, k, n),
        Op::Coll(k, n) => coll::<C, R>(r, k, n),
        Op::Pairs(k, n) => pairs::<C, R>(r, k, n),
        Op::Str(n) => ob(r.read_string(n), |v| v.into_bytes()),
        Op::VecEnd(k) => until_end::<C, R>(r, k, 0),
        Op::CowEnd(k) => until_end::<C, R>(r, k, 1),
        Op::CollEnd(k) => until_end::<C, R>(r, k, 2),
        Op::Borrow(n) => match r.read_bytes_borrowed(n) { None => Obs::No, Some(x) => ob(x, |v| v.to_vec()) },
        Op::BorrowR(n) => match r.read_bytes_borrowed_from_reader(n) { None => Obs::No, Some(x) => ob(x, |v| v.to_vec()) },
        Op::BorrowEnd => match r.read_bytes_borrowed_until_eof() { None => Obs::No, Some(v) => Obs::Val(v.to_vec()) },
        Op::Can(n) => match r.can_read_at_least(n) { None => Obs::No, Some(v) => Obs::Val(vec![v as u8]) },
        Op::Endian => Obs::Val(vec![(r.endianness() == Endianness::BigEndian) as u8]),
        Op::Set(be) => { r.context_mut().set(be); let ok = r.context().endianness() == r.endianness(); Obs::Val(vec![ok as u8]) }
    }
}
/// What the operation must give at this place, and where the cursor is afterwards (None: not specified any more).
/// `took`: the optional operation was supported.
fn model(i: &mut In, op: &Op, took: bool) -> (Obs, bool) {
    let start = i.pos;
    i.declared = 0;
    i.fuzzy = false;
    let mut stay = false;
    let o = match *op {
        Op::Read(k) => prim_model(i, k),
        Op::Peek(k) => { stay = true; prim_model(i, k) }
        Op::Bytes(n) | Op::Ptr(n) => de(i.raw(n), |b| b.to_vec()),
        Op::PeekBytes(n) | Op::PeekPtr(n) => { stay = true; de(i.raw(n), |b| b.to_vec()) }
        Op::Skip(n) => de(i.raw(n), |_| vec![]),
        Op::Var => de(i.varint(), |v| canon(&v)),
        Op::PeekVar => { stay = true; de(unvarint(&i.b[i.pos..]).ok_or(DE::Eof), |v| canon(&v.0)) }
        Op::Value(k) => value_model(i, k),
        Op::Vec(k, n) | Op::Cow(k, n) | Op::Coll(k, n) => many_model(i, k, n),
        Op::Pairs(k, n) => pairs_model(i, k, n),
        Op::Str(n) => de(model::std_types::dec_str(i, n), |v| v.into_bytes()),
        Op::VecEnd(k) | Op::CowEnd(k) | Op::CollEnd(k) => until_end_model(i, k),
        Op::Borrow(n) | Op::BorrowR(n) => if took { de(i.raw(n), |b| b.to_vec()) } else { Obs::No },
        Op::BorrowEnd => if took { let n = i.left(); de(i.raw(n), |b| b.to_vec()) } else { Obs::No },
        Op::Can(n) => if took { Obs::Val(vec![(i.left() >= n) as u8]) } else { Obs::No },
        Op::Endian => Obs::Val(vec![i.be as u8]),
        Op::Set(be) => { i.be = be; Obs::Val(vec![1]) }
    };
    let failed = matches!(o, Obs::Eof | Obs::Bad);
    if stay { i.pos = start; return (o, true); }
    let go_on = !failed && !i.fuzzy;
    (o, go_on)
}
fn optional(op: &Op) -> bool { matches!(op, Op::Borrow(_) | Op::BorrowR(_) | Op::BorrowEnd | Op::Can(_)) }
fn size(s: &mut Src, left: usize, big: bool) -> usize {
    match s.below(12) {
        0 => left,
        1 => left + 1 + s.usize_below(3),
        2 => left.saturating_sub(s.usize_below(4)),
        3 | 4 if big => 8192 - 3 + s.usize_below(6),
        5 | 6 if big => s.int(14) as usize,
        7 if big => { let a = s.usize_below(left + 1); a }
        8 => 0,
        _ => s.usize_below(9),
    }
}
fn gen_op(s: &mut Src, left: usize, big: bool) -> Op {
    let n = size(s, left, big);
    let k = s.usize_below(KINDS);
    match s.below(40) {
        0..=4 => Op::Read(s.usize_below(PRIMS)),
        5..=8 => Op::Peek(s.usize_below(PRIMS)),
        9 | 10 => Op::Bytes(n),
        11..=13 => Op::PeekBytes(n),
        14 => Op::Ptr(n),
        15 => Op::PeekPtr(n),
        16 | 17 => Op::Skip(n),
        18 | 19 => Op::Var,
        20 | 21 => Op::PeekVar,
        22 | 23 => Op::Value(k),
        24 | 25 => Op::Vec(k, n / min_of(k).max(1)),
        26 => Op::Cow(k, n / min_of(k).max(1)),
        27 => Op::Coll(k, n / min_of(k).max(1)),
        28 => Op::Pairs(s.usize_below(PAIRS), n / 3),
        29 => Op::Str(n),
        30 => if s.chance(1, 4) { match s.below(3) { 0 => Op::VecEnd(k), 1 => Op::CowEnd(k), _ => Op::CollEnd(k) } } else { Op::Endian },
        31 => Op::Borrow(n),
        32 => Op::BorrowR(n),
        33 => if s.chance(1, 8) { Op::BorrowEnd } else { Op::Can(n) },
        34 => Op::Can(if s.chance(1, 4) { usize::MAX - s.usize_below(3) } else { n }),
        35 | 36 => Op::Set(s.bool()),
        37 => Op::Endian,
        38 => match s.below(4) { 0 => Op::Vec(s.usize_below(8), 1 << (20 + s.below(8))), 1 => Op::Cow(s.usize_below(8), 1 << (20 + s.below(4))), 2 => Op::Coll(s.usize_below(8), 1 << (20 + s.below(40))), _ => Op::Skip(1 << s.below(40)) },
        _ => Op::Peek(s.usize_below(PRIMS)),
    }
}
fn input(s: &mut Src, big: bool) -> Vec<u8> {
    if !big { let n = s.usize_below(96); return s.bytes(n); }
    let n = match s.below(4) { 0 => 8192 - 2 + s.usize_below(5), 1 => 16384 - 2 + s.usize_below(5), 2 => s.usize_below(9000), _ => s.usize_below(40_000) };
    let pat = { let k = 1 + s.usize_below(64); s.bytes(k) };
    // every byte differs from its neighbours in a way that shows where it came from
    (0..n).map(|k| pat[k % pat.len()] ^ (k / pat.len()) as u8 ^ (k >> 8) as u8).collect()
}
const READERS: &[&str] = &["buffer", "copying buffer", "unbuffered stream", "buffered stream", "user's reader", "user's reader with hint"];
/// What takes all it needs at once: if it is refused by an in-memory reader, the cursor stays where it is.
fn at_once(op: &Op) -> bool { matches!(op, Op::Read(_) | Op::Bytes(_) | Op::Ptr(_) | Op::Skip(_) | Op::Borrow(_) | Op::BorrowR(_)) }
fn run<C: Ctl>(cname: &str, s: &mut Src, cx: &mut Cx, readers: &[usize]) -> Res { walk::<C>(cname, s, cx, readers, false) }
/// `on`: the routine goes on after running out of input (in-memory readers only).
fn walk<C: Ctl>(cname: &str, s: &mut Src, cx: &mut Cx, readers: &[usize], on: bool) -> Res {
    let big = s.chance(1, 8);
    let data = input(s, big);
    let be = match C::FIXED { Some(b) => b, None => s.bool() };
    // the script, along the model with every optional operation supported; both branches must remain sensible
    let mut ops = vec![];
    let mut i = In::new(&data, be);
    let count = 1 + s.usize_below(24);
    for _ in 0..count {
        let mut op = gen_op(s, i.left(), big);
        if on && s.chance(1, 3) {
            let n = i.left() + 1 + s.usize_below(3);
            op = match s.below(8) { 0 => Op::Bytes(n), 1 => Op::Ptr(n), 2 => Op::Skip(if s.bool() { n } else { usize::MAX - s.usize_below(1 << 12) }), 3 => Op::Borrow(n), 4 => Op::BorrowR(n), _ => Op::Read(s.usize_below(PRIMS)) };
        }
        if C::FIXED.is_some() && matches!(op, Op::Set(_)) { continue; }
        if matches!(op, Op::VecEnd(k) | Op::CowEnd(k) | Op::CollEnd(k) if min_of(k) == 0 && k != 17) { continue; }
        let mut j = In::new(&data, i.be);
        j.pos = i.pos;
        let (_, go_on) = model(&mut j, &op, true);
        if j.declared > 1 << 28 { continue; }
        if on && !go_on && at_once(&op) { ops.push(op); continue; }
        if optional(&op) && matches!(op, Op::Borrow(n) | Op::BorrowR(n) if n > i.left()) { ops.push(op); break; }
        // the generator's cursor follows the reader without the optional operation
        if optional(&op) { ops.push(op); continue; }
        i.pos = j.pos;
        i.be = j.be;
        ops.push(op);
        if !go_on { break; }
    }
    cx.note(|| format!("{} context, {} bytes, {:?}", cname, data.len(), ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>()));
    if ops.len() > 2 { let mut key = format!("{:?}", ops).into_bytes(); key.extend_from_slice(&data[..data.len().min(64)]); cx.nontrivial(cname, &key); }
    cx.label(if big { "across the stream buffer" } else { "small" });
    cx.sample(|| format!("{} bytes, operations {:?}", data.len(), ops));
    for &w in readers {
        cx.evals(1);
        RUN.with(|x| *x.borrow_mut() = (ops.clone(), vec![]));
        let (mut stream_pos, mut used) = (None, None);
        let ctx = C::make(be);
        let r = match w {
            0 => { let off = s.usize_below(16); let (r, n) = if off == 0 { pbt::sys::with_guard(0, |g| Probe::read_with_length_from_buffer_with_ctx(ctx, g.end(&data, 0))) } else { pbt::sys::with_guard(0, |g| Probe::read_with_length_from_buffer_with_ctx(ctx, g.start(&data, off))) }; used = Some(n); r }
            1 => { let (r, n) = pbt::sys::with_guard(0, |g| Probe::read_with_length_from_buffer_copying_data_with_ctx(ctx, g.end(&data, 0))); used = Some(n); r }
            2 => { let mut r = ScriptRead::new(&data, Sched::gen(s, true)); let x = Probe::read_from_stream_unbuffered_with_ctx(ctx, &mut r); stream_pos = Some(r.pos); x }
            3 => Probe::read_from_stream_buffered_with_ctx(ctx, ScriptRead::new(&data, Sched::gen(s, true))),
            _ => Probe::read_from(&mut MyReader { data: &data, pos: 0, ctx, hint: w == 5 }),
        };
        ensure!(r.is_ok(), "the script itself failed");
        let log = RUN.with(|x| std::mem::take(&mut x.borrow_mut().1));
        let mut i = In::new(&data, be);
        let mut ahead = 0;
        let mut sure = true;
        for (k, op) in ops.iter().enumerate() {
            let got = &log[k];
            let took = *got != Obs::No;
            let at = i.pos;
            let (want, mut go_on) = model(&mut i, op, took);
            if on && want == Obs::Eof && at_once(op) { i.pos = at; go_on = true; }
            let name = |op: &Op| match op { Op::Read(k) => format!("read_{}", PRIM_NAMES[*k]), Op::Peek(k) => format!("peek_{}", PRIM_NAMES[*k]), Op::Value(k) => format!("read_value::<{}>", KIND_NAMES[*k]), Op::Vec(k, n) => format!("read_vec::<{}>({})", KIND_NAMES[*k], n), Op::Cow(k, n) => format!("read_cow::<{}>({})", KIND_NAMES[*k], n), Op::Coll(k, n) => format!("read_collection::<{}>({})", KIND_NAMES[*k], n), o => format!("{:?}", o) };
            // a length beyond any input may be refused as such instead of as end of input
            let huge = matches!(op, Op::Vec(_, n) | Op::Cow(_, n) | Op::Coll(_, n) | Op::Pairs(_, n) if *n > 1 << 24);
            // too few elements, but an invalid one among those that are there: either answer is right
            let both = match op { Op::Vec(k, _) | Op::Cow(k, _) | Op::Coll(k, _) => matches!(k, 9 | 10 | 18 | 19 | 20 | 21 | 25), Op::Pairs(k, _) => *k == 4, _ => false };
            let huge = huge || both;
            let ok = *got == want || (want == Obs::Bad && *got == Obs::Eof) || (huge && want == Obs::Eof && *got == Obs::Bad);
            ensure!(ok, "{} ({} context): operation {}, {} at byte {} of {} in {} endian, gives {} instead of {}; operations {:?}; data {}", READERS[w], cname, k, name(op), at, data.len(), if i.be { "big" } else { "little" }, got.show(), want.show(), &ops[..k + 1], hex(&data));
            match op { Op::Peek(_) | Op::PeekBytes(_) | Op::PeekPtr(_) | Op::PeekVar => ahead = ahead.max(match (op, &want) { (_, Obs::Val(_)) => { let mut j = In::new(&data, i.be); j.pos = at; match op { Op::Peek(k) => { prim_model(&mut j, *k); } Op::PeekBytes(n) | Op::PeekPtr(n) => { let _ = j.raw(*n); } _ => { let _ = j.varint(); } } j.pos } _ => data.len() }), _ => {} }
            if !go_on { sure = false; break; }
        }
        if let (Some(n), true) = (used, sure) { ensure!(n == i.pos, "{} ({} context): {} bytes are said to have been used although the operations reached byte {}; operations {:?}; data {}", READERS[w], cname, n, i.pos, ops, hex(&data)); }
        if let (Some(p), true) = (stream_pos, sure) {
            ensure!(p >= i.pos && p <= i.pos.max(ahead), "unbuffered stream ({} context): {} bytes were taken although the operations reached byte {} and looked ahead to {}; operations {:?}; data of {} bytes", cname, p, i.pos, ahead, ops, data.len());
        }
    }
    Ok(())
}
fn main() {
    let mut m = pbt::Main::new("C11", "random scripts of reader operations over random bytes (also across the 8 KiB stream buffer), run on six readers and compared operation by operation with a cursor; non-trivial = distinct scripts of three or more operations");
    m.section("run-time byte order", 160_000, 3_000_000, |s, cx| run::<Endianness>("Endianness", s, cx, &[0, 1, 2, 3, 4, 5]));
    m.section("user context", 32_000, 500_000, |s, cx| run::<UCtx>("user", s, cx, &[0, 3, 4]));
    m.section("little endian", 24_000, 300_000, |s, cx| run::<LittleEndian>("LittleEndian", s, cx, &[0, 2]));
    m.section("big endian", 24_000, 300_000, |s, cx| run::<BigEndian>("BigEndian", s, cx, &[1, 3]));
    m.section("going on after running out", 48_000, 600_000, |s, cx| match s.below(3) { 0 => walk::<Endianness>("Endianness", s, cx, &[0, 1], true), 1 => walk::<UCtx>("user", s, cx, &[0, 1], true), _ => walk::<BigEndian>("BigEndian", s, cx, &[0, 1], true) });
    m.section("beyond 32 bits", 8_000, 200_000, model::huge::walk);
    m.run()
}
