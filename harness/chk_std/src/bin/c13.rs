use chk_std::*;
use model::codec::{unvarint, varint};
use pbt::io::{Sched, ScriptRead, ScriptWrite};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::private::VarInt64;
use speedy::{BigEndian, Context, Endianness, Error, IsEof, LittleEndian, Readable, Reader, Writable, Writer};

/// A hand-written routine using the writer's and reader's own operations.
#[derive(PartialEq, Debug)]
struct Hand(u64);
impl<C: Context> Writable<C> for Hand { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u64_varint(self.0) } }
impl<'a, C: Context> Readable<'a, C> for Hand { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(Hand(r.read_u64_varint()?)) } }
/// Peeks, peeks again, reads; what is read must be what was peeked.
#[derive(PartialEq, Debug)]
struct Peeked(u64);
impl<'a, C: Context> Readable<'a, C> for Peeked {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let p = r.peek_u64_varint();
        let q = r.peek_u64_varint();
        let x = r.read_u64_varint();
        match (p, q, x) {
            (Ok(p), Ok(q), Ok(x)) => { assert!(p == x && q == x, "peeked {} and {}, read {}", p, q, x); Ok(Peeked(x)) }
            (Err(_), Err(_), Err(x)) => Err(x),
            (p, q, x) => panic!("peeking gives {:?} and {:?}, reading {:?}", p.is_ok(), q.is_ok(), x.is_ok()),
        }
    }
}
/// Only peeks, so that nothing may be consumed.
struct Looked(u64);
impl<'a, C: Context> Readable<'a, C> for Looked { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(Looked(r.peek_u64_varint()?)) } }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug, Clone)]
struct Fields { a: u8, #[speedy(varint)] v: u64, b: u16 }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug, Clone)]
struct Counted { #[speedy(length_type = u64_varint)] v: Vec<u8> }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug, Clone)]
struct Twice(VarLike, VarLike);
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug, Clone)]
struct VarLike { #[speedy(varint)] v: u64 }

fn number(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => s.int(64),
        1 => { let b = s.below(65); if b == 64 { u64::MAX } else { (1u64 << b).wrapping_sub(1) } }
        2 => { let b = 7 * s.below(10); (if b >= 64 { 0 } else { 1u64 << b }).wrapping_add(s.below(5)).wrapping_sub(2) }
        3 => { let b = 8 * s.below(9); (if b >= 64 { 0 } else { 1u64 << b }).wrapping_add(s.below(5)).wrapping_sub(2) }
        4 => s.below(0x80) << (s.below(9) * 7),
        _ => { let b = 1 + s.below(64) as u32; s.int(64) >> (64 - b) }
    }
}
/// The bytes before, the number, the bytes after: read by every reader.
fn readers<T: for<'x> Readable<'x, Endianness> + for<'x> Readable<'x, LittleEndian> + for<'x> Readable<'x, BigEndian>>(s: &mut Src, what: &str, b: &[u8], be: bool, want: Option<u64>, get: fn(&T) -> u64) -> Res {
    let e = end(be);
    for w in 0..7 {
        let sched = if b.len() > 1 { Sched::gen(s, true) } else { Sched::whole() };
        let (name, r): (&str, Result<T, Error>) = match w {
            0 => ("buffer", pbt::sys::with_guard(0, |g| T::read_from_buffer_with_ctx(e, g.end(b, 0)))),
            1 => ("copying buffer", T::read_from_buffer_copying_data_with_ctx(e, b)),
            2 => ("unbuffered stream", T::read_from_stream_unbuffered_with_ctx(e, ScriptRead::new(b, sched))),
            3 => ("buffered stream", T::read_from_stream_buffered_with_ctx(e, ScriptRead::new(b, sched))),
            4 => ("user's reader", T::read_from(&mut MyReader { data: b, pos: 0, ctx: e, hint: s.bool() })),
            5 => ("little-endian context", T::read_from_buffer_with_ctx(LittleEndian {}, b)),
            _ => ("big-endian context", T::read_from_buffer_with_ctx(BigEndian {}, b)),
        };
        match (r, want) {
            (Ok(v), Some(x)) => ensure!(get(&v) == x, "{} ({}): the bytes {} denote {} but are read as {}", what, name, hex(b), x, get(&v)),
            (Ok(v), None) => fail!("{} ({}): the incomplete bytes {} are read as {}", what, name, hex(b), get(&v)),
            (Err(x), Some(n)) => fail!("{} ({}): the bytes {} denote {} but are refused: {}", what, name, hex(b), n, x),
            (Err(x), None) => ensure!(x.is_eof(), "{} ({}): the incomplete bytes {} fail with {:?}", what, name, hex(b), x.to_string()),
        }
    }
    Ok(())
}
fn decode_all(s: &mut Src, b: &[u8], be: bool) -> Res {
    let want = unvarint(b);
    let v = want.map(|x| x.0);
    readers::<VarInt64>(s, "VarInt64", b, be, v, |x| (*x).into())?;
    readers::<Hand>(s, "read_u64_varint", b, be, v, |x| x.0)?;
    readers::<Peeked>(s, "peek_u64_varint before read_u64_varint", b, be, v, |x| x.0)?;
    readers::<Looked>(s, "peek_u64_varint", b, be, v, |x| x.0)?;
    readers::<VarLike>(s, "varint field", b, be, v, |x| x.v)?;
    // how much is consumed
    let e = end(be);
    for (what, n) in [("buffer", VarInt64::read_with_length_from_buffer_with_ctx(e, b).1), ("copying buffer", VarInt64::read_with_length_from_buffer_copying_data_with_ctx(e, b).1)] {
        if let Some((_, k)) = want { ensure!(n == k, "VarInt64 ({}): {} bytes of {} are consumed instead of {}", what, n, hex(b), k); }
    }
    let mut r = ScriptRead::new(b, Sched::gen(s, true));
    let _ = VarInt64::read_from_stream_unbuffered_with_ctx(e, &mut r);
    if let Some((_, k)) = want { ensure!(r.pos == k, "VarInt64: {} bytes of {} are taken from an unbuffered stream instead of {}", r.pos, hex(b), k); }
    let n = Looked::read_with_length_from_buffer_with_ctx(e, b).1;
    ensure!(n == 0, "peeking consumes {} bytes", n);
    Ok(())
}
fn numbers(s: &mut Src, cx: &mut Cx) -> Res {
    let v = number(s);
    one(s, cx, v)
}
fn boundaries(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.cycle(65 * 9);
    let (b, d) = (k / 9, k % 9);
    let base: u64 = if b == 64 { 0 } else { 1 << b };
    one(s, cx, base.wrapping_add(d as u64).wrapping_sub(4))
}
fn one(s: &mut Src, cx: &mut Cx, v: u64) -> Res {
    let want = varint(v);
    cx.note(|| format!("number {:#x}", v));
    cx.nontrivial("number", &v.to_le_bytes());
    cx.sample(|| format!("{:#x} as {}", v, hex(&want)));
    cx.label(["1 byte", "2 bytes", "3 bytes", "4 bytes", "5 bytes", "6 bytes", "7 bytes", "8 bytes", "9 bytes"][want.len() - 1]);
    // the minimal length for the magnitude
    let bits = 64 - v.leading_zeros() as usize;
    ensure!(want.len() == ((bits + 6) / 7).clamp(1, 9), "the reference encoder is wrong about {:#x}", v);
    for be in [false, true] {
        let e = end(be);
        macro_rules! writers { ($what:expr, $x:expr) => {{
            let x = $x;
            match x.write_to_vec_with_ctx(e) { Ok(b) => ensure!(b == want, "{}: {:#x} is written as {} instead of {} ({:?})", $what, v, hex(&b), hex(&want), e), Err(x) => fail!("{}: {:#x} cannot be written: {}", $what, v, x) }
            match Writable::<Endianness>::bytes_needed(&x) { Ok(n) => ensure!(n == want.len(), "{}: {:#x} takes {} bytes but {} are predicted", $what, v, want.len(), n), Err(x) => fail!("{}: {}", $what, x) }
            let mut w = ScriptWrite::new(Sched::gen(s, true));
            match x.write_to_stream_with_ctx(e, &mut w) { Ok(()) => ensure!(w.out == want, "{}: a stream gets {} for {:#x}", $what, hex(&w.out), v), Err(x) => fail!("{}: {}", $what, x) }
            let extra = s.usize_below(4);
            pbt::sys::with_guard(1, |g| {
                let buf = g.end_mut(want.len() + extra, 0x5a);
                match x.write_to_buffer_with_ctx(e, buf) { Ok(()) => ensure!(buf[..want.len()] == want[..] && buf[want.len()..].iter().all(|b| *b == 0x5a), "{}: a buffer gets {} for {:#x}", $what, hex(buf), v), Err(x) => fail!("{}: {}", $what, x) }
                let n = s.usize_below(want.len());
                match x.write_to_buffer_with_ctx(e, g.end_mut(n, 0)) { Ok(()) => fail!("{}: {:#x} fits into {} bytes", $what, v, n), Err(_) => Ok(()) }
            })?;
            let mut w = MyWriter { out: vec![], ctx: e, room: None };
            match x.write_to(&mut w) { Ok(()) => ensure!(w.out == want, "{}: the user's writer gets {} for {:#x}", $what, hex(&w.out), v), Err(x) => fail!("{}: {}", $what, x) }
        }} }
        writers!("VarInt64", VarInt64::from(v));
        writers!("write_u64_varint", Hand(v));
        writers!("varint field", VarLike { v });
        decode_all(s, &want, be)?;
        // followed by something else, and cut short
        let mut longer = want.clone();
        longer.extend(s.bytes(3));
        decode_all(s, &longer, be)?;
        let cut = s.usize_below(want.len());
        decode_all(s, &want[..cut], be)?;
        // among other fields
        let f = Fields { a: 0x11, v, b: 0x2233 };
        let mut o = model::Out::new(be);
        o.u8(0x11); o.varint(v); o.u16(0x2233);
        match f.write_to_vec_with_ctx(e) { Ok(b) => { ensure!(b == o.b, "{:?} is written as {} instead of {}", f, hex(&b), hex(&o.b)); match Fields::read_from_buffer_with_ctx(e, &b) { Ok(r) => ensure!(r == f, "{:?} is read back as {:?}", f, r), Err(x) => fail!("{:?} is not read back: {}", f, x) } } Err(x) => fail!("{:?}: {}", f, x) }
        let t = Twice(VarLike { v }, VarLike { v: v.rotate_left(13) });
        let b = match t.write_to_vec_with_ctx(e) { Ok(b) => b, Err(x) => fail!("{}", x) };
        let mut o = varint(v); o.extend(varint(v.rotate_left(13)));
        ensure!(b == o, "{:?} is written as {} instead of {}", t, hex(&b), hex(&o));
        match Twice::read_from_stream_buffered_with_ctx(e, ScriptRead::new(&b, Sched::gen(s, true))) { Ok(r) => ensure!(r == t, "{:?} is read back as {:?}", t, r), Err(x) => fail!("{:?} is not read back: {}", t, x) }
    }
    ensure!(u64::from(VarInt64::from(v)) == v, "{:#x} does not survive the conversion", v);
    // as a length prefix, where there can be as many elements
    if v < 3000 {
        let c = Counted { v: vec![0xee; v as usize] };
        let mut o = varint(v);
        o.extend(&c.v);
        match c.write_to_vec_with_ctx(Endianness::BigEndian) { Ok(b) => { ensure!(b == o, "a length of {} is written as {}", v, hex(&b)); match Counted::read_from_buffer_with_ctx(Endianness::BigEndian, &b) { Ok(r) => ensure!(r == c, "a length of {} is not read back", v), Err(x) => fail!("a length of {} is refused: {}", v, x) } } Err(x) => fail!("{}", x) }
    }
    cx.evals(2 * 3 * 36);
    Ok(())
}
/// All strings of one byte, and all of two bytes beginning with it.
fn short_strings(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.cycle(256) as u8;
    let be = s.bool();
    cx.note(|| format!("strings beginning with {:#x}", k));
    decode_all(s, &[], be)?;
    decode_all(s, &[k], be)?;
    for j in 0..=255u8 {
        cx.evals(1);
        cx.nontrivial("bytes", &[k, j]);
        let b = [k, j];
        let want = unvarint(&b).map(|x| x.0);
        let r = VarInt64::read_from_buffer_with_ctx(end(be), &b).map(u64::from);
        let p = Looked::read_from_buffer_with_ctx(end(be), &b).map(|x| x.0);
        for (what, r) in [("read", r), ("peeked", p)] {
            match (r, want) { (Ok(v), Some(x)) => ensure!(v == x, "the bytes {} denote {} but are {} as {}", hex(&b), x, what, v), (Err(x), None) => ensure!(x.is_eof(), "the bytes {} fail with {}", hex(&b), x), (r, w) => fail!("the bytes {} denote {:?} but are {} as {:?}", hex(&b), w, what, r.ok()) }
        }
    }
    Ok(())
}
/// Longer strings, minimal or not.
fn strings(s: &mut Src, cx: &mut Cx) -> Res {
    let first = s.cycle(256) as u8;
    let n = (first.leading_ones() as usize).min(8);
    let mut b = vec![first];
    let m = match s.below(4) { 0 => s.usize_below(n + 1), 1 => n, _ => n + s.usize_below(4) };
    // zeros make non-minimal numbers
    b.extend(if s.chance(1, 3) { let z = s.usize_below(m + 1); let mut t = s.bytes(m); for x in t.iter_mut().take(z) { *x = 0 } if s.bool() { t.reverse() } t } else { s.bytes(m) });
    let be = s.bool();
    cx.note(|| format!("bytes {}", hex(&b)));
    cx.nontrivial("bytes", &b);
    cx.sample(|| format!("bytes {} as {:?}", hex(&b), unvarint(&b)));
    cx.label(if unvarint(&b).map_or(false, |(v, k)| varint(v).len() < k) { "not minimal" } else if unvarint(&b).is_none() { "incomplete" } else { "minimal" });
    decode_all(s, &b, be)
}
fn signed(s: &mut Src, cx: &mut Cx) -> Res {
    let v = match s.below(4) { 0 => s.cycle(600) as i64 - 300, 1 => i64::MIN + s.below(4) as i64, 2 => number(s) as i64, _ => (number(s) as i64).wrapping_neg() };
    fn zig(v: i64) -> u64 { let m = v as i128; (if m >= 0 { 2 * m } else { -2 * m - 1 }) as u64 }
    cx.note(|| format!("signed {}", v));
    cx.nontrivial("signed", &v.to_le_bytes());
    let e = end(s.bool());
    macro_rules! check { ($($t:ty),*) => {$({
        let x = v as $t;
        let w = VarInt64::from(x);
        let u: u64 = w.into();
        ensure!(u == zig(x as i64), "{} as {} is converted to {} instead of {}", x, stringify!($t), u, zig(x as i64));
        let back: i64 = w.into();
        ensure!(back == x as i64, "{} as {} comes back as {}", x, stringify!($t), back);
        let b = match w.write_to_vec_with_ctx(e) { Ok(b) => b, Err(x) => fail!("{}", x) };
        ensure!(b == varint(zig(x as i64)), "{} as {} is written as {} instead of {}", x, stringify!($t), hex(&b), hex(&varint(zig(x as i64))));
        match VarInt64::read_from_buffer_with_ctx(e, &b) { Ok(r) => { let r: i64 = r.into(); ensure!(r == x as i64, "{} as {} is read back as {}", x, stringify!($t), r) } Err(x) => fail!("{}", x) }
    })*} }
    check!(i8, i16, i32, i64);
    macro_rules! plain { ($($t:ty),*) => {$({ let x = v as $t; let u: u64 = VarInt64::from(x).into(); ensure!(u == x as u64, "{} as {} is converted to {}", x, stringify!($t), u); })*} }
    plain!(u8, u16, u32, u64);
    // every number is the zigzag form of exactly one signed number
    let u = v as u64;
    let i: i64 = VarInt64::from(u).into();
    ensure!(zig(i) == u, "{} stands for {} although that is written as {}", u, i, zig(i));
    cx.evals(9);
    Ok(())
}
fn main() {
    let mut m = pbt::Main::new("C13", "numbers at every power of two and byte/7-bit boundary (exhaustive) and random ones; all 1- and 2-byte strings, longer ones with every first byte; signed numbers; non-trivial = distinct numbers and byte strings");
    m.section("powers of two", 585, 585 * 4, boundaries);
    m.section("numbers", 300_000, 4_000_000, numbers);
    m.section("short strings", 256, 256 * 2, short_strings);
    m.section("strings", 400_000, 6_000_000, strings);
    m.section("signed", 300_000, 6_000_000, signed);
    m.run()
}
