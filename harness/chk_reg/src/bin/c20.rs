use model::faults::accept_rewrite;
use model::flags::*;
use model::std_types::utf8_ok;
use pbt::io::{Sched, ScriptRead};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{Endianness, Error, Readable, Writable};
use std::borrow::Cow;

fn end(be: bool) -> Endianness { if be { Endianness::BigEndian } else { Endianness::LittleEndian } }
fn bytes(v: u64, n: usize, be: bool) -> Vec<u8> { let mut o = model::Out::new(be); o.uint(v as u128, n); o.b }
/// Reads a type through all five kinds of reader; they must agree.
fn all_readers<T: Readable<'static, Endianness> + PartialEq + std::fmt::Debug>(s: &mut Src, name: &str, b: &[u8], be: bool) -> Result<Result<T, Error>, pbt::Fail> {
    let e = end(be);
    let r = pbt::sys::with_guard(0, |g| T::read_from_buffer_with_ctx(e, g.end(b, 0)));
    let sched = if b.len() < 4 { Sched::whole() } else { Sched::gen(s, true) };
    for which in 0..3 {
        let (who, x) = match which { 0 => ("copying reader", T::read_from_buffer_copying_data_with_ctx(e, b)), 1 => ("unbuffered stream", T::read_from_stream_unbuffered_with_ctx(e, ScriptRead::new(b, sched.clone()))), _ => ("buffered stream", T::read_from_stream_buffered_with_ctx(e, ScriptRead::new(b, sched.clone()))) };
        match (&r, &x) {
            (Ok(a), Ok(b2)) => ensure!(a == b2, "{}: the {} reads {} as {:?}, the buffer reader as {:?}", name, who, hex(b), b2, a),
            (Err(_), Err(_)) => {}
            _ => fail!("{}: {} is {} by the buffer reader but {} by the {}", name, hex(b), if r.is_ok() { "accepted" } else { "refused" }, if x.is_ok() { "accepted" } else { "refused" }, who),
        }
    }
    Ok(r)
}
/// Accepted exactly when `want` says so, as that value; the value is written back as the same bytes if `unique`.
fn expect<T: Readable<'static, Endianness> + Writable<Endianness> + PartialEq + std::fmt::Debug>(s: &mut Src, cx: &mut Cx, name: &str, b: &[u8], be: bool, want: Option<T>, unique: bool) -> Res {
    cx.evals(1);
    cx.nontrivial(name, b);
    match (all_readers::<T>(s, name, b, be)?, want) {
        (Ok(v), Some(w)) => {
            ensure!(v == w, "{}: {} is read as {:?} instead of {:?}", name, hex(b), v, w);
            let again = match v.write_to_vec_with_ctx(end(be)) { Ok(x) => x, Err(x) => fail!("{}: {:?} was read but cannot be written: {}", name, v, x) };
            if unique { ensure!(again == b, "{}: {} is read as {:?} and written as {}", name, hex(b), v, hex(&again)); }
        }
        (Ok(v), None) => fail!("{}: the invalid representation {} is accepted as {:?}", name, hex(b), v),
        (Err(x), Some(w)) => fail!("{}: {} is refused ({}) instead of read as {:?}", name, hex(b), x, w),
        (Err(_), None) => {}
    }
    Ok(())
}
/// Every 32-bit code unit below 0x113000, block by block, and points above.
fn chars(s: &mut Src, cx: &mut Cx) -> Res {
    let blocks = 0x113000 / 512;
    let k = s.cycle(blocks) as u64;
    let be = s.bool();
    let e = end(be);
    cx.note(|| format!("char block {:#x}.. {}", k * 512, be));
    // the bulk of a block cheaply, its edges through every reader
    for v in k * 512..(k + 1) * 512 {
        let want = char::from_u32(v as u32).is_some();
        let b = bytes(v, 4, be);
        match char::read_from_buffer_with_ctx(e, &b) {
            Ok(c) => { ensure!(want, "the code {:#x} is accepted as a char", v); ensure!(c as u32 as u64 == v, "code {:#x} is read as {:?}", v, c); }
            Err(x) => ensure!(!want, "the code {:#x} is refused as a char: {}", v, x),
        }
    }
    cx.evals(512);
    cx.nontrivial("char block", &k.to_le_bytes());
    let mut at = vec![k * 512, k * 512 + 511, s.below(0x200) + 0xd7f0, s.below(0x20) + 0xdff0, 0x10ffff - s.below(4), 0x110000 + s.int(31), s.int(32), (s.below(0xffff) << 16) | s.int(16), s.below(0x100) << 24 | s.below(0x110000)];
    at.retain(|x| *x <= 0xffff_ffff);
    for v in at {
        let b = bytes(v, 4, be);
        expect::<char>(s, cx, "char", &b, be, char::from_u32(v as u32), true)?;
        // inside other things
        let mut o = vec![1u8]; o.extend(&b);
        expect::<Option<char>>(s, cx, "Option<char>", &o, be, char::from_u32(v as u32).map(Some), true)?;
        let mut o = bytes(2, 4, be); o.extend(bytes(0x41, 4, be)); o.extend(&b);
        expect::<Vec<char>>(s, cx, "Vec<char>", &o, be, char::from_u32(v as u32).map(|c| vec!['A', c]), true)?;
        expect::<[char; 2]>(s, cx, "[char; 2]", &o[4..], be, char::from_u32(v as u32).map(|c| ['A', c]), true)?;
    }
    Ok(())
}
/// All values of one-byte flags and tags.
fn flags8(s: &mut Src, cx: &mut Cx) -> Res {
    let v = s.cycle(256) as u8;
    let be = s.bool();
    let x = s.int(16) as u16;
    let p = bytes(x as u64, 2, be);
    let with = |b: u8, rest: &[u8]| { let mut o = vec![b]; o.extend_from_slice(rest); o };
    cx.note(|| format!("byte {:#x}", v));
    expect::<bool>(s, cx, "bool", &[v], be, Some(v != 0), v < 2)?;
    expect::<Option<u16>>(s, cx, "Option<u16>", &with(v, if v == 0 { &[] } else { &p }), be, Some(if v == 0 { None } else { Some(x) }), v < 2)?;
    expect::<Option<()>>(s, cx, "Option<()>", &[v], be, Some(if v == 0 { None } else { Some(()) }), v < 2)?;
    expect::<Result<u16, u8>>(s, cx, "Result<u16, u8>", &with(v, if v == 0 { &p[..1] } else { &p }), be, Some(if v == 0 { Err(p[0]) } else { Ok(x) }), v < 2)?;
    expect::<Endianness>(s, cx, "Endianness", &[v], be, match v { 0 => Some(Endianness::LittleEndian), 1 => Some(Endianness::BigEndian), _ => None }, true)?;
    let ip = s.u128();
    let mut o = model::Out::new(be);
    o.u8(v);
    if v == 0 { o.u32(ip as u32) } else { o.u128(ip) }
    let want = match v { 0 => Some(std::net::IpAddr::from((ip as u32).to_be_bytes())), 1 => Some(std::net::IpAddr::from(ip.to_be_bytes())), _ => None };
    expect::<std::net::IpAddr>(s, cx, "IpAddr", &o.b, be, want, true)?;
    expect::<[bool; 3]>(s, cx, "[bool; 3]", &[1, v, 0], be, Some([true, v != 0, false]), v < 2)?;
    let mut o = bytes(2, 4, be); o.extend([v, v]);
    expect::<Vec<bool>>(s, cx, "Vec<bool>", &o, be, Some(vec![v != 0; 2]), v < 2)?;
    expect::<(u8, bool)>(s, cx, "(u8, bool)", &[v, v], be, Some((v, v != 0)), v < 2)?;
    cx.sample(|| format!("flag and tag byte {:#x}", v));
    Ok(())
}
/// Non-zero integers: every one- and two-byte value, zeros and near-zeros of the others.
fn nonzero(s: &mut Src, cx: &mut Cx) -> Res {
    use std::num::*;
    let k = s.cycle(256) as u64;
    let be = s.bool();
    cx.note(|| format!("non-zero block {}", k));
    expect::<NonZeroU8>(s, cx, "NonZeroU8", &[k as u8], be, NonZeroU8::new(k as u8), true)?;
    expect::<NonZeroI8>(s, cx, "NonZeroI8", &[k as u8], be, NonZeroI8::new(k as i8), true)?;
    for v in (k << 8)..((k + 1) << 8) {
        let b = bytes(v, 2, be);
        match NonZeroU16::read_from_buffer_with_ctx(end(be), &b) { Ok(x) => ensure!(x.get() as u64 == v, "NonZeroU16 {:#x} is read as {}", v, x), Err(_) => ensure!(v == 0, "NonZeroU16 {:#x} is refused", v) }
        match NonZeroI16::read_from_buffer_with_ctx(end(be), &b) { Ok(x) => ensure!(x.get() as u16 as u64 == v, "NonZeroI16 {:#x} is read as {}", v, x), Err(_) => ensure!(v == 0, "NonZeroI16 {:#x} is refused", v) }
    }
    cx.evals(512);
    // wider ones: zero, one bit set, zero in part
    let v = match s.below(4) { 0 => 0, 1 => 1u64 << s.below(64), 2 => s.int(64) << 32, _ => s.int(64) };
    let w = v as u32;
    expect::<NonZeroU32>(s, cx, "NonZeroU32", &bytes(w as u64, 4, be), be, NonZeroU32::new(w), true)?;
    expect::<NonZeroI32>(s, cx, "NonZeroI32", &bytes(w as u64, 4, be), be, NonZeroI32::new(w as i32), true)?;
    expect::<NonZeroU64>(s, cx, "NonZeroU64", &bytes(v, 8, be), be, NonZeroU64::new(v), true)?;
    expect::<NonZeroI64>(s, cx, "NonZeroI64", &bytes(v, 8, be), be, NonZeroI64::new(v as i64), true)?;
    let mut o = bytes(2, 4, be); o.extend(bytes(9, 4, be)); o.extend(bytes(w as u64, 4, be));
    expect::<Vec<NonZeroU32>>(s, cx, "Vec<NonZeroU32>", &o, be, NonZeroU32::new(w).map(|x| vec![NonZeroU32::new(9).unwrap(), x]), true)?;
    let mut o = vec![1]; o.extend(bytes(w as u64, 4, be));
    expect::<Option<NonZeroU32>>(s, cx, "Option<NonZeroU32>", &o, be, NonZeroU32::new(w).map(Some), true)?;
    Ok(())
}
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct Counted { n: u8, #[speedy(length = n)] t: String }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct CountedCow<'a> { n: u8, #[speedy(length = n)] t: Cow<'a, str> }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct CountedRef<'a> { n: u8, #[speedy(length = n)] t: &'a str }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct Rest { #[speedy(length = ..)] t: String }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct RestCow<'a> { #[speedy(length = ..)] t: Cow<'a, str> }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct RestRef<'a> { #[speedy(length = ..)] t: &'a str }
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct Short<'a> { #[speedy(length_type = u8)] t: Option<String>, #[speedy(length_type = u64_varint)] c: Cow<'a, str> }

fn borrowing<T: Readable<'static, Endianness> + Writable<Endianness> + PartialEq + std::fmt::Debug>(cx: &mut Cx, name: &str, b: &[u8], be: bool, ok: bool, text: impl Fn(&T) -> &[u8], want: &[u8]) -> Res {
    cx.evals(1);
    let inp: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
    let r = match T::read_from_buffer_with_ctx(end(be), inp) {
        Ok(v) => {
            if !ok { Err(pbt::Fail::new(format!("{}: the invalid string {} is accepted", name, hex(b)))) }
            else if text(&v) != want { Err(pbt::Fail::new(format!("{}: {} is read as {:?}", name, hex(b), v))) }
            else { match v.write_to_vec_with_ctx(end(be)) { Ok(x) if x == b => Ok(()), Ok(x) => Err(pbt::Fail::new(format!("{}: {} is written back as {}", name, hex(b), hex(&x)))), Err(x) => Err(pbt::Fail::new(format!("{}: {}", name, x))) } }
        }
        Err(x) => if ok { Err(pbt::Fail::new(format!("{}: the valid string {} is refused: {}", name, hex(b), x))) } else { Ok(()) },
    };
    unsafe { drop(Box::from_raw(inp as *const [u8] as *mut [u8])); }
    r
}
fn text_all(s: &mut Src, cx: &mut Cx, t: &[u8], be: bool) -> Res {
    let ok = utf8_ok(t);
    ensure!(ok == std::str::from_utf8(t).is_ok(), "model and std disagree about {}", hex(t));
    cx.label(if ok { "valid utf-8" } else { "invalid utf-8" });
    let st = || if ok { Some(String::from_utf8(t.to_vec()).unwrap()) } else { None };
    let mut framed = bytes(t.len() as u64, 4, be);
    framed.extend_from_slice(t);
    expect::<String>(s, cx, "String", &framed, be, st(), true)?;
    expect::<Box<str>>(s, cx, "Box<str>", &framed, be, st().map(|x| x.into()), true)?;
    borrowing::<&'static str>(cx, "&str", &framed, be, ok, |v| v.as_bytes(), t)?;
    borrowing::<Cow<'static, str>>(cx, "Cow<str>", &framed, be, ok, |v| v.as_bytes(), t)?;
    let mut v = bytes(1, 4, be); v.extend(&framed);
    expect::<Vec<String>>(s, cx, "Vec<String>", &v, be, st().map(|x| vec![x]), true)?;
    if t.len() < 128 {
        let mut c = vec![t.len() as u8]; c.extend_from_slice(t);
        expect::<Counted>(s, cx, "String of given length", &c, be, st().map(|t| Counted { n: t.len() as u8, t }), true)?;
        borrowing::<CountedCow<'static>>(cx, "Cow<str> of given length", &c, be, ok, |v| v.t.as_bytes(), t)?;
        borrowing::<CountedRef<'static>>(cx, "&str of given length", &c, be, ok, |v| v.t.as_bytes(), t)?;
        let mut o = vec![1]; o.extend(&c); o.extend(&c);
        borrowing::<Short<'static>>(cx, "prefixed strings", &o, be, ok, |v| v.c.as_bytes(), t)?;
    }
    expect::<Rest>(s, cx, "String until the end", t, be, st().map(|t| Rest { t }), true)?;
    borrowing::<RestCow<'static>>(cx, "Cow<str> until the end", t, be, ok, |v| v.t.as_bytes(), t)?;
    borrowing::<RestRef<'static>>(cx, "&str until the end", t, be, ok, |v| v.t.as_bytes(), t)?;
    Ok(())
}
/// Every one- and two-byte string (in blocks).
fn utf8_short(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.cycle(256) as u8;
    let be = s.bool();
    cx.note(|| format!("strings beginning with {:#x}", k));
    text_all(s, cx, &[k], be)?;
    for j in 0..=255u8 {
        let t = [k, j];
        let ok = utf8_ok(&t);
        let f = [2, 0, 0, 0, k, j];
        cx.evals(1);
        cx.nontrivial("two bytes", &t);
        for which in 0..3 {
            let r = match which { 0 => String::read_from_buffer(&f), 1 => <&str>::read_from_buffer(&f).map(|x| x.to_string()), _ => <Cow<str>>::read_from_buffer(&f).map(|x| x.into_owned()) };
            match r { Ok(x) => ensure!(ok && x.as_bytes() == t, "the bytes {} are accepted as {:?}", hex(&t), x), Err(x) => ensure!(!ok, "the valid string {} is refused: {}", hex(&t), x) }
        }
    }
    Ok(())
}
/// Longer strings: valid text with a structured defect.
fn utf8_long(s: &mut Src, cx: &mut Cx) -> Res {
    let be = s.bool();
    let n = s.usize_below(12);
    let mut t = vec![];
    for _ in 0..n { let c = model::std_types::gen_char(s); t.extend_from_slice(c.to_string().as_bytes()); }
    if s.chance(1, 8) { let c = t.clone(); for _ in 0..s.usize_below(40) { t.extend_from_slice(&c); } }
    if s.chance(3, 4) {
        let bad: &[&[u8]] = &[&[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xff], &[0x80], &[0xbf], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xc3], &[0xed, 0x9f, 0xbf], &[0xee, 0x80, 0x80], &[0xf4, 0x8f, 0xbf, 0xbf], &[0xf8, 0x88, 0x80, 0x80, 0x80]];
        match s.below(4) {
            0 if !t.is_empty() => { let i = s.usize_below(t.len()); t[i] ^= 1 << s.below(8); }
            1 if !t.is_empty() => { let i = s.usize_below(t.len()); t.remove(i); }
            2 => { let k = s.usize_below(5); let j = s.bytes(k); let i = s.usize_below(t.len() + 1); t.splice(i..i, j); }
            _ => { let x: &[u8] = *s.pick(bad); let i = if s.bool() { t.len() } else { s.usize_below(t.len() + 1) }; t.splice(i..i, x.iter().copied()); }
        }
    }
    cx.note(|| format!("text {}", hex(&t)));
    cx.sample(|| format!("string bytes {} ({})", hex(&t), if utf8_ok(&t) { "valid" } else { "invalid" }));
    text_all(s, cx, &t, be)
}
/// Durations and time stamps at the edge of what is representable.
fn times(s: &mut Src, cx: &mut Cx) -> Res {
    use std::time::*;
    let be = s.bool();
    let secs = match s.below(6) { 0 => s.below(3), 1 => u64::MAX - s.below(6), 2 => (i64::MAX as u64).wrapping_add(s.below(5)).wrapping_sub(2), 3 => i64::MAX as u64 - s.below(5), _ => s.int(64) };
    let nanos = match s.below(5) { 0 => 999_999_999, 1 => 1_000_000_000 + s.below(5), 2 => u32::MAX as u64 - s.below(3), 3 => s.below(1_000_000_000), _ => s.int(32) };
    let mut o = model::Out::new(be);
    o.u64(secs); o.u32(nanos as u32);
    let total = secs as u128 * 1_000_000_000 + nanos as u128;
    let whole = total / 1_000_000_000;
    let d = if whole > u64::MAX as u128 { None } else { Some(Duration::new(whole as u64, (total % 1_000_000_000) as u32)) };
    cx.note(|| format!("secs {} nanos {}", secs, nanos));
    cx.sample(|| format!("{} s {} ns", secs, nanos));
    let normal = nanos < 1_000_000_000;
    expect::<Duration>(s, cx, "Duration", &o.b, be, d, normal)?;
    let t = d.and_then(|d| UNIX_EPOCH.checked_add(d));
    expect::<SystemTime>(s, cx, "SystemTime", &o.b, be, t, normal)?;
    // chrono: signed seconds, leap seconds allowed only in the last second of a minute
    let c = chrono::DateTime::<chrono::Utc>::from_timestamp(secs as i64, nanos as u32);
    expect::<chrono::DateTime<chrono::Utc>>(s, cx, "DateTime<Utc>", &o.b, be, c, true)?;
    let small = (s.below(1 << 44) as i64 - (1 << 43)) as u64;
    let mut o = model::Out::new(be);
    o.u64(small); o.u32(nanos as u32);
    expect::<chrono::DateTime<chrono::Utc>>(s, cx, "DateTime<Utc>", &o.b, be, chrono::DateTime::<chrono::Utc>::from_timestamp(small as i64, nanos as u32), true)
}
fn main() {
    let mut m = pbt::Main::new("C20", "exhaustive over flag and tag bytes, one- and two-byte non-zero integers, all char codes below 0x113000 and all one- and two-byte strings; generated wider values, long strings with structured UTF-8 defects, times at the edges, and mutated encodings of every registry type; non-trivial = distinct (type, bytes)");
    let n = 0x113000 / 512;
    m.section("invalid among elements without a count", 100_000, 1_500_000, model::rest::rest);
    m.section("all chars", n, 4 * n, chars);
    m.section("all flag and tag bytes", 1024, 20_000, flags8);
    m.section("non-zero integers", 512, 10_000, nonzero);
    m.section("all short strings", 256, 1024, utf8_short);
    m.section("long strings", 125_000, 1_000_000, utf8_long);
    m.section("times", 100_000, 1_000_000, times);
    let t: Vec<_> = chk_reg::all().into_iter().filter(|t| !t.is(NONUNIQUE) && !t.is(SLOW) && !t.is(ZST)).collect();
    m.section("accepted bytes are written back", 300_000, 3_000_000, move |s, cx| accept_rewrite(s, cx, &t));
    m.run()
}
