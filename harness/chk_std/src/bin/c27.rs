use pbt::{ensure, Cx, Res, Src};
use speedy::{BigEndian, Context, Endianness, LittleEndian, Readable, Writable};
use std::panic::{catch_unwind, AssertUnwindSafe};

const BOTH: [Endianness; 2] = [Endianness::LittleEndian, Endianness::BigEndian];

/// Bytes for `n` elements of `w` bytes: arbitrary, with patterns where one byte (or one bit) stands out, or floats' special values.
fn raw(s: &mut Src, w: usize, n: usize) -> Vec<u8> {
    let mut b = s.bytes(w * n);
    if w > 0 { for e in b.chunks_mut(w) { match s.below(6) {
        0 => { e.fill(0); let k = s.usize_below(w); e[k] = 1 << s.below(8) }
        1 => for (k, x) in e.iter_mut().enumerate() { *x = k as u8 + 1 },
        2 if w == 4 => e.copy_from_slice(&s.pick(&[f32::NAN.to_bits(), 0x7f800001, 0xffc00001, 0x80000000, 0x00000001, 0x7f800000]).to_ne_bytes()),
        2 if w == 8 => e.copy_from_slice(&s.pick(&[f64::NAN.to_bits(), 0x7ff0000000000001, 0xfff8000000000001, 1 << 63, 1, 0x7ff0000000000000]).to_ne_bytes()),
        _ => {}
    } } }
    b
}

struct Kind { name: &'static str, width: usize, one: fn(&str, &mut Src, &mut Cx) -> Res, slice: fn(&str, &mut Src, &mut Cx) -> Res, wrong: fn(&str, &mut Src, &mut Cx) -> Res }
macro_rules! kinds { ($($t:ident $read:ident $swap:ident $slice:ident;)*) => { vec![$({
    const W: usize = std::mem::size_of::<$t>();
    fn of(e: Endianness, b: &[u8]) -> $t { let a: [u8; W] = b.try_into().unwrap(); if e == Endianness::BigEndian { $t::from_be_bytes(a) } else { $t::from_le_bytes(a) } }
    fn one(name: &str, s: &mut Src, cx: &mut Cx) -> Res {
        let b = raw(s, W, 1);
        let shift = s.usize_below(16);
        cx.nontrivial(name, &b);
        cx.note(|| format!("{} of {:02x?}", name, b));
        for e in BOTH {
            let want = of(e, &b).to_ne_bytes();
            // at every alignment, with the input ending where memory does
            let got = pbt::sys::with_guard(0, |g| e.$read(g.end(&b, 0)));
            ensure!(got.to_ne_bytes() == want, "{:?}.read_{}({:02x?}) = {:02x?} (in memory), expected {:02x?}", e, name, b, got.to_ne_bytes(), want);
            let mut v = vec![0xa5; shift]; v.extend(&b); v.push(0x5a);
            let got = e.$read(&v[shift..shift + W]);
            ensure!(got.to_ne_bytes() == want, "{:?}.read_{}({:02x?}) = {:02x?} (in memory) at offset {}, expected {:02x?}", e, name, b, got.to_ne_bytes(), shift, want);
            // what was copied into memory as is becomes the value, and the other way round
            let mut x = $t::from_ne_bytes(b[..].try_into().unwrap());
            e.$swap(&mut x);
            ensure!(x.to_ne_bytes() == want, "{:?}.swap_{} makes {:02x?} of {:02x?} (in memory), expected {:02x?}", e, name, x.to_ne_bytes(), b, want);
            e.$swap(&mut x);
            ensure!(x.to_ne_bytes()[..] == b[..], "{:?}.swap_{} twice makes {:02x?} of {:02x?} (in memory)", e, name, x.to_ne_bytes(), b);
            // in agreement with values read and written
            let v = <$t>::read_from_buffer_with_ctx(e, &b).unwrap();
            ensure!(v.to_ne_bytes() == want, "reading {} from {:02x?} as {:?} gives {:02x?} (in memory), read_{} {:02x?}", name, b, e, v.to_ne_bytes(), name, want);
            let w = v.write_to_vec_with_ctx(e).unwrap();
            ensure!(w == b, "{} read from {:02x?} is written as {:02x?} ({:?})", name, b, w, e);
        }
        Ok(())
    }
    fn slice(name: &str, s: &mut Src, cx: &mut Cx) -> Res {
        let n = s.len().min(3000) + if s.chance(1, 4) { 1 + s.usize_below(40) } else { 0 };
        let (before, after) = (s.usize_below(5), s.usize_below(5));
        let b = raw(s, W, before + n + after);
        if n > 1 { cx.nontrivial(name, &b); }
        cx.note(|| format!("{} x {} at {}: {:02x?}", n, name, before, &b[..b.len().min(64)]));
        for e in BOTH {
            let orig: Vec<$t> = b.chunks(W).map(|c| $t::from_ne_bytes(c.try_into().unwrap())).collect();
            let mut v = orig.clone();
            e.$slice(&mut v[before..before + n]);
            for i in 0..v.len() {
                let inside = i >= before && i < before + n;
                let want = if inside { of(e, &b[i * W..][..W]).to_ne_bytes() } else { orig[i].to_ne_bytes() };
                ensure!(v[i].to_ne_bytes() == want, "{:?}.swap_slice_{} of {} elements: element {} ({}) is {:02x?} (in memory), expected {:02x?}", e, name, n, i as i64 - before as i64, if inside { "inside" } else { "outside" }, v[i].to_ne_bytes(), want);
            }
        }
        Ok(())
    }
    /// A slice of another length is no such number; at the end of memory it must not be read past.
    fn wrong(name: &str, s: &mut Src, cx: &mut Cx) -> Res {
        let n = s.usize_below(W * 2 + 2);
        let n = if n == W { W + 1 } else { n };
        let b = s.bytes(n);
        let e = *s.pick(&BOTH);
        cx.nontrivial(name, &b);
        let r = pbt::sys::with_guard(0, |g| { let g = g.end(&b, 0); catch_unwind(AssertUnwindSafe(|| e.$read(g))) });
        ensure!(r.is_err(), "{:?}.read_{} of {} bytes gives {:02x?} (in memory)", e, name, n, r.unwrap().to_ne_bytes());
        Ok(())
    }
    Kind { name: stringify!($t), width: W, one, slice, wrong }
}),*] } }
fn kinds() -> Vec<Kind> {
    kinds! {
        u16 read_u16 swap_u16 swap_slice_u16; i16 read_i16 swap_i16 swap_slice_i16; u32 read_u32 swap_u32 swap_slice_u32; i32 read_i32 swap_i32 swap_slice_i32;
        u64 read_u64 swap_u64 swap_slice_u64; i64 read_i64 swap_i64 swap_slice_i64; u128 read_u128 swap_u128 swap_slice_u128; i128 read_i128 swap_i128 swap_slice_i128;
        f32 read_f32 swap_f32 swap_slice_f32; f64 read_f64 swap_f64 swap_slice_f64;
    }
}
/// Single bytes have no order.
fn bytes(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.len();
    let b = s.bytes(n);
    if n > 1 { cx.nontrivial("u8", &b); }
    for e in BOTH {
        let mut v = b.clone();
        e.swap_slice_u8(&mut v);
        ensure!(v == b, "{:?}.swap_slice_u8 makes {:02x?} of {:02x?}", e, v, b);
        let mut v: Vec<i8> = b.iter().map(|&x| x as i8).collect();
        e.swap_slice_i8(&mut v);
        ensure!(v.iter().map(|&x| x as u8).eq(b.iter().copied()), "{:?}.swap_slice_i8 makes {:02x?} of {:02x?}", e, v, b);
    }
    Ok(())
}
/// The names of the orders, the machine's own order, and the contexts standing for them.
fn names(s: &mut Src, cx: &mut Cx) -> Res {
    let x = s.u128();
    cx.nontrivial("order", &x.to_le_bytes());
    let native = if cfg!(target_endian = "big") { Endianness::BigEndian } else { Endianness::LittleEndian };
    ensure!(Endianness::NATIVE == native, "the machine's own order is said to be {:?}", Endianness::NATIVE);
    for e in BOTH {
        ensure!(e.conversion_necessary() == (e != native), "{:?}.conversion_necessary() = {}", e, e.conversion_necessary());
        ensure!(e.endianness() == e, "the context {:?} has the order {:?}", e, e.endianness());
        let b = if e == Endianness::BigEndian { x.to_be_bytes() } else { x.to_le_bytes() };
        ensure!(x.write_to_vec_with_ctx(e).unwrap() == b, "{:#x} written in {:?}", x, e);
    }
    ensure!(Endianness::LittleEndian != Endianness::BigEndian && BOTH[0] == BOTH[0].clone(), "the orders are not told apart");
    ensure!(LittleEndian {}.endianness() == Endianness::LittleEndian && LittleEndian::default().endianness() == Endianness::LittleEndian, "LittleEndian is {:?}", LittleEndian {}.endianness());
    ensure!(BigEndian {}.endianness() == Endianness::BigEndian && BigEndian::default().endianness() == Endianness::BigEndian, "BigEndian is {:?}", BigEndian {}.endianness());
    ensure!(x.write_to_vec_with_ctx(LittleEndian {}).unwrap() == x.to_le_bytes() && x.write_to_vec_with_ctx(BigEndian {}).unwrap() == x.to_be_bytes(), "{:#x} in the named orders", x);
    ensure!(x.write_to_vec().unwrap() == x.to_le_bytes() && u128::read_from_buffer(&x.to_le_bytes()).unwrap() == x, "{:#x} without a context is not little endian", x);
    Ok(())
}
fn main() {
    let mut m = pbt::Main::new("C27", "each number type's helpers on generated bytes, both orders, at every alignment and at the end of memory; non-trivial = distinct (type, bytes), for slices those of at least two elements");
    m.section("single numbers", 1_200_000, 8_000_000, |s, cx| { let k = kinds(); let i = s.cycle(k.len()); debug_assert!(k[i].width > 1); (k[i].one)(k[i].name, s, cx) });
    m.section("slices", 200_000, 2_000_000, |s, cx| { s.scale(); let k = kinds(); let i = s.cycle(k.len()); (k[i].slice)(k[i].name, s, cx) });
    m.section("wrong lengths", 100_000, 500_000, |s, cx| { let k = kinds(); let i = s.cycle(k.len()); (k[i].wrong)(k[i].name, s, cx) });
    m.section("bytes", 20_000, 100_000, |s, cx| { s.scale(); bytes(s, cx) });
    m.section("names", 20_000, 100_000, names);
    m.run()
}
