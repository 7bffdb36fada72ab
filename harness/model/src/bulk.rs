//! Coding many elements at once must be the same as coding them one at a time.
use crate::codec::{canon, canon_read, In, Len, Out, M};
use crate::dty::items_n;
use crate::ty::end;
use pbt::io::{Sched, ScriptRead};
use pbt::sys::with_guard;
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{Endianness, Error, Readable, Writable};
use std::borrow::Cow;

pub struct Bulk { pub name: &'static str, pub zero: bool, pub f: fn(&'static str, bool, &mut Src, &mut Cx) -> Res }
pub fn bulk<T: M + Clone + Readable<'static, Endianness> + Writable<Endianness>>(name: &'static str, zero: bool) -> Bulk { Bulk { name, zero, f: check::<T> } }

fn check<T: M + Clone + Readable<'static, Endianness> + Writable<Endianness>>(name: &'static str, zero: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let be = s.bool();
    let e = end(be);
    s.scale_small();
    let n = match s.below(4) { 0 => s.usize_below(4), 1 => s.len(), _ => 1 + s.usize_below(9) };
    let v: Vec<T> = items_n(s, Some(n));
    // one at a time
    let mut want = Vec::new();
    let mut o = Out::new(be);
    o.len(v.len(), Len::U32);
    let mut model = o.b.clone();
    for x in &v {
        let b = match x.write_to_vec_with_ctx(e) { Ok(b) => b, Err(x) => fail!("{}: writing one element failed: {}", name, x) };
        want.extend_from_slice(&b);
        let mut o = Out::new(be);
        x.enc(&mut o);
        model.extend_from_slice(&o.b);
    }
    let mut framed = o.b;
    framed.extend_from_slice(&want);
    cx.note(|| format!("{} {} x{}: one at a time {}", name, if be { "BE" } else { "LE" }, v.len(), hex(&want)));
    ensure!(framed == model, "{}: elements are written as {} but documented as {}", name, hex(&framed), hex(&model));
    if !v.is_empty() { cx.nontrivial(name, &framed); }
    cx.sample(|| format!("{} {} x{} = {}", name, if be { "BE" } else { "LE" }, v.len(), hex(&framed)));
    // all at once
    macro_rules! w { ($what:expr, $x:expr, $want:expr) => {{
        let x = &$x;
        match x.write_to_vec_with_ctx(e) { Ok(b) => ensure!(b == $want, "{} {}: writing {} gives {} but element by element {}", name, if be { "BE" } else { "LE" }, $what, hex(&b), hex(&$want)), Err(x) => fail!("{}: writing {} failed: {}", name, $what, x) }
        match Writable::<Endianness>::bytes_needed(x) { Ok(k) => ensure!(k == $want.len(), "{}: {} is predicted to need {} bytes, needs {}", name, $what, k, $want.len()), Err(x) => fail!("{}: size prediction failed: {}", name, x) }
        let mut out = Vec::new();
        match x.write_to_stream_with_ctx(e, &mut out) { Ok(()) => ensure!(out == $want, "{}: streaming {} gives {} not {}", name, $what, hex(&out), hex(&$want)), Err(x) => fail!("{}: {}", name, x) }
        let mut buf = vec![0xAA; $want.len() + 3];
        match x.write_to_buffer_with_ctx(e, &mut buf) { Ok(()) => ensure!(buf[..$want.len()] == $want[..] && buf[$want.len()..] == [0xAA; 3], "{}: writing {} to a buffer gives {} not {}", name, $what, hex(&buf), hex(&$want)), Err(x) => fail!("{}: {}", name, x) }
    }} }
    w!("a vector", v, framed);
    w!("a slice", v[..], framed);
    w!("a boxed slice", v.clone().into_boxed_slice(), framed);
    w!("a borrowed Cow", Cow::Borrowed(&v[..]), framed);
    let arr: Option<[T; 3]> = if v.len() >= 3 { v[..3].to_vec().try_into().ok() } else { None };
    let mut first3 = Vec::new();
    if v.len() >= 3 { for x in &v[..3] { first3.extend(x.write_to_vec_with_ctx(e).unwrap()); } }
    if let Some(ref a) = arr { w!("an array", *a, first3); }
    // reading: all at once and one at a time, at some alignment
    let canon_all: Vec<Vec<u8>> = v.iter().map(|x| canon_read(x)).collect();
    let off = s.usize_below(17);
    with_guard(0, |g| {
        let inp = if s.bool() { g.start(&framed, off) } else { g.end(&framed, off) };
        let items = &inp[4..];
        let mut pos = 0;
        for (k, c) in canon_all.iter().enumerate() {
            let (r, n) = T::read_with_length_from_buffer_with_ctx(e, &items[pos..]);
            match r { Ok(x) => ensure!(canon(&x) == *c, "{}: element {} reads back as {} not {}", name, k, hex(&canon(&x)), hex(c)), Err(x) => fail!("{}: element {} cannot be read: {}", name, k, x) }
            pos += n;
        }
        ensure!(pos == items.len(), "{}: {} bytes of elements, {} consumed one at a time", name, items.len(), pos);
        let same = |what: &str, r: Result<Vec<T>, Error>| -> Res {
            match r {
                Ok(x) => { ensure!(x.len() == canon_all.len(), "{}: {} elements read as {} at once by {}", name, canon_all.len(), x.len(), what); for (k, x) in x.iter().enumerate() { ensure!(canon(x) == canon_all[k], "{} {}: {} reads element {} as {} instead of {} (offset {})", name, if be { "BE" } else { "LE" }, what, k, hex(&canon(x)), hex(&canon_all[k]), off); } Ok(()) }
                Err(x) => fail!("{}: {} fails: {}", name, what, x),
            }
        };
        same("a vector from a buffer", <Vec<T>>::read_from_buffer_with_ctx(e, inp))?;
        same("a vector from a copied buffer", <Vec<T>>::read_from_buffer_copying_data_with_ctx(e, inp))?;
        same("a boxed slice", <Box<[T]>>::read_from_buffer_with_ctx(e, inp).map(|x| x.into_vec()))?;
        same("a Cow from a buffer", <Cow<'static, [T]>>::read_from_buffer_with_ctx(e, inp).map(|x| x.to_vec()))?;
        same("a Cow from a copied buffer", <Cow<'static, [T]>>::read_from_buffer_copying_data_with_ctx(e, inp).map(|x| x.into_owned()))?;
        same("a vector from a stream", <Vec<T>>::read_from_stream_unbuffered_with_ctx(e, ScriptRead::new(inp, Sched::gen(s, true))))?;
        same("a vector from a buffered stream", <Vec<T>>::read_from_stream_buffered_with_ctx(e, ScriptRead::new(inp, Sched::gen(s, true))))?;
        if !zero { for what in 0..3 {
            // every strict prefix of the elements is refused by the bulk path as well
            if items.is_empty() { break; }
            let cut = 4 + s.usize_below(items.len());
            let r = match what { 0 => <Vec<T>>::read_from_buffer_with_ctx(e, &inp[..cut]).is_ok(), 1 => <Cow<'static, [T]>>::read_from_buffer_with_ctx(e, &inp[..cut]).is_ok(), _ => <Vec<T>>::read_from_stream_unbuffered_with_ctx(e, &inp[..cut]).is_ok() };
            ensure!(!r, "{}: {} of {} bytes are enough to read all {} elements", name, cut, inp.len(), v.len());
        } }
        Ok(())
    })?;
    if let Some(ref a) = arr {
        with_guard(0, |g| {
            let inp = g.end(&first3, off);
            for copying in [false, true] {
                let r = if copying { <[T; 3]>::read_from_buffer_copying_data_with_ctx(e, inp) } else { <[T; 3]>::read_from_buffer_with_ctx(e, inp) };
                match r { Ok(x) => for k in 0..3 { ensure!(canon(&x[k]) == canon_read(&a[k]), "{}: array element {} reads as {} instead of {}", name, k, hex(&canon(&x[k])), hex(&canon_read(&a[k]))); }, Err(x) => fail!("{}: reading an array failed: {}", name, x) }
            }
            Ok(())
        })?;
        let mut i = In::new(&first3, be);
        ensure!(<[T; 3]>::dec(&mut i).is_ok(), "model");
    }
    Ok(())
}
macro_rules! list { ($($t:ty),* $(,)?) => { vec![$(bulk::<$t>(stringify!($t), <$t as M>::MIN == 0)),*] } }
pub fn builtin() -> Vec<Bulk> {
    list![u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, usize, bool, char, (), (u8, u16), [u16; 3], [u8; 4], [[u32; 2]; 2], String, Vec<u8>, Option<u16>,
        std::num::NonZeroU32, std::net::Ipv4Addr, std::net::Ipv6Addr, std::net::IpAddr, std::time::Duration, Box<u32>, Cow<'static, str>, speedy::Endianness, speedy::private::VarInt64, [(); 2], std::ops::Range<u32>]
}
