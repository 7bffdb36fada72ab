//! What derived types are made of: containers with a configurable length, attributes, and their helpers.
use crate::codec::{In, Len, Out, DE, M};
use crate::std_types::*;
use pbt::Src;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::mem::size_of;

thread_local! {
    /// How often (1 in n) containers with a declared length width get a length at the edge of that width.
    pub static BOUNDARY: Cell<u64> = const { Cell::new(60) };
}

/// A container whose length the derive macro can be told how to encode.
pub trait Cont: Sized + 'static {
    /// At most n elements (fewer if keys run out); `None` picks a length.
    fn cgen(s: &mut Src, n: Option<usize>) -> Self;
    fn clen(&self) -> usize;
    fn cenc(&self, o: &mut Out);
    fn cdec(i: &mut In, n: usize) -> Result<Self, DE>;
    fn cend(i: &mut In) -> Result<Self, DE>;
}
fn str_gen(s: &mut Src, n: Option<usize>) -> String {
    match n {
        None => gen_string(s),
        Some(n) => {
            let c = (0x61 + s.below(26)) as u8 as char;
            let mut r = String::new();
            // sometimes with multi-byte characters
            if s.chance(1, 3) { while r.len() + 4 <= n { r.push(gen_char(s)); if r.len() > 40 { break; } } }
            while r.len() < n { r.push(c); }
            r
        }
    }
}
fn str_end(i: &mut In) -> Result<String, DE> { let n = i.left(); dec_str(i, n) }
pub fn items_n<T: M>(s: &mut Src, n: Option<usize>) -> Vec<T> {
    match n {
        None => gen_items(s),
        Some(n) if n <= 24 => copies(n, || s.nested(n, |s| (0..n).map(|_| T::gen(s)).collect())),
        Some(n) => copies(n, || s.nested(64, |s| {
            s.budget = s.budget.min(2000 / n).min(8);
            let pat = 1 + s.usize_below(3);
            let mut encs = Vec::new();
            for _ in 0..pat { let v = T::gen(s); let mut o = Out::new(false); v.enc(&mut o); if o.fail { return Vec::new(); } encs.push(o.b); }
            (0..n).map(|k| T::dec(&mut In::new(&encs[k % pat], false)).ok().unwrap()).collect()
        })),
    }
}
/// n distinct keys where the key type has a way to enumerate them, else random ones.
fn keys_n<K: M>(s: &mut Src, n: usize) -> Vec<K> {
    let base = s.below(200);
    (0..n as u64).map(|k| match K::nth(base + k) { Some(x) => x, None => s.nested(n.max(8), |s| { s.budget = s.budget.min(2); K::gen(s) }) }).collect()
}
macro_rules! cont {
    ([$($g:tt)*] $t:ty, $gen:expr, $len:expr, $enc:expr, $dec:expr, $end:expr) => {
        impl<$($g)*> Cont for $t {
            fn cgen(s: &mut Src, n: Option<usize>) -> Self { let f: fn(&mut Src, Option<usize>) -> Self = $gen; f(s, n) }
            fn clen(&self) -> usize { let f: fn(&Self) -> usize = $len; f(self) }
            fn cenc(&self, o: &mut Out) { let f: fn(&Self, &mut Out) = $enc; f(self, o) }
            fn cdec(i: &mut In, n: usize) -> Result<Self, DE> { let f: fn(&mut In, usize) -> Result<Self, DE> = $dec; f(i, n) }
            fn cend(i: &mut In) -> Result<Self, DE> { let f: fn(&mut In) -> Result<Self, DE> = $end; f(i) }
        }
    }
}
fn leak<T: ?Sized>(b: Box<T>) -> &'static T { Box::leak(b) }
cont!([] String, str_gen, |v| v.len(), |v, o| o.raw(v.as_bytes()), dec_str, str_end);
cont!([] Cow<'static, str>, |s, n| str_gen(s, n).into(), |v| v.len(), |v, o| o.raw(v.as_bytes()), |i, n| Ok(dec_str(i, n)?.into()), |i| Ok(str_end(i)?.into()));
cont!([] &'static str, |s, n| leak(str_gen(s, n).into_boxed_str()), |v| v.len(), |v, o| o.raw(v.as_bytes()), |i, n| Ok(leak(dec_str(i, n)?.into_boxed_str())), |i| Ok(leak(str_end(i)?.into_boxed_str())));
cont!([T: M] Vec<T>, items_n, |v| v.len(), |v, o| enc_items(v, o, Len::None_), dec_items, |i| i.until_end(T::dec));
cont!([T: M + Clone] Cow<'static, [T]>, |s, n| items_n(s, n).into(), |v| v.len(), |v, o| enc_items(v, o, Len::None_), |i, n| Ok(dec_items(i, n)?.into()), |i| Ok(i.until_end(T::dec)?.into()));
cont!([T: M] &'static [T], |s, n| leak(items_n(s, n).into_boxed_slice()), |v| v.len(), |v, o| enc_items(v, o, Len::None_), |i, n| Ok(leak(dec_items(i, n)?.into_boxed_slice())), |i| Ok(leak(i.until_end(T::dec)?.into_boxed_slice())));
fn bset<K: M + Ord>(s: &mut Src, n: Option<usize>) -> BTreeSet<K> { match n { None => M::gen(s), Some(n) => keys_n(s, n).into_iter().collect() } }
fn hset<K: M + Eq + Hash>(s: &mut Src, n: Option<usize>) -> HashSet<K> { match n { None => M::gen(s), Some(n) => keys_n(s, n).into_iter().collect() } }
fn pairs_n<K: M, V: M>(s: &mut Src, n: usize) -> Vec<(K, V)> { let k = keys_n(s, n); let v = items_n(s, Some(n)); k.into_iter().zip(v).collect() }
fn bmap<K: M + Ord, V: M>(s: &mut Src, n: Option<usize>) -> BTreeMap<K, V> { match n { None => M::gen(s), Some(n) => pairs_n(s, n).into_iter().collect() } }
fn hmap<K: M + Eq + Hash, V: M>(s: &mut Src, n: Option<usize>) -> HashMap<K, V> { match n { None => M::gen(s), Some(n) => pairs_n(s, n).into_iter().collect() } }
fn pair<K: M, V: M>(i: &mut In) -> Result<(K, V), DE> { Ok((K::dec(i)?, V::dec(i)?)) }
cont!([K: M + Ord] BTreeSet<K>, bset, |v| v.len(), |v, o| for k in v { k.enc(o) }, |i, n| Ok(dec_items(i, n)?.into_iter().collect()), |i| Ok(i.until_end(K::dec)?.into_iter().collect()));
cont!([K: M + Eq + Hash] HashSet<K>, hset, |v| v.len(), |v, o| o.entries(v.iter(), |k, o| k.enc(o)), |i, n| Ok(dec_items(i, n)?.into_iter().collect()), |i| Ok(i.until_end(K::dec)?.into_iter().collect()));
cont!([K: M + Ord, V: M] BTreeMap<K, V>, bmap, |v| v.len(), |v, o| for (k, x) in v { k.enc(o); x.enc(o) }, |i, n| Ok(dec_pairs(i, n)?.into_iter().collect()), |i| Ok(i.until_end(pair::<K, V>)?.into_iter().collect()));
cont!([K: M + Eq + Hash, V: M] HashMap<K, V>, hmap, |v| v.len(), |v, o| o.entries(v.iter(), |(k, x), o| { k.enc(o); x.enc(o) }), |i, n| Ok(dec_pairs(i, n)?.into_iter().collect()), |i| Ok(i.until_end(pair::<K, V>)?.into_iter().collect()));
macro_rules! cow {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        cont!([$($g)*] Cow<'static, $t>, |s, n| Cow::Owned(<$t as Cont>::cgen(s, n)), |v| v.len(), |v, o| (**v).cenc(o), |i, n| Ok(Cow::Owned(<$t as Cont>::cdec(i, n)?)), |i| Ok(Cow::Owned(<$t as Cont>::cend(i)?)));
    )*}
}
cow! { [K: M + Eq + Hash + Clone] HashSet<K>; [K: M + Ord + Clone] BTreeSet<K>; [K: M + Eq + Hash + Clone, V: M + Clone] HashMap<K, V>; [K: M + Ord + Clone, V: M + Clone] BTreeMap<K, V>; }

/// The lengths at the edges of a width.
pub fn edge(s: &mut Src, lt: Len) -> usize {
    *s.pick(match lt {
        Len::U7 => &[127usize, 128, 126, 129, 200],
        Len::U8 => &[255, 256, 254, 128, 257, 127],
        Len::U16 => &[255, 256, 65535, 65536, 65534, 32768],
        Len::Varint => &[127, 128, 16383, 16384, 126, 129],
        _ => &[255, 256, 127, 128, 300],
    })
}
pub fn gen_lt<C: Cont>(s: &mut Src, lt: Len) -> C {
    let d = BOUNDARY.with(|b| b.get());
    if s.chance(1, d) { let n = edge(s, lt); if n * COPIES.with(|c| c.get()) <= 70_000 { return C::cgen(s, Some(n)); } }
    C::cgen(s, None)
}
pub fn enc_lt<C: Cont>(v: &C, o: &mut Out, lt: Len) { o.len(v.clen(), lt); v.cenc(o) }
pub fn dec_lt<C: Cont>(i: &mut In, lt: Len) -> Result<C, DE> { let n = i.len(lt)?; C::cdec(i, n) }
pub fn gen_opt<C: Cont>(s: &mut Src, lt: Len) -> Option<C> { if s.chance(3, 4) { Some(gen_lt(s, lt)) } else { None } }
pub fn enc_opt<C: Cont>(v: &Option<C>, o: &mut Out, lt: Len) { match v { None => o.u8(0), Some(x) => { o.u8(1); enc_lt(x, o, lt) } } }
pub fn dec_opt<C: Cont>(i: &mut In, lt: Len) -> Result<Option<C>, DE> { Ok(if i.u8()? == 0 { None } else { Some(dec_lt(i, lt)?) }) }
/// Length given by an expression: usually right, sometimes not.
pub fn gen_n<C: Cont>(s: &mut Src, want: u64) -> C {
    let n = if s.chance(1, 12) { want.wrapping_add(s.below(3)).wrapping_sub(1).min(5000) } else { want.min(5000) };
    C::cgen(s, Some(n as usize))
}
pub fn enc_n<C: Cont>(v: &C, o: &mut Out, want: u64) {
    if o.canon { o.u64(v.clen() as u64) } else if v.clen() as u64 != want { o.fail = true; }
    v.cenc(o)
}
pub fn dec_n<C: Cont>(i: &mut In, want: u64) -> Result<C, DE> { C::cdec(i, want as usize) }
pub fn gen_end<C: Cont>(s: &mut Src) -> C { C::cgen(s, None) }
pub fn enc_end<C: Cont>(v: &C, o: &mut Out) { if o.canon { o.u64(v.clen() as u64) } v.cenc(o) }
pub fn dec_end<C: Cont>(i: &mut In) -> Result<C, DE> { C::cend(i) }
/// A count that other fields' lengths refer to.
pub fn gen_count(s: &mut Src, bits: u32) -> u64 {
    let max = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
    (match s.below(8) { 0 => 0, 1 => s.below(70), 2 => s.below(400), _ => s.below(12) }).min(max)
}
/// A skipped field: nothing in the encoding, the default after reading.
pub fn enc_skip<T: M + Default>(v: &T, o: &mut Out) {
    if o.canon { if o.as_read { T::default().enc(o) } else { v.enc(o) } }
}
pub fn prefix(i: &mut In, p: &[u8]) -> Result<(), DE> { if i.raw(p.len())? == p { Ok(()) } else { Err(DE::Bad) } }
pub fn tag(o: &mut Out, v: u64, t: Len) { match t { Len::U7 | Len::U8 => o.u8(v as u8), Len::U16 => o.u16(v as u16), Len::U32 => o.u32(v as u32), Len::U64 => o.u64(v), Len::Varint => o.varint(v), _ => unreachable!() } }
pub fn untag(i: &mut In, t: Len) -> Result<u64, DE> {
    Ok(match t { Len::U7 => { let v = i.u8()?; if v > 127 { return Err(DE::Bad); } v as u64 } Len::U8 => i.u8()? as u64, Len::U16 => i.u16()? as u64, Len::U32 => i.u32()? as u64, Len::U64 => i.u64()?, Len::Varint => i.varint()?, _ => unreachable!() })
}
/// The tag is looked at but stays in the input.
pub fn peek(i: &mut In, t: Len) -> Result<u64, DE> { let p = i.pos; let r = untag(i, t); i.pos = p; r }
pub fn size_guard<T>() -> usize { size_of::<T>() }
