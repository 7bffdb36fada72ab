//! Reference model of the built-in types.
use crate::codec::{In, Len, Out, DE, M};
use pbt::Src;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use std::ops::{Range, RangeInclusive};

macro_rules! uint {
    ($($t:ty, $n:expr, $bits:expr;)*) => {$(
        impl M for $t {
            const MIN: usize = $n;
            fn gen(s: &mut Src) -> Self { s.int($bits) as $t }
            fn enc(&self, o: &mut Out) { o.uint(*self as u128, $n) }
            fn dec(i: &mut In) -> Result<Self, DE> { Ok(i.uint($n)? as $t) }
            fn nth(k: u64) -> Option<Self> { Some(k as $t) }
        }
    )*}
}
uint! { u8,1,8; u16,2,16; u32,4,32; u64,8,64; i8,1,8; i16,2,16; i32,4,32; i64,8,64; usize,8,64; }
impl M for u128 {
    const MIN: usize = 16;
    fn gen(s: &mut Src) -> Self { s.u128() }
    fn enc(&self, o: &mut Out) { o.u128(*self) }
    fn dec(i: &mut In) -> Result<Self, DE> { i.u128() }
}
impl M for i128 {
    const MIN: usize = 16;
    fn gen(s: &mut Src) -> Self { s.u128() as i128 }
    fn enc(&self, o: &mut Out) { o.u128(*self as u128) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(i.u128()? as i128) }
}
fn float_bits(s: &mut Src, mant: u32, exp: u32) -> u64 {
    let top = 1u64 << (mant + exp);
    let inf = ((1u64 << exp) - 1) << mant;
    match s.below(6) {
        0 => *s.pick(&[0, top, inf, inf | top, inf | 1, inf | (1 << (mant - 1)), inf | (1 << (mant - 1)) | 77, top | inf | 12345, 1, top | 1]),
        1 => s.int(8),
        _ => s.int(mant + exp + 1),
    }
}
impl M for f32 {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { f32::from_bits(float_bits(s, 23, 8) as u32) }
    fn enc(&self, o: &mut Out) { o.u32(self.to_bits()) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(f32::from_bits(i.u32()?)) }
}
impl M for f64 {
    const MIN: usize = 8;
    fn gen(s: &mut Src) -> Self { f64::from_bits(float_bits(s, 52, 11)) }
    fn enc(&self, o: &mut Out) { o.u64(self.to_bits()) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(f64::from_bits(i.u64()?)) }
}
impl M for bool {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self { s.bool() }
    fn enc(&self, o: &mut Out) { o.u8(if *self { 1 } else { 0 }) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(i.u8()? != 0) }
}
pub fn gen_char(s: &mut Src) -> char {
    let v = match s.below(8) {
        0 => *s.pick(&[0u64, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd]),
        1 => s.below(0x80),
        2 => s.below(0x800),
        3 => s.below(0x10000),
        4 => s.below(0x110000),
        _ => 0x20 + s.below(0x5f),
    };
    char::from_u32(v as u32).unwrap_or('\u{fffd}')
}
impl M for char {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_char(s) }
    fn nth(k: u64) -> Option<Self> { char::from_u32(if k < 0xd800 { k as u32 } else { k as u32 + 0x800 }) }
    fn enc(&self, o: &mut Out) { o.u32(*self as u32) }
    fn dec(i: &mut In) -> Result<Self, DE> {
        let v = i.u32()?;
        if v > 0x10ffff || (0xd800..=0xdfff).contains(&v) { Err(DE::Bad) } else { Ok(char::from_u32(v).unwrap()) }
    }
}
pub fn gen_string(s: &mut Src) -> String {
    let n = s.len();
    if n > 200 {
        // long strings: a repeated fragment, to keep the choice sequence short
        let frag: String = (0..7).map(|_| gen_char(s)).collect();
        let mut r = String::new();
        while r.len() < n { r.push_str(if frag.is_empty() { "x" } else { &frag }); }
        return r;
    }
    (0..n).map(|_| gen_char(s)).collect()
}
/// Independent UTF-8 check (RFC 3629).
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => { i += 1; continue; }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= b.len() { return false; }
        if b[i + 1] < lo || b[i + 1] > hi { return false; }
        for k in 2..=n { if b[i + k] & 0xc0 != 0x80 { return false; } }
        i += 1 + n;
    }
    true
}
pub fn dec_str(i: &mut In, n: usize) -> Result<String, DE> {
    i.declared = i.declared.max(n as u128);
    let b = i.raw(n)?;
    if !utf8_ok(b) { return Err(DE::Bad); }
    Ok(String::from_utf8(b.to_vec()).unwrap())
}
pub fn enc_str(s: &str, o: &mut Out, lt: Len) { o.len(s.len(), lt); o.raw(s.as_bytes()); }
impl M for String {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_string(s) }
    fn enc(&self, o: &mut Out) { enc_str(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; dec_str(i, n) }
    fn nth(k: u64) -> Option<Self> { Some(format!("k{}", k)) }
}
impl M for Box<str> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_string(s).into() }
    fn enc(&self, o: &mut Out) { enc_str(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(String::dec(i)?.into()) }
}
impl M for Cow<'static, str> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { if s.chance(1, 8) { Cow::Borrowed("borrowed \u{1f600}") } else { gen_string(s).into() } }
    fn enc(&self, o: &mut Out) { enc_str(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(String::dec(i)?.into()) }
}
fn leak<T: ?Sized>(b: Box<T>) -> &'static T { Box::leak(b) }
impl M for &'static str {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { leak(gen_string(s).into_boxed_str()) }
    fn enc(&self, o: &mut Out) { enc_str(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(leak(String::dec(i)?.into_boxed_str())) }
}

thread_local! {
    /// How many copies of what is being generated will end up in the value.
    pub static COPIES: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
}
pub fn copies<R>(n: usize, f: impl FnOnce() -> R) -> R {
    struct Back(usize);
    impl Drop for Back { fn drop(&mut self) { COPIES.with(|c| c.set(self.0)) } }
    let _b = Back(COPIES.with(|c| c.replace(c.get().saturating_mul(n.max(1)))));
    f()
}
pub fn gen_items<T: M>(s: &mut Src) -> Vec<T> {
    let n = s.len();
    copies(n, || s.nested(n, |s| {
        if n > 64 && s.chance(7, 8) {
            // a long container of a repeating pattern keeps the choice sequence (and shrinking) small
            let pat = 1 + s.usize_below(5);
            let mut encs = Vec::new();
            for _ in 0..pat { let v = T::gen(s); let mut o = Out::new(false); v.enc(&mut o); encs.push(o); }
            return (0..n).filter_map(|k| { let o = &encs[k % pat]; if o.fail { return None; } T::dec(&mut In::new(&o.b, false)).ok() }).collect();
        }
        (0..n).map(|_| T::gen(s)).collect()
    }))
}
pub fn enc_items<T: M>(v: &[T], o: &mut Out, lt: Len) { o.len(v.len(), lt); for x in v { x.enc(o); } }
pub fn dec_items<T: M>(i: &mut In, n: usize) -> Result<Vec<T>, DE> { i.many(n, T::MIN, std::mem::size_of::<T>(), T::dec) }
impl<T: M> M for Vec<T> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_items(s) }
    fn enc(&self, o: &mut Out) { enc_items(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; dec_items(i, n) }
}
impl<T: M> M for Box<[T]> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_items(s).into() }
    fn enc(&self, o: &mut Out) { enc_items(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Vec::dec(i)?.into()) }
}
impl<T: M + Clone> M for Cow<'static, [T]> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_items(s).into() }
    fn enc(&self, o: &mut Out) { enc_items(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Vec::dec(i)?.into()) }
}
impl<T: M> M for &'static [T] {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { leak(gen_items(s).into_boxed_slice()) }
    fn enc(&self, o: &mut Out) { enc_items(self, o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(leak(Vec::dec(i)?.into_boxed_slice())) }
}
impl<T: M, const N: usize> M for &'static [T; N] {
    const MIN: usize = T::MIN * N;
    fn gen(s: &mut Src) -> Self { leak(Box::new(<[T; N]>::gen(s))) }
    fn enc(&self, o: &mut Out) { for x in self.iter() { x.enc(o) } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(leak(Box::new(<[T; N]>::dec(i)?))) }
}
impl<T: M, const N: usize> M for [T; N] {
    const MIN: usize = T::MIN * N;
    fn gen(s: &mut Src) -> Self { s.nested(N.min(8), |s| std::array::from_fn(|_| T::gen(s))) }
    fn enc(&self, o: &mut Out) { for x in self { x.enc(o) } }
    fn dec(i: &mut In) -> Result<Self, DE> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N { v.push(T::dec(i)?); }
        Ok(v.try_into().ok().unwrap())
    }
}
impl<T: M> M for Box<T> {
    const MIN: usize = T::MIN;
    fn gen(s: &mut Src) -> Self { Box::new(T::gen(s)) }
    fn enc(&self, o: &mut Out) { (**self).enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Box::new(T::dec(i)?)) }
}
pub fn gen_pairs<K: M, V: M>(s: &mut Src) -> Vec<(K, V)> { let n = s.len().min(600); copies(n, || s.nested(n, |s| (0..n).map(|_| (K::gen(s), V::gen(s))).collect())) }
pub fn gen_keys<K: M>(s: &mut Src) -> Vec<K> { let n = s.len().min(600); s.nested(n, |s| (0..n).map(|_| K::gen(s)).collect()) }
pub fn dec_pairs<K: M, V: M>(i: &mut In, n: usize) -> Result<Vec<(K, V)>, DE> { i.many(n, K::MIN + V::MIN, std::mem::size_of::<(K, V)>(), |i| Ok((K::dec(i)?, V::dec(i)?))) }
impl<K: M + Ord, V: M> M for BTreeMap<K, V> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_pairs(s).into_iter().collect() }
    fn enc(&self, o: &mut Out) { o.len(self.len(), Len::U32); for (k, v) in self { k.enc(o); v.enc(o) } }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_pairs(i, n)?.into_iter().collect()) }
}
impl<K: M + Ord> M for BTreeSet<K> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_keys(s).into_iter().collect() }
    fn enc(&self, o: &mut Out) { o.len(self.len(), Len::U32); for k in self { k.enc(o) } }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_items(i, n)?.into_iter().collect()) }
}
impl<K: M + Eq + Hash, V: M, S: BuildHasher + Default + 'static> M for HashMap<K, V, S> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_pairs(s).into_iter().collect() }
    fn enc(&self, o: &mut Out) { o.len(self.len(), Len::U32); o.entries(self.iter(), |(k, v), o| { k.enc(o); v.enc(o) }) }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_pairs(i, n)?.into_iter().collect()) }
}
impl<K: M + Eq + Hash, S: BuildHasher + Default + 'static> M for HashSet<K, S> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_keys(s).into_iter().collect() }
    fn enc(&self, o: &mut Out) { o.len(self.len(), Len::U32); o.entries(self.iter(), |k, o| k.enc(o)) }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_items(i, n)?.into_iter().collect()) }
}
macro_rules! cow {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> M for Cow<'static, $t> {
            const MIN: usize = 4;
            fn gen(s: &mut Src) -> Self { Cow::Owned(<$t>::gen(s)) }
            fn enc(&self, o: &mut Out) { (**self).enc(o) }
            fn dec(i: &mut In) -> Result<Self, DE> { Ok(Cow::Owned(<$t>::dec(i)?)) }
        }
    )*}
}
cow! {
    [K: M + Eq + Hash + Clone] HashSet<K>;
    [K: M + Eq + Hash + Clone, V: M + Clone] HashMap<K, V>;
    [K: M + Ord + Clone] BTreeSet<K>;
    [K: M + Ord + Clone, V: M + Clone] BTreeMap<K, V>;
}
impl<T: M> M for Range<T> {
    const MIN: usize = 2 * T::MIN;
    fn gen(s: &mut Src) -> Self { T::gen(s)..T::gen(s) }
    fn enc(&self, o: &mut Out) { self.start.enc(o); self.end.enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { let a = T::dec(i)?; Ok(a..T::dec(i)?) }
}
impl<T: M> M for RangeInclusive<T> {
    const MIN: usize = 2 * T::MIN;
    fn gen(s: &mut Src) -> Self { T::gen(s)..=T::gen(s) }
    fn enc(&self, o: &mut Out) { self.start().enc(o); self.end().enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { let a = T::dec(i)?; Ok(a..=T::dec(i)?) }
}
impl<T: M> M for Option<T> {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self { if s.chance(3, 4) { Some(T::gen(s)) } else { None } }
    fn enc(&self, o: &mut Out) { match self { None => o.u8(0), Some(x) => { o.u8(1); x.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(if i.u8()? == 0 { None } else { Some(T::dec(i)?) }) }
}
impl<T: M, E: M> M for Result<T, E> {
    const MIN: usize = 1 + if T::MIN < E::MIN { T::MIN } else { E::MIN };
    fn gen(s: &mut Src) -> Self { if s.bool() { Ok(T::gen(s)) } else { Err(E::gen(s)) } }
    fn enc(&self, o: &mut Out) { match self { Err(x) => { o.u8(0); x.enc(o) } Ok(x) => { o.u8(1); x.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(if i.u8()? == 0 { Err(E::dec(i)?) } else { Ok(T::dec(i)?) }) }
}
impl M for () {
    const MIN: usize = 0;
    fn gen(_: &mut Src) -> Self {}
    fn enc(&self, _: &mut Out) {}
    fn dec(_: &mut In) -> Result<Self, DE> { Ok(()) }
}
macro_rules! tuple {
    ($($n:ident $i:tt),+) => {
        impl<$($n: M),+> M for ($($n,)+) {
            const MIN: usize = 0 $(+ $n::MIN)+;
            fn gen(s: &mut Src) -> Self { let k = [$(stringify!($n)),+].len(); s.nested(k, |s| ($($n::gen(s),)+)) }
            fn enc(&self, o: &mut Out) { $(self.$i.enc(o);)+ }
            fn dec(i: &mut In) -> Result<Self, DE> { Ok(($($n::dec(i)?,)+)) }
        }
    }
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
impl M for speedy::Endianness {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self { if s.bool() { speedy::Endianness::BigEndian } else { speedy::Endianness::LittleEndian } }
    fn enc(&self, o: &mut Out) { o.u8(match self { speedy::Endianness::LittleEndian => 0, speedy::Endianness::BigEndian => 1 }) }
    fn dec(i: &mut In) -> Result<Self, DE> { match i.u8()? { 0 => Ok(speedy::Endianness::LittleEndian), 1 => Ok(speedy::Endianness::BigEndian), _ => Err(DE::Bad) } }
}
macro_rules! nonzero {
    ($($t:ident, $b:ty;)*) => {$(
        impl M for std::num::$t {
            const MIN: usize = <$b as M>::MIN;
            fn gen(s: &mut Src) -> Self { let v = <$b>::gen(s); std::num::$t::new(v).unwrap_or(std::num::$t::new(1).unwrap()) }
            fn enc(&self, o: &mut Out) { self.get().enc(o) }
            fn dec(i: &mut In) -> Result<Self, DE> { std::num::$t::new(<$b>::dec(i)?).ok_or(DE::Bad) }
        }
    )*}
}
nonzero! { NonZeroU8,u8; NonZeroU16,u16; NonZeroU32,u32; NonZeroU64,u64; NonZeroI8,i8; NonZeroI16,i16; NonZeroI32,i32; NonZeroI64,i64; }
macro_rules! atomic {
    ($($t:ident, $b:ty;)*) => {$(
        impl M for std::sync::atomic::$t {
            const MIN: usize = <$b as M>::MIN;
            fn gen(s: &mut Src) -> Self { std::sync::atomic::$t::new(<$b>::gen(s)) }
            fn enc(&self, o: &mut Out) { self.load(std::sync::atomic::Ordering::SeqCst).enc(o) }
            fn dec(i: &mut In) -> Result<Self, DE> { Ok(std::sync::atomic::$t::new(<$b>::dec(i)?)) }
        }
    )*}
}
atomic! { AtomicU8,u8; AtomicU16,u16; AtomicU32,u32; AtomicU64,u64; AtomicI8,i8; AtomicI16,i16; AtomicI32,i32; AtomicI64,i64; }
impl M for std::net::Ipv4Addr {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { let v = s.int(32) as u32; std::net::Ipv4Addr::new((v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8) }
    fn enc(&self, o: &mut Out) { let x = self.octets(); o.u32(((x[0] as u32) << 24) | ((x[1] as u32) << 16) | ((x[2] as u32) << 8) | x[3] as u32) }
    fn dec(i: &mut In) -> Result<Self, DE> { let v = i.u32()?; Ok(std::net::Ipv4Addr::new((v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8)) }
}
impl M for std::net::Ipv6Addr {
    const MIN: usize = 16;
    fn gen(s: &mut Src) -> Self { let v = s.u128(); v6(v) }
    fn enc(&self, o: &mut Out) { let mut v = 0u128; for x in self.segments() { v = (v << 16) | x as u128; } o.u128(v) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(v6(i.u128()?)) }
}
fn v6(v: u128) -> std::net::Ipv6Addr { let s = |k: u32| (v >> (112 - 16 * k)) as u16; std::net::Ipv6Addr::new(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7)) }
impl M for std::net::IpAddr {
    const MIN: usize = 5;
    fn gen(s: &mut Src) -> Self { if s.bool() { std::net::IpAddr::V6(M::gen(s)) } else { std::net::IpAddr::V4(M::gen(s)) } }
    fn enc(&self, o: &mut Out) { match self { std::net::IpAddr::V4(a) => { o.u8(0); a.enc(o) } std::net::IpAddr::V6(a) => { o.u8(1); a.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { match i.u8()? { 0 => Ok(std::net::IpAddr::V4(M::dec(i)?)), 1 => Ok(std::net::IpAddr::V6(M::dec(i)?)), _ => Err(DE::Bad) } }
}
impl M for std::time::Duration {
    const MIN: usize = 12;
    fn gen(s: &mut Src) -> Self { let a = s.int(64); let b = if s.chance(1, 4) { 999_999_999 - s.below(3) } else { s.below(1_000_000_000) }; std::time::Duration::new(a, b as u32) }
    fn enc(&self, o: &mut Out) { o.u64(self.as_secs()); o.u32(self.subsec_nanos()) }
    fn dec(i: &mut In) -> Result<Self, DE> {
        let (s, n) = (i.u64()?, i.u32()?);
        // nanoseconds of a second or more carry over, as long as the total is representable
        let total = s as u128 * 1_000_000_000 + n as u128;
        let (secs, nanos) = (total / 1_000_000_000, (total % 1_000_000_000) as u32);
        if secs > u64::MAX as u128 { return Err(DE::Bad); }
        Ok(std::time::Duration::new(secs as u64, nanos))
    }
}
impl M for std::time::SystemTime {
    const MIN: usize = 12;
    fn gen(s: &mut Src) -> Self {
        let secs = match s.below(4) { 0 => s.below(3), 1 => i64::MAX as u64 - s.below(3), _ => s.int(63) };
        let n = if s.chance(1, 4) { 999_999_999 - s.below(3) } else { s.below(1_000_000_000) };
        let d = std::time::Duration::new(secs, n as u32);
        let e = std::time::SystemTime::UNIX_EPOCH;
        if s.chance(1, 10) { e.checked_sub(d).unwrap_or(e) } else { e.checked_add(d).unwrap_or(e) }
    }
    fn enc(&self, o: &mut Out) {
        match self.duration_since(std::time::SystemTime::UNIX_EPOCH) {
            Ok(d) => d.enc(o),
            Err(e) => { if o.canon { o.u8(1); } else { o.fail = true; } e.duration().enc(o) }
        }
    }
    fn dec(i: &mut In) -> Result<Self, DE> { let d = std::time::Duration::dec(i)?; std::time::SystemTime::UNIX_EPOCH.checked_add(d).ok_or(DE::Bad) }
}
/// Signed/unsigned varint newtype of the library.
impl M for speedy::private::VarInt64 {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self { s.int(64).into() }
    fn enc(&self, o: &mut Out) { o.varint((*self).into()) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(i.varint()?.into()) }
}
