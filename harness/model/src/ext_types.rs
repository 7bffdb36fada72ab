//! Reference model of the third-party types.
use crate::codec::{In, Len, Out, DE, M};
use crate::std_types::*;
use pbt::Src;
use std::hash::{BuildHasher, Hash};

macro_rules! gvec {
    ($($t:ident, $c:ty, $n:expr;)*) => {$(
        impl M for glam::$t {
            const MIN: usize = $n * std::mem::size_of::<$c>();
            fn gen(s: &mut Src) -> Self { let a: [$c; $n] = M::gen(s); glam::$t::from_array(a) }
            fn enc(&self, o: &mut Out) { let a: [$c; $n] = self.to_array(); for x in a { x.enc(o) } }
            fn dec(i: &mut In) -> Result<Self, DE> { let a: [$c; $n] = M::dec(i)?; Ok(glam::$t::from_array(a)) }
        }
    )*}
}
gvec! { Vec2,f32,2; Vec3,f32,3; Vec3A,f32,3; Vec4,f32,4; DVec2,f64,2; DVec3,f64,3; DVec4,f64,4; IVec2,i32,2; IVec3,i32,3; IVec4,i32,4; UVec2,u32,2; UVec3,u32,3; UVec4,u32,4; Quat,f32,4; DQuat,f64,4; }
macro_rules! gmat {
    ($($t:ident, $c:ty, $n:expr;)*) => {$(
        impl M for glam::$t {
            const MIN: usize = $n * std::mem::size_of::<$c>();
            fn gen(s: &mut Src) -> Self { let a: [$c; $n] = M::gen(s); glam::$t::from_cols_array(&a) }
            fn enc(&self, o: &mut Out) { let a: [$c; $n] = self.to_cols_array(); for x in a { x.enc(o) } }
            fn dec(i: &mut In) -> Result<Self, DE> { let a: [$c; $n] = M::dec(i)?; Ok(glam::$t::from_cols_array(&a)) }
        }
    )*}
}
gmat! { Mat2,f32,4; Mat3,f32,9; Mat3A,f32,9; Mat4,f32,16; DMat2,f64,4; DMat3,f64,9; DMat4,f64,16; Affine2,f32,6; Affine3A,f32,12; DAffine2,f64,6; DAffine3,f64,12; }
macro_rules! bvec {
    ($($t:ident, $n:expr;)*) => {$(
        impl M for glam::$t {
            const MIN: usize = 1;
            fn gen(s: &mut Src) -> Self { let a: [bool; $n] = M::gen(s); a.into() }
            fn enc(&self, o: &mut Out) { let a: [bool; $n] = (*self).into(); let mut m = 0u8; for (k, x) in a.iter().enumerate() { if *x { m |= 1 << k; } } o.u8(m) }
            fn dec(i: &mut In) -> Result<Self, DE> { let m = i.u8()?; let a: [bool; $n] = std::array::from_fn(|k| m & (1 << k) != 0); Ok(a.into()) }
        }
    )*}
}
bvec! { BVec2,2; BVec3,3; BVec4,4; }
impl M for uuid::Uuid {
    const MIN: usize = 16;
    fn gen(s: &mut Src) -> Self { let b = s.bytes(16); uuid::Uuid::from_bytes(b.try_into().unwrap()) }
    fn enc(&self, o: &mut Out) { o.raw(self.as_bytes()) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(uuid::Uuid::from_bytes(i.raw(16)?.try_into().unwrap())) }
}
impl M for regex::Regex {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self {
        const ATOMS: &[&str] = &["a", "b+", "c*", "[a-z]", "(x|y)", "^", "$", ".", "\\.", "é", "q{2,3}", "(?:z)?", " "];
        let n = s.usize_below(5);
        let mut p = String::new();
        for _ in 0..n { p.push_str(*s.pick(ATOMS)); }
        regex::Regex::new(&p).unwrap_or_else(|_| regex::Regex::new("fallback").unwrap())
    }
    fn enc(&self, o: &mut Out) { enc_str(self.as_str(), o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { let t = String::dec(i)?; regex::Regex::new(&t).map_err(|_| DE::Bad) }
}
impl M for chrono::DateTime<chrono::Utc> {
    const MIN: usize = 12;
    fn gen(s: &mut Src) -> Self {
        let lo = chrono::DateTime::<chrono::Utc>::MIN_UTC.timestamp();
        let hi = chrono::DateTime::<chrono::Utc>::MAX_UTC.timestamp();
        let v = match s.below(5) {
            0 => lo + s.below(4) as i64,
            1 => hi - s.below(4) as i64,
            2 => s.below(4) as i64 - 2,
            3 => (s.int(33) as i64) - (1 << 32),
            _ => lo + s.below((hi - lo) as u64) as i64,
        };
        let n = match s.below(6) { 0 => 999_999_999, 1 => 0, 2 => 1_000_000_000 + s.below(1_000_000_000), _ => s.below(1_000_000_000) } as u32;
        let v = if n >= 1_000_000_000 { v - v.rem_euclid(60) + 59 } else { v };
        chrono::DateTime::from_timestamp(v, n).or_else(|| chrono::DateTime::from_timestamp(v.clamp(lo, hi), 0)).unwrap_or_default()
    }
    fn enc(&self, o: &mut Out) { o.u64(self.timestamp() as u64); o.u32(self.timestamp_subsec_nanos()) }
    fn dec(i: &mut In) -> Result<Self, DE> { let (s, n) = (i.u64()? as i64, i.u32()?); chrono::DateTime::from_timestamp(s, n).ok_or(DE::Bad) }
}
impl<A: smallvec::Array + 'static> M for smallvec::SmallVec<A> where A::Item: M {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { gen_items(s).into_iter().collect() }
    fn enc(&self, o: &mut Out) { enc_items(self.as_slice(), o, Len::U32) }
    fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_items(i, n)?.into_iter().collect()) }
}
macro_rules! index {
    ($m:ident) => {
        impl<K: M + Eq + Hash, V: M, S: BuildHasher + Default + 'static> M for $m::IndexMap<K, V, S> {
            const MIN: usize = 4;
            fn gen(s: &mut Src) -> Self { gen_pairs(s).into_iter().collect() }
            fn enc(&self, o: &mut Out) { o.len(self.len(), Len::U32); for (k, v) in self { k.enc(o); v.enc(o) } }
            fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_pairs(i, n)?.into_iter().collect()) }
        }
        impl<K: M + Eq + Hash, S: BuildHasher + Default + 'static> M for $m::IndexSet<K, S> {
            const MIN: usize = 4;
            fn gen(s: &mut Src) -> Self { gen_keys(s).into_iter().collect() }
            fn enc(&self, o: &mut Out) { o.len(self.len(), Len::U32); for k in self { k.enc(o) } }
            fn dec(i: &mut In) -> Result<Self, DE> { let n = i.len(Len::U32)?; Ok(dec_items(i, n)?.into_iter().collect()) }
        }
    }
}
index!(indexmap_v1);
index!(indexmap_v2);
