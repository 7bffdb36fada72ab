// Generated by tools/gen_derive.py: profile reg. Do not edit.
#![allow(warnings, clippy::all)]
use model::codec::{In, Len, Out, DE, M};
use model::dty::*;
use model::flags::*;
use model::{Ty, ty::ty};
use pbt::Src;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
const fn min_of(v: &[usize]) -> usize { let mut m = v[0]; let mut i = 1; while i < v.len() { if v[i] < m { m = v[i]; } i += 1; } m }
#[derive(PartialEq, Copy, PartialOrd, Clone, Default, Hash, Readable, Writable, Ord, Eq)]
#[repr(transparent)]
pub struct S0 { pub flag: u32 }
impl M for S0 { const MIN: usize = 0 + 0 + <u32 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_flag: u32 = <u32 as M>::gen(s); S0{ flag: v_flag } }) }
  fn enc(&self, o: &mut Out) { let S0{ flag: v_flag } = self; M::enc(v_flag, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_flag: u32 = <u32 as M>::dec(i)?; Ok(S0{ flag: v_flag }) } }
#[derive(Copy, Clone, PartialOrd, Writable, Readable, Ord, PartialEq, Eq, Default, Hash)]
pub struct S1 { pub reader: i128, pub error: S0 }
impl M for S1 { const MIN: usize = 0 + 0 + <i128 as M>::MIN + 0 + <S0 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_reader: i128 = <i128 as M>::gen(s); let v_error: S0 = <S0 as M>::gen(s); S1{ reader: v_reader, error: v_error } }) }
  fn enc(&self, o: &mut Out) { let S1{ reader: v_reader, error: v_error } = self; M::enc(v_reader, o); M::enc(v_error, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_reader: i128 = <i128 as M>::dec(i)?; let v_error: S0 = <S0 as M>::dec(i)?; Ok(S1{ reader: v_reader, error: v_error }) } }
#[derive(Copy, Default, Readable, Clone, Writable, Ord, PartialEq, Hash, Eq, PartialOrd)]
#[repr(transparent)]
pub struct S2 { pub sum: S0 }
impl M for S2 { const MIN: usize = 0 + 0 + <S0 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_sum: S0 = <S0 as M>::gen(s); S2{ sum: v_sum } }) }
  fn enc(&self, o: &mut Out) { let S2{ sum: v_sum } = self; M::enc(v_sum, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_sum: S0 = <S0 as M>::dec(i)?; Ok(S2{ sum: v_sum }) } }
#[derive(PartialEq, Copy, Hash, Readable, Default, Ord, PartialOrd, Eq, Clone, Writable)]
#[repr(C)]
pub struct S3 { pub value: u32, pub name: S2 }
impl M for S3 { const MIN: usize = 0 + 0 + <u32 as M>::MIN + 0 + <S2 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_value: u32 = <u32 as M>::gen(s); let v_name: S2 = <S2 as M>::gen(s); S3{ value: v_value, name: v_name } }) }
  fn enc(&self, o: &mut Out) { let S3{ value: v_value, name: v_name } = self; M::enc(v_value, o); M::enc(v_name, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_value: u32 = <u32 as M>::dec(i)?; let v_name: S2 = <S2 as M>::dec(i)?; Ok(S3{ value: v_value, name: v_name }) } }
#[derive(Copy, Default, Readable, Writable, Clone)]
#[repr(packed)]
pub struct S4 { pub flag: i64, pub alpha: f32 }
impl M for S4 { const MIN: usize = 0 + 0 + <i64 as M>::MIN + 0 + <f32 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_flag: i64 = <i64 as M>::gen(s); let v_alpha: f32 = <f32 as M>::gen(s); S4{ flag: v_flag, alpha: v_alpha } }) }
  fn enc(&self, o: &mut Out) { let S4{ flag: v_flag, alpha: v_alpha } = *self; let (v_flag, v_alpha,) = (&v_flag, &v_alpha,); M::enc(v_flag, o); M::enc(v_alpha, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_flag: i64 = <i64 as M>::dec(i)?; let v_alpha: f32 = <f32 as M>::dec(i)?; Ok(S4{ flag: v_flag, alpha: v_alpha }) } }
#[derive(Clone, Writable, Copy, Readable, Default)]
pub struct S5 { pub r#type: u64, pub ctx: i64, pub error: i64, pub x: f64, pub item: i128, pub sum: u128 }
impl M for S5 { const MIN: usize = 0 + 0 + <u64 as M>::MIN + 0 + <i64 as M>::MIN + 0 + <i64 as M>::MIN + 0 + <f64 as M>::MIN + 0 + <i128 as M>::MIN + 0 + <u128 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(6, |s| { let v_type: u64 = <u64 as M>::gen(s); let v_ctx: i64 = <i64 as M>::gen(s); let v_error: i64 = <i64 as M>::gen(s); let v_x: f64 = <f64 as M>::gen(s); let v_item: i128 = <i128 as M>::gen(s); let v_sum: u128 = <u128 as M>::gen(s); S5{ r#type: v_type, ctx: v_ctx, error: v_error, x: v_x, item: v_item, sum: v_sum } }) }
  fn enc(&self, o: &mut Out) { let S5{ r#type: v_type, ctx: v_ctx, error: v_error, x: v_x, item: v_item, sum: v_sum } = self; M::enc(v_type, o); M::enc(v_ctx, o); M::enc(v_error, o); M::enc(v_x, o); M::enc(v_item, o); M::enc(v_sum, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_type: u64 = <u64 as M>::dec(i)?; let v_ctx: i64 = <i64 as M>::dec(i)?; let v_error: i64 = <i64 as M>::dec(i)?; let v_x: f64 = <f64 as M>::dec(i)?; let v_item: i128 = <i128 as M>::dec(i)?; let v_sum: u128 = <u128 as M>::dec(i)?; Ok(S5{ r#type: v_type, ctx: v_ctx, error: v_error, x: v_x, item: v_item, sum: v_sum }) } }
#[derive(PartialOrd, Writable, Readable, PartialEq, Copy, Ord, Hash, Eq, Default, Clone)]
#[repr(C)]
pub struct S6 { pub item: u16, pub bytes: u16, pub flag: i32, pub data: i32, pub reader: i16, pub slice: u16 }
impl M for S6 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + <u16 as M>::MIN + 0 + <i32 as M>::MIN + 0 + <i32 as M>::MIN + 0 + <i16 as M>::MIN + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(6, |s| { let v_item: u16 = <u16 as M>::gen(s); let v_bytes: u16 = <u16 as M>::gen(s); let v_flag: i32 = <i32 as M>::gen(s); let v_data: i32 = <i32 as M>::gen(s); let v_reader: i16 = <i16 as M>::gen(s); let v_slice: u16 = <u16 as M>::gen(s); S6{ item: v_item, bytes: v_bytes, flag: v_flag, data: v_data, reader: v_reader, slice: v_slice } }) }
  fn enc(&self, o: &mut Out) { let S6{ item: v_item, bytes: v_bytes, flag: v_flag, data: v_data, reader: v_reader, slice: v_slice } = self; M::enc(v_item, o); M::enc(v_bytes, o); M::enc(v_flag, o); M::enc(v_data, o); M::enc(v_reader, o); M::enc(v_slice, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_item: u16 = <u16 as M>::dec(i)?; let v_bytes: u16 = <u16 as M>::dec(i)?; let v_flag: i32 = <i32 as M>::dec(i)?; let v_data: i32 = <i32 as M>::dec(i)?; let v_reader: i16 = <i16 as M>::dec(i)?; let v_slice: u16 = <u16 as M>::dec(i)?; Ok(S6{ item: v_item, bytes: v_bytes, flag: v_flag, data: v_data, reader: v_reader, slice: v_slice }) } }
#[derive(Writable, Clone, Readable, Default, Copy)]
#[repr(C)]
pub struct S7 { pub reader: f32, pub length: u32, pub n: u64, pub slice: f64, pub this: u64, pub x: u128, pub out: i128, pub tag: u128 }
impl M for S7 { const MIN: usize = 0 + 0 + <f32 as M>::MIN + 0 + <u32 as M>::MIN + 0 + <u64 as M>::MIN + 0 + <f64 as M>::MIN + 0 + <u64 as M>::MIN + 0 + <u128 as M>::MIN + 0 + <i128 as M>::MIN + 0 + <u128 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(8, |s| { let v_reader: f32 = <f32 as M>::gen(s); let v_length: u32 = <u32 as M>::gen(s); let v_n: u64 = <u64 as M>::gen(s); let v_slice: f64 = <f64 as M>::gen(s); let v_this: u64 = <u64 as M>::gen(s); let v_x: u128 = <u128 as M>::gen(s); let v_out: i128 = <i128 as M>::gen(s); let v_tag: u128 = <u128 as M>::gen(s); S7{ reader: v_reader, length: v_length, n: v_n, slice: v_slice, this: v_this, x: v_x, out: v_out, tag: v_tag } }) }
  fn enc(&self, o: &mut Out) { let S7{ reader: v_reader, length: v_length, n: v_n, slice: v_slice, this: v_this, x: v_x, out: v_out, tag: v_tag } = self; M::enc(v_reader, o); M::enc(v_length, o); M::enc(v_n, o); M::enc(v_slice, o); M::enc(v_this, o); M::enc(v_x, o); M::enc(v_out, o); M::enc(v_tag, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_reader: f32 = <f32 as M>::dec(i)?; let v_length: u32 = <u32 as M>::dec(i)?; let v_n: u64 = <u64 as M>::dec(i)?; let v_slice: f64 = <f64 as M>::dec(i)?; let v_this: u64 = <u64 as M>::dec(i)?; let v_x: u128 = <u128 as M>::dec(i)?; let v_out: i128 = <i128 as M>::dec(i)?; let v_tag: u128 = <u128 as M>::dec(i)?; Ok(S7{ reader: v_reader, length: v_length, n: v_n, slice: v_slice, this: v_this, x: v_x, out: v_out, tag: v_tag }) } }
#[derive(Ord, Readable, Hash, Writable, PartialEq, Clone, PartialOrd, Eq, Copy)]
#[speedy(tag_type = u7, peek_tag)]
pub enum S8 { #[speedy(tag = 125)] V0 { out: u8, field: usize, bytes: u16 }, #[speedy(tag = 95)] V1 { out: u8 }, #[speedy(tag = 127)] V2 { r#type: u8 } }
impl M for S8 { const MIN: usize = 0 + min_of(&[0 + 0 + <u8 as M>::MIN + 0 + <usize as M>::MIN + 0 + <u16 as M>::MIN , 0 + 0 + <u8 as M>::MIN , 0 + 0 + <u8 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S8_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S8::V0{ out: v_out, field: v_field, bytes: v_bytes } => { if o.canon { o.u64(125) } M::enc(v_out, o); M::enc(v_field, o); M::enc(v_bytes, o); }
    S8::V1{ out: v_out } => { if o.canon { o.u64(95) } M::enc(v_out, o); }
    S8::V2{ r#type: v_type } => { if o.canon { o.u64(127) } M::enc(v_type, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U7)? {
    125 => { let v_out: u8 = <u8 as M>::dec(i)?; let v_field: usize = <usize as M>::dec(i)?; let v_bytes: u16 = <u16 as M>::dec(i)?; Ok(S8::V0{ out: v_out, field: v_field, bytes: v_bytes }) }
    95 => { let v_out: u8 = <u8 as M>::dec(i)?; Ok(S8::V1{ out: v_out }) }
    127 => { let v_type: u8 = <u8 as M>::dec(i)?; Ok(S8::V2{ r#type: v_type }) }
    _ => Err(DE::Bad) } } }
fn S8_variant(s: &mut Src, k: usize) -> S8 { s.nested(3, |s| match k {
    0 => { let v_out: u8 = 125u64 as u8; let v_field: usize = <usize as M>::gen(s); let v_bytes: u16 = <u16 as M>::gen(s); S8::V0{ out: v_out, field: v_field, bytes: v_bytes } }
    1 => { let v_out: u8 = 95u64 as u8; S8::V1{ out: v_out } }
    _ => { let v_type: u8 = 127u64 as u8; S8::V2{ r#type: v_type } }
  }) }
#[derive(Writable, PartialEq, Ord, Clone, PartialOrd, Hash, Readable, Eq)]
#[speedy(tag_type = u8, peek_tag)]
pub enum S9 { V0(u8, i64, Vec<S2>), V1(u8), V2(u8) }
impl M for S9 { const MIN: usize = 0 + min_of(&[0 + 0 + <u8 as M>::MIN + 0 + <i64 as M>::MIN + 0 + <Vec<S2> as M>::MIN , 0 + 0 + <u8 as M>::MIN , 0 + 0 + <u8 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S9_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S9::V0(v_t0, v_t1, v_t2) => { if o.canon { o.u64(0) } M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
    S9::V1(v_t0) => { if o.canon { o.u64(1) } M::enc(v_t0, o); }
    S9::V2(v_t0) => { if o.canon { o.u64(2) } M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U8)? {
    0 => { let v_t0: u8 = <u8 as M>::dec(i)?; let v_t1: i64 = <i64 as M>::dec(i)?; let v_t2: Vec<S2> = <Vec<S2> as M>::dec(i)?; Ok(S9::V0(v_t0, v_t1, v_t2)) }
    1 => { let v_t0: u8 = <u8 as M>::dec(i)?; Ok(S9::V1(v_t0)) }
    2 => { let v_t0: u8 = <u8 as M>::dec(i)?; Ok(S9::V2(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S9_variant(s: &mut Src, k: usize) -> S9 { s.nested(3, |s| match k {
    0 => { let v_t0: u8 = 0u64 as u8; let v_t1: i64 = <i64 as M>::gen(s); let v_t2: Vec<S2> = <Vec<S2> as M>::gen(s); S9::V0(v_t0, v_t1, v_t2) }
    1 => { let v_t0: u8 = 1u64 as u8; S9::V1(v_t0) }
    _ => { let v_t0: u8 = 2u64 as u8; S9::V2(v_t0) }
  }) }
#[derive(Readable, Eq, Writable, PartialEq, Clone, PartialOrd, Copy, Hash, Ord)]
#[speedy(peek_tag, tag_type = u16)]
pub enum S10 { #[speedy(tag = 274)] V0(u16), #[speedy(tag = 62408)] V1(u16), #[speedy(tag = 2)] V2 { item: u16 }, #[speedy(tag = 40872)] V3 { sum: u16 } }
impl M for S10 { const MIN: usize = 0 + min_of(&[0 + 0 + <u16 as M>::MIN , 0 + 0 + <u16 as M>::MIN , 0 + 0 + <u16 as M>::MIN , 0 + 0 + <u16 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(4); S10_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S10::V0(v_t0) => { if o.canon { o.u64(274) } M::enc(v_t0, o); }
    S10::V1(v_t0) => { if o.canon { o.u64(62408) } M::enc(v_t0, o); }
    S10::V2{ item: v_item } => { if o.canon { o.u64(2) } M::enc(v_item, o); }
    S10::V3{ sum: v_sum } => { if o.canon { o.u64(40872) } M::enc(v_sum, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U16)? {
    274 => { let v_t0: u16 = <u16 as M>::dec(i)?; Ok(S10::V0(v_t0)) }
    62408 => { let v_t0: u16 = <u16 as M>::dec(i)?; Ok(S10::V1(v_t0)) }
    2 => { let v_item: u16 = <u16 as M>::dec(i)?; Ok(S10::V2{ item: v_item }) }
    40872 => { let v_sum: u16 = <u16 as M>::dec(i)?; Ok(S10::V3{ sum: v_sum }) }
    _ => Err(DE::Bad) } } }
fn S10_variant(s: &mut Src, k: usize) -> S10 { s.nested(3, |s| match k {
    0 => { let v_t0: u16 = 274u64 as u16; S10::V0(v_t0) }
    1 => { let v_t0: u16 = 62408u64 as u16; S10::V1(v_t0) }
    2 => { let v_item: u16 = 2u64 as u16; S10::V2{ item: v_item } }
    _ => { let v_sum: u16 = 40872u64 as u16; S10::V3{ sum: v_sum } }
  }) }
#[derive(PartialOrd, Ord, Clone, Hash, Readable, Writable, Eq, PartialEq)]
#[speedy(tag_type = u32, peek_tag)]
pub enum S11 { V0 { field: u32, name: S0, #[speedy(length = field)] flag: Vec<i64> }, #[speedy(tag = 256)] V1(u32, i16), V2(u32, [Box<u8>; 2]), V3(u32) }
impl M for S11 { const MIN: usize = 0 + min_of(&[0 + 0 + <u32 as M>::MIN + 0 + <S0 as M>::MIN + 0 + 0 , 0 + 0 + <u32 as M>::MIN + 0 + <i16 as M>::MIN , 0 + 0 + <u32 as M>::MIN + 0 + <[Box<u8>; 2] as M>::MIN , 0 + 0 + <u32 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(4); S11_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S11::V0{ field: v_field, name: v_name, flag: v_flag } => { if o.canon { o.u64(0) } M::enc(v_field, o); M::enc(v_name, o); enc_n(v_flag, o, (((*v_field)) as u64)); }
    S11::V1(v_t0, v_t1) => { if o.canon { o.u64(256) } M::enc(v_t0, o); M::enc(v_t1, o); }
    S11::V2(v_t0, v_t1) => { if o.canon { o.u64(257) } M::enc(v_t0, o); M::enc(v_t1, o); }
    S11::V3(v_t0) => { if o.canon { o.u64(258) } M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U32)? {
    0 => { let v_field: u32 = <u32 as M>::dec(i)?; let v_name: S0 = <S0 as M>::dec(i)?; let v_flag: Vec<i64> = dec_n::<Vec<i64>>(i, ((v_field) as u64))?; Ok(S11::V0{ field: v_field, name: v_name, flag: v_flag }) }
    256 => { let v_t0: u32 = <u32 as M>::dec(i)?; let v_t1: i16 = <i16 as M>::dec(i)?; Ok(S11::V1(v_t0, v_t1)) }
    257 => { let v_t0: u32 = <u32 as M>::dec(i)?; let v_t1: [Box<u8>; 2] = <[Box<u8>; 2] as M>::dec(i)?; Ok(S11::V2(v_t0, v_t1)) }
    258 => { let v_t0: u32 = <u32 as M>::dec(i)?; Ok(S11::V3(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S11_variant(s: &mut Src, k: usize) -> S11 { s.nested(3, |s| match k {
    0 => { let v_field: u32 = 0u64 as u32; let v_name: S0 = <S0 as M>::gen(s); let v_flag: Vec<i64> = gen_n::<Vec<i64>>(s, ((v_field) as u64)); S11::V0{ field: v_field, name: v_name, flag: v_flag } }
    1 => { let v_t0: u32 = 256u64 as u32; let v_t1: i16 = <i16 as M>::gen(s); S11::V1(v_t0, v_t1) }
    2 => { let v_t0: u32 = 257u64 as u32; let v_t1: [Box<u8>; 2] = <[Box<u8>; 2] as M>::gen(s); S11::V2(v_t0, v_t1) }
    _ => { let v_t0: u32 = 258u64 as u32; S11::V3(v_t0) }
  }) }
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u64, peek_tag)]
pub enum S12<'a> { #[speedy(tag = 0)] V0 { name: u64, #[speedy(length_type = u7)] slice: Option<Cow<'a, HashMap<i64, i16>>>, writer: Option<HashSet<u16>> }, V1 { out: u64, tag: HashMap<(u8, i32), i8> }, V2 { bytes: u64, alpha: S0, beta: u64 }, V3(u64) }
impl M for S12<'static> { const MIN: usize = 0 + min_of(&[0 + 0 + <u64 as M>::MIN + 0 + 1 + 0 + <Option<HashSet<u16>> as M>::MIN , 0 + 0 + <u64 as M>::MIN + 0 + <HashMap<(u8, i32), i8> as M>::MIN , 0 + 0 + <u64 as M>::MIN + 0 + <S0 as M>::MIN + 0 + <u64 as M>::MIN , 0 + 0 + <u64 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(4); S12_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S12::V0{ name: v_name, slice: v_slice, writer: v_writer } => { if o.canon { o.u64(0) } M::enc(v_name, o); enc_opt(v_slice, o, Len::U7); M::enc(v_writer, o); }
    S12::V1{ out: v_out, tag: v_tag } => { if o.canon { o.u64(1) } M::enc(v_out, o); M::enc(v_tag, o); }
    S12::V2{ bytes: v_bytes, alpha: v_alpha, beta: v_beta } => { if o.canon { o.u64(2) } M::enc(v_bytes, o); M::enc(v_alpha, o); M::enc(v_beta, o); }
    S12::V3(v_t0) => { if o.canon { o.u64(3) } M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U64)? {
    0 => { let v_name: u64 = <u64 as M>::dec(i)?; let v_slice: Option<Cow<'static, HashMap<i64, i16>>> = dec_opt::<Cow<'static, HashMap<i64, i16>>>(i, Len::U7)?; let v_writer: Option<HashSet<u16>> = <Option<HashSet<u16>> as M>::dec(i)?; Ok(S12::V0{ name: v_name, slice: v_slice, writer: v_writer }) }
    1 => { let v_out: u64 = <u64 as M>::dec(i)?; let v_tag: HashMap<(u8, i32), i8> = <HashMap<(u8, i32), i8> as M>::dec(i)?; Ok(S12::V1{ out: v_out, tag: v_tag }) }
    2 => { let v_bytes: u64 = <u64 as M>::dec(i)?; let v_alpha: S0 = <S0 as M>::dec(i)?; let v_beta: u64 = <u64 as M>::dec(i)?; Ok(S12::V2{ bytes: v_bytes, alpha: v_alpha, beta: v_beta }) }
    3 => { let v_t0: u64 = <u64 as M>::dec(i)?; Ok(S12::V3(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S12_variant(s: &mut Src, k: usize) -> S12<'static> { s.nested(3, |s| match k {
    0 => { let v_name: u64 = 0u64 as u64; let v_slice: Option<Cow<'static, HashMap<i64, i16>>> = gen_opt::<Cow<'static, HashMap<i64, i16>>>(s, Len::U7); let v_writer: Option<HashSet<u16>> = <Option<HashSet<u16>> as M>::gen(s); S12::V0{ name: v_name, slice: v_slice, writer: v_writer } }
    1 => { let v_out: u64 = 1u64 as u64; let v_tag: HashMap<(u8, i32), i8> = <HashMap<(u8, i32), i8> as M>::gen(s); S12::V1{ out: v_out, tag: v_tag } }
    2 => { let v_bytes: u64 = 2u64 as u64; let v_alpha: S0 = <S0 as M>::gen(s); let v_beta: u64 = <u64 as M>::gen(s); S12::V2{ bytes: v_bytes, alpha: v_alpha, beta: v_beta } }
    _ => { let v_t0: u64 = 3u64 as u64; S12::V3(v_t0) }
  }) }
#[derive(PartialOrd, Ord, Hash, Eq, Readable, PartialEq, Clone, Writable, Copy)]
#[speedy(tag_type = u64_varint, peek_tag)]
pub enum S13 { V0 { #[speedy(varint)] this: u64 }, V1 { #[speedy(varint)] data: u64, bytes: S10 } }
impl M for S13 { const MIN: usize = 0 + min_of(&[0 + 0 + 1 , 0 + 0 + 1 + 0 + <S10 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S13_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S13::V0{ this: v_this } => { if o.canon { o.u64(0) } o.varint(*v_this); }
    S13::V1{ data: v_data, bytes: v_bytes } => { if o.canon { o.u64(1) } o.varint(*v_data); M::enc(v_bytes, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::Varint)? {
    0 => { let v_this: u64 = i.varint()?; Ok(S13::V0{ this: v_this }) }
    1 => { let v_data: u64 = i.varint()?; let v_bytes: S10 = <S10 as M>::dec(i)?; Ok(S13::V1{ data: v_data, bytes: v_bytes }) }
    _ => Err(DE::Bad) } } }
fn S13_variant(s: &mut Src, k: usize) -> S13 { s.nested(3, |s| match k {
    0 => { let v_this: u64 = 0u64 as u64; S13::V0{ this: v_this } }
    _ => { let v_data: u64 = 1u64 as u64; let v_bytes: S10 = <S10 as M>::gen(s); S13::V1{ data: v_data, bytes: v_bytes } }
  }) }
#[derive(Writable, Clone, Readable)]
#[speedy(tag_type = u7)]
pub enum S14<'a> { V0(#[speedy(varint)] u64), V1 { #[speedy(length_type = u32, default_on_eof, constant_prefix = 29u8)] slice: Cow<'a, HashMap<u8, std::collections::HashMap<u8, String>>>, reader: S0 }, V2(#[speedy(skip)] i16, [u128; 4]), V3 { x: &'a str, writer: Cow<'a, HashSet<i32>> }, V4 { item: &'a [u8] } }
impl M for S14<'static> { const MIN: usize = 1 + min_of(&[0 + 0 + 1 , 0 + 0 + 0 + <S0 as M>::MIN , 0 + 0 + 0 + <[u128; 4] as M>::MIN , 0 + 0 + <&'static str as M>::MIN + 0 + <Cow<'static, HashSet<i32>> as M>::MIN , 0 + 0 + <&'static [u8] as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(5); S14_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S14::V0(v_t0) => { tag(o, 0, Len::U7); o.varint(*v_t0); }
    S14::V1{ slice: v_slice, reader: v_reader } => { tag(o, 1, Len::U7); o.raw(&[29]);enc_lt(v_slice, o, Len::U32); M::enc(v_reader, o); }
    S14::V2(v_t0, v_t1) => { tag(o, 2, Len::U7); enc_skip(v_t0, o); M::enc(v_t1, o); }
    S14::V3{ x: v_x, writer: v_writer } => { tag(o, 3, Len::U7); M::enc(v_x, o); M::enc(v_writer, o); }
    S14::V4{ item: v_item } => { tag(o, 4, Len::U7); M::enc(v_item, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U7)? {
    0 => { let v_t0: u64 = i.varint()?; Ok(S14::V0(v_t0)) }
    1 => { let v_slice: Cow<'static, HashMap<u8, std::collections::HashMap<u8, String>>> = i.or_default(Default::default, |i| { prefix(i, &[29])?; dec_lt::<Cow<'static, HashMap<u8, std::collections::HashMap<u8, String>>>>(i, Len::U32) })?; let v_reader: S0 = <S0 as M>::dec(i)?; Ok(S14::V1{ slice: v_slice, reader: v_reader }) }
    2 => { let v_t0: i16 = Default::default(); let v_t1: [u128; 4] = <[u128; 4] as M>::dec(i)?; Ok(S14::V2(v_t0, v_t1)) }
    3 => { let v_x: &'static str = <&'static str as M>::dec(i)?; let v_writer: Cow<'static, HashSet<i32>> = <Cow<'static, HashSet<i32>> as M>::dec(i)?; Ok(S14::V3{ x: v_x, writer: v_writer }) }
    4 => { let v_item: &'static [u8] = <&'static [u8] as M>::dec(i)?; Ok(S14::V4{ item: v_item }) }
    _ => Err(DE::Bad) } } }
fn S14_variant(s: &mut Src, k: usize) -> S14<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: u64 = s.int(64); S14::V0(v_t0) }
    1 => { let v_slice: Cow<'static, HashMap<u8, std::collections::HashMap<u8, String>>> = gen_lt::<Cow<'static, HashMap<u8, std::collections::HashMap<u8, String>>>>(s, Len::U32); let v_reader: S0 = <S0 as M>::gen(s); S14::V1{ slice: v_slice, reader: v_reader } }
    2 => { let v_t0: i16 = <i16 as M>::gen(s); let v_t1: [u128; 4] = <[u128; 4] as M>::gen(s); S14::V2(v_t0, v_t1) }
    3 => { let v_x: &'static str = <&'static str as M>::gen(s); let v_writer: Cow<'static, HashSet<i32>> = <Cow<'static, HashSet<i32>> as M>::gen(s); S14::V3{ x: v_x, writer: v_writer } }
    _ => { let v_item: &'static [u8] = <&'static [u8] as M>::gen(s); S14::V4{ item: v_item } }
  }) }
#[derive(Readable, Clone, Writable)]
#[speedy(tag_type = u8)]
pub enum S15<'a> { V0(#[speedy(default_on_eof)] &'a str, BTreeSet<u64>), V1 { ctx: i8, #[speedy(skip)] name: &'a str } }
impl M for S15<'static> { const MIN: usize = 1 + min_of(&[0 + 0 + 0 + <BTreeSet<u64> as M>::MIN , 0 + 0 + <i8 as M>::MIN + 0]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S15_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S15::V0(v_t0, v_t1) => { tag(o, 0, Len::U8); M::enc(v_t0, o); M::enc(v_t1, o); }
    S15::V1{ ctx: v_ctx, name: v_name } => { tag(o, 1, Len::U8); M::enc(v_ctx, o); enc_skip(v_name, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U8)? {
    0 => { let v_t0: &'static str = i.or_default(Default::default, |i| <&'static str as M>::dec(i))?; let v_t1: BTreeSet<u64> = <BTreeSet<u64> as M>::dec(i)?; Ok(S15::V0(v_t0, v_t1)) }
    1 => { let v_ctx: i8 = <i8 as M>::dec(i)?; let v_name: &'static str = Default::default(); Ok(S15::V1{ ctx: v_ctx, name: v_name }) }
    _ => Err(DE::Bad) } } }
fn S15_variant(s: &mut Src, k: usize) -> S15<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: &'static str = <&'static str as M>::gen(s); let v_t1: BTreeSet<u64> = <BTreeSet<u64> as M>::gen(s); S15::V0(v_t0, v_t1) }
    _ => { let v_ctx: i8 = <i8 as M>::gen(s); let v_name: &'static str = <&'static str as M>::gen(s); S15::V1{ ctx: v_ctx, name: v_name } }
  }) }
#[derive(Eq, Ord, PartialEq, Clone, PartialOrd, Writable, Hash, Copy, Readable)]
#[speedy(tag_type = u16)]
pub enum S16 { V0, V1(u8) }
impl M for S16 { const MIN: usize = 2 + min_of(&[0 , 0 + 0 + <u8 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S16_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S16::V0 => { tag(o, 0, Len::U16);  }
    S16::V1(v_t0) => { tag(o, 1, Len::U16); M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U16)? {
    0 => {  Ok(S16::V0) }
    1 => { let v_t0: u8 = <u8 as M>::dec(i)?; Ok(S16::V1(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S16_variant(s: &mut Src, k: usize) -> S16 { s.nested(3, |s| match k {
    0 => {  S16::V0 }
    _ => { let v_t0: u8 = <u8 as M>::gen(s); S16::V1(v_t0) }
  }) }
#[derive(Clone, Writable, Copy, PartialOrd, Hash, PartialEq, Ord, Readable, Eq)]
#[speedy(tag_type = u32)]
pub enum S17 { V0, V1 }
impl M for S17 { const MIN: usize = 4 + min_of(&[0 , 0]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S17_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S17::V0 => { tag(o, 0, Len::U32);  }
    S17::V1 => { tag(o, 1, Len::U32);  }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U32)? {
    0 => {  Ok(S17::V0) }
    1 => {  Ok(S17::V1) }
    _ => Err(DE::Bad) } } }
fn S17_variant(s: &mut Src, k: usize) -> S17 { s.nested(3, |s| match k {
    0 => {  S17::V0 }
    _ => {  S17::V1 }
  }) }
#[derive(Writable, Clone, Readable)]
#[speedy(tag_type = u64)]
pub enum S18<'a> { #[speedy(tag = 256)] V0(S14<'a>, S1, u128), #[speedy(tag = 1)] V1, #[speedy(tag = 0)] V2 { data: std::option::Option<u8> }, #[speedy(tag = 15553105989458711667)] V3(#[speedy(default_on_eof)] Vec<u128>, #[speedy(constant_prefix = b'q', default_on_eof, length_type = u16)] Cow<'a, HashMap<String, Cow<'a, BTreeSet<String>>>>, i32) }
impl M for S18<'static> { const MIN: usize = 8 + min_of(&[0 + 0 + <S14<'static> as M>::MIN + 0 + <S1 as M>::MIN + 0 + <u128 as M>::MIN , 0 , 0 + 0 + <std::option::Option<u8> as M>::MIN , 0 + 0 + 0 + 0 + <i32 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(4); S18_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S18::V0(v_t0, v_t1, v_t2) => { tag(o, 256, Len::U64); M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
    S18::V1 => { tag(o, 1, Len::U64);  }
    S18::V2{ data: v_data } => { tag(o, 0, Len::U64); M::enc(v_data, o); }
    S18::V3(v_t0, v_t1, v_t2) => { tag(o, 15553105989458711667, Len::U64); M::enc(v_t0, o); o.raw(&[113]);enc_lt(v_t1, o, Len::U16); M::enc(v_t2, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U64)? {
    256 => { let v_t0: S14<'static> = <S14<'static> as M>::dec(i)?; let v_t1: S1 = <S1 as M>::dec(i)?; let v_t2: u128 = <u128 as M>::dec(i)?; Ok(S18::V0(v_t0, v_t1, v_t2)) }
    1 => {  Ok(S18::V1) }
    0 => { let v_data: std::option::Option<u8> = <std::option::Option<u8> as M>::dec(i)?; Ok(S18::V2{ data: v_data }) }
    15553105989458711667 => { let v_t0: Vec<u128> = i.or_default(Default::default, |i| <Vec<u128> as M>::dec(i))?; let v_t1: Cow<'static, HashMap<String, Cow<'static, BTreeSet<String>>>> = i.or_default(Default::default, |i| { prefix(i, &[113])?; dec_lt::<Cow<'static, HashMap<String, Cow<'static, BTreeSet<String>>>>>(i, Len::U16) })?; let v_t2: i32 = <i32 as M>::dec(i)?; Ok(S18::V3(v_t0, v_t1, v_t2)) }
    _ => Err(DE::Bad) } } }
fn S18_variant(s: &mut Src, k: usize) -> S18<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: S14<'static> = <S14<'static> as M>::gen(s); let v_t1: S1 = <S1 as M>::gen(s); let v_t2: u128 = <u128 as M>::gen(s); S18::V0(v_t0, v_t1, v_t2) }
    1 => {  S18::V1 }
    2 => { let v_data: std::option::Option<u8> = <std::option::Option<u8> as M>::gen(s); S18::V2{ data: v_data } }
    _ => { let v_t0: Vec<u128> = <Vec<u128> as M>::gen(s); let v_t1: Cow<'static, HashMap<String, Cow<'static, BTreeSet<String>>>> = gen_lt::<Cow<'static, HashMap<String, Cow<'static, BTreeSet<String>>>>>(s, Len::U16); let v_t2: i32 = <i32 as M>::gen(s); S18::V3(v_t0, v_t1, v_t2) }
  }) }
#[derive(Hash, Eq, Ord, PartialEq, Readable, Writable, Clone, Copy, PartialOrd)]
#[speedy(tag_type = u64_varint)]
pub enum S19 { V0, V1 }
impl M for S19 { const MIN: usize = 1 + min_of(&[0 , 0]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S19_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S19::V0 => { tag(o, 0, Len::Varint);  }
    S19::V1 => { tag(o, 1, Len::Varint);  }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::Varint)? {
    0 => {  Ok(S19::V0) }
    1 => {  Ok(S19::V1) }
    _ => Err(DE::Bad) } } }
fn S19_variant(s: &mut Src, k: usize) -> S19 { s.nested(3, |s| match k {
    0 => {  S19::V0 }
    _ => {  S19::V1 }
  }) }
#[derive(Default, Ord, Writable, PartialOrd, Readable, Hash, Eq, PartialEq, Clone)]
pub struct S20 { #[speedy(length_type = u7)] pub a: String, pub b: u16 }
impl M for S20 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S20{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S20{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S20{ a: v_a, b: v_b }) } }
#[derive(PartialOrd, Hash, Writable, Ord, Eq, PartialEq, Clone, Readable, Default)]
pub struct S21 { #[speedy(length_type = u8)] pub a: String, pub b: u16 }
impl M for S21 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S21{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S21{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S21{ a: v_a, b: v_b }) } }
#[derive(Eq, Ord, Default, Readable, Writable, PartialOrd, Clone, PartialEq, Hash)]
pub struct S22 { #[speedy(length_type = u16)] pub a: String, pub b: u16 }
impl M for S22 { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S22{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S22{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S22{ a: v_a, b: v_b }) } }
#[derive(Ord, Readable, PartialEq, PartialOrd, Eq, Hash, Default, Clone, Writable)]
pub struct S23 { #[speedy(length_type = u32)] pub a: String, pub b: u16 }
impl M for S23 { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S23{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S23{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S23{ a: v_a, b: v_b }) } }
#[derive(PartialOrd, Readable, Clone, PartialEq, Eq, Hash, Ord, Default, Writable)]
pub struct S24 { #[speedy(length_type = u64)] pub a: String, pub b: u16 }
impl M for S24 { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S24{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S24{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S24{ a: v_a, b: v_b }) } }
#[derive(Hash, Eq, PartialOrd, Clone, PartialEq, Readable, Writable, Ord, Default)]
pub struct S25 { #[speedy(length_type = u64_varint)] pub a: String, pub b: u16 }
impl M for S25 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S25{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S25{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S25{ a: v_a, b: v_b }) } }
#[derive(Eq, Default, PartialOrd, PartialEq, Clone, Ord, Readable, Writable, Hash)]
pub struct S26 { #[speedy(length_type = u7)] pub a: Vec<i32>, pub b: u16 }
impl M for S26 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i32> = gen_lt::<Vec<i32>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S26{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S26{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i32> = dec_lt::<Vec<i32>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S26{ a: v_a, b: v_b }) } }
#[derive(Writable, Default, Ord, Hash, PartialEq, Clone, Eq, PartialOrd, Readable)]
pub struct S27 { #[speedy(length_type = u8)] pub a: Vec<i128>, pub b: u16 }
impl M for S27 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i128> = gen_lt::<Vec<i128>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S27{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S27{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i128> = dec_lt::<Vec<i128>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S27{ a: v_a, b: v_b }) } }
#[derive(Eq, Ord, PartialOrd, Hash, Writable, Readable, PartialEq, Default, Clone)]
pub struct S28 { #[speedy(length_type = u16)] pub a: Vec<i32>, pub b: u16 }
impl M for S28 { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i32> = gen_lt::<Vec<i32>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S28{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S28{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i32> = dec_lt::<Vec<i32>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S28{ a: v_a, b: v_b }) } }
#[derive(Readable, PartialOrd, Writable, Ord, Clone, PartialEq, Hash, Default, Eq)]
pub struct S29 { #[speedy(length_type = u32)] pub a: Vec<u128>, pub b: u16 }
impl M for S29 { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<u128> = gen_lt::<Vec<u128>>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S29{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S29{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u128> = dec_lt::<Vec<u128>>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S29{ a: v_a, b: v_b }) } }
#[derive(PartialEq, Ord, Readable, Hash, Default, Eq, Clone, PartialOrd, Writable)]
pub struct S30 { #[speedy(length_type = u64)] pub a: Vec<i32>, pub b: u16 }
impl M for S30 { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i32> = gen_lt::<Vec<i32>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S30{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S30{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i32> = dec_lt::<Vec<i32>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S30{ a: v_a, b: v_b }) } }
#[derive(PartialEq, Ord, Hash, Readable, Clone, Default, PartialOrd, Writable, Eq)]
pub struct S31 { #[speedy(length_type = u64_varint)] pub a: Vec<i16>, pub b: u16 }
impl M for S31 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i16> = gen_lt::<Vec<i16>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S31{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S31{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i16> = dec_lt::<Vec<i16>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S31{ a: v_a, b: v_b }) } }
#[derive(Writable, Default, Clone, Readable)]
pub struct S32<'a> { #[speedy(length_type = u7)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S32<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S32{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S32{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S32{ a: v_a, b: v_b }) } }
#[derive(Default, Readable, Clone, Writable)]
pub struct S33<'a> { #[speedy(length_type = u8)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S33<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S33{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S33{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S33{ a: v_a, b: v_b }) } }
#[derive(Readable, Writable, Default, Clone)]
pub struct S34<'a> { #[speedy(length_type = u16)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S34<'static> { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S34{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S34{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S34{ a: v_a, b: v_b }) } }
#[derive(Clone, Default, Writable, Readable)]
pub struct S35<'a> { #[speedy(length_type = u32)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S35<'static> { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S35{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S35{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S35{ a: v_a, b: v_b }) } }
#[derive(Clone, Default, Writable, Readable)]
pub struct S36<'a> { #[speedy(length_type = u64)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S36<'static> { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S36{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S36{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S36{ a: v_a, b: v_b }) } }
#[derive(Writable, Default, Readable, Clone)]
pub struct S37<'a> { #[speedy(length_type = u64_varint)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S37<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S37{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S37{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S37{ a: v_a, b: v_b }) } }
#[derive(Writable, Default, Readable, Hash, Ord, Clone, PartialOrd, PartialEq, Eq)]
pub struct S38<'a> { #[speedy(length_type = u7)] pub a: Cow<'a, [i64]>, pub b: u16 }
impl M for S38<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [i64]> = gen_lt::<Cow<'static, [i64]>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S38{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S38{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [i64]> = dec_lt::<Cow<'static, [i64]>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S38{ a: v_a, b: v_b }) } }
#[derive(Eq, Hash, Readable, Clone, PartialOrd, PartialEq, Default, Writable, Ord)]
pub struct S39<'a> { #[speedy(length_type = u8)] pub a: Cow<'a, [u8]>, pub b: u16 }
impl M for S39<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [u8]> = gen_lt::<Cow<'static, [u8]>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S39{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S39{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [u8]> = dec_lt::<Cow<'static, [u8]>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S39{ a: v_a, b: v_b }) } }
#[derive(Clone, Readable, Default, Writable)]
pub struct S40<'a> { #[speedy(length_type = u16)] pub a: Cow<'a, [f32]>, pub b: u16 }
impl M for S40<'static> { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [f32]> = gen_lt::<Cow<'static, [f32]>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S40{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S40{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [f32]> = dec_lt::<Cow<'static, [f32]>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S40{ a: v_a, b: v_b }) } }
#[derive(PartialOrd, Eq, Clone, Readable, Hash, PartialEq, Writable, Ord, Default)]
pub struct S41<'a> { #[speedy(length_type = u32)] pub a: Cow<'a, [u16]>, pub b: u16 }
impl M for S41<'static> { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [u16]> = gen_lt::<Cow<'static, [u16]>>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S41{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S41{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [u16]> = dec_lt::<Cow<'static, [u16]>>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S41{ a: v_a, b: v_b }) } }
#[derive(Default, Hash, PartialEq, Clone, Readable, PartialOrd, Eq, Writable, Ord)]
pub struct S42<'a> { #[speedy(length_type = u64)] pub a: Cow<'a, [u8]>, pub b: u16 }
impl M for S42<'static> { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [u8]> = gen_lt::<Cow<'static, [u8]>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S42{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S42{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [u8]> = dec_lt::<Cow<'static, [u8]>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S42{ a: v_a, b: v_b }) } }
#[derive(Default, Writable, PartialEq, Ord, Clone, PartialOrd, Readable, Eq, Hash)]
pub struct S43<'a> { #[speedy(length_type = u64_varint)] pub a: Cow<'a, [i128]>, pub b: u16 }
impl M for S43<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [i128]> = gen_lt::<Cow<'static, [i128]>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S43{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S43{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [i128]> = dec_lt::<Cow<'static, [i128]>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S43{ a: v_a, b: v_b }) } }
#[derive(PartialOrd, Default, Ord, Hash, PartialEq, Writable, Clone, Eq, Readable)]
pub struct S44 { #[speedy(length_type = u7)] pub a: Vec<i128>, pub b: u16 }
impl M for S44 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i128> = gen_lt::<Vec<i128>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S44{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S44{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i128> = dec_lt::<Vec<i128>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S44{ a: v_a, b: v_b }) } }
#[derive(Clone, Readable, Default, Writable)]
pub struct S45<'a> { #[speedy(length_type = u8)] pub a: Cow<'a, HashMap<bool, f64>>, pub b: u16 }
impl M for S45<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, HashMap<bool, f64>> = gen_lt::<Cow<'static, HashMap<bool, f64>>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S45{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S45{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, HashMap<bool, f64>> = dec_lt::<Cow<'static, HashMap<bool, f64>>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S45{ a: v_a, b: v_b }) } }
#[derive(Default, Writable, Readable, Clone)]
pub struct S46<'a> { #[speedy(length_type = u16)] pub a: Cow<'a, BTreeSet<i8>>, pub b: u16 }
impl M for S46<'static> { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, BTreeSet<i8>> = gen_lt::<Cow<'static, BTreeSet<i8>>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S46{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S46{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, BTreeSet<i8>> = dec_lt::<Cow<'static, BTreeSet<i8>>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S46{ a: v_a, b: v_b }) } }
#[derive(Readable, Clone, Writable, Default, Copy)]
pub struct S47<'a> { #[speedy(length_type = u32)] pub a: &'a str, pub b: u16 }
impl M for S47<'static> { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: &'static str = gen_lt::<&'static str>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S47{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S47{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: &'static str = dec_lt::<&'static str>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S47{ a: v_a, b: v_b }) } }
#[derive(Default, Readable, Writable, Clone)]
pub struct S48<'a> { #[speedy(length_type = u64)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S48<'static> { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S48{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S48{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S48{ a: v_a, b: v_b }) } }
#[derive(Readable, Default, Clone, Writable)]
pub struct S49 { #[speedy(length_type = u64_varint)] pub a: HashMap<String, f64>, pub b: u16 }
impl M for S49 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: HashMap<String, f64> = gen_lt::<HashMap<String, f64>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S49{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S49{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: HashMap<String, f64> = dec_lt::<HashMap<String, f64>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S49{ a: v_a, b: v_b }) } }
#[derive(Writable, Readable, Clone, Default)]
pub struct S50 { #[speedy(length_type = u64)] pub a: Vec<u64> }
impl M for S50 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::U64); S50{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S50{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::U64)?; Ok(S50{ a: v_a }) } }
#[derive(Clone, Writable, Default, Readable)]
pub struct S51 { #[speedy(length_type = u64)] pub a: Vec<u32> }
impl M for S51 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u32> = gen_lt::<Vec<u32>>(s, Len::U64); S51{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S51{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u32> = dec_lt::<Vec<u32>>(i, Len::U64)?; Ok(S51{ a: v_a }) } }
#[derive(Clone, Default, Writable, Readable)]
pub struct S52 { #[speedy(length_type = u64)] pub a: Vec<u128> }
impl M for S52 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u128> = gen_lt::<Vec<u128>>(s, Len::U64); S52{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S52{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u128> = dec_lt::<Vec<u128>>(i, Len::U64)?; Ok(S52{ a: v_a }) } }
#[derive(Readable, Writable, Clone, Default)]
pub struct S53 { #[speedy(length_type = u64)] pub a: Vec<u16> }
impl M for S53 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u16> = gen_lt::<Vec<u16>>(s, Len::U64); S53{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S53{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u16> = dec_lt::<Vec<u16>>(i, Len::U64)?; Ok(S53{ a: v_a }) } }
#[derive(Readable, Writable, Default, Clone)]
pub struct S54 { #[speedy(length_type = u64_varint)] pub a: Vec<u32> }
impl M for S54 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u32> = gen_lt::<Vec<u32>>(s, Len::Varint); S54{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S54{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u32> = dec_lt::<Vec<u32>>(i, Len::Varint)?; Ok(S54{ a: v_a }) } }
#[derive(Default, Readable, Writable, Clone)]
pub struct S55 { #[speedy(length_type = u64_varint)] pub a: Vec<u64> }
impl M for S55 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::Varint); S55{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S55{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::Varint)?; Ok(S55{ a: v_a }) } }
#[derive(Clone, Writable, Readable, Default)]
pub struct S56 { #[speedy(length_type = u64_varint)] pub a: Vec<(u8, u16)> }
impl M for S56 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<(u8, u16)> = gen_lt::<Vec<(u8, u16)>>(s, Len::Varint); S56{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S56{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<(u8, u16)> = dec_lt::<Vec<(u8, u16)>>(i, Len::Varint)?; Ok(S56{ a: v_a }) } }
#[derive(Readable, Default, Clone, Writable)]
pub struct S57 { #[speedy(length_type = u64)] pub a: Vec<[u16; 5]> }
impl M for S57 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<[u16; 5]> = gen_lt::<Vec<[u16; 5]>>(s, Len::U64); S57{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S57{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<[u16; 5]> = dec_lt::<Vec<[u16; 5]>>(i, Len::U64)?; Ok(S57{ a: v_a }) } }
#[derive(Readable, Writable, Clone, Default)]
pub struct S58 { #[speedy(length_type = u64)] pub a: Vec<String> }
impl M for S58 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<String> = gen_lt::<Vec<String>>(s, Len::U64); S58{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S58{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<String> = dec_lt::<Vec<String>>(i, Len::U64)?; Ok(S58{ a: v_a }) } }
#[derive(Clone, Default, Writable, Readable)]
pub struct S59 { #[speedy(length_type = u64_varint)] pub a: Vec<(u32, u64)> }
impl M for S59 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<(u32, u64)> = gen_lt::<Vec<(u32, u64)>>(s, Len::Varint); S59{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S59{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<(u32, u64)> = dec_lt::<Vec<(u32, u64)>>(i, Len::Varint)?; Ok(S59{ a: v_a }) } }
#[derive(Clone, PartialEq, Readable, Hash, PartialOrd, Writable, Eq, Default, Ord)]
pub struct S60 { pub n: usize, #[speedy(length = n)] pub a: String, pub b: u16 }
impl M for S60 { const MIN: usize = 0 + 0 + <usize as M>::MIN + 0 + 0 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_n: usize = gen_count(s, 64) as usize; let v_a: String = gen_n::<String>(s, ((v_n) as u64)); let v_b: u16 = <u16 as M>::gen(s); S60{ n: v_n, a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S60{ n: v_n, a: v_a, b: v_b } = self; M::enc(v_n, o); enc_n(v_a, o, (((*v_n)) as u64)); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_n: usize = <usize as M>::dec(i)?; let v_a: String = dec_n::<String>(i, ((v_n) as u64))?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S60{ n: v_n, a: v_a, b: v_b }) } }
#[derive(Readable, Ord, PartialOrd, Default, PartialEq, Eq, Hash, Clone, Writable)]
pub struct S61 { pub h: u16, #[speedy(length = ..)] pub a: String }
impl M for S61 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + 0;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_h: u16 = <u16 as M>::gen(s); let v_a: String = gen_end::<String>(s); S61{ h: v_h, a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S61{ h: v_h, a: v_a } = self; M::enc(v_h, o); enc_end(v_a, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_h: u16 = <u16 as M>::dec(i)?; let v_a: String = dec_end::<String>(i)?; Ok(S61{ h: v_h, a: v_a }) } }
#[derive(Default, Clone, Writable, Hash, PartialOrd, Ord, PartialEq, Eq, Readable)]
pub struct S62 { pub n: usize, #[speedy(length = n)] pub a: Vec<i32>, pub b: u16 }
impl M for S62 { const MIN: usize = 0 + 0 + <usize as M>::MIN + 0 + 0 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_n: usize = gen_count(s, 64) as usize; let v_a: Vec<i32> = gen_n::<Vec<i32>>(s, ((v_n) as u64)); let v_b: u16 = <u16 as M>::gen(s); S62{ n: v_n, a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S62{ n: v_n, a: v_a, b: v_b } = self; M::enc(v_n, o); enc_n(v_a, o, (((*v_n)) as u64)); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_n: usize = <usize as M>::dec(i)?; let v_a: Vec<i32> = dec_n::<Vec<i32>>(i, ((v_n) as u64))?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S62{ n: v_n, a: v_a, b: v_b }) } }
#[derive(Default, PartialOrd, Readable, Hash, Ord, Writable, Eq, PartialEq, Clone)]
pub struct S63 { pub h: u16, #[speedy(length = ..)] pub a: Vec<i32> }
impl M for S63 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + 0;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_h: u16 = <u16 as M>::gen(s); let v_a: Vec<i32> = gen_end::<Vec<i32>>(s); S63{ h: v_h, a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S63{ h: v_h, a: v_a } = self; M::enc(v_h, o); enc_end(v_a, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_h: u16 = <u16 as M>::dec(i)?; let v_a: Vec<i32> = dec_end::<Vec<i32>>(i)?; Ok(S63{ h: v_h, a: v_a }) } }
#[derive(Eq, Default, Writable, Clone, PartialEq, PartialOrd, Ord, Readable, Copy, Hash)]
pub struct S64 { #[speedy(varint)] pub v: u64, pub w: u16 }
impl M for S64 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_v: u64 = s.int(64); let v_w: u16 = <u16 as M>::gen(s); S64{ v: v_v, w: v_w } }) }
  fn enc(&self, o: &mut Out) { let S64{ v: v_v, w: v_w } = self; o.varint(*v_v); M::enc(v_w, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_v: u64 = i.varint()?; let v_w: u16 = <u16 as M>::dec(i)?; Ok(S64{ v: v_v, w: v_w }) } }
#[derive(Readable, Clone, Writable)]
#[speedy(tag_type = u64)]
pub enum S65<'a> { #[speedy(tag = 5)] V0(#[speedy(length_type = u16)] Option<String>, Vec<S48<'a>>) }
impl M for S65<'static> { const MIN: usize = 8 + min_of(&[0 + 0 + 1 + 0 + <Vec<S48<'static>> as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(1); S65_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S65::V0(v_t0, v_t1) => { tag(o, 5, Len::U64); enc_opt(v_t0, o, Len::U16); M::enc(v_t1, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U64)? {
    5 => { let v_t0: Option<String> = dec_opt::<String>(i, Len::U16)?; let v_t1: Vec<S48<'static>> = <Vec<S48<'static>> as M>::dec(i)?; Ok(S65::V0(v_t0, v_t1)) }
    _ => Err(DE::Bad) } } }
fn S65_variant(s: &mut Src, k: usize) -> S65<'static> { s.nested(3, |s| match k {
    _ => { let v_t0: Option<String> = gen_opt::<String>(s, Len::U16); let v_t1: Vec<S48<'static>> = <Vec<S48<'static>> as M>::gen(s); S65::V0(v_t0, v_t1) }
  }) }
#[derive(Readable, Writable, Clone)]
pub enum S66<'a> { #[speedy(tag = 217817089)] V0(Cow<'a, str>, i32, bool), #[speedy(tag = 65536)] V1 { flag: Cow<'a, HashMap<S25, f64>>, #[speedy(varint)] alpha: u64 }, #[speedy(tag = 4294967294)] V2 { data: Cow<'a, BTreeMap<String, S64>> } }
impl M for S66<'static> { const MIN: usize = 4 + min_of(&[0 + 0 + <Cow<'static, str> as M>::MIN + 0 + <i32 as M>::MIN + 0 + <bool as M>::MIN , 0 + 0 + <Cow<'static, HashMap<S25, f64>> as M>::MIN + 0 + 1 , 0 + 0 + <Cow<'static, BTreeMap<String, S64>> as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S66_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S66::V0(v_t0, v_t1, v_t2) => { tag(o, 217817089, Len::U32); M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
    S66::V1{ flag: v_flag, alpha: v_alpha } => { tag(o, 65536, Len::U32); M::enc(v_flag, o); o.varint(*v_alpha); }
    S66::V2{ data: v_data } => { tag(o, 4294967294, Len::U32); M::enc(v_data, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U32)? {
    217817089 => { let v_t0: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_t1: i32 = <i32 as M>::dec(i)?; let v_t2: bool = <bool as M>::dec(i)?; Ok(S66::V0(v_t0, v_t1, v_t2)) }
    65536 => { let v_flag: Cow<'static, HashMap<S25, f64>> = <Cow<'static, HashMap<S25, f64>> as M>::dec(i)?; let v_alpha: u64 = i.varint()?; Ok(S66::V1{ flag: v_flag, alpha: v_alpha }) }
    4294967294 => { let v_data: Cow<'static, BTreeMap<String, S64>> = <Cow<'static, BTreeMap<String, S64>> as M>::dec(i)?; Ok(S66::V2{ data: v_data }) }
    _ => Err(DE::Bad) } } }
fn S66_variant(s: &mut Src, k: usize) -> S66<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_t1: i32 = <i32 as M>::gen(s); let v_t2: bool = <bool as M>::gen(s); S66::V0(v_t0, v_t1, v_t2) }
    1 => { let v_flag: Cow<'static, HashMap<S25, f64>> = <Cow<'static, HashMap<S25, f64>> as M>::gen(s); let v_alpha: u64 = s.int(64); S66::V1{ flag: v_flag, alpha: v_alpha } }
    _ => { let v_data: Cow<'static, BTreeMap<String, S64>> = <Cow<'static, BTreeMap<String, S64>> as M>::gen(s); S66::V2{ data: v_data } }
  }) }
#[derive(Clone, Readable, Writable)]
pub struct S67<X>(pub f64, pub X, pub [X; 2]);
impl<X: M> M for S67<X> { const MIN: usize = 0 + 0 + <f64 as M>::MIN + 0 + <X as M>::MIN + 0 + <[X; 2] as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_t0: f64 = <f64 as M>::gen(s); let v_t1: X = <X as M>::gen(s); let v_t2: [X; 2] = <[X; 2] as M>::gen(s); S67(v_t0, v_t1, v_t2) }) }
  fn enc(&self, o: &mut Out) { let S67(v_t0, v_t1, v_t2) = self; M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: f64 = <f64 as M>::dec(i)?; let v_t1: X = <X as M>::dec(i)?; let v_t2: [X; 2] = <[X; 2] as M>::dec(i)?; Ok(S67(v_t0, v_t1, v_t2)) } }
#[derive(PartialOrd, Ord, Hash, Writable, PartialEq, Eq, Readable, Copy, Clone, Default)]
pub struct S68;
impl M for S68 { const MIN: usize = 0;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| {  S68 }) }
  fn enc(&self, o: &mut Out) {   }
  fn dec(i: &mut In) -> Result<Self, DE> {  Ok(S68) } }
#[derive(Clone, Readable, Writable)]
#[repr(C)]
pub struct S69<Y> { pub data: Y }
impl<Y: M> M for S69<Y> { const MIN: usize = 0 + 0 + <Y as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_data: Y = <Y as M>::gen(s); S69{ data: v_data } }) }
  fn enc(&self, o: &mut Out) { let S69{ data: v_data } = self; M::enc(v_data, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_data: Y = <Y as M>::dec(i)?; Ok(S69{ data: v_data }) } }
#[derive(Clone, Writable, Readable)]
#[speedy(tag_type = u7, peek_tag)]
pub enum S70 { V0(u8, #[speedy(constant_prefix = true)] S69<String>, u8) }
impl M for S70 { const MIN: usize = 0 + min_of(&[0 + 0 + <u8 as M>::MIN + 1 + <S69<String> as M>::MIN + 0 + <u8 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(1); S70_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S70::V0(v_t0, v_t1, v_t2) => { if o.canon { o.u64(0) } M::enc(v_t0, o); o.raw(&[1]);M::enc(v_t1, o); M::enc(v_t2, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U7)? {
    0 => { let v_t0: u8 = <u8 as M>::dec(i)?; let v_t1: S69<String> = { prefix(i, &[1])?; <S69<String> as M>::dec(i) }?; let v_t2: u8 = <u8 as M>::dec(i)?; Ok(S70::V0(v_t0, v_t1, v_t2)) }
    _ => Err(DE::Bad) } } }
fn S70_variant(s: &mut Src, k: usize) -> S70 { s.nested(3, |s| match k {
    _ => { let v_t0: u8 = 0u64 as u8; let v_t1: S69<String> = <S69<String> as M>::gen(s); let v_t2: u8 = <u8 as M>::gen(s); S70::V0(v_t0, v_t1, v_t2) }
  }) }
#[derive(Default, Writable, Clone, Readable)]
pub struct S71<'a>(pub i8, pub Cow<'a, HashMap<char, u128>>, pub u16, pub Cow<'a, str>, pub BTreeSet<i8>);
impl M for S71<'static> { const MIN: usize = 0 + 0 + <i8 as M>::MIN + 0 + <Cow<'static, HashMap<char, u128>> as M>::MIN + 0 + <u16 as M>::MIN + 0 + <Cow<'static, str> as M>::MIN + 0 + <BTreeSet<i8> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(5, |s| { let v_t0: i8 = <i8 as M>::gen(s); let v_t1: Cow<'static, HashMap<char, u128>> = <Cow<'static, HashMap<char, u128>> as M>::gen(s); let v_t2: u16 = <u16 as M>::gen(s); let v_t3: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_t4: BTreeSet<i8> = <BTreeSet<i8> as M>::gen(s); S71(v_t0, v_t1, v_t2, v_t3, v_t4) }) }
  fn enc(&self, o: &mut Out) { let S71(v_t0, v_t1, v_t2, v_t3, v_t4) = self; M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); M::enc(v_t3, o); M::enc(v_t4, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: i8 = <i8 as M>::dec(i)?; let v_t1: Cow<'static, HashMap<char, u128>> = <Cow<'static, HashMap<char, u128>> as M>::dec(i)?; let v_t2: u16 = <u16 as M>::dec(i)?; let v_t3: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_t4: BTreeSet<i8> = <BTreeSet<i8> as M>::dec(i)?; Ok(S71(v_t0, v_t1, v_t2, v_t3, v_t4)) } }
#[derive(Clone, Readable, Writable)]
#[repr(C)]
pub struct S72<X> { pub n: i32, pub x: Vec<X> }
impl<X: M> M for S72<X> { const MIN: usize = 0 + 0 + <i32 as M>::MIN + 0 + <Vec<X> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_n: i32 = <i32 as M>::gen(s); let v_x: Vec<X> = <Vec<X> as M>::gen(s); S72{ n: v_n, x: v_x } }) }
  fn enc(&self, o: &mut Out) { let S72{ n: v_n, x: v_x } = self; M::enc(v_n, o); M::enc(v_x, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_n: i32 = <i32 as M>::dec(i)?; let v_x: Vec<X> = <Vec<X> as M>::dec(i)?; Ok(S72{ n: v_n, x: v_x }) } }
#[derive(Readable, Copy, Writable, Clone, Default)]
#[repr(packed)]
pub struct S73(pub S0, pub f32, pub i64);
impl M for S73 { const MIN: usize = 0 + 0 + <S0 as M>::MIN + 0 + <f32 as M>::MIN + 0 + <i64 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_t0: S0 = <S0 as M>::gen(s); let v_t1: f32 = <f32 as M>::gen(s); let v_t2: i64 = <i64 as M>::gen(s); S73(v_t0, v_t1, v_t2) }) }
  fn enc(&self, o: &mut Out) { let S73(v_t0, v_t1, v_t2) = *self; let (v_t0, v_t1, v_t2,) = (&v_t0, &v_t1, &v_t2,); M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: S0 = <S0 as M>::dec(i)?; let v_t1: f32 = <f32 as M>::dec(i)?; let v_t2: i64 = <i64 as M>::dec(i)?; Ok(S73(v_t0, v_t1, v_t2)) } }
#[derive(Clone, Writable, PartialEq, Ord, Copy, Default, Hash, PartialOrd, Readable, Eq)]
pub struct S74 { pub error: S3, pub n: S0 }
impl M for S74 { const MIN: usize = 0 + 0 + <S3 as M>::MIN + 0 + <S0 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_error: S3 = <S3 as M>::gen(s); let v_n: S0 = <S0 as M>::gen(s); S74{ error: v_error, n: v_n } }) }
  fn enc(&self, o: &mut Out) { let S74{ error: v_error, n: v_n } = self; M::enc(v_error, o); M::enc(v_n, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_error: S3 = <S3 as M>::dec(i)?; let v_n: S0 = <S0 as M>::dec(i)?; Ok(S74{ error: v_error, n: v_n }) } }
#[derive(Clone, Readable, Writable)]
pub struct S75<'a>(pub S70, #[speedy(constant_prefix = "XYZ", length_type = u7, default_on_eof)] pub Option<Cow<'a, HashMap<String, [u8; 0]>>>);
impl M for S75<'static> { const MIN: usize = 0 + 0 + <S70 as M>::MIN + 0;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_t0: S70 = <S70 as M>::gen(s); let v_t1: Option<Cow<'static, HashMap<String, [u8; 0]>>> = gen_opt::<Cow<'static, HashMap<String, [u8; 0]>>>(s, Len::U7); S75(v_t0, v_t1) }) }
  fn enc(&self, o: &mut Out) { let S75(v_t0, v_t1) = self; M::enc(v_t0, o); o.raw(&[88, 89, 90]);enc_opt(v_t1, o, Len::U7); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: S70 = <S70 as M>::dec(i)?; let v_t1: Option<Cow<'static, HashMap<String, [u8; 0]>>> = i.or_default(Default::default, |i| { prefix(i, &[88, 89, 90])?; dec_opt::<Cow<'static, HashMap<String, [u8; 0]>>>(i, Len::U7) })?; Ok(S75(v_t0, v_t1)) } }
#[derive(Writable, Clone, Copy, Default, Readable)]
#[repr(C)]
pub struct S76 { pub r#type: f64, pub field: u128, pub tag: f64 }
impl M for S76 { const MIN: usize = 0 + 0 + <f64 as M>::MIN + 0 + <u128 as M>::MIN + 0 + <f64 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_type: f64 = <f64 as M>::gen(s); let v_field: u128 = <u128 as M>::gen(s); let v_tag: f64 = <f64 as M>::gen(s); S76{ r#type: v_type, field: v_field, tag: v_tag } }) }
  fn enc(&self, o: &mut Out) { let S76{ r#type: v_type, field: v_field, tag: v_tag } = self; M::enc(v_type, o); M::enc(v_field, o); M::enc(v_tag, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_type: f64 = <f64 as M>::dec(i)?; let v_field: u128 = <u128 as M>::dec(i)?; let v_tag: f64 = <f64 as M>::dec(i)?; Ok(S76{ r#type: v_type, field: v_field, tag: v_tag }) } }
#[derive(Clone, Readable, Writable)]
#[speedy(tag_type = u64_varint)]
pub enum S77<'a> { V0 { bytes: std::num::NonZeroU16, item: &'a [u8] }, V1 { tag: [u8; 2], bytes: bool, #[speedy(skip)] writer: Option<usize> }, V2 { x: S45<'a> }, V3 { out: BTreeSet<String>, #[speedy(default_on_eof, constant_prefix = b'q', varint)] r#type: u64, #[speedy(length_type = u64)] length: Option<Cow<'a, HashMap<i32, bool>>> }, V4 { #[speedy(length_type = u16)] writer: Option<&'a [u8]>, #[speedy(length_type = u8)] length: Option<Cow<'a, str>> }, V5(S74), V6(i8), V7 { writer: bool } }
impl M for S77<'static> { const MIN: usize = 1 + min_of(&[0 + 0 + <std::num::NonZeroU16 as M>::MIN + 0 + <&'static [u8] as M>::MIN , 0 + 0 + <[u8; 2] as M>::MIN + 0 + <bool as M>::MIN + 0 , 0 + 0 + <S45<'static> as M>::MIN , 0 + 0 + <BTreeSet<String> as M>::MIN + 0 + 0 + 1 , 0 + 0 + 1 + 0 + 1 , 0 + 0 + <S74 as M>::MIN , 0 + 0 + <i8 as M>::MIN , 0 + 0 + <bool as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(8); S77_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S77::V0{ bytes: v_bytes, item: v_item } => { tag(o, 0, Len::Varint); M::enc(v_bytes, o); M::enc(v_item, o); }
    S77::V1{ tag: v_tag, bytes: v_bytes, writer: v_writer } => { tag(o, 1, Len::Varint); M::enc(v_tag, o); M::enc(v_bytes, o); enc_skip(v_writer, o); }
    S77::V2{ x: v_x } => { tag(o, 2, Len::Varint); M::enc(v_x, o); }
    S77::V3{ out: v_out, r#type: v_type, length: v_length } => { tag(o, 3, Len::Varint); M::enc(v_out, o); o.raw(&[113]);o.varint(*v_type); enc_opt(v_length, o, Len::U64); }
    S77::V4{ writer: v_writer, length: v_length } => { tag(o, 4, Len::Varint); enc_opt(v_writer, o, Len::U16); enc_opt(v_length, o, Len::U8); }
    S77::V5(v_t0) => { tag(o, 5, Len::Varint); M::enc(v_t0, o); }
    S77::V6(v_t0) => { tag(o, 6, Len::Varint); M::enc(v_t0, o); }
    S77::V7{ writer: v_writer } => { tag(o, 7, Len::Varint); M::enc(v_writer, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::Varint)? {
    0 => { let v_bytes: std::num::NonZeroU16 = <std::num::NonZeroU16 as M>::dec(i)?; let v_item: &'static [u8] = <&'static [u8] as M>::dec(i)?; Ok(S77::V0{ bytes: v_bytes, item: v_item }) }
    1 => { let v_tag: [u8; 2] = <[u8; 2] as M>::dec(i)?; let v_bytes: bool = <bool as M>::dec(i)?; let v_writer: Option<usize> = Default::default(); Ok(S77::V1{ tag: v_tag, bytes: v_bytes, writer: v_writer }) }
    2 => { let v_x: S45<'static> = <S45<'static> as M>::dec(i)?; Ok(S77::V2{ x: v_x }) }
    3 => { let v_out: BTreeSet<String> = <BTreeSet<String> as M>::dec(i)?; let v_type: u64 = i.or_default(Default::default, |i| { prefix(i, &[113])?; i.varint() })?; let v_length: Option<Cow<'static, HashMap<i32, bool>>> = dec_opt::<Cow<'static, HashMap<i32, bool>>>(i, Len::U64)?; Ok(S77::V3{ out: v_out, r#type: v_type, length: v_length }) }
    4 => { let v_writer: Option<&'static [u8]> = dec_opt::<&'static [u8]>(i, Len::U16)?; let v_length: Option<Cow<'static, str>> = dec_opt::<Cow<'static, str>>(i, Len::U8)?; Ok(S77::V4{ writer: v_writer, length: v_length }) }
    5 => { let v_t0: S74 = <S74 as M>::dec(i)?; Ok(S77::V5(v_t0)) }
    6 => { let v_t0: i8 = <i8 as M>::dec(i)?; Ok(S77::V6(v_t0)) }
    7 => { let v_writer: bool = <bool as M>::dec(i)?; Ok(S77::V7{ writer: v_writer }) }
    _ => Err(DE::Bad) } } }
fn S77_variant(s: &mut Src, k: usize) -> S77<'static> { s.nested(3, |s| match k {
    0 => { let v_bytes: std::num::NonZeroU16 = <std::num::NonZeroU16 as M>::gen(s); let v_item: &'static [u8] = <&'static [u8] as M>::gen(s); S77::V0{ bytes: v_bytes, item: v_item } }
    1 => { let v_tag: [u8; 2] = <[u8; 2] as M>::gen(s); let v_bytes: bool = <bool as M>::gen(s); let v_writer: Option<usize> = <Option<usize> as M>::gen(s); S77::V1{ tag: v_tag, bytes: v_bytes, writer: v_writer } }
    2 => { let v_x: S45<'static> = <S45<'static> as M>::gen(s); S77::V2{ x: v_x } }
    3 => { let v_out: BTreeSet<String> = <BTreeSet<String> as M>::gen(s); let v_type: u64 = s.int(64); let v_length: Option<Cow<'static, HashMap<i32, bool>>> = gen_opt::<Cow<'static, HashMap<i32, bool>>>(s, Len::U64); S77::V3{ out: v_out, r#type: v_type, length: v_length } }
    4 => { let v_writer: Option<&'static [u8]> = gen_opt::<&'static [u8]>(s, Len::U16); let v_length: Option<Cow<'static, str>> = gen_opt::<Cow<'static, str>>(s, Len::U8); S77::V4{ writer: v_writer, length: v_length } }
    5 => { let v_t0: S74 = <S74 as M>::gen(s); S77::V5(v_t0) }
    6 => { let v_t0: i8 = <i8 as M>::gen(s); S77::V6(v_t0) }
    _ => { let v_writer: bool = <bool as M>::gen(s); S77::V7{ writer: v_writer } }
  }) }
#[derive(Default, Writable, Readable, Clone)]
pub struct S78<'a> { pub name: [i64; 9], pub x: (S64, S71<'a>), pub alpha: Cow<'a, BTreeMap<(i64, i8), usize>>, pub error: BTreeSet<u32>, pub slice: String, pub this: (), pub beta: Cow<'a, BTreeSet<S22>>, pub length: S68 }
impl M for S78<'static> { const MIN: usize = 0 + 0 + <[i64; 9] as M>::MIN + 0 + <(S64, S71<'static>) as M>::MIN + 0 + <Cow<'static, BTreeMap<(i64, i8), usize>> as M>::MIN + 0 + <BTreeSet<u32> as M>::MIN + 0 + <String as M>::MIN + 0 + <() as M>::MIN + 0 + <Cow<'static, BTreeSet<S22>> as M>::MIN + 0 + <S68 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(8, |s| { let v_name: [i64; 9] = <[i64; 9] as M>::gen(s); let v_x: (S64, S71<'static>) = <(S64, S71<'static>) as M>::gen(s); let v_alpha: Cow<'static, BTreeMap<(i64, i8), usize>> = <Cow<'static, BTreeMap<(i64, i8), usize>> as M>::gen(s); let v_error: BTreeSet<u32> = <BTreeSet<u32> as M>::gen(s); let v_slice: String = <String as M>::gen(s); let v_this: () = <() as M>::gen(s); let v_beta: Cow<'static, BTreeSet<S22>> = <Cow<'static, BTreeSet<S22>> as M>::gen(s); let v_length: S68 = <S68 as M>::gen(s); S78{ name: v_name, x: v_x, alpha: v_alpha, error: v_error, slice: v_slice, this: v_this, beta: v_beta, length: v_length } }) }
  fn enc(&self, o: &mut Out) { let S78{ name: v_name, x: v_x, alpha: v_alpha, error: v_error, slice: v_slice, this: v_this, beta: v_beta, length: v_length } = self; M::enc(v_name, o); M::enc(v_x, o); M::enc(v_alpha, o); M::enc(v_error, o); M::enc(v_slice, o); M::enc(v_this, o); M::enc(v_beta, o); M::enc(v_length, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_name: [i64; 9] = <[i64; 9] as M>::dec(i)?; let v_x: (S64, S71<'static>) = <(S64, S71<'static>) as M>::dec(i)?; let v_alpha: Cow<'static, BTreeMap<(i64, i8), usize>> = <Cow<'static, BTreeMap<(i64, i8), usize>> as M>::dec(i)?; let v_error: BTreeSet<u32> = <BTreeSet<u32> as M>::dec(i)?; let v_slice: String = <String as M>::dec(i)?; let v_this: () = <() as M>::dec(i)?; let v_beta: Cow<'static, BTreeSet<S22>> = <Cow<'static, BTreeSet<S22>> as M>::dec(i)?; let v_length: S68 = <S68 as M>::dec(i)?; Ok(S78{ name: v_name, x: v_x, alpha: v_alpha, error: v_error, slice: v_slice, this: v_this, beta: v_beta, length: v_length }) } }
#[derive(Readable, Clone, Writable, Default)]
pub struct S79<'a> { pub tag: Cow<'a, str>, #[speedy(constant_prefix = "XYZ")] #[speedy(default_on_eof)] #[speedy(length_type = u64_varint)] pub data: Option<Cow<'a, HashMap<char, Box<u8>>>> }
impl M for S79<'static> { const MIN: usize = 0 + 0 + <Cow<'static, str> as M>::MIN + 0;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_tag: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_data: Option<Cow<'static, HashMap<char, Box<u8>>>> = gen_opt::<Cow<'static, HashMap<char, Box<u8>>>>(s, Len::Varint); S79{ tag: v_tag, data: v_data } }) }
  fn enc(&self, o: &mut Out) { let S79{ tag: v_tag, data: v_data } = self; M::enc(v_tag, o); o.raw(&[88, 89, 90]);enc_opt(v_data, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_tag: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_data: Option<Cow<'static, HashMap<char, Box<u8>>>> = i.or_default(Default::default, |i| { prefix(i, &[88, 89, 90])?; dec_opt::<Cow<'static, HashMap<char, Box<u8>>>>(i, Len::Varint) })?; Ok(S79{ tag: v_tag, data: v_data }) } }
#[derive(Writable, Clone, Default, Readable)]
pub struct S80<'a> { #[speedy(length_type = u64_varint)] pub reader: Option<Cow<'a, BTreeMap<i8, i64>>>, #[speedy(default_on_eof, length_type = u8)] pub this: Cow<'a, BTreeMap<u32, Cow<'a, HashMap<i8, u128>>>>, pub length: HashMap<String, i16> }
impl M for S80<'static> { const MIN: usize = 0 + 0 + 1 + 0 + 0 + <HashMap<String, i16> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_reader: Option<Cow<'static, BTreeMap<i8, i64>>> = gen_opt::<Cow<'static, BTreeMap<i8, i64>>>(s, Len::Varint); let v_this: Cow<'static, BTreeMap<u32, Cow<'static, HashMap<i8, u128>>>> = gen_lt::<Cow<'static, BTreeMap<u32, Cow<'static, HashMap<i8, u128>>>>>(s, Len::U8); let v_length: HashMap<String, i16> = <HashMap<String, i16> as M>::gen(s); S80{ reader: v_reader, this: v_this, length: v_length } }) }
  fn enc(&self, o: &mut Out) { let S80{ reader: v_reader, this: v_this, length: v_length } = self; enc_opt(v_reader, o, Len::Varint); enc_lt(v_this, o, Len::U8); M::enc(v_length, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_reader: Option<Cow<'static, BTreeMap<i8, i64>>> = dec_opt::<Cow<'static, BTreeMap<i8, i64>>>(i, Len::Varint)?; let v_this: Cow<'static, BTreeMap<u32, Cow<'static, HashMap<i8, u128>>>> = i.or_default(Default::default, |i| dec_lt::<Cow<'static, BTreeMap<u32, Cow<'static, HashMap<i8, u128>>>>>(i, Len::U8))?; let v_length: HashMap<String, i16> = <HashMap<String, i16> as M>::dec(i)?; Ok(S80{ reader: v_reader, this: v_this, length: v_length }) } }
#[derive(Clone, Writable, Readable, Default)]
pub struct S81<'a> { #[speedy(default_on_eof)] pub reader: Cow<'a, HashMap<bool, i8>> }
impl M for S81<'static> { const MIN: usize = 0 + 0;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_reader: Cow<'static, HashMap<bool, i8>> = <Cow<'static, HashMap<bool, i8>> as M>::gen(s); S81{ reader: v_reader } }) }
  fn enc(&self, o: &mut Out) { let S81{ reader: v_reader } = self; M::enc(v_reader, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_reader: Cow<'static, HashMap<bool, i8>> = i.or_default(Default::default, |i| <Cow<'static, HashMap<bool, i8>> as M>::dec(i))?; Ok(S81{ reader: v_reader }) } }
#[derive(Clone, Writable, Readable, Default)]
pub struct S82<'a> { #[speedy(length_type = u64)] pub x: Option<Cow<'a, BTreeMap<bool, f64>>>, pub flag: u32, pub tag: S48<'a>, pub reader: i64 }
impl M for S82<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u32 as M>::MIN + 0 + <S48<'static> as M>::MIN + 0 + <i64 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(4, |s| { let v_x: Option<Cow<'static, BTreeMap<bool, f64>>> = gen_opt::<Cow<'static, BTreeMap<bool, f64>>>(s, Len::U64); let v_flag: u32 = <u32 as M>::gen(s); let v_tag: S48<'static> = <S48<'static> as M>::gen(s); let v_reader: i64 = <i64 as M>::gen(s); S82{ x: v_x, flag: v_flag, tag: v_tag, reader: v_reader } }) }
  fn enc(&self, o: &mut Out) { let S82{ x: v_x, flag: v_flag, tag: v_tag, reader: v_reader } = self; enc_opt(v_x, o, Len::U64); M::enc(v_flag, o); M::enc(v_tag, o); M::enc(v_reader, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_x: Option<Cow<'static, BTreeMap<bool, f64>>> = dec_opt::<Cow<'static, BTreeMap<bool, f64>>>(i, Len::U64)?; let v_flag: u32 = <u32 as M>::dec(i)?; let v_tag: S48<'static> = <S48<'static> as M>::dec(i)?; let v_reader: i64 = <i64 as M>::dec(i)?; Ok(S82{ x: v_x, flag: v_flag, tag: v_tag, reader: v_reader }) } }
#[derive(Clone, Readable, Writable)]
#[repr(C)]
pub struct S83<X>(pub X, pub Option<X>, pub [X; 2]);
impl<X: M> M for S83<X> { const MIN: usize = 0 + 0 + <X as M>::MIN + 0 + <Option<X> as M>::MIN + 0 + <[X; 2] as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_t0: X = <X as M>::gen(s); let v_t1: Option<X> = <Option<X> as M>::gen(s); let v_t2: [X; 2] = <[X; 2] as M>::gen(s); S83(v_t0, v_t1, v_t2) }) }
  fn enc(&self, o: &mut Out) { let S83(v_t0, v_t1, v_t2) = self; M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: X = <X as M>::dec(i)?; let v_t1: Option<X> = <Option<X> as M>::dec(i)?; let v_t2: [X; 2] = <[X; 2] as M>::dec(i)?; Ok(S83(v_t0, v_t1, v_t2)) } }
#[derive(Default, Readable, Clone, Writable)]
pub struct S84<'a>(pub Cow<'a, str>, pub S64);
impl M for S84<'static> { const MIN: usize = 0 + 0 + <Cow<'static, str> as M>::MIN + 0 + <S64 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_t0: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_t1: S64 = <S64 as M>::gen(s); S84(v_t0, v_t1) }) }
  fn enc(&self, o: &mut Out) { let S84(v_t0, v_t1) = self; M::enc(v_t0, o); M::enc(v_t1, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_t1: S64 = <S64 as M>::dec(i)?; Ok(S84(v_t0, v_t1)) } }
#[derive(Clone, Default, Readable, Writable)]
pub struct S85<'a> { #[speedy(varint)] pub length: u64, #[speedy(length_type = u64_varint)] pub this: Option<Vec<f32>>, pub x: Vec<u128>, #[speedy(constant_prefix = b'q')] pub slice: u32, pub r#type: u32, #[speedy(length_type = u64)] pub name: Cow<'a, BTreeMap<i64, i128>>, pub ctx: i128, #[speedy(default_on_eof)] #[speedy(length_type = u32)] pub tag: HashSet<(u16, u32)> }
impl M for S85<'static> { const MIN: usize = 0 + 0 + 1 + 0 + 1 + 0 + <Vec<u128> as M>::MIN + 1 + <u32 as M>::MIN + 0 + <u32 as M>::MIN + 0 + 8 + 0 + <i128 as M>::MIN + 0;
  fn gen(s: &mut Src) -> Self { s.nested(8, |s| { let v_length: u64 = s.int(64); let v_this: Option<Vec<f32>> = gen_opt::<Vec<f32>>(s, Len::Varint); let v_x: Vec<u128> = <Vec<u128> as M>::gen(s); let v_slice: u32 = <u32 as M>::gen(s); let v_type: u32 = <u32 as M>::gen(s); let v_name: Cow<'static, BTreeMap<i64, i128>> = gen_lt::<Cow<'static, BTreeMap<i64, i128>>>(s, Len::U64); let v_ctx: i128 = <i128 as M>::gen(s); let v_tag: HashSet<(u16, u32)> = gen_lt::<HashSet<(u16, u32)>>(s, Len::U32); S85{ length: v_length, this: v_this, x: v_x, slice: v_slice, r#type: v_type, name: v_name, ctx: v_ctx, tag: v_tag } }) }
  fn enc(&self, o: &mut Out) { let S85{ length: v_length, this: v_this, x: v_x, slice: v_slice, r#type: v_type, name: v_name, ctx: v_ctx, tag: v_tag } = self; o.varint(*v_length); enc_opt(v_this, o, Len::Varint); M::enc(v_x, o); o.raw(&[113]);M::enc(v_slice, o); M::enc(v_type, o); enc_lt(v_name, o, Len::U64); M::enc(v_ctx, o); enc_lt(v_tag, o, Len::U32); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_length: u64 = i.varint()?; let v_this: Option<Vec<f32>> = dec_opt::<Vec<f32>>(i, Len::Varint)?; let v_x: Vec<u128> = <Vec<u128> as M>::dec(i)?; let v_slice: u32 = { prefix(i, &[113])?; <u32 as M>::dec(i) }?; let v_type: u32 = <u32 as M>::dec(i)?; let v_name: Cow<'static, BTreeMap<i64, i128>> = dec_lt::<Cow<'static, BTreeMap<i64, i128>>>(i, Len::U64)?; let v_ctx: i128 = <i128 as M>::dec(i)?; let v_tag: HashSet<(u16, u32)> = i.or_default(Default::default, |i| dec_lt::<HashSet<(u16, u32)>>(i, Len::U32))?; Ok(S85{ length: v_length, this: v_this, x: v_x, slice: v_slice, r#type: v_type, name: v_name, ctx: v_ctx, tag: v_tag }) } }
#[derive(Copy, Writable, Ord, Clone, PartialEq, Eq, PartialOrd, Hash, Readable, Default)]
pub struct S86 {  }
impl M for S86 { const MIN: usize = 0;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| {  S86{  } }) }
  fn enc(&self, o: &mut Out) {   }
  fn dec(i: &mut In) -> Result<Self, DE> {  Ok(S86{  }) } }
pub fn types() -> Vec<Ty> { let mut v = Vec::new();
  v.push(ty::<S0>("S0", DERIVED));
  v.push(ty::<(S0, u16)>("(S0, u16)", DERIVED));
  v.push(ty::<S1>("S1", DERIVED));
  v.push(ty::<Cow<'static, [S1]>>("Cow<'static, [S1]>", DERIVED));
  v.push(ty::<S2>("S2", DERIVED));
  v.push(ty::<S3>("S3", DERIVED));
  v.push(ty::<Cow<'static, [S3]>>("Cow<'static, [S3]>", DERIVED));
  v.push(ty::<S4>("S4", DERIVED));
  v.push(ty::<Box<[S4]>>("Box<[S4]>", DERIVED));
  v.push(ty::<S5>("S5", DERIVED));
  v.push(ty::<Option<S5>>("Option<S5>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S6>("S6", DERIVED));
  v.push(ty::<Vec<S6>>("Vec<S6>", DERIVED));
  v.push(ty::<S7>("S7", DERIVED));
  v.push(ty::<[S7; 2]>("[S7; 2]", DERIVED));
  v.push(ty::<S8>("S8", DERIVED));
  v.push(ty::<(S8, u16)>("(S8, u16)", DERIVED));
  v.push(ty::<S9>("S9", DERIVED));
  v.push(ty::<S10>("S10", DERIVED));
  v.push(ty::<S11>("S11", DERIVED));
  v.push(ty::<Box<[S11]>>("Box<[S11]>", DERIVED));
  v.push(ty::<S12<'static>>("S12<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Cow<'static, [S12<'static>]>>("Cow<'static, [S12<'static>]>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S13>("S13", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<[S13; 3]>("[S13; 3]", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S14<'static>>("S14<'static>", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S15<'static>>("S15<'static>", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S16>("S16", DERIVED));
  v.push(ty::<Box<[S16]>>("Box<[S16]>", DERIVED));
  v.push(ty::<S17>("S17", DERIVED));
  v.push(ty::<Cow<'static, [S17]>>("Cow<'static, [S17]>", DERIVED));
  v.push(ty::<S18<'static>>("S18<'static>", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<[S18<'static>; 2]>("[S18<'static>; 2]", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S19>("S19", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<[S19; 2]>("[S19; 2]", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S20>("S20", DERIVED));
  v.push(ty::<S21>("S21", DERIVED));
  v.push(ty::<(S21, u16)>("(S21, u16)", DERIVED));
  v.push(ty::<S22>("S22", DERIVED));
  v.push(ty::<S23>("S23", DERIVED));
  v.push(ty::<Vec<S23>>("Vec<S23>", DERIVED));
  v.push(ty::<S24>("S24", DERIVED));
  v.push(ty::<S25>("S25", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S26>("S26", DERIVED));
  v.push(ty::<S27>("S27", DERIVED));
  v.push(ty::<S28>("S28", DERIVED));
  v.push(ty::<Cow<'static, [S28]>>("Cow<'static, [S28]>", DERIVED));
  v.push(ty::<S29>("S29", DERIVED));
  v.push(ty::<S30>("S30", DERIVED));
  v.push(ty::<Cow<'static, [S30]>>("Cow<'static, [S30]>", DERIVED));
  v.push(ty::<S31>("S31", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S32<'static>>("S32<'static>", DERIVED));
  v.push(ty::<S33<'static>>("S33<'static>", DERIVED));
  v.push(ty::<(S33<'static>, u16)>("(S33<'static>, u16)", DERIVED));
  v.push(ty::<S34<'static>>("S34<'static>", DERIVED));
  v.push(ty::<Cow<'static, [S34<'static>]>>("Cow<'static, [S34<'static>]>", DERIVED));
  v.push(ty::<S35<'static>>("S35<'static>", DERIVED));
  v.push(ty::<S36<'static>>("S36<'static>", DERIVED));
  v.push(ty::<S37<'static>>("S37<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S38<'static>>("S38<'static>", DERIVED));
  v.push(ty::<[S38<'static>; 3]>("[S38<'static>; 3]", DERIVED));
  v.push(ty::<S39<'static>>("S39<'static>", DERIVED));
  v.push(ty::<Vec<S39<'static>>>("Vec<S39<'static>>", DERIVED));
  v.push(ty::<S40<'static>>("S40<'static>", DERIVED));
  v.push(ty::<S41<'static>>("S41<'static>", DERIVED));
  v.push(ty::<S42<'static>>("S42<'static>", DERIVED));
  v.push(ty::<S43<'static>>("S43<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S44>("S44", DERIVED));
  v.push(ty::<S45<'static>>("S45<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S46<'static>>("S46<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S47<'static>>("S47<'static>", DERIVED | BORROW));
  v.push(ty::<[S47<'static>; 3]>("[S47<'static>; 3]", DERIVED | BORROW));
  v.push(ty::<S48<'static>>("S48<'static>", DERIVED));
  v.push(ty::<S49>("S49", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<(S49, u16)>("(S49, u16)", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S50>("S50", DERIVED));
  v.push(ty::<S51>("S51", DERIVED));
  v.push(ty::<S52>("S52", DERIVED));
  v.push(ty::<S53>("S53", DERIVED));
  v.push(ty::<S54>("S54", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S55>("S55", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S56>("S56", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S57>("S57", DERIVED));
  v.push(ty::<S58>("S58", DERIVED));
  v.push(ty::<S59>("S59", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S60>("S60", DERIVED));
  v.push(ty::<S61>("S61", DERIVED | EOFSENS));
  v.push(ty::<S62>("S62", DERIVED));
  v.push(ty::<S63>("S63", DERIVED | EOFSENS));
  v.push(ty::<S64>("S64", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Cow<'static, [S64]>>("Cow<'static, [S64]>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S65<'static>>("S65<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S66<'static>>("S66<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Box<[S66<'static>]>>("Box<[S66<'static>]>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S67<S31>>("S67<S31>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S67<S31>>>("Vec<S67<S31>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S67<u64>>("S67<u64>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S67<u64>>>("Vec<S67<u64>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S68>("S68", DERIVED));
  v.push(ty::<Vec<S68>>("Vec<S68>", DERIVED | ZST));
  v.push(ty::<S69<String>>("S69<String>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S69<String>>>("Vec<S69<String>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S69<u16>>("S69<u16>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S69<u16>>>("Vec<S69<u16>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S70>("S70", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S70>>("Vec<S70>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S71<'static>>("S71<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S71<'static>>>("Vec<S71<'static>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S72<String>>("S72<String>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Vec<S72<String>>>("Vec<S72<String>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S72<S72<String>>>("S72<S72<String>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Vec<S72<S72<String>>>>("Vec<S72<S72<String>>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S73>("S73", DERIVED));
  v.push(ty::<S74>("S74", DERIVED));
  v.push(ty::<Vec<S74>>("Vec<S74>", DERIVED));
  v.push(ty::<S75<'static>>("S75<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S76>("S76", DERIVED));
  v.push(ty::<Option<S76>>("Option<S76>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S77<'static>>("S77<'static>", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S78<'static>>("S78<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S79<'static>>("S79<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S80<'static>>("S80<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S81<'static>>("S81<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<(S81<'static>, u16)>("(S81<'static>, u16)", DERIVED | EOFSENS | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S82<'static>>("S82<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Option<S82<'static>>>("Option<S82<'static>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S83<u64>>("S83<u64>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S83<u64>>>("Vec<S83<u64>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S83<u8>>("S83<u8>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S83<u8>>>("Vec<S83<u8>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S84<'static>>("S84<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<(S84<'static>, u16)>("(S84<'static>, u16)", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S85<'static>>("S85<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<[S85<'static>; 2]>("[S85<'static>; 2]", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S86>("S86", DERIVED));
  v }
