// Generated by tools/gen_derive.py: profile reg. Do not edit.
#![allow(warnings, clippy::all)]
use model::codec::{In, Len, Out, DE, M};
use model::dty::*;
use model::flags::*;
use model::{Ty, ty::ty};
use pbt::Src;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
const fn min_of(v: &[usize]) -> usize { let mut m = v[0]; let mut i = 1; while i < v.len() { if v[i] < m { m = v[i]; } i += 1; } m }
#[derive(Readable, Copy, Default, Writable, Clone)]
#[repr(packed)]
pub struct S0 { pub field: f32, pub item: i32 }
impl M for S0 { const MIN: usize = 0 + 0 + <f32 as M>::MIN + 0 + <i32 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_field: f32 = <f32 as M>::gen(s); let v_item: i32 = <i32 as M>::gen(s); S0{ field: v_field, item: v_item } }) }
  fn enc(&self, o: &mut Out) { let S0{ field: v_field, item: v_item } = *self; let (v_field, v_item,) = (&v_field, &v_item,); M::enc(v_field, o); M::enc(v_item, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_field: f32 = <f32 as M>::dec(i)?; let v_item: i32 = <i32 as M>::dec(i)?; Ok(S0{ field: v_field, item: v_item }) } }
#[derive(PartialEq, Writable, Readable, Clone, Hash, Eq, Default, Copy, Ord, PartialOrd)]
#[repr(transparent)]
pub struct S1(pub ());
impl M for S1 { const MIN: usize = 0 + 0 + <() as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_t0: () = <() as M>::gen(s); S1(v_t0) }) }
  fn enc(&self, o: &mut Out) { let S1(v_t0) = self; M::enc(v_t0, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: () = <() as M>::dec(i)?; Ok(S1(v_t0)) } }
#[derive(PartialOrd, PartialEq, Eq, Writable, Copy, Hash, Ord, Readable, Default, Clone)]
#[repr(C)]
pub struct S2 { pub kind: i8, pub value: i128 }
impl M for S2 { const MIN: usize = 0 + 0 + <i8 as M>::MIN + 0 + <i128 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_kind: i8 = <i8 as M>::gen(s); let v_value: i128 = <i128 as M>::gen(s); S2{ kind: v_kind, value: v_value } }) }
  fn enc(&self, o: &mut Out) { let S2{ kind: v_kind, value: v_value } = self; M::enc(v_kind, o); M::enc(v_value, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_kind: i8 = <i8 as M>::dec(i)?; let v_value: i128 = <i128 as M>::dec(i)?; Ok(S2{ kind: v_kind, value: v_value }) } }
#[derive(Eq, Writable, Ord, Default, Hash, PartialEq, Copy, Clone, Readable, PartialOrd)]
#[repr(C)]
pub struct S3 { pub ctx: i128, pub sum: i128, pub writer: S1, pub reader: i128, pub slice: i128 }
impl M for S3 { const MIN: usize = 0 + 0 + <i128 as M>::MIN + 0 + <i128 as M>::MIN + 0 + <S1 as M>::MIN + 0 + <i128 as M>::MIN + 0 + <i128 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(5, |s| { let v_ctx: i128 = <i128 as M>::gen(s); let v_sum: i128 = <i128 as M>::gen(s); let v_writer: S1 = <S1 as M>::gen(s); let v_reader: i128 = <i128 as M>::gen(s); let v_slice: i128 = <i128 as M>::gen(s); S3{ ctx: v_ctx, sum: v_sum, writer: v_writer, reader: v_reader, slice: v_slice } }) }
  fn enc(&self, o: &mut Out) { let S3{ ctx: v_ctx, sum: v_sum, writer: v_writer, reader: v_reader, slice: v_slice } = self; M::enc(v_ctx, o); M::enc(v_sum, o); M::enc(v_writer, o); M::enc(v_reader, o); M::enc(v_slice, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_ctx: i128 = <i128 as M>::dec(i)?; let v_sum: i128 = <i128 as M>::dec(i)?; let v_writer: S1 = <S1 as M>::dec(i)?; let v_reader: i128 = <i128 as M>::dec(i)?; let v_slice: i128 = <i128 as M>::dec(i)?; Ok(S3{ ctx: v_ctx, sum: v_sum, writer: v_writer, reader: v_reader, slice: v_slice }) } }
#[derive(Writable, Readable, Ord, Clone, PartialOrd, Copy, Hash, PartialEq, Default, Eq)]
pub struct S4;
impl M for S4 { const MIN: usize = 0;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| {  S4 }) }
  fn enc(&self, o: &mut Out) {   }
  fn dec(i: &mut In) -> Result<Self, DE> {  Ok(S4) } }
#[derive(Writable, Clone, Copy, Default, Readable)]
#[repr(C)]
pub struct S5 { pub r#type: f64, pub x: i64, pub beta: u64, pub error: f64, pub flag: u32, pub sum: f32, pub slice: f64, pub alpha: i64 }
impl M for S5 { const MIN: usize = 0 + 0 + <f64 as M>::MIN + 0 + <i64 as M>::MIN + 0 + <u64 as M>::MIN + 0 + <f64 as M>::MIN + 0 + <u32 as M>::MIN + 0 + <f32 as M>::MIN + 0 + <f64 as M>::MIN + 0 + <i64 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(8, |s| { let v_type: f64 = <f64 as M>::gen(s); let v_x: i64 = <i64 as M>::gen(s); let v_beta: u64 = <u64 as M>::gen(s); let v_error: f64 = <f64 as M>::gen(s); let v_flag: u32 = <u32 as M>::gen(s); let v_sum: f32 = <f32 as M>::gen(s); let v_slice: f64 = <f64 as M>::gen(s); let v_alpha: i64 = <i64 as M>::gen(s); S5{ r#type: v_type, x: v_x, beta: v_beta, error: v_error, flag: v_flag, sum: v_sum, slice: v_slice, alpha: v_alpha } }) }
  fn enc(&self, o: &mut Out) { let S5{ r#type: v_type, x: v_x, beta: v_beta, error: v_error, flag: v_flag, sum: v_sum, slice: v_slice, alpha: v_alpha } = self; M::enc(v_type, o); M::enc(v_x, o); M::enc(v_beta, o); M::enc(v_error, o); M::enc(v_flag, o); M::enc(v_sum, o); M::enc(v_slice, o); M::enc(v_alpha, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_type: f64 = <f64 as M>::dec(i)?; let v_x: i64 = <i64 as M>::dec(i)?; let v_beta: u64 = <u64 as M>::dec(i)?; let v_error: f64 = <f64 as M>::dec(i)?; let v_flag: u32 = <u32 as M>::dec(i)?; let v_sum: f32 = <f32 as M>::dec(i)?; let v_slice: f64 = <f64 as M>::dec(i)?; let v_alpha: i64 = <i64 as M>::dec(i)?; Ok(S5{ r#type: v_type, x: v_x, beta: v_beta, error: v_error, flag: v_flag, sum: v_sum, slice: v_slice, alpha: v_alpha }) } }
#[derive(Eq, Ord, Writable, Readable, PartialOrd, Copy, PartialEq, Default, Hash, Clone)]
pub struct S6 { pub reader: i32, pub n: i32, pub sum: u32, pub slice: u32, pub out: i128, pub ctx: i128 }
impl M for S6 { const MIN: usize = 0 + 0 + <i32 as M>::MIN + 0 + <i32 as M>::MIN + 0 + <u32 as M>::MIN + 0 + <u32 as M>::MIN + 0 + <i128 as M>::MIN + 0 + <i128 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(6, |s| { let v_reader: i32 = <i32 as M>::gen(s); let v_n: i32 = <i32 as M>::gen(s); let v_sum: u32 = <u32 as M>::gen(s); let v_slice: u32 = <u32 as M>::gen(s); let v_out: i128 = <i128 as M>::gen(s); let v_ctx: i128 = <i128 as M>::gen(s); S6{ reader: v_reader, n: v_n, sum: v_sum, slice: v_slice, out: v_out, ctx: v_ctx } }) }
  fn enc(&self, o: &mut Out) { let S6{ reader: v_reader, n: v_n, sum: v_sum, slice: v_slice, out: v_out, ctx: v_ctx } = self; M::enc(v_reader, o); M::enc(v_n, o); M::enc(v_sum, o); M::enc(v_slice, o); M::enc(v_out, o); M::enc(v_ctx, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_reader: i32 = <i32 as M>::dec(i)?; let v_n: i32 = <i32 as M>::dec(i)?; let v_sum: u32 = <u32 as M>::dec(i)?; let v_slice: u32 = <u32 as M>::dec(i)?; let v_out: i128 = <i128 as M>::dec(i)?; let v_ctx: i128 = <i128 as M>::dec(i)?; Ok(S6{ reader: v_reader, n: v_n, sum: v_sum, slice: v_slice, out: v_out, ctx: v_ctx }) } }
#[derive(Readable, Clone, Default, Copy, Writable)]
pub struct S7 { pub bytes: u16, pub reader: i16, pub r#type: u32, pub error: i32, pub this: f32 }
impl M for S7 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + <i16 as M>::MIN + 0 + <u32 as M>::MIN + 0 + <i32 as M>::MIN + 0 + <f32 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(5, |s| { let v_bytes: u16 = <u16 as M>::gen(s); let v_reader: i16 = <i16 as M>::gen(s); let v_type: u32 = <u32 as M>::gen(s); let v_error: i32 = <i32 as M>::gen(s); let v_this: f32 = <f32 as M>::gen(s); S7{ bytes: v_bytes, reader: v_reader, r#type: v_type, error: v_error, this: v_this } }) }
  fn enc(&self, o: &mut Out) { let S7{ bytes: v_bytes, reader: v_reader, r#type: v_type, error: v_error, this: v_this } = self; M::enc(v_bytes, o); M::enc(v_reader, o); M::enc(v_type, o); M::enc(v_error, o); M::enc(v_this, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_bytes: u16 = <u16 as M>::dec(i)?; let v_reader: i16 = <i16 as M>::dec(i)?; let v_type: u32 = <u32 as M>::dec(i)?; let v_error: i32 = <i32 as M>::dec(i)?; let v_this: f32 = <f32 as M>::dec(i)?; Ok(S7{ bytes: v_bytes, reader: v_reader, r#type: v_type, error: v_error, this: v_this }) } }
#[derive(PartialEq, Readable, Writable, Eq, Hash, PartialOrd, Clone, Ord)]
#[speedy(peek_tag, tag_type = u7)]
pub enum S8 { #[speedy(tag = 109)] V0(u8, #[speedy(constant_prefix = 44u8, default_on_eof)] BTreeSet<S3>, #[speedy(default_on_eof, length_type = u64_varint)] Vec<i128>), #[speedy(tag = 120)] V1(u8, #[speedy(constant_prefix = b"\x00\xff")] i64) }
impl M for S8 { const MIN: usize = 0 + min_of(&[0 + 0 + <u8 as M>::MIN + 0 + 0 , 0 + 0 + <u8 as M>::MIN + 2 + <i64 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S8_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S8::V0(v_t0, v_t1, v_t2) => { if o.canon { o.u64(109) } M::enc(v_t0, o); o.raw(&[44]);M::enc(v_t1, o); enc_lt(v_t2, o, Len::Varint); }
    S8::V1(v_t0, v_t1) => { if o.canon { o.u64(120) } M::enc(v_t0, o); o.raw(&[0, 255]);M::enc(v_t1, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U7)? {
    109 => { let v_t0: u8 = <u8 as M>::dec(i)?; let v_t1: BTreeSet<S3> = i.or_default(Default::default, |i| { prefix(i, &[44])?; <BTreeSet<S3> as M>::dec(i) })?; let v_t2: Vec<i128> = i.or_default(Default::default, |i| dec_lt::<Vec<i128>>(i, Len::Varint))?; Ok(S8::V0(v_t0, v_t1, v_t2)) }
    120 => { let v_t0: u8 = <u8 as M>::dec(i)?; let v_t1: i64 = { prefix(i, &[0, 255])?; <i64 as M>::dec(i) }?; Ok(S8::V1(v_t0, v_t1)) }
    _ => Err(DE::Bad) } } }
fn S8_variant(s: &mut Src, k: usize) -> S8 { s.nested(3, |s| match k {
    0 => { let v_t0: u8 = 109u64 as u8; let v_t1: BTreeSet<S3> = <BTreeSet<S3> as M>::gen(s); let v_t2: Vec<i128> = gen_lt::<Vec<i128>>(s, Len::Varint); S8::V0(v_t0, v_t1, v_t2) }
    _ => { let v_t0: u8 = 120u64 as u8; let v_t1: i64 = <i64 as M>::gen(s); S8::V1(v_t0, v_t1) }
  }) }
#[derive(Readable, Clone, Eq, PartialEq, Ord, Writable, Hash, PartialOrd)]
#[speedy(peek_tag, tag_type = u8)]
pub enum S9 { V0(u8, #[speedy(default_on_eof)] Vec<S4>), V1 { name: u8 }, V2(u8) }
impl M for S9 { const MIN: usize = 0 + min_of(&[0 + 0 + <u8 as M>::MIN + 0 , 0 + 0 + <u8 as M>::MIN , 0 + 0 + <u8 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S9_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S9::V0(v_t0, v_t1) => { if o.canon { o.u64(0) } M::enc(v_t0, o); M::enc(v_t1, o); }
    S9::V1{ name: v_name } => { if o.canon { o.u64(1) } M::enc(v_name, o); }
    S9::V2(v_t0) => { if o.canon { o.u64(2) } M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U8)? {
    0 => { let v_t0: u8 = <u8 as M>::dec(i)?; let v_t1: Vec<S4> = i.or_default(Default::default, |i| <Vec<S4> as M>::dec(i))?; Ok(S9::V0(v_t0, v_t1)) }
    1 => { let v_name: u8 = <u8 as M>::dec(i)?; Ok(S9::V1{ name: v_name }) }
    2 => { let v_t0: u8 = <u8 as M>::dec(i)?; Ok(S9::V2(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S9_variant(s: &mut Src, k: usize) -> S9 { s.nested(3, |s| match k {
    0 => { let v_t0: u8 = 0u64 as u8; let v_t1: Vec<S4> = <Vec<S4> as M>::gen(s); S9::V0(v_t0, v_t1) }
    1 => { let v_name: u8 = 1u64 as u8; S9::V1{ name: v_name } }
    _ => { let v_t0: u8 = 2u64 as u8; S9::V2(v_t0) }
  }) }
#[derive(Readable, Ord, PartialEq, Eq, Writable, Clone, PartialOrd, Hash)]
#[speedy(tag_type = u16, peek_tag)]
pub enum S10 { #[speedy(tag = 64238)] V0 { data: u16 }, V1(u16, S6, S8), V2 { beta: u16, #[speedy(default_on_eof)] reader: Box<i16> } }
impl M for S10 { const MIN: usize = 0 + min_of(&[0 + 0 + <u16 as M>::MIN , 0 + 0 + <u16 as M>::MIN + 0 + <S6 as M>::MIN + 0 + <S8 as M>::MIN , 0 + 0 + <u16 as M>::MIN + 0]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S10_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S10::V0{ data: v_data } => { if o.canon { o.u64(64238) } M::enc(v_data, o); }
    S10::V1(v_t0, v_t1, v_t2) => { if o.canon { o.u64(64239) } M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
    S10::V2{ beta: v_beta, reader: v_reader } => { if o.canon { o.u64(64240) } M::enc(v_beta, o); M::enc(v_reader, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U16)? {
    64238 => { let v_data: u16 = <u16 as M>::dec(i)?; Ok(S10::V0{ data: v_data }) }
    64239 => { let v_t0: u16 = <u16 as M>::dec(i)?; let v_t1: S6 = <S6 as M>::dec(i)?; let v_t2: S8 = <S8 as M>::dec(i)?; Ok(S10::V1(v_t0, v_t1, v_t2)) }
    64240 => { let v_beta: u16 = <u16 as M>::dec(i)?; let v_reader: Box<i16> = i.or_default(Default::default, |i| <Box<i16> as M>::dec(i))?; Ok(S10::V2{ beta: v_beta, reader: v_reader }) }
    _ => Err(DE::Bad) } } }
fn S10_variant(s: &mut Src, k: usize) -> S10 { s.nested(3, |s| match k {
    0 => { let v_data: u16 = 64238u64 as u16; S10::V0{ data: v_data } }
    1 => { let v_t0: u16 = 64239u64 as u16; let v_t1: S6 = <S6 as M>::gen(s); let v_t2: S8 = <S8 as M>::gen(s); S10::V1(v_t0, v_t1, v_t2) }
    _ => { let v_beta: u16 = 64240u64 as u16; let v_reader: Box<i16> = <Box<i16> as M>::gen(s); S10::V2{ beta: v_beta, reader: v_reader } }
  }) }
#[derive(Copy, Hash, Clone, Writable, Ord, PartialOrd, Readable, Eq, PartialEq)]
#[speedy(tag_type = u32, peek_tag)]
pub enum S11 { #[speedy(tag = 188)] V0 { slice: u32 }, V1 { name: u32 } }
impl M for S11 { const MIN: usize = 0 + min_of(&[0 + 0 + <u32 as M>::MIN , 0 + 0 + <u32 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S11_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S11::V0{ slice: v_slice } => { if o.canon { o.u64(188) } M::enc(v_slice, o); }
    S11::V1{ name: v_name } => { if o.canon { o.u64(189) } M::enc(v_name, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U32)? {
    188 => { let v_slice: u32 = <u32 as M>::dec(i)?; Ok(S11::V0{ slice: v_slice }) }
    189 => { let v_name: u32 = <u32 as M>::dec(i)?; Ok(S11::V1{ name: v_name }) }
    _ => Err(DE::Bad) } } }
fn S11_variant(s: &mut Src, k: usize) -> S11 { s.nested(3, |s| match k {
    0 => { let v_slice: u32 = 188u64 as u32; S11::V0{ slice: v_slice } }
    _ => { let v_name: u32 = 189u64 as u32; S11::V1{ name: v_name } }
  }) }
#[derive(Writable, Clone, Readable)]
#[speedy(peek_tag, tag_type = u64)]
pub enum S12 { V0(u64, #[speedy(constant_prefix = b'q')] std::collections::HashMap<u8, String>, S10), V1(u64), V2(u64) }
impl M for S12 { const MIN: usize = 0 + min_of(&[0 + 0 + <u64 as M>::MIN + 1 + <std::collections::HashMap<u8, String> as M>::MIN + 0 + <S10 as M>::MIN , 0 + 0 + <u64 as M>::MIN , 0 + 0 + <u64 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S12_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S12::V0(v_t0, v_t1, v_t2) => { if o.canon { o.u64(0) } M::enc(v_t0, o); o.raw(&[113]);M::enc(v_t1, o); M::enc(v_t2, o); }
    S12::V1(v_t0) => { if o.canon { o.u64(1) } M::enc(v_t0, o); }
    S12::V2(v_t0) => { if o.canon { o.u64(2) } M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U64)? {
    0 => { let v_t0: u64 = <u64 as M>::dec(i)?; let v_t1: std::collections::HashMap<u8, String> = { prefix(i, &[113])?; <std::collections::HashMap<u8, String> as M>::dec(i) }?; let v_t2: S10 = <S10 as M>::dec(i)?; Ok(S12::V0(v_t0, v_t1, v_t2)) }
    1 => { let v_t0: u64 = <u64 as M>::dec(i)?; Ok(S12::V1(v_t0)) }
    2 => { let v_t0: u64 = <u64 as M>::dec(i)?; Ok(S12::V2(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S12_variant(s: &mut Src, k: usize) -> S12 { s.nested(3, |s| match k {
    0 => { let v_t0: u64 = 0u64 as u64; let v_t1: std::collections::HashMap<u8, String> = <std::collections::HashMap<u8, String> as M>::gen(s); let v_t2: S10 = <S10 as M>::gen(s); S12::V0(v_t0, v_t1, v_t2) }
    1 => { let v_t0: u64 = 1u64 as u64; S12::V1(v_t0) }
    _ => { let v_t0: u64 = 2u64 as u64; S12::V2(v_t0) }
  }) }
#[derive(Clone, Readable, Writable)]
#[speedy(peek_tag, tag_type = u64_varint)]
pub enum S13 { #[speedy(tag = 2143819453989466086)] V0 { #[speedy(varint)] bytes: u64 }, V1 { #[speedy(varint)] sum: u64 }, V2(#[speedy(varint)] u64, S2, HashMap<bool, S11>), V3 { #[speedy(varint)] data: u64 } }
impl M for S13 { const MIN: usize = 0 + min_of(&[0 + 0 + 1 , 0 + 0 + 1 , 0 + 0 + 1 + 0 + <S2 as M>::MIN + 0 + <HashMap<bool, S11> as M>::MIN , 0 + 0 + 1]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(4); S13_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S13::V0{ bytes: v_bytes } => { if o.canon { o.u64(2143819453989466086) } o.varint(*v_bytes); }
    S13::V1{ sum: v_sum } => { if o.canon { o.u64(2143819453989466087) } o.varint(*v_sum); }
    S13::V2(v_t0, v_t1, v_t2) => { if o.canon { o.u64(2143819453989466088) } o.varint(*v_t0); M::enc(v_t1, o); M::enc(v_t2, o); }
    S13::V3{ data: v_data } => { if o.canon { o.u64(2143819453989466089) } o.varint(*v_data); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::Varint)? {
    2143819453989466086 => { let v_bytes: u64 = i.varint()?; Ok(S13::V0{ bytes: v_bytes }) }
    2143819453989466087 => { let v_sum: u64 = i.varint()?; Ok(S13::V1{ sum: v_sum }) }
    2143819453989466088 => { let v_t0: u64 = i.varint()?; let v_t1: S2 = <S2 as M>::dec(i)?; let v_t2: HashMap<bool, S11> = <HashMap<bool, S11> as M>::dec(i)?; Ok(S13::V2(v_t0, v_t1, v_t2)) }
    2143819453989466089 => { let v_data: u64 = i.varint()?; Ok(S13::V3{ data: v_data }) }
    _ => Err(DE::Bad) } } }
fn S13_variant(s: &mut Src, k: usize) -> S13 { s.nested(3, |s| match k {
    0 => { let v_bytes: u64 = 2143819453989466086u64 as u64; S13::V0{ bytes: v_bytes } }
    1 => { let v_sum: u64 = 2143819453989466087u64 as u64; S13::V1{ sum: v_sum } }
    2 => { let v_t0: u64 = 2143819453989466088u64 as u64; let v_t1: S2 = <S2 as M>::gen(s); let v_t2: HashMap<bool, S11> = <HashMap<bool, S11> as M>::gen(s); S13::V2(v_t0, v_t1, v_t2) }
    _ => { let v_data: u64 = 2143819453989466089u64 as u64; S13::V3{ data: v_data } }
  }) }
#[derive(Writable, Readable, Clone)]
#[speedy(tag_type = u7)]
pub enum S14<'a> { V0(Cow<'a, BTreeSet<u8>>), V1 { x: BTreeMap<u16, String> }, #[speedy(tag = 12)] V2 { #[speedy(varint)] writer: u64, field: Cow<'a, BTreeSet<bool>>, n: u64 }, #[speedy(tag = 126)] V3, #[speedy(tag = 75)] V4 { beta: Cow<'a, BTreeSet<S11>>, name: Cow<'a, str>, value: Box<i16> }, #[speedy(tag = 5)] V5(S11, BTreeSet<char>), V6(f64, Cow<'a, HashMap<bool, u128>>), V7 { field: f32 } }
impl M for S14<'static> { const MIN: usize = 1 + min_of(&[0 + 0 + <Cow<'static, BTreeSet<u8>> as M>::MIN , 0 + 0 + <BTreeMap<u16, String> as M>::MIN , 0 + 0 + 1 + 0 + <Cow<'static, BTreeSet<bool>> as M>::MIN + 0 + <u64 as M>::MIN , 0 , 0 + 0 + <Cow<'static, BTreeSet<S11>> as M>::MIN + 0 + <Cow<'static, str> as M>::MIN + 0 + <Box<i16> as M>::MIN , 0 + 0 + <S11 as M>::MIN + 0 + <BTreeSet<char> as M>::MIN , 0 + 0 + <f64 as M>::MIN + 0 + <Cow<'static, HashMap<bool, u128>> as M>::MIN , 0 + 0 + <f32 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(8); S14_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S14::V0(v_t0) => { tag(o, 0, Len::U7); M::enc(v_t0, o); }
    S14::V1{ x: v_x } => { tag(o, 1, Len::U7); M::enc(v_x, o); }
    S14::V2{ writer: v_writer, field: v_field, n: v_n } => { tag(o, 12, Len::U7); o.varint(*v_writer); M::enc(v_field, o); M::enc(v_n, o); }
    S14::V3 => { tag(o, 126, Len::U7);  }
    S14::V4{ beta: v_beta, name: v_name, value: v_value } => { tag(o, 75, Len::U7); M::enc(v_beta, o); M::enc(v_name, o); M::enc(v_value, o); }
    S14::V5(v_t0, v_t1) => { tag(o, 5, Len::U7); M::enc(v_t0, o); M::enc(v_t1, o); }
    S14::V6(v_t0, v_t1) => { tag(o, 6, Len::U7); M::enc(v_t0, o); M::enc(v_t1, o); }
    S14::V7{ field: v_field } => { tag(o, 7, Len::U7); M::enc(v_field, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U7)? {
    0 => { let v_t0: Cow<'static, BTreeSet<u8>> = <Cow<'static, BTreeSet<u8>> as M>::dec(i)?; Ok(S14::V0(v_t0)) }
    1 => { let v_x: BTreeMap<u16, String> = <BTreeMap<u16, String> as M>::dec(i)?; Ok(S14::V1{ x: v_x }) }
    12 => { let v_writer: u64 = i.varint()?; let v_field: Cow<'static, BTreeSet<bool>> = <Cow<'static, BTreeSet<bool>> as M>::dec(i)?; let v_n: u64 = <u64 as M>::dec(i)?; Ok(S14::V2{ writer: v_writer, field: v_field, n: v_n }) }
    126 => {  Ok(S14::V3) }
    75 => { let v_beta: Cow<'static, BTreeSet<S11>> = <Cow<'static, BTreeSet<S11>> as M>::dec(i)?; let v_name: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_value: Box<i16> = <Box<i16> as M>::dec(i)?; Ok(S14::V4{ beta: v_beta, name: v_name, value: v_value }) }
    5 => { let v_t0: S11 = <S11 as M>::dec(i)?; let v_t1: BTreeSet<char> = <BTreeSet<char> as M>::dec(i)?; Ok(S14::V5(v_t0, v_t1)) }
    6 => { let v_t0: f64 = <f64 as M>::dec(i)?; let v_t1: Cow<'static, HashMap<bool, u128>> = <Cow<'static, HashMap<bool, u128>> as M>::dec(i)?; Ok(S14::V6(v_t0, v_t1)) }
    7 => { let v_field: f32 = <f32 as M>::dec(i)?; Ok(S14::V7{ field: v_field }) }
    _ => Err(DE::Bad) } } }
fn S14_variant(s: &mut Src, k: usize) -> S14<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: Cow<'static, BTreeSet<u8>> = <Cow<'static, BTreeSet<u8>> as M>::gen(s); S14::V0(v_t0) }
    1 => { let v_x: BTreeMap<u16, String> = <BTreeMap<u16, String> as M>::gen(s); S14::V1{ x: v_x } }
    2 => { let v_writer: u64 = s.int(64); let v_field: Cow<'static, BTreeSet<bool>> = <Cow<'static, BTreeSet<bool>> as M>::gen(s); let v_n: u64 = <u64 as M>::gen(s); S14::V2{ writer: v_writer, field: v_field, n: v_n } }
    3 => {  S14::V3 }
    4 => { let v_beta: Cow<'static, BTreeSet<S11>> = <Cow<'static, BTreeSet<S11>> as M>::gen(s); let v_name: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_value: Box<i16> = <Box<i16> as M>::gen(s); S14::V4{ beta: v_beta, name: v_name, value: v_value } }
    5 => { let v_t0: S11 = <S11 as M>::gen(s); let v_t1: BTreeSet<char> = <BTreeSet<char> as M>::gen(s); S14::V5(v_t0, v_t1) }
    6 => { let v_t0: f64 = <f64 as M>::gen(s); let v_t1: Cow<'static, HashMap<bool, u128>> = <Cow<'static, HashMap<bool, u128>> as M>::gen(s); S14::V6(v_t0, v_t1) }
    _ => { let v_field: f32 = <f32 as M>::gen(s); S14::V7{ field: v_field } }
  }) }
#[derive(Readable, Clone, Writable)]
#[speedy(tag_type = u8)]
pub enum S15<'a> { V0(HashMap<char, i32>, #[speedy(length_type = u32)] Cow<'a, str>), V1 { field: char }, V2 { x: &'a [u8] }, V3(Cow<'a, BTreeMap<u32, u128>>, Vec<u64>), V4, V5(&'a str, #[speedy(constant_prefix = false)] &'a [u8], S2), V6, V7(f32) }
impl M for S15<'static> { const MIN: usize = 1 + min_of(&[0 + 0 + <HashMap<char, i32> as M>::MIN + 0 + 4 , 0 + 0 + <char as M>::MIN , 0 + 0 + <&'static [u8] as M>::MIN , 0 + 0 + <Cow<'static, BTreeMap<u32, u128>> as M>::MIN + 0 + <Vec<u64> as M>::MIN , 0 , 0 + 0 + <&'static str as M>::MIN + 1 + <&'static [u8] as M>::MIN + 0 + <S2 as M>::MIN , 0 , 0 + 0 + <f32 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(8); S15_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S15::V0(v_t0, v_t1) => { tag(o, 0, Len::U8); M::enc(v_t0, o); enc_lt(v_t1, o, Len::U32); }
    S15::V1{ field: v_field } => { tag(o, 1, Len::U8); M::enc(v_field, o); }
    S15::V2{ x: v_x } => { tag(o, 2, Len::U8); M::enc(v_x, o); }
    S15::V3(v_t0, v_t1) => { tag(o, 3, Len::U8); M::enc(v_t0, o); M::enc(v_t1, o); }
    S15::V4 => { tag(o, 4, Len::U8);  }
    S15::V5(v_t0, v_t1, v_t2) => { tag(o, 5, Len::U8); M::enc(v_t0, o); o.raw(&[0]);M::enc(v_t1, o); M::enc(v_t2, o); }
    S15::V6 => { tag(o, 6, Len::U8);  }
    S15::V7(v_t0) => { tag(o, 7, Len::U8); M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U8)? {
    0 => { let v_t0: HashMap<char, i32> = <HashMap<char, i32> as M>::dec(i)?; let v_t1: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U32)?; Ok(S15::V0(v_t0, v_t1)) }
    1 => { let v_field: char = <char as M>::dec(i)?; Ok(S15::V1{ field: v_field }) }
    2 => { let v_x: &'static [u8] = <&'static [u8] as M>::dec(i)?; Ok(S15::V2{ x: v_x }) }
    3 => { let v_t0: Cow<'static, BTreeMap<u32, u128>> = <Cow<'static, BTreeMap<u32, u128>> as M>::dec(i)?; let v_t1: Vec<u64> = <Vec<u64> as M>::dec(i)?; Ok(S15::V3(v_t0, v_t1)) }
    4 => {  Ok(S15::V4) }
    5 => { let v_t0: &'static str = <&'static str as M>::dec(i)?; let v_t1: &'static [u8] = { prefix(i, &[0])?; <&'static [u8] as M>::dec(i) }?; let v_t2: S2 = <S2 as M>::dec(i)?; Ok(S15::V5(v_t0, v_t1, v_t2)) }
    6 => {  Ok(S15::V6) }
    7 => { let v_t0: f32 = <f32 as M>::dec(i)?; Ok(S15::V7(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S15_variant(s: &mut Src, k: usize) -> S15<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: HashMap<char, i32> = <HashMap<char, i32> as M>::gen(s); let v_t1: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U32); S15::V0(v_t0, v_t1) }
    1 => { let v_field: char = <char as M>::gen(s); S15::V1{ field: v_field } }
    2 => { let v_x: &'static [u8] = <&'static [u8] as M>::gen(s); S15::V2{ x: v_x } }
    3 => { let v_t0: Cow<'static, BTreeMap<u32, u128>> = <Cow<'static, BTreeMap<u32, u128>> as M>::gen(s); let v_t1: Vec<u64> = <Vec<u64> as M>::gen(s); S15::V3(v_t0, v_t1) }
    4 => {  S15::V4 }
    5 => { let v_t0: &'static str = <&'static str as M>::gen(s); let v_t1: &'static [u8] = <&'static [u8] as M>::gen(s); let v_t2: S2 = <S2 as M>::gen(s); S15::V5(v_t0, v_t1, v_t2) }
    6 => {  S15::V6 }
    _ => { let v_t0: f32 = <f32 as M>::gen(s); S15::V7(v_t0) }
  }) }
#[derive(Clone, Readable, Writable)]
#[speedy(tag_type = u16)]
pub enum S16<'a> { #[speedy(tag = 1)] V0(u32, #[speedy(length = t0)] BTreeSet<bool>, #[speedy(length_type = u7)] Option<&'a str>), #[speedy(tag = 2)] V1(u32, #[speedy(length_type = u64_varint)] Option<BTreeSet<u8>>), #[speedy(tag = 5)] V2 { writer: HashSet<i32>, length: Option<i32> } }
impl M for S16<'static> { const MIN: usize = 2 + min_of(&[0 + 0 + <u32 as M>::MIN + 0 + 0 + 0 + 1 , 0 + 0 + <u32 as M>::MIN + 0 + 1 , 0 + 0 + <HashSet<i32> as M>::MIN + 0 + <Option<i32> as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S16_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S16::V0(v_t0, v_t1, v_t2) => { tag(o, 1, Len::U16); M::enc(v_t0, o); enc_n(v_t1, o, (((*v_t0)) as u64)); enc_opt(v_t2, o, Len::U7); }
    S16::V1(v_t0, v_t1) => { tag(o, 2, Len::U16); M::enc(v_t0, o); enc_opt(v_t1, o, Len::Varint); }
    S16::V2{ writer: v_writer, length: v_length } => { tag(o, 5, Len::U16); M::enc(v_writer, o); M::enc(v_length, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U16)? {
    1 => { let v_t0: u32 = <u32 as M>::dec(i)?; let v_t1: BTreeSet<bool> = dec_n::<BTreeSet<bool>>(i, ((v_t0) as u64))?; let v_t2: Option<&'static str> = dec_opt::<&'static str>(i, Len::U7)?; Ok(S16::V0(v_t0, v_t1, v_t2)) }
    2 => { let v_t0: u32 = <u32 as M>::dec(i)?; let v_t1: Option<BTreeSet<u8>> = dec_opt::<BTreeSet<u8>>(i, Len::Varint)?; Ok(S16::V1(v_t0, v_t1)) }
    5 => { let v_writer: HashSet<i32> = <HashSet<i32> as M>::dec(i)?; let v_length: Option<i32> = <Option<i32> as M>::dec(i)?; Ok(S16::V2{ writer: v_writer, length: v_length }) }
    _ => Err(DE::Bad) } } }
fn S16_variant(s: &mut Src, k: usize) -> S16<'static> { s.nested(3, |s| match k {
    0 => { let v_t0: u32 = gen_count(s, 32) as u32; let v_t1: BTreeSet<bool> = gen_n::<BTreeSet<bool>>(s, ((v_t0) as u64)); let v_t2: Option<&'static str> = gen_opt::<&'static str>(s, Len::U7); S16::V0(v_t0, v_t1, v_t2) }
    1 => { let v_t0: u32 = <u32 as M>::gen(s); let v_t1: Option<BTreeSet<u8>> = gen_opt::<BTreeSet<u8>>(s, Len::Varint); S16::V1(v_t0, v_t1) }
    _ => { let v_writer: HashSet<i32> = <HashSet<i32> as M>::gen(s); let v_length: Option<i32> = <Option<i32> as M>::gen(s); S16::V2{ writer: v_writer, length: v_length } }
  }) }
#[derive(Writable, Clone, Readable)]
#[speedy(tag_type = u32)]
pub enum S17 { #[speedy(tag = 159)] V0 { writer: (S13, S0, i16) }, #[speedy(tag = 256)] V1 { name: HashSet<(i64, i32)>, ctx: [HashMap<bool, S7>; 3], #[speedy(constant_prefix = "XYZ", varint)] field: u64 }, #[speedy(tag = 4294967294)] V2 { this: i128 }, #[speedy(tag = 1)] V3(BTreeMap<u32, S2>, S9), #[speedy(tag = 264)] V4 { item: S7 } }
impl M for S17 { const MIN: usize = 4 + min_of(&[0 + 0 + <(S13, S0, i16) as M>::MIN , 0 + 0 + <HashSet<(i64, i32)> as M>::MIN + 0 + <[HashMap<bool, S7>; 3] as M>::MIN + 3 + 1 , 0 + 0 + <i128 as M>::MIN , 0 + 0 + <BTreeMap<u32, S2> as M>::MIN + 0 + <S9 as M>::MIN , 0 + 0 + <S7 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(5); S17_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S17::V0{ writer: v_writer } => { tag(o, 159, Len::U32); M::enc(v_writer, o); }
    S17::V1{ name: v_name, ctx: v_ctx, field: v_field } => { tag(o, 256, Len::U32); M::enc(v_name, o); M::enc(v_ctx, o); o.raw(&[88, 89, 90]);o.varint(*v_field); }
    S17::V2{ this: v_this } => { tag(o, 4294967294, Len::U32); M::enc(v_this, o); }
    S17::V3(v_t0, v_t1) => { tag(o, 1, Len::U32); M::enc(v_t0, o); M::enc(v_t1, o); }
    S17::V4{ item: v_item } => { tag(o, 264, Len::U32); M::enc(v_item, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U32)? {
    159 => { let v_writer: (S13, S0, i16) = <(S13, S0, i16) as M>::dec(i)?; Ok(S17::V0{ writer: v_writer }) }
    256 => { let v_name: HashSet<(i64, i32)> = <HashSet<(i64, i32)> as M>::dec(i)?; let v_ctx: [HashMap<bool, S7>; 3] = <[HashMap<bool, S7>; 3] as M>::dec(i)?; let v_field: u64 = { prefix(i, &[88, 89, 90])?; i.varint() }?; Ok(S17::V1{ name: v_name, ctx: v_ctx, field: v_field }) }
    4294967294 => { let v_this: i128 = <i128 as M>::dec(i)?; Ok(S17::V2{ this: v_this }) }
    1 => { let v_t0: BTreeMap<u32, S2> = <BTreeMap<u32, S2> as M>::dec(i)?; let v_t1: S9 = <S9 as M>::dec(i)?; Ok(S17::V3(v_t0, v_t1)) }
    264 => { let v_item: S7 = <S7 as M>::dec(i)?; Ok(S17::V4{ item: v_item }) }
    _ => Err(DE::Bad) } } }
fn S17_variant(s: &mut Src, k: usize) -> S17 { s.nested(3, |s| match k {
    0 => { let v_writer: (S13, S0, i16) = <(S13, S0, i16) as M>::gen(s); S17::V0{ writer: v_writer } }
    1 => { let v_name: HashSet<(i64, i32)> = <HashSet<(i64, i32)> as M>::gen(s); let v_ctx: [HashMap<bool, S7>; 3] = <[HashMap<bool, S7>; 3] as M>::gen(s); let v_field: u64 = s.int(64); S17::V1{ name: v_name, ctx: v_ctx, field: v_field } }
    2 => { let v_this: i128 = <i128 as M>::gen(s); S17::V2{ this: v_this } }
    3 => { let v_t0: BTreeMap<u32, S2> = <BTreeMap<u32, S2> as M>::gen(s); let v_t1: S9 = <S9 as M>::gen(s); S17::V3(v_t0, v_t1) }
    _ => { let v_item: S7 = <S7 as M>::gen(s); S17::V4{ item: v_item } }
  }) }
#[derive(Readable, Clone, Writable)]
#[speedy(tag_type = u64)]
pub enum S18<'a> { V0 { field: (u32, f64), alpha: &'a str }, V1(bool), V2(Vec<char>), V3(Box<&'a [u8]>, i64) }
impl M for S18<'static> { const MIN: usize = 8 + min_of(&[0 + 0 + <(u32, f64) as M>::MIN + 0 + <&'static str as M>::MIN , 0 + 0 + <bool as M>::MIN , 0 + 0 + <Vec<char> as M>::MIN , 0 + 0 + <Box<&'static [u8]> as M>::MIN + 0 + <i64 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(4); S18_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S18::V0{ field: v_field, alpha: v_alpha } => { tag(o, 0, Len::U64); M::enc(v_field, o); M::enc(v_alpha, o); }
    S18::V1(v_t0) => { tag(o, 1, Len::U64); M::enc(v_t0, o); }
    S18::V2(v_t0) => { tag(o, 2, Len::U64); M::enc(v_t0, o); }
    S18::V3(v_t0, v_t1) => { tag(o, 3, Len::U64); M::enc(v_t0, o); M::enc(v_t1, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U64)? {
    0 => { let v_field: (u32, f64) = <(u32, f64) as M>::dec(i)?; let v_alpha: &'static str = <&'static str as M>::dec(i)?; Ok(S18::V0{ field: v_field, alpha: v_alpha }) }
    1 => { let v_t0: bool = <bool as M>::dec(i)?; Ok(S18::V1(v_t0)) }
    2 => { let v_t0: Vec<char> = <Vec<char> as M>::dec(i)?; Ok(S18::V2(v_t0)) }
    3 => { let v_t0: Box<&'static [u8]> = <Box<&'static [u8]> as M>::dec(i)?; let v_t1: i64 = <i64 as M>::dec(i)?; Ok(S18::V3(v_t0, v_t1)) }
    _ => Err(DE::Bad) } } }
fn S18_variant(s: &mut Src, k: usize) -> S18<'static> { s.nested(3, |s| match k {
    0 => { let v_field: (u32, f64) = <(u32, f64) as M>::gen(s); let v_alpha: &'static str = <&'static str as M>::gen(s); S18::V0{ field: v_field, alpha: v_alpha } }
    1 => { let v_t0: bool = <bool as M>::gen(s); S18::V1(v_t0) }
    2 => { let v_t0: Vec<char> = <Vec<char> as M>::gen(s); S18::V2(v_t0) }
    _ => { let v_t0: Box<&'static [u8]> = <Box<&'static [u8]> as M>::gen(s); let v_t1: i64 = <i64 as M>::gen(s); S18::V3(v_t0, v_t1) }
  }) }
#[derive(Writable, Readable, Clone)]
#[speedy(tag_type = u64_varint)]
pub enum S19<'a> { V0 { item: Cow<'a, [f64]> }, V1 { bytes: Vec<u16> }, V2 { value: Cow<'a, str>, bytes: u16 }, V3(BTreeSet<i64>, f64, String), V4 { slice: f32 }, V5(Vec<i8>, Vec<u32>, #[speedy(varint, constant_prefix = false, default_on_eof)] u64), V6(char, Cow<'a, BTreeSet<(u16, u8)>>, BTreeSet<u64>), V7 }
impl M for S19<'static> { const MIN: usize = 1 + min_of(&[0 + 0 + <Cow<'static, [f64]> as M>::MIN , 0 + 0 + <Vec<u16> as M>::MIN , 0 + 0 + <Cow<'static, str> as M>::MIN + 0 + <u16 as M>::MIN , 0 + 0 + <BTreeSet<i64> as M>::MIN + 0 + <f64 as M>::MIN + 0 + <String as M>::MIN , 0 + 0 + <f32 as M>::MIN , 0 + 0 + <Vec<i8> as M>::MIN + 0 + <Vec<u32> as M>::MIN + 0 , 0 + 0 + <char as M>::MIN + 0 + <Cow<'static, BTreeSet<(u16, u8)>> as M>::MIN + 0 + <BTreeSet<u64> as M>::MIN , 0]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(8); S19_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S19::V0{ item: v_item } => { tag(o, 0, Len::Varint); M::enc(v_item, o); }
    S19::V1{ bytes: v_bytes } => { tag(o, 1, Len::Varint); M::enc(v_bytes, o); }
    S19::V2{ value: v_value, bytes: v_bytes } => { tag(o, 2, Len::Varint); M::enc(v_value, o); M::enc(v_bytes, o); }
    S19::V3(v_t0, v_t1, v_t2) => { tag(o, 3, Len::Varint); M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
    S19::V4{ slice: v_slice } => { tag(o, 4, Len::Varint); M::enc(v_slice, o); }
    S19::V5(v_t0, v_t1, v_t2) => { tag(o, 5, Len::Varint); M::enc(v_t0, o); M::enc(v_t1, o); o.raw(&[0]);o.varint(*v_t2); }
    S19::V6(v_t0, v_t1, v_t2) => { tag(o, 6, Len::Varint); M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
    S19::V7 => { tag(o, 7, Len::Varint);  }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::Varint)? {
    0 => { let v_item: Cow<'static, [f64]> = <Cow<'static, [f64]> as M>::dec(i)?; Ok(S19::V0{ item: v_item }) }
    1 => { let v_bytes: Vec<u16> = <Vec<u16> as M>::dec(i)?; Ok(S19::V1{ bytes: v_bytes }) }
    2 => { let v_value: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_bytes: u16 = <u16 as M>::dec(i)?; Ok(S19::V2{ value: v_value, bytes: v_bytes }) }
    3 => { let v_t0: BTreeSet<i64> = <BTreeSet<i64> as M>::dec(i)?; let v_t1: f64 = <f64 as M>::dec(i)?; let v_t2: String = <String as M>::dec(i)?; Ok(S19::V3(v_t0, v_t1, v_t2)) }
    4 => { let v_slice: f32 = <f32 as M>::dec(i)?; Ok(S19::V4{ slice: v_slice }) }
    5 => { let v_t0: Vec<i8> = <Vec<i8> as M>::dec(i)?; let v_t1: Vec<u32> = <Vec<u32> as M>::dec(i)?; let v_t2: u64 = i.or_default(Default::default, |i| { prefix(i, &[0])?; i.varint() })?; Ok(S19::V5(v_t0, v_t1, v_t2)) }
    6 => { let v_t0: char = <char as M>::dec(i)?; let v_t1: Cow<'static, BTreeSet<(u16, u8)>> = <Cow<'static, BTreeSet<(u16, u8)>> as M>::dec(i)?; let v_t2: BTreeSet<u64> = <BTreeSet<u64> as M>::dec(i)?; Ok(S19::V6(v_t0, v_t1, v_t2)) }
    7 => {  Ok(S19::V7) }
    _ => Err(DE::Bad) } } }
fn S19_variant(s: &mut Src, k: usize) -> S19<'static> { s.nested(3, |s| match k {
    0 => { let v_item: Cow<'static, [f64]> = <Cow<'static, [f64]> as M>::gen(s); S19::V0{ item: v_item } }
    1 => { let v_bytes: Vec<u16> = <Vec<u16> as M>::gen(s); S19::V1{ bytes: v_bytes } }
    2 => { let v_value: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_bytes: u16 = <u16 as M>::gen(s); S19::V2{ value: v_value, bytes: v_bytes } }
    3 => { let v_t0: BTreeSet<i64> = <BTreeSet<i64> as M>::gen(s); let v_t1: f64 = <f64 as M>::gen(s); let v_t2: String = <String as M>::gen(s); S19::V3(v_t0, v_t1, v_t2) }
    4 => { let v_slice: f32 = <f32 as M>::gen(s); S19::V4{ slice: v_slice } }
    5 => { let v_t0: Vec<i8> = <Vec<i8> as M>::gen(s); let v_t1: Vec<u32> = <Vec<u32> as M>::gen(s); let v_t2: u64 = s.int(64); S19::V5(v_t0, v_t1, v_t2) }
    6 => { let v_t0: char = <char as M>::gen(s); let v_t1: Cow<'static, BTreeSet<(u16, u8)>> = <Cow<'static, BTreeSet<(u16, u8)>> as M>::gen(s); let v_t2: BTreeSet<u64> = <BTreeSet<u64> as M>::gen(s); S19::V6(v_t0, v_t1, v_t2) }
    _ => {  S19::V7 }
  }) }
#[derive(Writable, PartialEq, PartialOrd, Clone, Ord, Readable, Default, Eq, Hash)]
pub struct S20 { #[speedy(length_type = u7)] pub a: String, pub b: u16 }
impl M for S20 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S20{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S20{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S20{ a: v_a, b: v_b }) } }
#[derive(Default, PartialOrd, Clone, Ord, Hash, Eq, PartialEq, Readable, Writable)]
pub struct S21 { #[speedy(length_type = u8)] pub a: String, pub b: u16 }
impl M for S21 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S21{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S21{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S21{ a: v_a, b: v_b }) } }
#[derive(PartialEq, PartialOrd, Writable, Hash, Clone, Eq, Default, Readable, Ord)]
pub struct S22 { #[speedy(length_type = u16)] pub a: String, pub b: u16 }
impl M for S22 { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S22{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S22{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S22{ a: v_a, b: v_b }) } }
#[derive(PartialOrd, Hash, Ord, Writable, Readable, Clone, Default, Eq, PartialEq)]
pub struct S23 { #[speedy(length_type = u32)] pub a: String, pub b: u16 }
impl M for S23 { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S23{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S23{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S23{ a: v_a, b: v_b }) } }
#[derive(Writable, Ord, Readable, Eq, Hash, Default, Clone, PartialEq, PartialOrd)]
pub struct S24 { #[speedy(length_type = u64)] pub a: String, pub b: u16 }
impl M for S24 { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S24{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S24{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S24{ a: v_a, b: v_b }) } }
#[derive(Ord, Default, Eq, Readable, Writable, PartialOrd, Hash, Clone, PartialEq)]
pub struct S25 { #[speedy(length_type = u64_varint)] pub a: String, pub b: u16 }
impl M for S25 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S25{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S25{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S25{ a: v_a, b: v_b }) } }
#[derive(Hash, Default, Readable, Writable, Ord, PartialOrd, PartialEq, Eq, Clone)]
pub struct S26 { #[speedy(length_type = u7)] pub a: Vec<i16>, pub b: u16 }
impl M for S26 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i16> = gen_lt::<Vec<i16>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S26{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S26{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i16> = dec_lt::<Vec<i16>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S26{ a: v_a, b: v_b }) } }
#[derive(PartialEq, Hash, Eq, Readable, Default, Clone, PartialOrd, Ord, Writable)]
pub struct S27 { #[speedy(length_type = u8)] pub a: Vec<u64>, pub b: u16 }
impl M for S27 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S27{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S27{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S27{ a: v_a, b: v_b }) } }
#[derive(Writable, Clone, Default, Readable)]
pub struct S28 { #[speedy(length_type = u16)] pub a: Vec<f64>, pub b: u16 }
impl M for S28 { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<f64> = gen_lt::<Vec<f64>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S28{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S28{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<f64> = dec_lt::<Vec<f64>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S28{ a: v_a, b: v_b }) } }
#[derive(Writable, Default, Readable, Clone)]
pub struct S29 { #[speedy(length_type = u32)] pub a: Vec<f64>, pub b: u16 }
impl M for S29 { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<f64> = gen_lt::<Vec<f64>>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S29{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S29{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<f64> = dec_lt::<Vec<f64>>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S29{ a: v_a, b: v_b }) } }
#[derive(Default, Readable, Hash, Clone, Ord, Writable, Eq, PartialEq, PartialOrd)]
pub struct S30 { #[speedy(length_type = u64)] pub a: Vec<i64>, pub b: u16 }
impl M for S30 { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<i64> = gen_lt::<Vec<i64>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S30{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S30{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<i64> = dec_lt::<Vec<i64>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S30{ a: v_a, b: v_b }) } }
#[derive(Ord, Eq, Hash, Clone, PartialOrd, Default, Readable, Writable, PartialEq)]
pub struct S31 { #[speedy(length_type = u64_varint)] pub a: Vec<u64>, pub b: u16 }
impl M for S31 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S31{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S31{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S31{ a: v_a, b: v_b }) } }
#[derive(Default, Writable, Clone, Readable)]
pub struct S32<'a> { #[speedy(length_type = u7)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S32<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S32{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S32{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S32{ a: v_a, b: v_b }) } }
#[derive(Default, Clone, Readable, Writable)]
pub struct S33<'a> { #[speedy(length_type = u8)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S33<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S33{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S33{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S33{ a: v_a, b: v_b }) } }
#[derive(Clone, Default, Readable, Writable)]
pub struct S34<'a> { #[speedy(length_type = u16)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S34<'static> { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S34{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S34{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S34{ a: v_a, b: v_b }) } }
#[derive(Clone, Writable, Readable, Default)]
pub struct S35<'a> { #[speedy(length_type = u32)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S35<'static> { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S35{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S35{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S35{ a: v_a, b: v_b }) } }
#[derive(Readable, Default, Clone, Writable)]
pub struct S36<'a> { #[speedy(length_type = u64)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S36<'static> { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S36{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S36{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S36{ a: v_a, b: v_b }) } }
#[derive(Writable, Readable, Clone, Default)]
pub struct S37<'a> { #[speedy(length_type = u64_varint)] pub a: Cow<'a, str>, pub b: u16 }
impl M for S37<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, str> = gen_lt::<Cow<'static, str>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S37{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S37{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, str> = dec_lt::<Cow<'static, str>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S37{ a: v_a, b: v_b }) } }
#[derive(Clone, Writable, Readable, Default)]
pub struct S38<'a> { #[speedy(length_type = u7)] pub a: Cow<'a, [f32]>, pub b: u16 }
impl M for S38<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [f32]> = gen_lt::<Cow<'static, [f32]>>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S38{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S38{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [f32]> = dec_lt::<Cow<'static, [f32]>>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S38{ a: v_a, b: v_b }) } }
#[derive(Writable, Eq, Default, Clone, PartialEq, Ord, PartialOrd, Hash, Readable)]
pub struct S39<'a> { #[speedy(length_type = u8)] pub a: Cow<'a, [i16]>, pub b: u16 }
impl M for S39<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [i16]> = gen_lt::<Cow<'static, [i16]>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S39{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S39{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [i16]> = dec_lt::<Cow<'static, [i16]>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S39{ a: v_a, b: v_b }) } }
#[derive(Ord, Readable, Hash, PartialEq, Eq, Clone, Writable, Default, PartialOrd)]
pub struct S40<'a> { #[speedy(length_type = u16)] pub a: Cow<'a, [i128]>, pub b: u16 }
impl M for S40<'static> { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [i128]> = gen_lt::<Cow<'static, [i128]>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S40{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S40{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [i128]> = dec_lt::<Cow<'static, [i128]>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S40{ a: v_a, b: v_b }) } }
#[derive(Eq, PartialEq, Hash, Writable, Default, Ord, Clone, PartialOrd, Readable)]
pub struct S41<'a> { #[speedy(length_type = u32)] pub a: Cow<'a, [i32]>, pub b: u16 }
impl M for S41<'static> { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [i32]> = gen_lt::<Cow<'static, [i32]>>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S41{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S41{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [i32]> = dec_lt::<Cow<'static, [i32]>>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S41{ a: v_a, b: v_b }) } }
#[derive(PartialEq, Writable, Clone, Ord, Eq, Readable, Default, PartialOrd, Hash)]
pub struct S42<'a> { #[speedy(length_type = u64)] pub a: Cow<'a, [i64]>, pub b: u16 }
impl M for S42<'static> { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [i64]> = gen_lt::<Cow<'static, [i64]>>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S42{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S42{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [i64]> = dec_lt::<Cow<'static, [i64]>>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S42{ a: v_a, b: v_b }) } }
#[derive(Clone, Ord, Default, PartialOrd, Eq, PartialEq, Writable, Hash, Readable)]
pub struct S43<'a> { #[speedy(length_type = u64_varint)] pub a: Cow<'a, [u128]>, pub b: u16 }
impl M for S43<'static> { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Cow<'static, [u128]> = gen_lt::<Cow<'static, [u128]>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S43{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S43{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Cow<'static, [u128]> = dec_lt::<Cow<'static, [u128]>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S43{ a: v_a, b: v_b }) } }
#[derive(Default, PartialOrd, Eq, Clone, Hash, Ord, Writable, PartialEq, Readable)]
pub struct S44 { #[speedy(length_type = u7)] pub a: String, pub b: u16 }
impl M for S44 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U7); let v_b: u16 = <u16 as M>::gen(s); S44{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S44{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U7); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U7)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S44{ a: v_a, b: v_b }) } }
#[derive(PartialEq, Ord, Default, PartialOrd, Writable, Hash, Eq, Clone, Readable)]
pub struct S45 { #[speedy(length_type = u8)] pub a: Vec<u64>, pub b: u16 }
impl M for S45 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::U8); let v_b: u16 = <u16 as M>::gen(s); S45{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S45{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U8); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::U8)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S45{ a: v_a, b: v_b }) } }
#[derive(Writable, Default, Readable, Clone)]
pub struct S46 { #[speedy(length_type = u16)] pub a: HashMap<bool, u128>, pub b: u16 }
impl M for S46 { const MIN: usize = 0 + 0 + 2 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: HashMap<bool, u128> = gen_lt::<HashMap<bool, u128>>(s, Len::U16); let v_b: u16 = <u16 as M>::gen(s); S46{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S46{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U16); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: HashMap<bool, u128> = dec_lt::<HashMap<bool, u128>>(i, Len::U16)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S46{ a: v_a, b: v_b }) } }
#[derive(Readable, PartialOrd, Ord, Clone, Default, Writable, Hash, Eq, PartialEq)]
pub struct S47 { #[speedy(length_type = u32)] pub a: String, pub b: u16 }
impl M for S47 { const MIN: usize = 0 + 0 + 4 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U32); let v_b: u16 = <u16 as M>::gen(s); S47{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S47{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U32); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U32)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S47{ a: v_a, b: v_b }) } }
#[derive(Readable, PartialOrd, Eq, Writable, Ord, Clone, PartialEq, Hash, Default)]
pub struct S48 { #[speedy(length_type = u64)] pub a: String, pub b: u16 }
impl M for S48 { const MIN: usize = 0 + 0 + 8 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: String = gen_lt::<String>(s, Len::U64); let v_b: u16 = <u16 as M>::gen(s); S48{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S48{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::U64); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: String = dec_lt::<String>(i, Len::U64)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S48{ a: v_a, b: v_b }) } }
#[derive(Eq, Writable, Default, PartialEq, Clone, PartialOrd, Ord, Hash, Readable)]
pub struct S49 { #[speedy(length_type = u64_varint)] pub a: BTreeMap<(i32, i8), i64>, pub b: u16 }
impl M for S49 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_a: BTreeMap<(i32, i8), i64> = gen_lt::<BTreeMap<(i32, i8), i64>>(s, Len::Varint); let v_b: u16 = <u16 as M>::gen(s); S49{ a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S49{ a: v_a, b: v_b } = self; enc_lt(v_a, o, Len::Varint); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: BTreeMap<(i32, i8), i64> = dec_lt::<BTreeMap<(i32, i8), i64>>(i, Len::Varint)?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S49{ a: v_a, b: v_b }) } }
#[derive(Default, Readable, Writable, Clone)]
pub struct S50 { #[speedy(length_type = u64)] pub a: Vec<u64> }
impl M for S50 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::U64); S50{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S50{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::U64)?; Ok(S50{ a: v_a }) } }
#[derive(Default, Writable, Readable, Clone)]
pub struct S51 { #[speedy(length_type = u64)] pub a: Vec<u32> }
impl M for S51 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u32> = gen_lt::<Vec<u32>>(s, Len::U64); S51{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S51{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u32> = dec_lt::<Vec<u32>>(i, Len::U64)?; Ok(S51{ a: v_a }) } }
#[derive(Writable, Default, Readable, Clone)]
pub struct S52 { #[speedy(length_type = u64)] pub a: Vec<u128> }
impl M for S52 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u128> = gen_lt::<Vec<u128>>(s, Len::U64); S52{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S52{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u128> = dec_lt::<Vec<u128>>(i, Len::U64)?; Ok(S52{ a: v_a }) } }
#[derive(Writable, Readable, Clone, Default)]
pub struct S53 { #[speedy(length_type = u64)] pub a: Vec<u16> }
impl M for S53 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u16> = gen_lt::<Vec<u16>>(s, Len::U64); S53{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S53{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u16> = dec_lt::<Vec<u16>>(i, Len::U64)?; Ok(S53{ a: v_a }) } }
#[derive(Default, Readable, Writable, Clone)]
pub struct S54 { #[speedy(length_type = u64_varint)] pub a: Vec<u32> }
impl M for S54 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u32> = gen_lt::<Vec<u32>>(s, Len::Varint); S54{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S54{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u32> = dec_lt::<Vec<u32>>(i, Len::Varint)?; Ok(S54{ a: v_a }) } }
#[derive(Readable, Clone, Writable, Default)]
pub struct S55 { #[speedy(length_type = u64_varint)] pub a: Vec<u64> }
impl M for S55 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<u64> = gen_lt::<Vec<u64>>(s, Len::Varint); S55{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S55{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<u64> = dec_lt::<Vec<u64>>(i, Len::Varint)?; Ok(S55{ a: v_a }) } }
#[derive(Readable, Default, Clone, Writable)]
pub struct S56 { #[speedy(length_type = u64_varint)] pub a: Vec<(u8, u16)> }
impl M for S56 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<(u8, u16)> = gen_lt::<Vec<(u8, u16)>>(s, Len::Varint); S56{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S56{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<(u8, u16)> = dec_lt::<Vec<(u8, u16)>>(i, Len::Varint)?; Ok(S56{ a: v_a }) } }
#[derive(Writable, Default, Clone, Readable)]
pub struct S57 { #[speedy(length_type = u64)] pub a: Vec<[u16; 5]> }
impl M for S57 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<[u16; 5]> = gen_lt::<Vec<[u16; 5]>>(s, Len::U64); S57{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S57{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<[u16; 5]> = dec_lt::<Vec<[u16; 5]>>(i, Len::U64)?; Ok(S57{ a: v_a }) } }
#[derive(Default, Readable, Clone, Writable)]
pub struct S58 { #[speedy(length_type = u64)] pub a: Vec<String> }
impl M for S58 { const MIN: usize = 0 + 0 + 8;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<String> = gen_lt::<Vec<String>>(s, Len::U64); S58{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S58{ a: v_a } = self; enc_lt(v_a, o, Len::U64); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<String> = dec_lt::<Vec<String>>(i, Len::U64)?; Ok(S58{ a: v_a }) } }
#[derive(Clone, Default, Readable, Writable)]
pub struct S59 { #[speedy(length_type = u64_varint)] pub a: Vec<(u32, u64)> }
impl M for S59 { const MIN: usize = 0 + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_a: Vec<(u32, u64)> = gen_lt::<Vec<(u32, u64)>>(s, Len::Varint); S59{ a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S59{ a: v_a } = self; enc_lt(v_a, o, Len::Varint); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_a: Vec<(u32, u64)> = dec_lt::<Vec<(u32, u64)>>(i, Len::Varint)?; Ok(S59{ a: v_a }) } }
#[derive(Clone, Eq, Readable, Default, PartialEq, Hash, Ord, Writable, PartialOrd)]
pub struct S60 { pub n: usize, #[speedy(length = n)] pub a: String, pub b: u16 }
impl M for S60 { const MIN: usize = 0 + 0 + <usize as M>::MIN + 0 + 0 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_n: usize = gen_count(s, 64) as usize; let v_a: String = gen_n::<String>(s, ((v_n) as u64)); let v_b: u16 = <u16 as M>::gen(s); S60{ n: v_n, a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S60{ n: v_n, a: v_a, b: v_b } = self; M::enc(v_n, o); enc_n(v_a, o, (((*v_n)) as u64)); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_n: usize = <usize as M>::dec(i)?; let v_a: String = dec_n::<String>(i, ((v_n) as u64))?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S60{ n: v_n, a: v_a, b: v_b }) } }
#[derive(Hash, Ord, Writable, Eq, Clone, Default, Readable, PartialEq, PartialOrd)]
pub struct S61 { pub h: u16, #[speedy(length = ..)] pub a: String }
impl M for S61 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + 0;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_h: u16 = <u16 as M>::gen(s); let v_a: String = gen_end::<String>(s); S61{ h: v_h, a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S61{ h: v_h, a: v_a } = self; M::enc(v_h, o); enc_end(v_a, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_h: u16 = <u16 as M>::dec(i)?; let v_a: String = dec_end::<String>(i)?; Ok(S61{ h: v_h, a: v_a }) } }
#[derive(Readable, Writable, Default, Clone)]
pub struct S62 { pub n: usize, #[speedy(length = n)] pub a: Vec<f32>, pub b: u16 }
impl M for S62 { const MIN: usize = 0 + 0 + <usize as M>::MIN + 0 + 0 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_n: usize = gen_count(s, 64) as usize; let v_a: Vec<f32> = gen_n::<Vec<f32>>(s, ((v_n) as u64)); let v_b: u16 = <u16 as M>::gen(s); S62{ n: v_n, a: v_a, b: v_b } }) }
  fn enc(&self, o: &mut Out) { let S62{ n: v_n, a: v_a, b: v_b } = self; M::enc(v_n, o); enc_n(v_a, o, (((*v_n)) as u64)); M::enc(v_b, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_n: usize = <usize as M>::dec(i)?; let v_a: Vec<f32> = dec_n::<Vec<f32>>(i, ((v_n) as u64))?; let v_b: u16 = <u16 as M>::dec(i)?; Ok(S62{ n: v_n, a: v_a, b: v_b }) } }
#[derive(Readable, Clone, Writable, Default)]
pub struct S63 { pub h: u16, #[speedy(length = ..)] pub a: Vec<f32> }
impl M for S63 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + 0;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_h: u16 = <u16 as M>::gen(s); let v_a: Vec<f32> = gen_end::<Vec<f32>>(s); S63{ h: v_h, a: v_a } }) }
  fn enc(&self, o: &mut Out) { let S63{ h: v_h, a: v_a } = self; M::enc(v_h, o); enc_end(v_a, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_h: u16 = <u16 as M>::dec(i)?; let v_a: Vec<f32> = dec_end::<Vec<f32>>(i)?; Ok(S63{ h: v_h, a: v_a }) } }
#[derive(Default, Readable, PartialEq, Eq, Copy, Ord, PartialOrd, Hash, Clone, Writable)]
pub struct S64 { #[speedy(varint)] pub v: u64, pub w: u16 }
impl M for S64 { const MIN: usize = 0 + 0 + 1 + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_v: u64 = s.int(64); let v_w: u16 = <u16 as M>::gen(s); S64{ v: v_v, w: v_w } }) }
  fn enc(&self, o: &mut Out) { let S64{ v: v_v, w: v_w } = self; o.varint(*v_v); M::enc(v_w, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_v: u64 = i.varint()?; let v_w: u16 = <u16 as M>::dec(i)?; Ok(S64{ v: v_v, w: v_w }) } }
#[derive(Writable, Clone, Readable, Default)]
pub struct S65<'a> { pub alpha: u32, #[speedy(skip)] pub n: f64, #[speedy(constant_prefix = "XYZ", length_type = u8)] pub sum: Option<Cow<'a, [i128]>> }
impl M for S65<'static> { const MIN: usize = 0 + 0 + <u32 as M>::MIN + 0 + 3 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_alpha: u32 = <u32 as M>::gen(s); let v_n: f64 = <f64 as M>::gen(s); let v_sum: Option<Cow<'static, [i128]>> = gen_opt::<Cow<'static, [i128]>>(s, Len::U8); S65{ alpha: v_alpha, n: v_n, sum: v_sum } }) }
  fn enc(&self, o: &mut Out) { let S65{ alpha: v_alpha, n: v_n, sum: v_sum } = self; M::enc(v_alpha, o); enc_skip(v_n, o); o.raw(&[88, 89, 90]);enc_opt(v_sum, o, Len::U8); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_alpha: u32 = <u32 as M>::dec(i)?; let v_n: f64 = Default::default(); let v_sum: Option<Cow<'static, [i128]>> = { prefix(i, &[88, 89, 90])?; dec_opt::<Cow<'static, [i128]>>(i, Len::U8) }?; Ok(S65{ alpha: v_alpha, n: v_n, sum: v_sum }) } }
#[derive(Default, Writable, Clone, Readable)]
pub struct S66<'a>(pub Cow<'a, BTreeMap<(i32, i16), i128>>);
impl M for S66<'static> { const MIN: usize = 0 + 0 + <Cow<'static, BTreeMap<(i32, i16), i128>> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_t0: Cow<'static, BTreeMap<(i32, i16), i128>> = <Cow<'static, BTreeMap<(i32, i16), i128>> as M>::gen(s); S66(v_t0) }) }
  fn enc(&self, o: &mut Out) { let S66(v_t0) = self; M::enc(v_t0, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: Cow<'static, BTreeMap<(i32, i16), i128>> = <Cow<'static, BTreeMap<(i32, i16), i128>> as M>::dec(i)?; Ok(S66(v_t0)) } }
#[derive(Clone, Readable, Writable)]
pub struct S67<X> { pub writer: X, pub sum: Vec<X>, pub error: Box<X> }
impl<X: M> M for S67<X> { const MIN: usize = 0 + 0 + <X as M>::MIN + 0 + <Vec<X> as M>::MIN + 0 + <Box<X> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_writer: X = <X as M>::gen(s); let v_sum: Vec<X> = <Vec<X> as M>::gen(s); let v_error: Box<X> = <Box<X> as M>::gen(s); S67{ writer: v_writer, sum: v_sum, error: v_error } }) }
  fn enc(&self, o: &mut Out) { let S67{ writer: v_writer, sum: v_sum, error: v_error } = self; M::enc(v_writer, o); M::enc(v_sum, o); M::enc(v_error, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_writer: X = <X as M>::dec(i)?; let v_sum: Vec<X> = <Vec<X> as M>::dec(i)?; let v_error: Box<X> = <Box<X> as M>::dec(i)?; Ok(S67{ writer: v_writer, sum: v_sum, error: v_error }) } }
#[derive(Writable, Default, Clone, Readable)]
pub struct S68<'a>(pub i64, #[speedy(default_on_eof, length_type = u64_varint)] pub Option<Vec<S66<'a>>>, pub i64, pub f64, pub i16, pub HashMap<u8, i32>, pub (S44, f32, char), pub Cow<'a, BTreeMap<u32, u128>>);
impl M for S68<'static> { const MIN: usize = 0 + 0 + <i64 as M>::MIN + 0 + 0 + <i64 as M>::MIN + 0 + <f64 as M>::MIN + 0 + <i16 as M>::MIN + 0 + <HashMap<u8, i32> as M>::MIN + 0 + <(S44, f32, char) as M>::MIN + 0 + <Cow<'static, BTreeMap<u32, u128>> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(8, |s| { let v_t0: i64 = <i64 as M>::gen(s); let v_t1: Option<Vec<S66<'static>>> = gen_opt::<Vec<S66<'static>>>(s, Len::Varint); let v_t2: i64 = <i64 as M>::gen(s); let v_t3: f64 = <f64 as M>::gen(s); let v_t4: i16 = <i16 as M>::gen(s); let v_t5: HashMap<u8, i32> = <HashMap<u8, i32> as M>::gen(s); let v_t6: (S44, f32, char) = <(S44, f32, char) as M>::gen(s); let v_t7: Cow<'static, BTreeMap<u32, u128>> = <Cow<'static, BTreeMap<u32, u128>> as M>::gen(s); S68(v_t0, v_t1, v_t2, v_t3, v_t4, v_t5, v_t6, v_t7) }) }
  fn enc(&self, o: &mut Out) { let S68(v_t0, v_t1, v_t2, v_t3, v_t4, v_t5, v_t6, v_t7) = self; M::enc(v_t0, o); enc_opt(v_t1, o, Len::Varint); M::enc(v_t2, o); M::enc(v_t3, o); M::enc(v_t4, o); M::enc(v_t5, o); M::enc(v_t6, o); M::enc(v_t7, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: i64 = <i64 as M>::dec(i)?; let v_t1: Option<Vec<S66<'static>>> = i.or_default(Default::default, |i| dec_opt::<Vec<S66<'static>>>(i, Len::Varint))?; let v_t2: i64 = <i64 as M>::dec(i)?; let v_t3: f64 = <f64 as M>::dec(i)?; let v_t4: i16 = <i16 as M>::dec(i)?; let v_t5: HashMap<u8, i32> = <HashMap<u8, i32> as M>::dec(i)?; let v_t6: (S44, f32, char) = <(S44, f32, char) as M>::dec(i)?; let v_t7: Cow<'static, BTreeMap<u32, u128>> = <Cow<'static, BTreeMap<u32, u128>> as M>::dec(i)?; Ok(S68(v_t0, v_t1, v_t2, v_t3, v_t4, v_t5, v_t6, v_t7)) } }
#[derive(Writable, Readable, Clone)]
#[speedy(tag_type = u64)]
pub enum S69<'a> { V0 { kind: f64 }, #[speedy(tag = 256)] V1((S36<'a>, Vec<char>, u128, S36<'a>), Cow<'a, str>), #[speedy(tag = 5)] V2(S39<'a>) }
impl M for S69<'static> { const MIN: usize = 8 + min_of(&[0 + 0 + <f64 as M>::MIN , 0 + 0 + <(S36<'static>, Vec<char>, u128, S36<'static>) as M>::MIN + 0 + <Cow<'static, str> as M>::MIN , 0 + 0 + <S39<'static> as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(3); S69_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S69::V0{ kind: v_kind } => { tag(o, 0, Len::U64); M::enc(v_kind, o); }
    S69::V1(v_t0, v_t1) => { tag(o, 256, Len::U64); M::enc(v_t0, o); M::enc(v_t1, o); }
    S69::V2(v_t0) => { tag(o, 5, Len::U64); M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match untag(i, Len::U64)? {
    0 => { let v_kind: f64 = <f64 as M>::dec(i)?; Ok(S69::V0{ kind: v_kind }) }
    256 => { let v_t0: (S36<'static>, Vec<char>, u128, S36<'static>) = <(S36<'static>, Vec<char>, u128, S36<'static>) as M>::dec(i)?; let v_t1: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; Ok(S69::V1(v_t0, v_t1)) }
    5 => { let v_t0: S39<'static> = <S39<'static> as M>::dec(i)?; Ok(S69::V2(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S69_variant(s: &mut Src, k: usize) -> S69<'static> { s.nested(3, |s| match k {
    0 => { let v_kind: f64 = <f64 as M>::gen(s); S69::V0{ kind: v_kind } }
    1 => { let v_t0: (S36<'static>, Vec<char>, u128, S36<'static>) = <(S36<'static>, Vec<char>, u128, S36<'static>) as M>::gen(s); let v_t1: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); S69::V1(v_t0, v_t1) }
    _ => { let v_t0: S39<'static> = <S39<'static> as M>::gen(s); S69::V2(v_t0) }
  }) }
#[derive(Clone, Readable, Writable)]
#[repr(C)]
pub struct S70<X, Y> { pub bytes: [Y; 2], pub r#type: X }
impl<X: M, Y: M> M for S70<X, Y> { const MIN: usize = 0 + 0 + <[Y; 2] as M>::MIN + 0 + <X as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_bytes: [Y; 2] = <[Y; 2] as M>::gen(s); let v_type: X = <X as M>::gen(s); S70{ bytes: v_bytes, r#type: v_type } }) }
  fn enc(&self, o: &mut Out) { let S70{ bytes: v_bytes, r#type: v_type } = self; M::enc(v_bytes, o); M::enc(v_type, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_bytes: [Y; 2] = <[Y; 2] as M>::dec(i)?; let v_type: X = <X as M>::dec(i)?; Ok(S70{ bytes: v_bytes, r#type: v_type }) } }
#[derive(PartialOrd, PartialEq, Default, Writable, Ord, Eq, Hash, Copy, Readable, Clone)]
pub struct S71 {  }
impl M for S71 { const MIN: usize = 0;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| {  S71{  } }) }
  fn enc(&self, o: &mut Out) {   }
  fn dec(i: &mut In) -> Result<Self, DE> {  Ok(S71{  }) } }
#[derive(Writable, Readable, Clone)]
#[speedy(peek_tag, tag_type = u16)]
pub enum S72<'a> { V0 { this: u16, #[speedy(length_type = u16)] #[speedy(default_on_eof)] ctx: Cow<'a, HashSet<String>> }, V1(u16, String), V2 { x: u16 }, V3(u16, S70<u64, S70<u64, String>>), V4 { x: u16, #[speedy(length_type = u7)] name: Option<&'a [u8]> }, V5(u16), V6(u16, S49, #[speedy(length_type = u7, constant_prefix = false)] Option<Cow<'a, BTreeMap<u32, i64>>>), V7 { beta: u16, writer: f32, flag: Box<Vec<Option<f64>>> } }
impl M for S72<'static> { const MIN: usize = 0 + min_of(&[0 + 0 + <u16 as M>::MIN + 0 , 0 + 0 + <u16 as M>::MIN + 0 + <String as M>::MIN , 0 + 0 + <u16 as M>::MIN , 0 + 0 + <u16 as M>::MIN + 0 + <S70<u64, S70<u64, String>> as M>::MIN , 0 + 0 + <u16 as M>::MIN + 0 + 1 , 0 + 0 + <u16 as M>::MIN , 0 + 0 + <u16 as M>::MIN + 0 + <S49 as M>::MIN + 1 + 1 , 0 + 0 + <u16 as M>::MIN + 0 + <f32 as M>::MIN + 0 + <Box<Vec<Option<f64>>> as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(8); S72_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S72::V0{ this: v_this, ctx: v_ctx } => { if o.canon { o.u64(0) } M::enc(v_this, o); enc_lt(v_ctx, o, Len::U16); }
    S72::V1(v_t0, v_t1) => { if o.canon { o.u64(1) } M::enc(v_t0, o); M::enc(v_t1, o); }
    S72::V2{ x: v_x } => { if o.canon { o.u64(2) } M::enc(v_x, o); }
    S72::V3(v_t0, v_t1) => { if o.canon { o.u64(3) } M::enc(v_t0, o); M::enc(v_t1, o); }
    S72::V4{ x: v_x, name: v_name } => { if o.canon { o.u64(4) } M::enc(v_x, o); enc_opt(v_name, o, Len::U7); }
    S72::V5(v_t0) => { if o.canon { o.u64(5) } M::enc(v_t0, o); }
    S72::V6(v_t0, v_t1, v_t2) => { if o.canon { o.u64(6) } M::enc(v_t0, o); M::enc(v_t1, o); o.raw(&[0]);enc_opt(v_t2, o, Len::U7); }
    S72::V7{ beta: v_beta, writer: v_writer, flag: v_flag } => { if o.canon { o.u64(7) } M::enc(v_beta, o); M::enc(v_writer, o); M::enc(v_flag, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U16)? {
    0 => { let v_this: u16 = <u16 as M>::dec(i)?; let v_ctx: Cow<'static, HashSet<String>> = i.or_default(Default::default, |i| dec_lt::<Cow<'static, HashSet<String>>>(i, Len::U16))?; Ok(S72::V0{ this: v_this, ctx: v_ctx }) }
    1 => { let v_t0: u16 = <u16 as M>::dec(i)?; let v_t1: String = <String as M>::dec(i)?; Ok(S72::V1(v_t0, v_t1)) }
    2 => { let v_x: u16 = <u16 as M>::dec(i)?; Ok(S72::V2{ x: v_x }) }
    3 => { let v_t0: u16 = <u16 as M>::dec(i)?; let v_t1: S70<u64, S70<u64, String>> = <S70<u64, S70<u64, String>> as M>::dec(i)?; Ok(S72::V3(v_t0, v_t1)) }
    4 => { let v_x: u16 = <u16 as M>::dec(i)?; let v_name: Option<&'static [u8]> = dec_opt::<&'static [u8]>(i, Len::U7)?; Ok(S72::V4{ x: v_x, name: v_name }) }
    5 => { let v_t0: u16 = <u16 as M>::dec(i)?; Ok(S72::V5(v_t0)) }
    6 => { let v_t0: u16 = <u16 as M>::dec(i)?; let v_t1: S49 = <S49 as M>::dec(i)?; let v_t2: Option<Cow<'static, BTreeMap<u32, i64>>> = { prefix(i, &[0])?; dec_opt::<Cow<'static, BTreeMap<u32, i64>>>(i, Len::U7) }?; Ok(S72::V6(v_t0, v_t1, v_t2)) }
    7 => { let v_beta: u16 = <u16 as M>::dec(i)?; let v_writer: f32 = <f32 as M>::dec(i)?; let v_flag: Box<Vec<Option<f64>>> = <Box<Vec<Option<f64>>> as M>::dec(i)?; Ok(S72::V7{ beta: v_beta, writer: v_writer, flag: v_flag }) }
    _ => Err(DE::Bad) } } }
fn S72_variant(s: &mut Src, k: usize) -> S72<'static> { s.nested(3, |s| match k {
    0 => { let v_this: u16 = 0u64 as u16; let v_ctx: Cow<'static, HashSet<String>> = gen_lt::<Cow<'static, HashSet<String>>>(s, Len::U16); S72::V0{ this: v_this, ctx: v_ctx } }
    1 => { let v_t0: u16 = 1u64 as u16; let v_t1: String = <String as M>::gen(s); S72::V1(v_t0, v_t1) }
    2 => { let v_x: u16 = 2u64 as u16; S72::V2{ x: v_x } }
    3 => { let v_t0: u16 = 3u64 as u16; let v_t1: S70<u64, S70<u64, String>> = <S70<u64, S70<u64, String>> as M>::gen(s); S72::V3(v_t0, v_t1) }
    4 => { let v_x: u16 = 4u64 as u16; let v_name: Option<&'static [u8]> = gen_opt::<&'static [u8]>(s, Len::U7); S72::V4{ x: v_x, name: v_name } }
    5 => { let v_t0: u16 = 5u64 as u16; S72::V5(v_t0) }
    6 => { let v_t0: u16 = 6u64 as u16; let v_t1: S49 = <S49 as M>::gen(s); let v_t2: Option<Cow<'static, BTreeMap<u32, i64>>> = gen_opt::<Cow<'static, BTreeMap<u32, i64>>>(s, Len::U7); S72::V6(v_t0, v_t1, v_t2) }
    _ => { let v_beta: u16 = 7u64 as u16; let v_writer: f32 = <f32 as M>::gen(s); let v_flag: Box<Vec<Option<f64>>> = <Box<Vec<Option<f64>>> as M>::gen(s); S72::V7{ beta: v_beta, writer: v_writer, flag: v_flag } }
  }) }
#[derive(Readable, Hash, Clone, Eq, Writable, PartialEq, Default, PartialOrd, Ord, Copy)]
pub struct S73 { pub value: u32, pub ctx: char }
impl M for S73 { const MIN: usize = 0 + 0 + <u32 as M>::MIN + 0 + <char as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_value: u32 = <u32 as M>::gen(s); let v_ctx: char = <char as M>::gen(s); S73{ value: v_value, ctx: v_ctx } }) }
  fn enc(&self, o: &mut Out) { let S73{ value: v_value, ctx: v_ctx } = self; M::enc(v_value, o); M::enc(v_ctx, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_value: u32 = <u32 as M>::dec(i)?; let v_ctx: char = <char as M>::dec(i)?; Ok(S73{ value: v_value, ctx: v_ctx }) } }
#[derive(Readable, Hash, Default, Copy, PartialOrd, Ord, Eq, Clone, Writable, PartialEq)]
#[repr(packed)]
pub struct S74 { pub ctx: i64, pub bytes: u32, pub n: () }
impl M for S74 { const MIN: usize = 0 + 0 + <i64 as M>::MIN + 0 + <u32 as M>::MIN + 0 + <() as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_ctx: i64 = <i64 as M>::gen(s); let v_bytes: u32 = <u32 as M>::gen(s); let v_n: () = <() as M>::gen(s); S74{ ctx: v_ctx, bytes: v_bytes, n: v_n } }) }
  fn enc(&self, o: &mut Out) { let S74{ ctx: v_ctx, bytes: v_bytes, n: v_n } = *self; let (v_ctx, v_bytes, v_n,) = (&v_ctx, &v_bytes, &v_n,); M::enc(v_ctx, o); M::enc(v_bytes, o); M::enc(v_n, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_ctx: i64 = <i64 as M>::dec(i)?; let v_bytes: u32 = <u32 as M>::dec(i)?; let v_n: () = <() as M>::dec(i)?; Ok(S74{ ctx: v_ctx, bytes: v_bytes, n: v_n }) } }
#[derive(Clone, Readable, Writable)]
pub struct S75<X, Y> { pub error: Vec<Y>, pub x: Option<X>, pub sum: X, pub this: Option<X> }
impl<X: M, Y: M> M for S75<X, Y> { const MIN: usize = 0 + 0 + <Vec<Y> as M>::MIN + 0 + <Option<X> as M>::MIN + 0 + <X as M>::MIN + 0 + <Option<X> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(4, |s| { let v_error: Vec<Y> = <Vec<Y> as M>::gen(s); let v_x: Option<X> = <Option<X> as M>::gen(s); let v_sum: X = <X as M>::gen(s); let v_this: Option<X> = <Option<X> as M>::gen(s); S75{ error: v_error, x: v_x, sum: v_sum, this: v_this } }) }
  fn enc(&self, o: &mut Out) { let S75{ error: v_error, x: v_x, sum: v_sum, this: v_this } = self; M::enc(v_error, o); M::enc(v_x, o); M::enc(v_sum, o); M::enc(v_this, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_error: Vec<Y> = <Vec<Y> as M>::dec(i)?; let v_x: Option<X> = <Option<X> as M>::dec(i)?; let v_sum: X = <X as M>::dec(i)?; let v_this: Option<X> = <Option<X> as M>::dec(i)?; Ok(S75{ error: v_error, x: v_x, sum: v_sum, this: v_this }) } }
#[derive(Eq, Hash, Clone, Ord, Copy, PartialEq, Readable, Writable, Default, PartialOrd)]
#[repr(packed)]
pub struct S76(pub [u8; 0]);
impl M for S76 { const MIN: usize = 0 + 0 + <[u8; 0] as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(1, |s| { let v_t0: [u8; 0] = <[u8; 0] as M>::gen(s); S76(v_t0) }) }
  fn enc(&self, o: &mut Out) { let S76(v_t0) = *self; let (v_t0,) = (&v_t0,); M::enc(v_t0, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: [u8; 0] = <[u8; 0] as M>::dec(i)?; Ok(S76(v_t0)) } }
#[derive(Readable, Clone, Writable)]
pub struct S77<'a> { pub data: S46, pub tag: u16, pub r#type: Cow<'a, str>, #[speedy(skip)] pub this: Option<S75<u8, String>>, pub field: Cow<'a, HashSet<u64>>, pub length: S75<u8, String> }
impl M for S77<'static> { const MIN: usize = 0 + 0 + <S46 as M>::MIN + 0 + <u16 as M>::MIN + 0 + <Cow<'static, str> as M>::MIN + 0 + 0 + <Cow<'static, HashSet<u64>> as M>::MIN + 0 + <S75<u8, String> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(6, |s| { let v_data: S46 = <S46 as M>::gen(s); let v_tag: u16 = <u16 as M>::gen(s); let v_type: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_this: Option<S75<u8, String>> = <Option<S75<u8, String>> as M>::gen(s); let v_field: Cow<'static, HashSet<u64>> = <Cow<'static, HashSet<u64>> as M>::gen(s); let v_length: S75<u8, String> = <S75<u8, String> as M>::gen(s); S77{ data: v_data, tag: v_tag, r#type: v_type, this: v_this, field: v_field, length: v_length } }) }
  fn enc(&self, o: &mut Out) { let S77{ data: v_data, tag: v_tag, r#type: v_type, this: v_this, field: v_field, length: v_length } = self; M::enc(v_data, o); M::enc(v_tag, o); M::enc(v_type, o); enc_skip(v_this, o); M::enc(v_field, o); M::enc(v_length, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_data: S46 = <S46 as M>::dec(i)?; let v_tag: u16 = <u16 as M>::dec(i)?; let v_type: Cow<'static, str> = <Cow<'static, str> as M>::dec(i)?; let v_this: Option<S75<u8, String>> = Default::default(); let v_field: Cow<'static, HashSet<u64>> = <Cow<'static, HashSet<u64>> as M>::dec(i)?; let v_length: S75<u8, String> = <S75<u8, String> as M>::dec(i)?; Ok(S77{ data: v_data, tag: v_tag, r#type: v_type, this: v_this, field: v_field, length: v_length }) } }
#[derive(Eq, Readable, Writable, PartialEq, PartialOrd, Copy, Hash, Default, Ord, Clone)]
pub struct S78(pub u32, pub usize, pub u64, pub [S76; 0], pub u16);
impl M for S78 { const MIN: usize = 0 + 0 + <u32 as M>::MIN + 0 + <usize as M>::MIN + 0 + <u64 as M>::MIN + 0 + <[S76; 0] as M>::MIN + 0 + <u16 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(5, |s| { let v_t0: u32 = <u32 as M>::gen(s); let v_t1: usize = <usize as M>::gen(s); let v_t2: u64 = <u64 as M>::gen(s); let v_t3: [S76; 0] = <[S76; 0] as M>::gen(s); let v_t4: u16 = <u16 as M>::gen(s); S78(v_t0, v_t1, v_t2, v_t3, v_t4) }) }
  fn enc(&self, o: &mut Out) { let S78(v_t0, v_t1, v_t2, v_t3, v_t4) = self; M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); M::enc(v_t3, o); M::enc(v_t4, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: u32 = <u32 as M>::dec(i)?; let v_t1: usize = <usize as M>::dec(i)?; let v_t2: u64 = <u64 as M>::dec(i)?; let v_t3: [S76; 0] = <[S76; 0] as M>::dec(i)?; let v_t4: u16 = <u16 as M>::dec(i)?; Ok(S78(v_t0, v_t1, v_t2, v_t3, v_t4)) } }
#[derive(PartialOrd, Ord, Copy, Clone, PartialEq, Readable, Default, Writable, Eq, Hash)]
pub struct S79(pub i64, #[speedy(varint)] pub u64);
impl M for S79 { const MIN: usize = 0 + 0 + <i64 as M>::MIN + 0 + 1;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_t0: i64 = <i64 as M>::gen(s); let v_t1: u64 = s.int(64); S79(v_t0, v_t1) }) }
  fn enc(&self, o: &mut Out) { let S79(v_t0, v_t1) = self; M::enc(v_t0, o); o.varint(*v_t1); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: i64 = <i64 as M>::dec(i)?; let v_t1: u64 = i.varint()?; Ok(S79(v_t0, v_t1)) } }
#[derive(Readable, Clone, Writable, Default)]
pub struct S80 { pub tag: u32, #[speedy(varint)] pub kind: u64, #[speedy(default_on_eof)] #[speedy(constant_prefix = true)] #[speedy(length_type = u64_varint)] pub flag: HashMap<char, u32>, pub alpha: String }
impl M for S80 { const MIN: usize = 0 + 0 + <u32 as M>::MIN + 0 + 1 + 0 + 0 + <String as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(4, |s| { let v_tag: u32 = <u32 as M>::gen(s); let v_kind: u64 = s.int(64); let v_flag: HashMap<char, u32> = gen_lt::<HashMap<char, u32>>(s, Len::Varint); let v_alpha: String = <String as M>::gen(s); S80{ tag: v_tag, kind: v_kind, flag: v_flag, alpha: v_alpha } }) }
  fn enc(&self, o: &mut Out) { let S80{ tag: v_tag, kind: v_kind, flag: v_flag, alpha: v_alpha } = self; M::enc(v_tag, o); o.varint(*v_kind); o.raw(&[1]);enc_lt(v_flag, o, Len::Varint); M::enc(v_alpha, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_tag: u32 = <u32 as M>::dec(i)?; let v_kind: u64 = i.varint()?; let v_flag: HashMap<char, u32> = i.or_default(Default::default, |i| { prefix(i, &[1])?; dec_lt::<HashMap<char, u32>>(i, Len::Varint) })?; let v_alpha: String = <String as M>::dec(i)?; Ok(S80{ tag: v_tag, kind: v_kind, flag: v_flag, alpha: v_alpha }) } }
#[derive(Hash, PartialOrd, Eq, Readable, Default, PartialEq, Writable, Copy, Clone, Ord)]
#[repr(packed)]
pub struct S81 { pub flag: u16, pub writer: u16, pub beta: () }
impl M for S81 { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + <u16 as M>::MIN + 0 + <() as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_flag: u16 = <u16 as M>::gen(s); let v_writer: u16 = <u16 as M>::gen(s); let v_beta: () = <() as M>::gen(s); S81{ flag: v_flag, writer: v_writer, beta: v_beta } }) }
  fn enc(&self, o: &mut Out) { let S81{ flag: v_flag, writer: v_writer, beta: v_beta } = *self; let (v_flag, v_writer, v_beta,) = (&v_flag, &v_writer, &v_beta,); M::enc(v_flag, o); M::enc(v_writer, o); M::enc(v_beta, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_flag: u16 = <u16 as M>::dec(i)?; let v_writer: u16 = <u16 as M>::dec(i)?; let v_beta: () = <() as M>::dec(i)?; Ok(S81{ flag: v_flag, writer: v_writer, beta: v_beta }) } }
#[derive(Clone, Readable, Default, Writable)]
pub struct S82<'a> { pub data: u16, pub out: i32, #[speedy(length_type = u64_varint)] pub item: Option<&'a str>, #[speedy(varint)] pub length: u64, pub error: Box<bool> }
impl M for S82<'static> { const MIN: usize = 0 + 0 + <u16 as M>::MIN + 0 + <i32 as M>::MIN + 0 + 1 + 0 + 1 + 0 + <Box<bool> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(5, |s| { let v_data: u16 = <u16 as M>::gen(s); let v_out: i32 = <i32 as M>::gen(s); let v_item: Option<&'static str> = gen_opt::<&'static str>(s, Len::Varint); let v_length: u64 = s.int(64); let v_error: Box<bool> = <Box<bool> as M>::gen(s); S82{ data: v_data, out: v_out, item: v_item, length: v_length, error: v_error } }) }
  fn enc(&self, o: &mut Out) { let S82{ data: v_data, out: v_out, item: v_item, length: v_length, error: v_error } = self; M::enc(v_data, o); M::enc(v_out, o); enc_opt(v_item, o, Len::Varint); o.varint(*v_length); M::enc(v_error, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_data: u16 = <u16 as M>::dec(i)?; let v_out: i32 = <i32 as M>::dec(i)?; let v_item: Option<&'static str> = dec_opt::<&'static str>(i, Len::Varint)?; let v_length: u64 = i.varint()?; let v_error: Box<bool> = <Box<bool> as M>::dec(i)?; Ok(S82{ data: v_data, out: v_out, item: v_item, length: v_length, error: v_error }) } }
#[derive(Writable, Readable, Default, Clone)]
pub struct S83(pub u128, pub HashSet<S11>, pub BTreeMap<S2, [f64; 5]>);
impl M for S83 { const MIN: usize = 0 + 0 + <u128 as M>::MIN + 0 + <HashSet<S11> as M>::MIN + 0 + <BTreeMap<S2, [f64; 5]> as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(3, |s| { let v_t0: u128 = <u128 as M>::gen(s); let v_t1: HashSet<S11> = <HashSet<S11> as M>::gen(s); let v_t2: BTreeMap<S2, [f64; 5]> = <BTreeMap<S2, [f64; 5]> as M>::gen(s); S83(v_t0, v_t1, v_t2) }) }
  fn enc(&self, o: &mut Out) { let S83(v_t0, v_t1, v_t2) = self; M::enc(v_t0, o); M::enc(v_t1, o); M::enc(v_t2, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_t0: u128 = <u128 as M>::dec(i)?; let v_t1: HashSet<S11> = <HashSet<S11> as M>::dec(i)?; let v_t2: BTreeMap<S2, [f64; 5]> = <BTreeMap<S2, [f64; 5]> as M>::dec(i)?; Ok(S83(v_t0, v_t1, v_t2)) } }
#[derive(Clone, Default, Readable, Writable)]
pub struct S84<'a> { #[speedy(constant_prefix = b"\x00\xff")] pub x: Cow<'a, str>, pub field: u8 }
impl M for S84<'static> { const MIN: usize = 0 + 2 + <Cow<'static, str> as M>::MIN + 0 + <u8 as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_x: Cow<'static, str> = <Cow<'static, str> as M>::gen(s); let v_field: u8 = <u8 as M>::gen(s); S84{ x: v_x, field: v_field } }) }
  fn enc(&self, o: &mut Out) { let S84{ x: v_x, field: v_field } = self; o.raw(&[0, 255]);M::enc(v_x, o); M::enc(v_field, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_x: Cow<'static, str> = { prefix(i, &[0, 255])?; <Cow<'static, str> as M>::dec(i) }?; let v_field: u8 = <u8 as M>::dec(i)?; Ok(S84{ x: v_x, field: v_field }) } }
#[derive(PartialEq, Hash, Ord, Writable, Clone, PartialOrd, Eq, Copy, Readable)]
#[speedy(peek_tag)]
pub enum S85 { V0 { sum: u32 }, V1(u32) }
impl M for S85 { const MIN: usize = 0 + min_of(&[0 + 0 + <u32 as M>::MIN , 0 + 0 + <u32 as M>::MIN]);
  fn gen(s: &mut Src) -> Self { let k = s.usize_below(2); S85_variant(s, k) }
  fn enc(&self, o: &mut Out) { match self {
    S85::V0{ sum: v_sum } => { if o.canon { o.u64(0) } M::enc(v_sum, o); }
    S85::V1(v_t0) => { if o.canon { o.u64(1) } M::enc(v_t0, o); }
  } }
  fn dec(i: &mut In) -> Result<Self, DE> { match peek(i, Len::U32)? {
    0 => { let v_sum: u32 = <u32 as M>::dec(i)?; Ok(S85::V0{ sum: v_sum }) }
    1 => { let v_t0: u32 = <u32 as M>::dec(i)?; Ok(S85::V1(v_t0)) }
    _ => Err(DE::Bad) } } }
fn S85_variant(s: &mut Src, k: usize) -> S85 { s.nested(3, |s| match k {
    0 => { let v_sum: u32 = 0u64 as u32; S85::V0{ sum: v_sum } }
    _ => { let v_t0: u32 = 1u64 as u32; S85::V1(v_t0) }
  }) }
#[derive(Default, PartialEq, Hash, Clone, Ord, PartialOrd, Copy, Eq, Writable, Readable)]
pub struct S86 { pub field: usize, pub slice: [S6; 3] }
impl M for S86 { const MIN: usize = 0 + 0 + <usize as M>::MIN + 0 + <[S6; 3] as M>::MIN;
  fn gen(s: &mut Src) -> Self { s.nested(2, |s| { let v_field: usize = <usize as M>::gen(s); let v_slice: [S6; 3] = <[S6; 3] as M>::gen(s); S86{ field: v_field, slice: v_slice } }) }
  fn enc(&self, o: &mut Out) { let S86{ field: v_field, slice: v_slice } = self; M::enc(v_field, o); M::enc(v_slice, o); }
  fn dec(i: &mut In) -> Result<Self, DE> { let v_field: usize = <usize as M>::dec(i)?; let v_slice: [S6; 3] = <[S6; 3] as M>::dec(i)?; Ok(S86{ field: v_field, slice: v_slice }) } }
pub fn types() -> Vec<Ty> { let mut v = Vec::new();
  v.push(ty::<S0>("S0", DERIVED));
  v.push(ty::<Cow<'static, [S0]>>("Cow<'static, [S0]>", DERIVED));
  v.push(ty::<S1>("S1", DERIVED));
  v.push(ty::<Vec<S1>>("Vec<S1>", DERIVED | ZST));
  v.push(ty::<S2>("S2", DERIVED));
  v.push(ty::<Box<[S2]>>("Box<[S2]>", DERIVED));
  v.push(ty::<S3>("S3", DERIVED));
  v.push(ty::<[S3; 2]>("[S3; 2]", DERIVED));
  v.push(ty::<S4>("S4", DERIVED));
  v.push(ty::<[S4; 3]>("[S4; 3]", DERIVED | ZST));
  v.push(ty::<S5>("S5", DERIVED));
  v.push(ty::<S6>("S6", DERIVED));
  v.push(ty::<Vec<S6>>("Vec<S6>", DERIVED));
  v.push(ty::<S7>("S7", DERIVED));
  v.push(ty::<S8>("S8", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S9>("S9", DERIVED | EOFSENS | ZST));
  v.push(ty::<S10>("S10", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S11>("S11", DERIVED));
  v.push(ty::<S12>("S12", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<Option<S12>>("Option<S12>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S13>("S13", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Cow<'static, [S13]>>("Cow<'static, [S13]>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S14<'static>>("S14<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S14<'static>>>("Vec<S14<'static>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S15<'static>>("S15<'static>", DERIVED | BORROW | NONUNIQUE | COLLECTION));
  v.push(ty::<Option<S15<'static>>>("Option<S15<'static>>", DERIVED | BORROW | NONUNIQUE | COLLECTION));
  v.push(ty::<S16<'static>>("S16<'static>", DERIVED | BORROW | NONUNIQUE | COLLECTION));
  v.push(ty::<S17>("S17", DERIVED | EOFSENS | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<(S17, u16)>("(S17, u16)", DERIVED | EOFSENS | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S18<'static>>("S18<'static>", DERIVED | BORROW | NONUNIQUE | COLLECTION));
  v.push(ty::<Option<S18<'static>>>("Option<S18<'static>>", DERIVED | BORROW | NONUNIQUE | COLLECTION));
  v.push(ty::<S19<'static>>("S19<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<[S19<'static>; 3]>("[S19<'static>; 3]", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S20>("S20", DERIVED));
  v.push(ty::<S21>("S21", DERIVED));
  v.push(ty::<S22>("S22", DERIVED));
  v.push(ty::<Box<[S22]>>("Box<[S22]>", DERIVED));
  v.push(ty::<S23>("S23", DERIVED));
  v.push(ty::<S24>("S24", DERIVED));
  v.push(ty::<Cow<'static, [S24]>>("Cow<'static, [S24]>", DERIVED));
  v.push(ty::<S25>("S25", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<(S25, u16)>("(S25, u16)", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S26>("S26", DERIVED));
  v.push(ty::<S27>("S27", DERIVED));
  v.push(ty::<Option<S27>>("Option<S27>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S28>("S28", DERIVED));
  v.push(ty::<S29>("S29", DERIVED));
  v.push(ty::<S30>("S30", DERIVED));
  v.push(ty::<S31>("S31", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S32<'static>>("S32<'static>", DERIVED));
  v.push(ty::<S33<'static>>("S33<'static>", DERIVED));
  v.push(ty::<S34<'static>>("S34<'static>", DERIVED));
  v.push(ty::<S35<'static>>("S35<'static>", DERIVED));
  v.push(ty::<(S35<'static>, u16)>("(S35<'static>, u16)", DERIVED));
  v.push(ty::<S36<'static>>("S36<'static>", DERIVED));
  v.push(ty::<Option<S36<'static>>>("Option<S36<'static>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S37<'static>>("S37<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S38<'static>>("S38<'static>", DERIVED));
  v.push(ty::<S39<'static>>("S39<'static>", DERIVED));
  v.push(ty::<S40<'static>>("S40<'static>", DERIVED));
  v.push(ty::<S41<'static>>("S41<'static>", DERIVED));
  v.push(ty::<S42<'static>>("S42<'static>", DERIVED));
  v.push(ty::<S43<'static>>("S43<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S44>("S44", DERIVED));
  v.push(ty::<(S44, u16)>("(S44, u16)", DERIVED));
  v.push(ty::<S45>("S45", DERIVED));
  v.push(ty::<S46>("S46", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S47>("S47", DERIVED));
  v.push(ty::<Vec<S47>>("Vec<S47>", DERIVED));
  v.push(ty::<S48>("S48", DERIVED));
  v.push(ty::<S49>("S49", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S50>("S50", DERIVED));
  v.push(ty::<S51>("S51", DERIVED));
  v.push(ty::<S52>("S52", DERIVED));
  v.push(ty::<S53>("S53", DERIVED));
  v.push(ty::<S54>("S54", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S55>("S55", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S56>("S56", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S57>("S57", DERIVED));
  v.push(ty::<S58>("S58", DERIVED));
  v.push(ty::<S59>("S59", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S60>("S60", DERIVED));
  v.push(ty::<S61>("S61", DERIVED | EOFSENS));
  v.push(ty::<S62>("S62", DERIVED));
  v.push(ty::<S63>("S63", DERIVED | EOFSENS));
  v.push(ty::<S64>("S64", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S64>>("Vec<S64>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S65<'static>>("S65<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S66<'static>>("S66<'static>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Cow<'static, [S66<'static>]>>("Cow<'static, [S66<'static>]>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S67<u16>>("S67<u16>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Vec<S67<u16>>>("Vec<S67<u16>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S67<Option<u8>>>("S67<Option<u8>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Vec<S67<Option<u8>>>>("Vec<S67<Option<u8>>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S68<'static>>("S68<'static>", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S69<'static>>("S69<'static>", DERIVED));
  v.push(ty::<(S69<'static>, u16)>("(S69<'static>, u16)", DERIVED));
  v.push(ty::<S70<u64, String>>("S70<u64, String>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S70<u64, String>>>("Vec<S70<u64, String>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S70<u64, S70<u64, String>>>("S70<u64, S70<u64, String>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Vec<S70<u64, S70<u64, String>>>>("Vec<S70<u64, S70<u64, String>>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S71>("S71", DERIVED));
  v.push(ty::<Box<[S71]>>("Box<[S71]>", DERIVED | ZST));
  v.push(ty::<S72<'static>>("S72<'static>", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<[S72<'static>; 3]>("[S72<'static>; 3]", DERIVED | BORROW | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S73>("S73", DERIVED));
  v.push(ty::<Vec<S73>>("Vec<S73>", DERIVED));
  v.push(ty::<S74>("S74", DERIVED));
  v.push(ty::<S75<u8, String>>("S75<u8, String>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Vec<S75<u8, String>>>("Vec<S75<u8, String>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S75<String, (u8, u32)>>("S75<String, (u8, u32)>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Vec<S75<String, (u8, u32)>>>("Vec<S75<String, (u8, u32)>>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S76>("S76", DERIVED));
  v.push(ty::<[S76; 2]>("[S76; 2]", DERIVED | ZST));
  v.push(ty::<S77<'static>>("S77<'static>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<Cow<'static, [S77<'static>]>>("Cow<'static, [S77<'static>]>", DERIVED | NONUNIQUE | COLLECTION | ZST));
  v.push(ty::<S78>("S78", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Box<[S78]>>("Box<[S78]>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S79>("S79", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<(S79, u16)>("(S79, u16)", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S80>("S80", DERIVED | EOFSENS | NONUNIQUE | COLLECTION));
  v.push(ty::<S81>("S81", DERIVED));
  v.push(ty::<Vec<S81>>("Vec<S81>", DERIVED));
  v.push(ty::<S82<'static>>("S82<'static>", DERIVED | BORROW | NONUNIQUE | COLLECTION));
  v.push(ty::<S83>("S83", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<Option<S83>>("Option<S83>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S84<'static>>("S84<'static>", DERIVED));
  v.push(ty::<Option<S84<'static>>>("Option<S84<'static>>", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<S85>("S85", DERIVED));
  v.push(ty::<(S85, u16)>("(S85, u16)", DERIVED));
  v.push(ty::<S86>("S86", DERIVED | NONUNIQUE | COLLECTION));
  v.push(ty::<(S86, u16)>("(S86, u16)", DERIVED | NONUNIQUE | COLLECTION));
  v }
