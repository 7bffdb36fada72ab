//! Registry: primitives, strings, sequences.
use model::flags::*;
use model::{tys, Ty};
use std::borrow::Cow;

pub fn types() -> Vec<Ty> {
    let mut v = Vec::new();
    let b = BUILTIN;
    tys!(v, b; u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, usize, char, ());
    tys!(v, b | NONUNIQUE; bool);
    tys!(v, b; String, Box<str>, Cow<'static, str>);
    tys!(v, b; Vec<u8>, Vec<i8>, Vec<u16>, Vec<i16>, Vec<u32>, Vec<i32>, Vec<u64>, Vec<i64>, Vec<u128>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<usize>, Vec<char>, Vec<String>, Vec<Vec<u16>>, Vec<(u8, u32)>);
    tys!(v, b | NONUNIQUE; Vec<bool>, Vec<Option<u16>>);
    tys!(v, b; Box<[u8]>, Box<[u64]>, Box<[String]>);
    tys!(v, b; Cow<'static, [u8]>, Cow<'static, [i8]>, Cow<'static, [u16]>, Cow<'static, [i32]>, Cow<'static, [u64]>, Cow<'static, [u128]>, Cow<'static, [f64]>, Cow<'static, [String]>, Cow<'static, [(u8, u16)]>);
    tys!(v, b | BORROW; &'static str, &'static [u8], &'static [i8], &'static [u8; 5], &'static [i8; 3]);
    tys!(v, b; [u8; 0], [u8; 7], [u16; 3], [i64; 4], [u128; 2], [f32; 5], [String; 2], [Vec<u32>; 2], [[u16; 2]; 3], [char; 2], [u32; 40], Vec<[u32; 3]>, Vec<[u8; 33]>, [(u8, u16); 3]);
    tys!(v, b | ZST; Vec<()>, Vec<[u8; 0]>, Box<[()]>, [(); 3], Cow<'static, [()]>);
    v
}
