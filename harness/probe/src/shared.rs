//! Type definitions which the probe serves and the check has models of.
#![allow(dead_code)]
use speedy::{Readable, Writable};
#[cfg(feature = "alloc")]
use std::{borrow::Cow, collections::{BTreeMap, BTreeSet}};
#[cfg(feature = "std")]
use std::collections::{HashMap, HashSet};

#[derive(Readable, Writable, Clone, Debug)] pub struct Plain { pub a: u8, pub b: u32, pub c: u16, pub d: i128, pub e: char }
#[derive(Readable, Writable, Clone, Copy, Debug)] #[repr(C)] pub struct Flat { pub a: u16, pub b: i16, pub c: u32 }
#[derive(Readable, Writable, Clone, Copy, Debug)] #[repr(packed)] pub struct Tight { pub a: u8, pub b: u64, pub c: f32 }
#[derive(Readable, Writable, Clone, Copy, Debug)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct Byte { pub a: u8, pub b: [i8; 2] }
#[derive(Readable, Writable, Clone, Copy, Debug)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct Units { pub a: u16, pub b: i16, pub c: f32 }
#[derive(Readable, Writable, Clone, Debug)] pub struct Mixed { pub a: Flat, pub b: Option<bool>, pub c: [u16; 3], pub d: (u8, u64), pub e: usize }
#[derive(Readable, Writable, Clone, Debug)] pub struct Pair<A, B>(pub A, pub B, pub [A; 2]);
#[derive(Readable, Writable, Clone, Debug)] #[repr(transparent)] pub struct Trans(pub u32);
#[derive(Readable, Writable, Clone, Debug)] pub struct NoFields;
#[derive(Readable, Writable, Clone, Debug)] #[speedy(tag_type = u8)] pub enum Small { A, B(u16), C { x: u8, y: u32 }, #[speedy(tag = 200)] D(Flat), E(Option<char>) }
#[derive(Readable, Writable, Clone, Debug)] pub enum Wide { A(u64), #[speedy(tag = 0x01020304)] B, C([u16; 2]) }
#[derive(Readable, Writable, Clone, Copy, Debug)] #[speedy(tag_type = u16)] #[repr(u16)] pub enum Discr { A = 3, B = 0x1234, C, D = 0 }
#[derive(Readable, Writable, Clone, Debug)] pub struct Nums { #[speedy(varint)] pub a: u64, pub b: u8, #[speedy(varint)] pub c: u64 }
#[derive(Readable, Writable, Clone, Debug)] pub struct Skips { pub a: u16, #[speedy(skip)] pub b: u64, pub c: u8, #[speedy(default_on_eof)] pub d: u32, #[speedy(default_on_eof)] pub e: Option<u8> }
#[derive(Readable, Writable, Clone, Debug)] pub struct Text<'a> { pub a: u16, pub b: &'a [u8], pub c: &'a str, pub d: u8 }
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Clone, Debug)] pub struct Lens { #[speedy(length_type = u8)] pub a: String, #[speedy(length_type = u16)] pub b: Vec<u32>, #[speedy(length_type = u64)] pub c: Vec<u8>, #[speedy(length_type = u64_varint)] pub d: Vec<u16>, #[speedy(length_type = u7)] pub e: Vec<Option<u8>>, pub f: Vec<Flat>, #[speedy(length_type = u8)] pub g: Option<Vec<u64>>, #[speedy(length_type = u16)] pub h: BTreeMap<u8, u16> }
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Clone, Debug)] pub struct Given { pub n: u8, #[speedy(length = n)] pub a: Vec<u16>, pub m: u16, #[speedy(length = m)] pub b: String, #[speedy(length = n)] pub c: BTreeSet<u32> }
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Clone, Debug)] pub struct Rest { pub a: u32, #[speedy(length = ..)] pub b: Vec<u16> }
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Clone, Debug)] pub struct Late { pub a: u8, #[speedy(default_on_eof)] pub b: u16, #[speedy(default_on_eof)] pub c: u64 }
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Clone, Debug)] #[speedy(tag_type = u64_varint)] pub enum Deep<'a> { A(Vec<Small>), B { x: Box<Wide>, y: Vec<(u8, Plain)> }, #[speedy(tag = 70000)] C(Cow<'a, str>) }
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Clone, Debug)] pub struct Magic { #[speedy(constant_prefix = "\x7fMGC")] pub a: u32, #[speedy(constant_prefix = 7_u8)] pub b: String }
#[cfg(feature = "std")]
#[derive(Readable, Writable, Clone, Debug)] pub struct Tables { #[speedy(length_type = u8)] pub a: HashMap<u8, u16>, #[speedy(length_type = u64_varint)] pub b: HashSet<u32> }
