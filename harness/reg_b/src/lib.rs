//! Registry: collections, wrappers, nestings.
use model::flags::*;
use model::{tys, Ty};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::net::*;
use std::num::*;
use std::ops::*;
use std::sync::atomic::*;

#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 % 3 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
}
pub type BadHash = BuildHasherDefault<Fnv>;
pub fn types() -> Vec<Ty> {
    let mut v = Vec::new();
    let b = BUILTIN;
    let c = b | NONUNIQUE | COLLECTION;
    tys!(v, c; BTreeMap<u8, u8>, BTreeMap<u16, u32>, BTreeMap<i8, u64>, BTreeMap<u64, f32>, BTreeMap<String, Vec<u8>>, BTreeMap<u32, Option<String>>, BTreeMap<u8, BTreeMap<u16, u8>>, BTreeMap<[u8; 2], u16>);
    tys!(v, c; HashMap<u8, u8>, HashMap<u16, u16>, HashMap<u32, f64>, HashMap<i64, u8>, HashMap<String, u32>, HashMap<char, String>, HashMap<u16, u8, BadHash>, HashMap<u32, Vec<u16>>);
    tys!(v, c; BTreeSet<u8>, BTreeSet<i16>, BTreeSet<u32>, BTreeSet<u128>, BTreeSet<String>, BTreeSet<(u8, u16)>);
    tys!(v, c; HashSet<u8>, HashSet<u16>, HashSet<i64>, HashSet<String>, HashSet<u32, BadHash>, HashSet<Vec<u8>>);
    tys!(v, c; Cow<'static, HashSet<u16>>, Cow<'static, BTreeSet<u32>>, Cow<'static, HashMap<u8, u16>>, Cow<'static, BTreeMap<u32, String>>);
    tys!(v, c | ZST; BTreeSet<()>, BTreeMap<(), ()>, BTreeMap<u8, ()>, HashMap<(), u8>);
    tys!(v, b; Range<u16>, Range<String>, RangeInclusive<i64>, RangeInclusive<u8>, Vec<Range<u32>>, RangeInclusive<Vec<u8>>);
    tys!(v, b | NONUNIQUE; Option<u8>, Option<u64>, Option<String>, Option<Option<u16>>, Option<Vec<u32>>, Option<Box<u32>>, Option<()>, Option<NonZeroU32>);
    tys!(v, b | NONUNIQUE; Result<u8, u64>, Result<String, ()>, Result<(), ()>, Result<Vec<u16>, char>, Option<Result<u8, Option<i8>>>);
    tys!(v, b; (u8,), (u8, u16), (u32, u8, u64), (u8, String, u16, i8), (u8, u8, u8, u8, u32), (u16, u8, u16, u8, u16, u8), (u8, u16, u32, u64, u128, i8, i16), (u8, u16, u32, u64, i8, i16, i32, i64), (u8, u16, u8, u16, u8, u16, u8, u16, u8), (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16), (u8, u16, u32, u8, u16, u32, u8, u16, u32, String, i128));
    tys!(v, b | NONUNIQUE; (bool, Option<u8>), Vec<(Option<u8>, bool, String)>);
    tys!(v, b; speedy::Endianness, Vec<speedy::Endianness>);
    tys!(v, b; NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, Vec<NonZeroU16>, [NonZeroU8; 3]);
    tys!(v, b; AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicI8, AtomicI16, AtomicI32, AtomicI64, Vec<AtomicU16>);
    tys!(v, b; Ipv4Addr, Ipv6Addr, IpAddr, Vec<IpAddr>, Vec<Ipv6Addr>);
    tys!(v, b | NONUNIQUE; std::time::Duration, std::time::SystemTime, Vec<std::time::Duration>, (u8, std::time::SystemTime));
    tys!(v, b | NONUNIQUE; speedy::private::VarInt64, Vec<speedy::private::VarInt64>, (speedy::private::VarInt64, u16));
    tys!(v, b; Box<u8>, Box<String>, Box<(u16, Vec<u8>)>, Box<[Box<u16>]>, Vec<Box<str>>, Box<Box<u64>>);
    tys!(v, b | NONUNIQUE; Vec<BTreeMap<u8, Vec<String>>>, Option<HashMap<u8, Option<u16>>>, [Option<Vec<char>>; 2], Vec<Option<Cow<'static, str>>>, Vec<Cow<'static, [u16]>>);
    v
}
