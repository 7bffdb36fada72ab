use model::{In, Out, DE, M};
use pbt::io::{Sched, ScriptRead, ScriptWrite};
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};

/// Hashers: everything collides; only a few buckets; a fair one that depends on nothing.
#[derive(Clone, Copy, Default)]
struct Same;
struct SameH;
impl Hasher for SameH { fn finish(&self) -> u64 { 42 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Same { type Hasher = SameH; fn build_hasher(&self) -> SameH { SameH } }
#[derive(Clone, Copy, Default)]
struct Few;
struct FewH(u64);
impl Hasher for FewH { fn finish(&self) -> u64 { (self.0 % 5) << 60 | self.0 % 5 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64); } } }
impl BuildHasher for Few { type Hasher = FewH; fn build_hasher(&self) -> FewH { FewH(0) } }

/// Ordered backwards.
#[derive(speedy::Readable, speedy::Writable, Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Rev(u16);
impl Ord for Rev { fn cmp(&self, o: &Rev) -> std::cmp::Ordering { o.0.cmp(&self.0) } }
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Rev) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl M for Rev {
    const MIN: usize = 2;
    fn gen(s: &mut Src) -> Self { Rev(s.int(16) as u16) }
    fn enc(&self, o: &mut Out) { o.u16(self.0) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Rev(i.u16()?)) }
    fn nth(k: u64) -> Option<Self> { Some(Rev(k as u16)) }
}
/// Equal and ordered by part of its contents only.
#[derive(speedy::Readable, speedy::Writable, Clone, Copy, Debug)]
struct Part { id: u8, tag: u8 }
impl PartialEq for Part { fn eq(&self, o: &Part) -> bool { self.id == o.id } }
impl Eq for Part {}
impl Hash for Part { fn hash<H: Hasher>(&self, h: &mut H) { self.id.hash(h) } }
impl Ord for Part { fn cmp(&self, o: &Part) -> std::cmp::Ordering { self.id.cmp(&o.id) } }
impl PartialOrd for Part { fn partial_cmp(&self, o: &Part) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl M for Part {
    const MIN: usize = 2;
    fn gen(s: &mut Src) -> Self { Part { id: s.int(8) as u8, tag: s.int(8) as u8 } }
    fn enc(&self, o: &mut Out) { o.u8(self.id); o.u8(self.tag) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Part { id: i.u8()?, tag: i.u8()? }) }
    fn nth(k: u64) -> Option<Self> { Some(Part { id: k as u8, tag: 3 }) }
}

/// A step of the history that builds a collection.
#[derive(Clone, Debug)]
enum Op<K, V> { Put(K, V), Del(K), PopFirst, Clear, KeepSome(u64), Reserve(usize), Shrink, Swap(usize, usize), Sort, Reverse, Retake }

/// How the order in which a collection is written follows from its history.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Order { Key, Insertion, Any }
trait Coll<K, V>: Sized {
    const ORDER: Order;
    fn new() -> Self;
    fn step(&mut self, op: &Op<K, V>);
    /// Entries in the collection's own order.
    fn list(&self) -> Vec<(K, V)>;
}
macro_rules! map_basic {
    ($m:ident) => {
        fn new() -> Self { Default::default() }
        fn list(&self) -> Vec<(K, V)> { self.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
    }
}
macro_rules! set_basic {
    () => {
        fn new() -> Self { Default::default() }
        fn list(&self) -> Vec<(K, ())> { self.iter().map(|k| (k.clone(), ())).collect() }
    }
}
/// Which entries an operation keeps: by the bytes of the key.
fn kept<K: M>(k: &K, mask: u64) -> bool { let o = model::codec::encode(k, false); (mask >> (pbt::hash_bytes(7, &o.b) % 64)) & 1 == 1 }
impl<K: M + Ord + Clone, V: Clone> Coll<K, V> for BTreeMap<K, V> {
    const ORDER: Order = Order::Key;
    map_basic!(BTreeMap);
    fn step(&mut self, op: &Op<K, V>) {
        match op {
            Op::Put(k, v) => { self.insert(k.clone(), v.clone()); }
            Op::Del(k) => { self.remove(k); }
            Op::PopFirst => { self.pop_first(); }
            Op::Clear => self.clear(),
            Op::KeepSome(m) => self.retain(|k, _| kept(k, *m)),
            Op::Retake => *self = std::mem::take(self).into_iter().rev().collect(),
            _ => {}
        }
    }
}
impl<K: M + Ord + Clone> Coll<K, ()> for BTreeSet<K> {
    const ORDER: Order = Order::Key;
    set_basic!();
    fn step(&mut self, op: &Op<K, ()>) {
        match op {
            Op::Put(k, _) => { self.replace(k.clone()); }
            Op::Del(k) => { self.remove(k); }
            Op::PopFirst => { self.pop_first(); }
            Op::Clear => self.clear(),
            Op::KeepSome(m) => self.retain(|k| kept(k, *m)),
            Op::Retake => *self = std::mem::take(self).into_iter().rev().collect(),
            _ => {}
        }
    }
}
impl<K: M + Hash + Eq + Clone, V: Clone, S: BuildHasher + Default> Coll<K, V> for HashMap<K, V, S> {
    const ORDER: Order = Order::Any;
    map_basic!(HashMap);
    fn step(&mut self, op: &Op<K, V>) {
        match op {
            Op::Put(k, v) => { self.insert(k.clone(), v.clone()); }
            Op::Del(k) => { self.remove(k); }
            Op::PopFirst => { let k = self.keys().next().cloned(); if let Some(k) = k { self.remove(&k); } }
            Op::Clear => self.clear(),
            Op::KeepSome(m) => self.retain(|k, _| kept(k, *m)),
            Op::Reserve(n) => self.reserve(*n),
            Op::Shrink => self.shrink_to_fit(),
            Op::Retake => *self = std::mem::take(self).into_iter().collect(),
            _ => {}
        }
    }
}
impl<K: M + Hash + Eq + Clone, S: BuildHasher + Default> Coll<K, ()> for HashSet<K, S> {
    const ORDER: Order = Order::Any;
    set_basic!();
    fn step(&mut self, op: &Op<K, ()>) {
        match op {
            Op::Put(k, _) => { self.replace(k.clone()); }
            Op::Del(k) => { self.remove(k); }
            Op::Clear => self.clear(),
            Op::KeepSome(m) => self.retain(|k| kept(k, *m)),
            Op::Reserve(n) => self.reserve(*n),
            Op::Shrink => self.shrink_to_fit(),
            Op::Retake => *self = std::mem::take(self).into_iter().collect(),
            _ => {}
        }
    }
}
macro_rules! index {
    ($m:ident, $del:ident) => {
        impl<K: M + Hash + Eq + Ord + Clone, V: Clone, S: BuildHasher + Default> Coll<K, V> for $m::IndexMap<K, V, S> {
            const ORDER: Order = Order::Insertion;
            map_basic!(IndexMap);
            fn step(&mut self, op: &Op<K, V>) {
                match op {
                    Op::Put(k, v) => { self.insert(k.clone(), v.clone()); }
                    Op::Del(k) => { self.$del(k); }
                    Op::PopFirst => { self.pop(); }
                    Op::Clear => self.clear(),
                    Op::KeepSome(m) => self.retain(|k, _| kept(k, *m)),
                    Op::Reserve(n) => self.reserve(*n),
                    Op::Shrink => self.shrink_to_fit(),
                    Op::Swap(a, b) => { let n = self.len(); if n > 0 { self.swap_indices(a % n, b % n) } }
                    Op::Sort => self.sort_keys(),
                    Op::Reverse => self.reverse(),
                    Op::Retake => *self = std::mem::take(self).into_iter().rev().collect(),
                }
            }
        }
        impl<K: M + Hash + Eq + Ord + Clone, S: BuildHasher + Default> Coll<K, ()> for $m::IndexSet<K, S> {
            const ORDER: Order = Order::Insertion;
            set_basic!();
            fn step(&mut self, op: &Op<K, ()>) {
                match op {
                    Op::Put(k, _) => { self.replace(k.clone()); }
                    Op::Del(k) => { self.$del(k); }
                    Op::PopFirst => { self.pop(); }
                    Op::Clear => self.clear(),
                    Op::KeepSome(m) => self.retain(|k| kept(k, *m)),
                    Op::Reserve(n) => self.reserve(*n),
                    Op::Shrink => self.shrink_to_fit(),
                    Op::Swap(a, b) => { let n = self.len(); if n > 0 { self.swap_indices(a % n, b % n) } }
                    Op::Sort => self.sort(),
                    Op::Reverse => self.reverse(),
                    Op::Retake => *self = std::mem::take(self).into_iter().rev().collect(),
                }
            }
        }
    }
}
index!(indexmap_v1, shift_remove);
index!(indexmap_v2, swap_remove);

/// A key from a small or a large space; small spaces make repeated keys.
fn key<K: M>(s: &mut Src, space: u64) -> K { if space > 0 { if let Some(k) = K::nth(s.below(space)) { return k; } } K::gen(s) }
fn value<V: M>(s: &mut Src) -> V { let b = s.budget; s.budget = 3; let v = V::gen(s); s.budget = b; v }
fn history<K: M + Clone, V: M + Clone>(s: &mut Src, top: u64) -> Vec<Op<K, V>> {
    let b = s.budget;
    s.budget = 4;
    let mut ops = vec![];
    let space = *s.pick(&[3, 8, 40, 1000, 0]);
    // sometimes a big batch first, so that the encoding exceeds the stream buffer
    if s.chance(1, 24) {
        let n = 100 + s.below(top);
        let step = 1 + s.below(7);
        let v: V = value(s);
        for k in 0..n { if let Some(k) = K::nth(k * step) { ops.push(Op::Put(k, v.clone())); } }
    }
    for _ in 0..s.usize_below(20) {
        ops.push(match s.below(14) {
            0..=6 => Op::Put(key(s, space), value(s)),
            7 => Op::Del(key(s, space)),
            8 => Op::PopFirst,
            9 => match s.below(6) { 0 => Op::Clear, 1 => Op::KeepSome(s.int(64)), 2 => Op::Reserve(s.usize_below(5000)), 3 => Op::Shrink, _ => Op::Retake },
            10 => Op::Swap(s.usize_below(50), s.usize_below(50)),
            11 => if s.bool() { Op::Sort } else { Op::Reverse },
            _ => { let v = value(s); Op::Put(key(s, 3), v) }
        });
    }
    s.budget = b;
    ops
}
fn enc_entry<K: M, V: M>(e: &(K, V), be: bool) -> Vec<u8> { let mut o = Out::new(be); e.0.enc(&mut o); e.1.enc(&mut o); o.b }
fn enc_all<K: M, V: M>(l: &[(K, V)], be: bool) -> Vec<u8> { let mut o = Out::new(be); o.u32(l.len() as u32); for e in l { o.raw(&enc_entry(e, be)); } o.b }
fn sorted<K: M, V: M>(l: &[(K, V)]) -> Vec<Vec<u8>> { let mut v: Vec<_> = l.iter().map(|e| { let mut o = Out::canon(); e.0.enc(&mut o); e.1.enc(&mut o); o.b }).collect(); v.sort(); v }
fn read_with<T: Readable<'static, Endianness>>(s: &mut Src, how: usize, b: &[u8], be: bool) -> Result<T, speedy::Error> {
    let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
    match how {
        0 => pbt::sys::with_guard(0, |g| T::read_from_buffer_with_ctx(e, g.end(b, 0))),
        1 => T::read_from_buffer_copying_data_with_ctx(e, b),
        2 => T::read_from_stream_unbuffered_with_ctx(e, ScriptRead::new(b, Sched::gen(s, true))),
        _ => T::read_from_stream_buffered_with_ctx(e, ScriptRead::new(b, Sched::gen(s, true))),
    }
}
/// One collection type: built by a history, written, read back; and bytes with repeated keys.
fn coll<T, K, V>(name: &str, s: &mut Src, cx: &mut Cx) -> Res
where T: Coll<K, V> + Readable<'static, Endianness> + Writable<Endianness> + PartialEq, K: M + Clone + PartialEq + Debug, V: M + Clone + PartialEq + Debug {
    let be = s.bool();
    let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
    let ops: Vec<Op<K, V>> = history(s, if name.contains("Same") || name.contains("Few") { 100 } else { 3000 });
    let mut c = T::new();
    for o in &ops { c.step(o); }
    let l = c.list();
    cx.note(|| format!("{} of {} entries after {} steps", name, l.len(), ops.len()));
    // written: each entry once, in the promised order
    let b = match c.write_to_vec_with_ctx(e) { Ok(b) => b, Err(x) => fail!("{} cannot be written: {}", name, x) };
    let want = enc_all(&l, be);
    cx.nontrivial(name, &b);
    cx.label(match l.len() { 0 => "empty", 1 => "one entry", 2..=99 => "some entries", _ => "many entries" });
    cx.sample(|| format!("{} of {} entries after {} steps ({} bytes)", name, l.len(), ops.len(), b.len()));
    if T::ORDER == Order::Any {
        let mut i = In::new(&b, be);
        let n = i.u32().map_err(|_| pbt::Fail::new(format!("{}: no length", name)))?;
        let mut got = vec![];
        for k in 0..n { match K::dec(&mut i).and_then(|a| V::dec(&mut i).map(|b| (a, b))) { Ok(x) => got.push(x), Err(_) => fail!("{} of {} entries: entry {} of its encoding {} is not one", name, l.len(), k, hex(&b)) } }
        ensure!(i.left() == 0, "{}: {} bytes follow the entries", name, i.left());
        ensure!(sorted(&got) == sorted(&l), "{}: the entries written ({}) are not those of the collection ({})", name, hex(&b), hex(&want));
    } else {
        ensure!(b == want, "{} is written as {} instead of {} (each entry once, in {:?} order)", name, hex(&b), hex(&want), T::ORDER);
    }
    let mut w = ScriptWrite::new(Sched::gen(s, true));
    match c.write_to_stream_with_ctx(e, &mut w) { Ok(()) => ensure!(w.out == b, "{}: a stream gets {} instead of {}", name, hex(&w.out), hex(&b)), Err(x) => fail!("{} cannot be written to a stream: {}", name, x) }
    // read back
    for how in 0..4 {
        match read_with::<T>(s, how, &b, be) {
            Ok(r) => {
                ensure!(r == c, "{} is not equal to itself after being read back by reader {} ({})", name, how, hex(&b));
                let rl = r.list();
                if T::ORDER == Order::Any { ensure!(sorted(&rl) == sorted(&l), "{}: other entries after being read back by reader {} ({})", name, how, hex(&b)) }
                else { ensure!(enc_all(&rl, be) == want, "{}: other entries or another order after being read back by reader {}: {} instead of {}", name, how, hex(&enc_all(&rl, be)), hex(&want)) }
            }
            Err(x) => fail!("{} is not read back by reader {}: {}", name, how, x),
        }
    }
    // repeated keys: the last value stays
    let mut pairs: Vec<(K, V)> = vec![];
    for o in &ops { if let Op::Put(k, v) = o { pairs.push((k.clone(), v.clone())); } }
    let raw = enc_all(&pairs, be);
    let mut last: Vec<(K, V)> = vec![];
    if pairs.len() > 200 { return Ok(()); }
    for p in &pairs { match last.iter_mut().find(|x| x.0 == p.0) { Some(x) => x.1 = p.1.clone(), None => last.push(p.clone()) } }
    if last.len() < pairs.len() { cx.label("repeated keys"); cx.nontrivial("repeated", &raw); }
    let how = s.usize_below(4);
    match read_with::<T>(s, how, &raw, be) {
        Ok(r) => {
            let rl = r.list();
            ensure!(rl.len() == last.len(), "{}: {} entries with {} different keys are read as {} entries ({})", name, pairs.len(), last.len(), rl.len(), hex(&raw));
            for (k, v) in &rl {
                match last.iter().find(|x| x.0 == *k) {
                    Some(x) => ensure!(model::codec::canon(&x.1) == model::codec::canon(v), "{}: the key {:?} has the value {:?} instead of the last one, {:?} ({})", name, k, v, x.1, hex(&raw)),
                    None => fail!("{}: the key {:?} is not among those read ({})", name, k, hex(&raw)),
                }
            }
        }
        Err(x) => fail!("{}: entries with repeated keys are refused: {} ({})", name, x, hex(&raw)),
    }
    Ok(())
}
/// Borrowed and owned copy-on-write collections are written and read like the collection itself.
fn cows(s: &mut Src, cx: &mut Cx) -> Res {
    let be = s.bool();
    let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
    s.scale_small();
    macro_rules! one { ($t:ty) => {{
        let v: $t = M::gen(s);
        let want = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(x) => fail!("{}", x) };
        let size = Writable::<Endianness>::bytes_needed(&v);
        let owned = s.bool();
        let c: Cow<$t> = if owned { Cow::Owned(v.clone()) } else { Cow::Borrowed(&v) };
        cx.nontrivial(stringify!($t), &want);
        match c.write_to_vec_with_ctx(e) { Ok(b) => {
            // a hash collection and its clone may differ in order
            let mut i = In::new(&b, be);
            let back = <$t as M>::dec(&mut i);
            ensure!(b.len() == want.len() && back.is_ok() && back.unwrap() == v, "Cow<{}> is written as {} and {} itself as {}", stringify!($t), hex(&b), stringify!($t), hex(&want));
        } Err(x) => fail!("Cow<{}> cannot be written: {}", stringify!($t), x) }
        match (Writable::<Endianness>::bytes_needed(&c), size) { (Ok(a), Ok(b)) => ensure!(a == b && a == want.len(), "Cow<{}>: predicted size {} instead of {}", stringify!($t), a, want.len()), _ => fail!("Cow<{}>: no predicted size", stringify!($t)) }
        for how in 0..4 {
            match read_with::<Cow<'static, $t>>(s, how, &want, be) {
                Ok(r) => ensure!(*r == v, "Cow<{}> is read back as {:?} instead of {:?}", stringify!($t), r, v),
                Err(x) => fail!("Cow<{}> is not read back: {}", stringify!($t), x),
            }
        }
    }} }
    match s.below(4) {
        0 => one!(BTreeMap<u16, String>),
        1 => one!(BTreeSet<u32>),
        2 => one!(HashMap<u8, Vec<u8>>),
        _ => one!(HashSet<String>),
    }
    Ok(())
}
/// Collections in derived types, with other length prefixes and given lengths.
#[derive(speedy::Readable, speedy::Writable, PartialEq, Debug)]
struct Many { n: u8, #[speedy(length = n)] a: BTreeMap<u8, u16>, #[speedy(length_type = u8)] b: HashMap<u16, u8>, #[speedy(length_type = u16)] c: BTreeSet<u16>, #[speedy(length_type = u64_varint)] d: HashSet<u8>, #[speedy(length_type = u64)] e: Option<BTreeMap<u16, bool>>, #[speedy(length_type = u7)] f: Cow<'static, BTreeSet<u8>> }
fn derived(s: &mut Src, cx: &mut Cx) -> Res {
    let be = s.bool();
    let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
    let top = if s.chance(1, 6) { 200 } else { 12 };
    s.budget = 1 + s.usize_below(top);
    let a: BTreeMap<u8, u16> = M::gen(s);
    let f: BTreeSet<u8> = M::gen(s);
    let f = f.into_iter().take(127).collect();
    let a: BTreeMap<u8, u16> = a.into_iter().take(255).collect();
    let b: HashMap<u16, u8> = M::gen(s);
    let b: HashMap<u16, u8> = b.into_iter().take(255).collect();
    let v = Many { n: a.len() as u8, a, b, c: M::gen(s), d: M::gen(s), e: M::gen(s), f: Cow::Owned(f) };
    let w = match v.write_to_vec_with_ctx(e) { Ok(w) => w, Err(x) => fail!("{:?} cannot be written: {}", v, x) };
    cx.nontrivial("derived", &w);
    let mut o = Out::new(be);
    o.u8(v.n);
    for (k, x) in &v.a { o.u8(*k); o.u16(*x); }
    o.u8(v.b.len() as u8);
    ensure!(w.starts_with(&o.b), "{:?} is written as {}, which should begin with {}", v, hex(&w), hex(&o.b));
    let mut rest = o.b.len() + 3 * v.b.len();
    let mut o = Out::new(be);
    o.u16(v.c.len() as u16);
    for k in &v.c { o.u16(*k); }
    o.varint(v.d.len() as u64);
    ensure!(w.get(rest..).map_or(false, |x| x.starts_with(&o.b)), "{:?} is written as {}, where byte {} on should be {}", v, hex(&w), rest, hex(&o.b));
    rest += o.b.len() + v.d.len();
    let mut o = Out::new(be);
    match &v.e { None => o.u8(0), Some(m) => { o.u8(1); o.u64(m.len() as u64); for (k, x) in m { o.u16(*k); o.u8(*x as u8); } } }
    o.u8(v.f.len() as u8);
    for k in v.f.iter() { o.u8(*k); }
    ensure!(w.get(rest..) == Some(&o.b[..]), "{:?} is written as {}, which should end with {}", v, hex(&w), hex(&o.b));
    for how in 0..4 { match read_with::<Many>(s, how, &w, be) { Ok(r) => ensure!(r == v, "{:?} is read back as {:?}", v, r), Err(x) => fail!("{:?} is not read back: {}", v, x) } }
    Ok(())
}
type Case = Box<dyn Fn(&mut Src, &mut Cx) -> Res>;
fn main() {
    let mut m = pbt::Main::new("C21", "histories of insertions, removals, reorderings and rebuilds over small and large key spaces, with colliding hashers and unusual orders; byte strings with repeated keys; non-trivial = distinct (type, encoding)");
    let mut cases: Vec<Case> = vec![];
    macro_rules! maps { ($($t:ty, $k:ty, $v:ty;)*) => { $(cases.push(Box::new(|s: &mut Src, cx: &mut Cx| coll::<$t, $k, $v>(stringify!($t), s, cx)));)* } }
    maps! {
        BTreeMap<u8, u16>, u8, u16; BTreeMap<String, Vec<u8>>, String, Vec<u8>; BTreeMap<Rev, u8>, Rev, u8; BTreeMap<Part, u32>, Part, u32; BTreeMap<i32, Option<u8>>, i32, Option<u8>; BTreeMap<u64, ()>, u64, (); BTreeMap<u8, u8>, u8, u8; BTreeMap<(u8, u16), u64>, (u8, u16), u64; BTreeMap<u16, BTreeMap<u8, u8>>, u16, BTreeMap<u8, u8>;
        BTreeSet<u8>, u8, (); BTreeSet<u16>, u16, (); BTreeSet<String>, String, (); BTreeSet<Rev>, Rev, (); BTreeSet<Part>, Part, (); BTreeSet<i64>, i64, ();
        HashMap<u8, u16>, u8, u16; HashMap<String, Vec<u8>>, String, Vec<u8>; HashMap<u16, u16, Same>, u16, u16; HashMap<u32, String, Few>, u32, String; HashMap<Part, u8>, Part, u8; HashMap<Part, u8, Same>, Part, u8; HashMap<u8, u8>, u8, u8; HashMap<u64, HashMap<u8, u8>>, u64, HashMap<u8, u8>;
        HashSet<u8>, u8, (); HashSet<u16, Same>, u16, (); HashSet<String, Few>, String, (); HashSet<u32>, u32, (); HashSet<Part>, Part, (); HashSet<i8, Few>, i8, ();
        indexmap_v1::IndexMap<u8, u16>, u8, u16; indexmap_v1::IndexMap<String, Vec<u8>>, String, Vec<u8>; indexmap_v1::IndexMap<u16, u16, Same>, u16, u16; indexmap_v1::IndexMap<u32, u8, Few>, u32, u8; indexmap_v1::IndexMap<Part, u8>, Part, u8; indexmap_v1::IndexMap<u8, u8>, u8, u8;
        indexmap_v2::IndexMap<u8, u16>, u8, u16; indexmap_v2::IndexMap<String, Vec<u8>>, String, Vec<u8>; indexmap_v2::IndexMap<u16, u16, Same>, u16, u16; indexmap_v2::IndexMap<u32, u8, Few>, u32, u8; indexmap_v2::IndexMap<Part, u8>, Part, u8; indexmap_v2::IndexMap<u8, u8>, u8, u8;
        indexmap_v1::IndexSet<u8>, u8, (); indexmap_v1::IndexSet<u16, Same>, u16, (); indexmap_v1::IndexSet<String, Few>, String, (); indexmap_v1::IndexSet<Part>, Part, ();
        indexmap_v2::IndexSet<u8>, u8, (); indexmap_v2::IndexSet<u16, Same>, u16, (); indexmap_v2::IndexSet<String, Few>, String, (); indexmap_v2::IndexSet<Part>, Part, ();
    }
    m.section("histories", 160_000, 2_000_000, move |s, cx| { let k = s.cycle(cases.len()); cases[k](s, cx) });
    m.section("copy-on-write collections", 32_000, 200_000, cows);
    m.section("collections in derived types", 32_000, 200_000, derived);
    m.run()
}
