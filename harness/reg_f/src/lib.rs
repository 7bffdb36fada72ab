//! Registry: types which contain themselves, written by hand with their models.
use model::codec::{In, Out, DE, M};
use model::flags::*;
use model::{ty::ty, Ty};
use pbt::Src;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Whether a value of this size may still contain others.
fn deeper(s: &mut Src) -> bool { s.budget > 1 && s.chance(2, 3) }
/// Containers whose elements get a share of the budget each.
fn items<T: M>(s: &mut Src, max: usize) -> Vec<T> { if !deeper(s) { return vec![]; } let n = s.len().min(max); s.nested(n + 1, |s| (0..n).map(|_| T::gen(s)).collect()) }
fn boxed<T: M>(s: &mut Src) -> Option<Box<T>> { if deeper(s) { Some(s.nested(1, |s| Box::new(T::gen(s)))) } else { None } }

/// A list: one level per element.
#[derive(Readable, Writable, Clone)]
pub struct List { pub v: u64, pub next: Option<Box<List>> }
impl M for List {
    const MIN: usize = 9;
    fn gen(s: &mut Src) -> Self { let mut l = List { v: M::gen(s), next: None }; for _ in 0..s.len().min(600) { l = List { v: M::gen(s), next: Some(Box::new(l)) } } l }
    fn enc(&self, o: &mut Out) { self.v.enc(o); self.next.enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(List { v: M::dec(i)?, next: M::dec(i)? }) }
}
/// A variant which contains the type directly, so that sizes must not be computed through it.
#[derive(Readable, Writable, Clone)]
pub enum Tree { Node(Box<Tree>, Box<Tree>), Leaf(u16), None }
impl M for Tree {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { if deeper(s) { s.nested(2, |s| Tree::Node(M::gen(s), M::gen(s))) } else if s.bool() { Tree::Leaf(M::gen(s)) } else { Tree::None } }
    fn enc(&self, o: &mut Out) { match self { Tree::Node(a, b) => { o.u32(0); a.enc(o); b.enc(o) } Tree::Leaf(x) => { o.u32(1); x.enc(o) } Tree::None => o.u32(2) } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match u32::dec(i)? { 0 => Tree::Node(M::dec(i)?, M::dec(i)?), 1 => Tree::Leaf(M::dec(i)?), 2 => Tree::None, _ => return Err(DE::Bad) }) }
}
#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dir { pub name: String, pub mode: u16, pub children: Vec<Dir>, #[speedy(length_type = u8)] pub links: BTreeSet<Dir> }
impl M for Dir {
    const MIN: usize = 11;
    fn gen(s: &mut Src) -> Self { Dir { name: M::gen(s), mode: M::gen(s), children: items(s, 200), links: items(s, 100).into_iter().collect() } }
    fn enc(&self, o: &mut Out) { self.name.enc(o); self.mode.enc(o); self.children.enc(o); o.len(self.links.len(), model::codec::Len::U8); for x in &self.links { x.enc(o) } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Dir { name: M::dec(i)?, mode: M::dec(i)?, children: M::dec(i)?, links: { let n = i.u8()? as usize; i.many(n, Dir::MIN, std::mem::size_of::<Dir>(), Dir::dec)?.into_iter().collect() } }) }
}
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u8)]
pub enum Json { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<Json>), #[speedy(tag = 0x7f)] Obj(BTreeMap<String, Json>), Pair(Box<Json>, Box<[Json]>) }
impl M for Json {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self {
        if deeper(s) { match s.below(3) { 0 => Json::Arr(items(s, 300)), 1 => { let v: Vec<Json> = items(s, 50); Json::Obj(v.into_iter().map(|x| (String::gen(s), x)).collect()) } _ => s.nested(2, |s| Json::Pair(M::gen(s), items(s, 20).into())) } }
        else { match s.below(4) { 0 => Json::Null, 1 => Json::Bool(M::gen(s)), 2 => Json::Num(M::gen(s)), _ => Json::Str(M::gen(s)) } }
    }
    fn enc(&self, o: &mut Out) { match self { Json::Null => o.u8(0), Json::Bool(x) => { o.u8(1); x.enc(o) } Json::Num(x) => { o.u8(2); x.enc(o) } Json::Str(x) => { o.u8(3); x.enc(o) } Json::Arr(x) => { o.u8(4); x.enc(o) } Json::Obj(x) => { o.u8(0x7f); x.enc(o) } Json::Pair(a, b) => { o.u8(0x80); a.enc(o); b.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match i.u8()? { 0 => Json::Null, 1 => Json::Bool(M::dec(i)?), 2 => Json::Num(M::dec(i)?), 3 => Json::Str(M::dec(i)?), 4 => Json::Arr(M::dec(i)?), 0x7f => Json::Obj(M::dec(i)?), 0x80 => Json::Pair(M::dec(i)?, M::dec(i)?), _ => return Err(DE::Bad) }) }
}
/// Two types which contain each other.
#[derive(Readable, Writable, Clone)]
pub struct Ping { pub a: u32, pub pong: Option<Box<Pong>>, pub b: u8 }
#[derive(Readable, Writable, Clone)]
pub struct Pong { #[speedy(length_type = u16)] pub pings: Vec<Ping>, pub c: [u16; 3], #[speedy(length_type = u64_varint)] pub by_name: Option<HashMap<u8, Pong>> }
impl M for Ping {
    const MIN: usize = 6;
    fn gen(s: &mut Src) -> Self { Ping { a: M::gen(s), pong: boxed(s), b: M::gen(s) } }
    fn enc(&self, o: &mut Out) { self.a.enc(o); self.pong.enc(o); self.b.enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Ping { a: M::dec(i)?, pong: M::dec(i)?, b: M::dec(i)? }) }
}
impl M for Pong {
    const MIN: usize = 9;
    fn gen(s: &mut Src) -> Self { Pong { pings: items(s, 60), c: M::gen(s), by_name: if s.bool() { let v: Vec<Pong> = items(s, 60); Some(v.into_iter().map(|x| (u8::gen(s), x)).collect()) } else { None } } }
    fn enc(&self, o: &mut Out) {
        o.len(self.pings.len(), model::codec::Len::U16);
        for x in &self.pings { x.enc(o) }
        self.c.enc(o);
        match &self.by_name { None => o.u8(0), Some(m) => { o.u8(1); o.varint(m.len() as u64); o.entries(m, |(k, v), o| { k.enc(o); v.enc(o) }) } }
    }
    fn dec(i: &mut In) -> Result<Self, DE> {
        let n = i.u16()? as usize;
        let pings = i.many(n, Ping::MIN, std::mem::size_of::<Ping>(), Ping::dec)?;
        Ok(Pong { pings, c: M::dec(i)?, by_name: if i.u8()? == 0 { None } else { let n = i.varint()? as usize; Some(i.many(n, 1 + Pong::MIN, std::mem::size_of::<(u8, Pong)>(), |i| Ok((u8::dec(i)?, Pong::dec(i)?)))?.into_iter().collect()) } })
    }
}
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u64_varint)]
pub enum Expr<'a> { Num(i64), Neg(Box<Expr<'a>>), Add(Box<(Expr<'a>, Expr<'a>)>), #[speedy(tag = 300)] Call { f: Cow<'a, str>, args: Vec<Expr<'a>> }, Opt { #[speedy(default_on_eof)] x: Option<Box<Expr<'a>>> } }
impl M for Expr<'static> {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self {
        if !deeper(s) { return Expr::Num(M::gen(s)); }
        match s.below(4) { 0 => s.nested(1, |s| Expr::Neg(M::gen(s))), 1 => s.nested(2, |s| Expr::Add(Box::new((M::gen(s), M::gen(s))))), 2 => Expr::Call { f: M::gen(s), args: items(s, 40) }, _ => Expr::Opt { x: boxed(s) } }
    }
    fn enc(&self, o: &mut Out) { match self { Expr::Num(x) => { o.varint(0); x.enc(o) } Expr::Neg(x) => { o.varint(1); x.enc(o) } Expr::Add(x) => { o.varint(2); x.0.enc(o); x.1.enc(o) } Expr::Call { f, args } => { o.varint(300); f.enc(o); args.enc(o) } Expr::Opt { x } => { o.varint(301); x.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match i.varint()? { 0 => Expr::Num(M::dec(i)?), 1 => Expr::Neg(M::dec(i)?), 2 => Expr::Add(Box::new((M::dec(i)?, M::dec(i)?))), 300 => Expr::Call { f: M::dec(i)?, args: M::dec(i)? }, 301 => Expr::Opt { x: i.or_default(|| None, M::dec)? }, _ => return Err(DE::Bad) }) }
}
/// Self-references below an array and a tuple.
#[derive(Readable, Writable, Clone)]
pub struct Fork { pub key: u64, pub sub: [Option<Box<Fork>>; 2], pub rest: (u8, Option<Box<Fork>>) }
impl M for Fork {
    const MIN: usize = 12;
    fn gen(s: &mut Src) -> Self { Fork { key: M::gen(s), sub: s.nested(3, |s| [boxed(s), boxed(s)]), rest: (M::gen(s), s.nested(3, boxed)) } }
    fn enc(&self, o: &mut Out) { self.key.enc(o); self.sub.enc(o); self.rest.enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Fork { key: M::dec(i)?, sub: M::dec(i)?, rest: M::dec(i)? }) }
}
/// Indirection by a type of the user's own.
#[derive(Readable, Writable, Clone)]
pub struct Handle<T>(pub Vec<T>);
impl<T: M> M for Handle<T> {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { Handle(items(s, 20)) }
    fn enc(&self, o: &mut Out) { self.0.enc(o) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(Handle(M::dec(i)?)) }
}
#[derive(Readable, Writable, Clone)]
pub enum Doc { Text(String), Many { kids: Handle<Doc>, n: u32 }, Ref(Result<Box<Doc>, u8>) }
impl M for Doc {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { if deeper(s) { if s.bool() { Doc::Many { kids: M::gen(s), n: M::gen(s) } } else { Doc::Ref(if s.bool() { Ok(s.nested(1, |s| Box::new(M::gen(s)))) } else { Err(M::gen(s)) }) } } else { Doc::Text(M::gen(s)) } }
    fn enc(&self, o: &mut Out) { match self { Doc::Text(x) => { o.u32(0); x.enc(o) } Doc::Many { kids, n } => { o.u32(1); kids.enc(o); n.enc(o) } Doc::Ref(x) => { o.u32(2); x.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match u32::dec(i)? { 0 => Doc::Text(M::dec(i)?), 1 => Doc::Many { kids: M::dec(i)?, n: M::dec(i)? }, 2 => Doc::Ref(M::dec(i)?), _ => return Err(DE::Bad) }) }
}

pub fn types() -> Vec<Ty> {
    let u = DERIVED | NONUNIQUE;
    let c = u | COLLECTION;
    vec![
        ty::<List>("List", u), ty::<Vec<List>>("Vec<List>", c),
        ty::<Tree>("Tree", DERIVED | COLLECTION), ty::<[Tree; 2]>("[Tree; 2]", DERIVED | COLLECTION), ty::<(Tree, u16)>("(Tree, u16)", DERIVED | COLLECTION),
        ty::<Dir>("Dir", c), ty::<BTreeMap<u8, Dir>>("BTreeMap<u8, Dir>", c),
        ty::<Json>("Json", c), ty::<Vec<Json>>("Vec<Json>", c),
        ty::<Ping>("Ping", c), ty::<Pong>("Pong", c), ty::<Vec<Pong>>("Vec<Pong>", c),
        ty::<Expr<'static>>("Expr", c | EOFSENS),
        ty::<Fork>("Fork", c), ty::<Doc>("Doc", c), ty::<Handle<Tree>>("Handle<Tree>", c),
    ]
}
