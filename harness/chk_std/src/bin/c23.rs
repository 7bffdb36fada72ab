//! Differently configured builds of the crate answer the same requests; the model says what the answers are.
#![recursion_limit = "512"]
#[path = "../../../probe/src/shared.rs"]
mod shared;
use model::codec::{varint, unvarint, Len};
use model::dty::*;
use model::props::{hostile, judge};
use model::ty::ty;
use model::{flags, DE, In, M, Out, Ty};
use pbt::{ensure, fail, hex, Cx, Fail, Res, Src};
use shared::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;
use std::io::{Read, Write};
use std::net::*;
use std::num::*;
use std::ops::*;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::*;

// ---- models of the probe's own types ----
macro_rules! kind {
    (gen m $s:ident $x:ident) => { M::gen($s) }; (enc m $v:expr, $o:ident $x:ident) => { M::enc($v, $o) }; (dec m $i:ident $x:ident) => { M::dec($i)? };
    (gen (lt $l:ident) $s:ident $x:ident) => { gen_lt($s, Len::$l) }; (enc (lt $l:ident) $v:expr, $o:ident $x:ident) => { enc_lt($v, $o, Len::$l) }; (dec (lt $l:ident) $i:ident $x:ident) => { dec_lt($i, Len::$l)? };
    (gen (opt $l:ident) $s:ident $x:ident) => { gen_opt($s, Len::$l) }; (enc (opt $l:ident) $v:expr, $o:ident $x:ident) => { enc_opt($v, $o, Len::$l) }; (dec (opt $l:ident) $i:ident $x:ident) => { dec_opt($i, Len::$l)? };
    (gen (n $n:ident) $s:ident $x:ident) => { gen_n($s, $n as u64) }; (enc (n $n:ident) $v:expr, $o:ident $x:ident) => { enc_n($v, $o, *$n as u64) }; (dec (n $n:ident) $i:ident $x:ident) => { dec_n($i, $n as u64)? };
    (gen (count $b:literal) $s:ident $x:ident) => { gen_count($s, $b) as _ }; (enc (count $b:literal) $v:expr, $o:ident $x:ident) => { M::enc($v, $o) }; (dec (count $b:literal) $i:ident $x:ident) => { M::dec($i)? };
    (gen end $s:ident $x:ident) => { gen_end($s) }; (enc end $v:expr, $o:ident $x:ident) => { enc_end($v, $o) }; (dec end $i:ident $x:ident) => { dec_end($i)? };
    (gen late $s:ident $x:ident) => { M::gen($s) }; (enc late $v:expr, $o:ident $x:ident) => { M::enc($v, $o) }; (dec late $i:ident $x:ident) => { $i.or_default(Default::default, M::dec)? };
    (gen skip $s:ident $x:ident) => { M::gen($s) }; (enc skip $v:expr, $o:ident $x:ident) => { enc_skip($v, $o) }; (dec skip $i:ident $x:ident) => { Default::default() };
    (gen varint $s:ident $x:ident) => { $s.int(64) }; (enc varint $v:expr, $o:ident $x:ident) => { $o.varint(*$v) }; (dec varint $i:ident $x:ident) => { $i.varint()? };
    (gen (magic $b:expr) $s:ident $x:ident) => { M::gen($s) }; (enc (magic $b:expr) $v:expr, $o:ident $x:ident) => { { $o.raw($b); M::enc($v, $o) } }; (dec (magic $b:expr) $i:ident $x:ident) => { { prefix($i, $b)?; M::dec($i)? } };
}
macro_rules! record { ($([$($g:tt)*] $t:ty = $c:ident { $($f:tt $k:tt),* } $min:expr;)*) => { $(
    impl<$($g)*> M for $t {
        const MIN: usize = $min;
        fn gen(s: &mut Src) -> Self { $(record!(@let $f = kind!(gen $k s x));)* record!(@make $c; $($f)*) }
        fn enc(&self, o: &mut Out) { let me = self.clone(); $(record!(@take me $f);)* $(record!(@enc $f $k o);)* }
        fn dec(i: &mut In) -> Result<Self, DE> { $(record!(@let $f = kind!(dec $k i x));)* Ok(record!(@make $c; $($f)*)) }
    })* };
    (@let $f:ident = $e:expr) => { let $f = $e; };
    (@take $me:ident $f:ident) => { let $f = &{ $me.$f }; };
    (@enc $f:ident $k:tt $o:ident) => { kind!(enc $k $f, $o x) };
    (@make $c:ident; $($f:ident)*) => { $c { $($f),* } };
}
record! {
    [] Plain = Plain { a m, b m, c m, d m, e m } 27;
    [] Flat = Flat { a m, b m, c m } 8;
    [] Units = Units { a m, b m, c m } 8;
    [] Tight = Tight { a m, b m, c m } 13;
    [] Byte = Byte { a m, b m } 3;
    [] Mixed = Mixed { a m, b m, c m, d m, e m } 32;
    [] Nums = Nums { a varint, b m, c varint } 3;
    [] Skips = Skips { a m, b skip, c m, d late, e late } 3;
    [] NoFields = NoFields { } 0;
    [] Lens = Lens { a (lt U8), b (lt U16), c (lt U64), d (lt Varint), e (lt U7), f m, g (opt U8), h (lt U16) } 20;
    [] Given = Given { n (count 8), a (n n), m (count 16), b (n m), c (n n) } 3;
    [] Rest = Rest { a m, b end } 4;
    [] Late = Late { a m, b late, c late } 1;
    [] Magic = Magic { a (magic b"\x7fMGC"), b (magic b"\x07") } 13;
    [] Tables = Tables { a (lt U8), b (lt Varint) } 2;
}
impl M for Trans { const MIN: usize = 4; fn gen(s: &mut Src) -> Self { Trans(M::gen(s)) } fn enc(&self, o: &mut Out) { self.0.enc(o) } fn dec(i: &mut In) -> Result<Self, DE> { Ok(Trans(M::dec(i)?)) } }
impl<A: M + Clone, B: M + Clone> M for Pair<A, B> { const MIN: usize = 3 * A::MIN + B::MIN; fn gen(s: &mut Src) -> Self { Pair(M::gen(s), M::gen(s), M::gen(s)) } fn enc(&self, o: &mut Out) { self.0.enc(o); self.1.enc(o); self.2.enc(o) } fn dec(i: &mut In) -> Result<Self, DE> { Ok(Pair(M::dec(i)?, M::dec(i)?, M::dec(i)?)) } }
impl M for Small {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self { match s.below(5) { 0 => Small::A, 1 => Small::B(M::gen(s)), 2 => Small::C { x: M::gen(s), y: M::gen(s) }, 3 => Small::D(M::gen(s)), _ => Small::E(M::gen(s)) } }
    fn enc(&self, o: &mut Out) { match self { Small::A => o.u8(0), Small::B(a) => { o.u8(1); a.enc(o) } Small::C { x, y } => { o.u8(2); x.enc(o); y.enc(o) } Small::D(a) => { o.u8(200); a.enc(o) } Small::E(a) => { o.u8(201); a.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match i.u8()? { 0 => Small::A, 1 => Small::B(M::dec(i)?), 2 => { let x = M::dec(i)?; Small::C { x, y: M::dec(i)? } } 200 => Small::D(M::dec(i)?), 201 => Small::E(M::dec(i)?), _ => return Err(DE::Bad) }) }
}
impl M for Wide {
    const MIN: usize = 4;
    fn gen(s: &mut Src) -> Self { match s.below(3) { 0 => Wide::A(M::gen(s)), 1 => Wide::B, _ => Wide::C(M::gen(s)) } }
    fn enc(&self, o: &mut Out) { match self { Wide::A(a) => { o.u32(0); a.enc(o) } Wide::B => o.u32(0x01020304), Wide::C(a) => { o.u32(0x01020305); a.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match i.u32()? { 0 => Wide::A(M::dec(i)?), 0x01020304 => Wide::B, 0x01020305 => Wide::C(M::dec(i)?), _ => return Err(DE::Bad) }) }
}
impl M for Discr {
    const MIN: usize = 2;
    fn gen(s: &mut Src) -> Self { *s.pick(&[Discr::A, Discr::B, Discr::C, Discr::D]) }
    fn enc(&self, o: &mut Out) { o.u16(*self as u16) }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match i.u16()? { 3 => Discr::A, 0x1234 => Discr::B, 0x1235 => Discr::C, 0 => Discr::D, _ => return Err(DE::Bad) }) }
}
impl M for Deep<'static> {
    const MIN: usize = 1;
    fn gen(s: &mut Src) -> Self { match s.below(3) { 0 => Deep::A(M::gen(s)), 1 => Deep::B { x: M::gen(s), y: M::gen(s) }, _ => Deep::C(M::gen(s)) } }
    fn enc(&self, o: &mut Out) { match self { Deep::A(a) => { o.varint(0); a.enc(o) } Deep::B { x, y } => { o.varint(1); x.enc(o); y.enc(o) } Deep::C(a) => { o.varint(70000); a.enc(o) } } }
    fn dec(i: &mut In) -> Result<Self, DE> { Ok(match i.varint()? { 0 => Deep::A(M::dec(i)?), 1 => { let x = M::dec(i)?; Deep::B { x, y: M::dec(i)? } } 70000 => Deep::C(M::dec(i)?), _ => return Err(DE::Bad) }) }
}

/// A digest of how the value looks (the probe has the same), and whether characters are in there which another version of the standard library may show differently.
fn looks<T: M + std::fmt::Debug>(b: &[u8], be: bool) -> Option<(String, bool)> {
    let t = format!("{:?}", T::dec(&mut In::new(b, be)).ok()?);
    Some((format!("{:x}", t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))), !t.is_ascii() || t.contains("\\u{")))
}
struct Item { level: &'static str, name: &'static str, t: Ty, looks: fn(&[u8], bool) -> Option<(String, bool)> }
macro_rules! entries { ($($l:ident $t:ty => $m:ty);* $(;)?) => { fn items() -> Vec<Item> { vec![$(Item { level: stringify!($l), name: stringify!($t), t: ty::<$m>(stringify!($m), 0), looks: looks::<$m> }),*] } } }
include!("../../../probe/src/types.rs");
const EOFSENS: &[&str] = &["Skips", "Rest", "Late"];

// ---- the builds ----
/// An unnamed file for what a build says on its error output.
fn tmpfile() -> std::fs::File {
    static N: AtomicU32 = AtomicU32::new(0);
    let p = std::env::temp_dir().join(format!("c23-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    let f = std::fs::OpenOptions::new().read(true).write(true).append(true).create_new(true).open(&p).expect("log file");
    let _ = std::fs::remove_file(&p);
    f
}
fn last_words(f: &mut std::fs::File) -> String {
    use std::io::Seek;
    let mut b = vec![];
    let _ = f.rewind().and_then(|_| f.read_to_end(&mut b));
    let t = String::from_utf8_lossy(&b).into_owned();
    let l: Vec<&str> = t.lines().filter(|l| l.starts_with("error") || l.contains("panicked at") || l.contains("-->")).collect();
    if l.is_empty() { t.lines().last().unwrap_or("nothing is said").into() } else { l[l.iter().position(|l| l.starts_with("error")).unwrap_or(0)..].iter().take(3).map(|l| l.trim()).collect::<Vec<_>>().join("; ") }
}
struct Server { name: String, child: Child, log: std::fs::File, has: Vec<bool>, usize_: usize, big: bool, alloc: bool, std: bool }
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
impl Server {
    fn start(name: &str, cmd: &str) -> Result<Server, Fail> {
        let log = tmpfile();
        let child = Command::new("sh").arg("-c").arg(format!("exec {}", cmd)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::from(log.try_clone().expect("log file"))).spawn().map_err(|e| Fail::new(format!("cannot start the build {}: {}", name, e)))?;
        let mut s = Server { name: name.into(), child, log, has: vec![], usize_: 0, big: false, alloc: false, std: false };
        let t = s.ask_raw(&[255, 0, 0, 0, 0])?;
        let mut w = t.split(' ');
        s.has = w.next().unwrap_or("").chars().map(|c| c == 'y').collect();
        s.usize_ = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        s.big = w.next() == Some("big");
        let it = items();
        if s.has.len() != it.len() { return Err(Fail::new(format!("the build {} does not answer properly", name))); }
        s.alloc = it.iter().zip(&s.has).any(|(i, h)| i.level == "alloc" && *h);
        s.std = it.iter().zip(&s.has).any(|(i, h)| i.level == "std" && *h);
        Ok(s)
    }
    fn ask_raw(&mut self, q: &[u8]) -> Result<String, Fail> {
        let mut go = || -> std::io::Result<String> {
            let i = self.child.stdin.as_mut().unwrap();
            let mut m = (q.len() as u32).to_le_bytes().to_vec();
            m.extend_from_slice(q);
            i.write_all(&m)?;
            i.flush()?;
            let o = self.child.stdout.as_mut().unwrap();
            let mut n = [0; 4];
            o.read_exact(&mut n)?;
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            o.read_exact(&mut b)?;
            Ok(String::from_utf8_lossy(&b).into_owned())
        };
        go().map_err(|_| { let _ = self.child.kill(); let st = self.child.wait(); Fail::new(format!("the build {} dies: {}: {}", self.name, st.map_or("?".into(), |s| s.to_string()), last_words(&mut self.log))) })
    }
}
thread_local! { static NEAR: RefCell<Vec<Server>> = const { RefCell::new(vec![]) }; static FAR: RefCell<Vec<Server>> = const { RefCell::new(vec![]) }; }
fn with<R>(far: bool, f: impl FnOnce(&mut Vec<Server>) -> Result<R, Fail>) -> Result<R, Fail> {
    let go = |c: &RefCell<Vec<Server>>| {
        let mut v = c.borrow_mut();
        if v.is_empty() {
            for x in std::env::var(if far { "PROBES_FAR" } else { "PROBES" }).unwrap_or_default().split(';') { if let Some((n, c)) = x.split_once('=') { v.push(Server::start(n, c)?); } }
            if v.is_empty() { return Err(Fail::new("no builds to compare".into())); }
        }
        let r = f(&mut v);
        if r.is_err() { v.clear() } // whatever died is started anew
        r
    };
    if far { FAR.with(go) } else { NEAR.with(go) }
}
fn query(kind: u8, ctx: u8, align: u8, idx: usize, data: &[u8]) -> Vec<u8> { let mut q = vec![kind, ctx, align, idx as u8, (idx >> 8) as u8]; q.extend_from_slice(data); q }
const CTX: &[&str] = &["LittleEndian", "BigEndian", "Endianness little", "Endianness big"];

/// One outcome of a read: `Ok(consumed, little endian form, big endian form, digest of the value's looks)` or the class of the error.
type Outcome = Result<(i64, String, String, String), String>;
fn parse(who: &str, line: &str) -> Result<(String, Outcome), Fail> {
    let w: Vec<&str> = line.split(' ').collect();
    Ok((w[0].to_string(), match w.get(1).copied() {
        Some("ok") if w.len() == 6 => Ok((w[2].parse().unwrap_or(-2), w[3].to_string(), w[4].to_string(), w[5].to_string())),
        Some("eof") | Some("err") if w.len() == 2 => Err(w[1].to_string()),
        _ => return Err(Fail::new(format!("{}: {}", who, line))),
    }))
}
fn bytes(far: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let it = items();
    let n = s.cycle(it.len());
    let item = &it[n];
    let t = &item.t;
    let native_only = item.level.starts_with('n');
    let ctx = s.below(4) as u8;
    let align = if s.bool() { 0 } else { s.below(16) as u8 };
    if far { s.budget = 60; }
    let all = [t.clone()];
    let be = ctx & 1 == 1;
    let (b, how) = if s.chance(1, 2) {
        s.scale_small();
        let mut o = Out::new(be);
        (t.gen)(s).enc(&mut o);
        (o.b, "valid")
    } else { hostile(s, t, &all, be) };
    if b.len() > if far { 1000 } else { 100_000 } { return Ok(()); }
    if far && item.name == "Vec<()>" && In::new(&b, be).u32().is_ok_and(|n| n > 100) || far && item.name.contains("Regex") { return Ok(()); } // much work
    cx.note(|| format!("{} in the context {}, input ({}) {}", item.name, CTX[ctx as usize], how, hex(&b)));
    let want = judge(t, &b, be);
    if let Err(DE::Big) = want.r { return Ok(()); }
    cx.label(how);
    if !b.is_empty() { cx.nontrivial(item.name, &b); }
    let hash = item.name.contains("Hash") || item.name == "Tables";
    let seen = if hash || want.fuzzy || item.name.starts_with("Text") { None } else { (item.looks)(&b, be).filter(|(_, exotic)| !(far && *exotic)).map(|(d, _)| d) };
    let expect = match &want.r { Ok(v) => { let f = |be| { let mut o = Out::new(be); v.enc(&mut o); if o.fail { None } else { Some(o.b) } }; Some((f(false), f(true), v.canon())) } Err(_) => None };
    // a stream has no way of knowing that a huge declared length is a lie
    let liar = want.declared > (64 << 20) || want.r.is_err() && b.windows(4).any(|w| { let w = w.try_into().unwrap(); (if be { u32::from_be_bytes(w) } else { u32::from_le_bytes(w) }) > 1 << 20 });
    let kind = if liar { 0x80 } else { 0 } | if far { 0x40 } else { 0 };
    with(far, |v| {
        let mut first: Option<(String, Vec<(String, Outcome)>)> = None;
        for srv in v.iter_mut() {
            if !srv.has[n] { continue; }
            let text = srv.ask_raw(&query(kind, ctx, align, n, &b)).map_err(|f| Fail::new(format!("{} in the context {}: {}, reading {}", item.name, CTX[ctx as usize], f.msg, hex(&b))))?;
            if text == "absent" { continue; }
            cx.evals(1);
            let who = format!("{} in the build {}, context {}, reading {}", item.name, srv.name, CTX[ctx as usize], hex(&b));
            let mut outs = vec![];
            // a number too big for the machine is no number there
            let narrow = srv.usize_ < 8 && item.name.contains("usize") | item.name.contains("Mixed");
            for line in text.lines() {
                if let Some(m) = line.strip_prefix("min ") {
                    let m: usize = m.parse().unwrap_or(usize::MAX);
                    if want.r.is_ok() && !want.fuzzy && !EOFSENS.contains(&item.name) { ensure!(m <= want.consumed, "{}: at least {} bytes are declared necessary, {} are enough", who, m, want.consumed); }
                    continue;
                }
                let (r, o) = parse(&who, line)?;
                let borrowing = item.name.contains('&') || item.name == "Raw" || item.name.starts_with("Text");
                if want.fuzzy { outs.push((r, o)); continue; }
                match (&o, &expect) {
                    (Ok((c, l, b, d)), Some((wl, wb, canon))) => {
                        ensure!(*c < 0 || *c as usize == want.consumed, "{}: {} bytes are consumed instead of {}", who, c, want.consumed);
                        if let Some(seen) = &seen { ensure!(d == seen, "{}: the value read is another one than these bytes stand for", who); }
                        for (be, got, model) in [(false, l, wl), (true, b, wb)] {
                            match model {
                                None => ensure!(got == "err" || got == "eof", "{}: a value without an encoding is written as {}", who, got),
                                Some(m) if *got == hex_plain(m) => {}
                                Some(m) => {
                                    let same = hash && unhex(got).is_some_and(|g| { let v = judge(t, &g, be); v.consumed == g.len() && v.r.is_ok_and(|v| v.canon() == *canon) });
                                    ensure!(same, "{}: written {} as {} instead of {}", who, if be { "big endian" } else { "little endian" }, got, hex(m));
                                }
                            }
                        }
                    }
                    (Err(_), None) => {}
                    (Err(_), Some(_)) if narrow => {}
                    (Err(_), Some(_)) if r == "copy" && borrowing => {}
                    (Err(_), Some(_)) if native_only && (r == "copy" || (align + if item.name.contains(';') { 0 } else { 4 }) % 16 != 0) => {}
                    (Ok(x), None) => fail!("{}: a {} reader accepts it as {}", who, r, x.1),
                    (Err(e), Some(_)) => fail!("{}: a {} reader refuses it ({})", who, r, e),
                }
                outs.push((r, o));
            }
            // the same type of reader takes the same decision in every build
            if srv.usize_ < 8 || native_only || hash { continue; }
            outs.sort_by(|a, b| a.0.cmp(&b.0));
            for w in outs.iter_mut() { if let Ok(x) = &mut w.1 { x.0 = 0 } }
            outs.retain(|x| x.0 == "borrow"); // (the copying ones differ in when they notice what, and streams are missing without std)
            outs.dedup();
            match &first { None => first = Some((srv.name.clone(), outs)), Some((f, o)) => ensure!(*o == outs, "{}: {:?}, but in the build {}: {:?}", who, outs, f, o) }
        }
        Ok(())
    })
}
fn unhex(s: &str) -> Option<Vec<u8>> { if s.len() % 2 > 0 { return None; } (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).ok()).collect() }

/// A cursor over the input.
fn cursor(ops: &[u8], b: &[u8], be: bool, alloc: bool) -> (String, &'static str, usize) {
    use std::fmt::Write;
    let mut i = In::new(b, be);
    let mut o = String::new();
    let mut k = 0;
    while k + 1 < ops.len() {
        let (op, n) = (ops[k], ops[k + 1] as usize);
        k += 2;
        let at = i.pos;
        let r = (|| -> Result<String, DE> {
            Ok(match op {
                0 => i.u8()?.to_string(), 1 => (i.u8()? as i8).to_string(), 2 => i.u16()?.to_string(), 3 => (i.u16()? as i16).to_string(), 4 => i.u32()?.to_string(), 5 => (i.u32()? as i32).to_string(), 6 => i.u64()?.to_string(), 7 => (i.u64()? as i64).to_string(),
                8 => i.u128()?.to_string(), 9 => (i.u128()? as i128).to_string(), 10 => i.u32()?.to_string(), 11 => i.u64()?.to_string(),
                12 | 13 => { let (v, n) = unvarint(&i.b[i.pos..]).ok_or(DE::Eof)?; i.pos += n; v.to_string() }
                14 => i.u8()?.to_string(), 15 => i.u16()?.to_string(), 16 => i.u32()?.to_string(), 17 => i.u64()?.to_string(),
                18 | 19 => hex_plain(i.raw(n)?),
                20 => { i.raw(n)?; "skip".into() }
                21 => i.u32()?.to_string(),
                22 => { if i.left() < 10 { return Err(DE::Eof); } let v: Vec<u16> = (0..5).map(|_| i.u16().unwrap()).collect(); format!("{:?}", v) }
                23 if alloc => { if i.left() < 2 * n { return Err(DE::Eof); } let v: Vec<u16> = (0..n).map(|_| i.u16().unwrap()).collect(); format!("{:?}", v) }
                24 if alloc => { if i.left() < 4 * n { return Err(DE::Eof); } let v: Vec<u32> = (0..n).map(|_| i.u32().unwrap()).collect(); format!("{:?}", v) }
                25 if alloc => { let v = i.raw(n)?; if std::str::from_utf8(v).is_err() { return Err(DE::Bad); } hex_plain(v) }
                _ => "none".into(),
            })
        })();
        match r {
            Ok(t) => { let _ = write!(o, "{} ", t); }
            Err(DE::Eof) => return (o, "eof", at),
            Err(_) => return (o, "err", at),
        }
        if (13..=17).contains(&op) || op == 19 { i.pos = at }
    }
    (o, "ok", i.pos)
}
fn hex_plain(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn reading(far: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let ctx = s.below(4) as u8;
    let n = s.usize_below(12) + 1;
    let mut ops = vec![];
    for _ in 0..n { ops.push(if s.chance(1, 5) { 12 + s.below(2) as u8 } else { s.below(26) as u8 }); ops.push(if s.chance(1, 12) { s.below(200) as u8 } else { s.below(9) as u8 }); }
    let len = if s.chance(1, 4) { s.usize_below(16) } else { s.usize_below(120) };
    let b: Vec<u8> = (0..len).map(|_| match s.below(4) { 0 => 0xff, 1 => *s.pick(&[0x80u8, 0xc0, 0xe0, 0xfe, 0, 0x7f]), _ => s.int(8) as u8 }).collect();
    let align = s.below(16) as u8;
    cx.note(|| format!("operations {:?} in the context {} on {}", ops, CTX[ctx as usize], hex(&b)));
    cx.nontrivial("operations", &[&ops[..], &b].concat());
    with(far, |v| {
        for srv in v.iter_mut() {
            cx.evals(1);
            let (text, end, pos) = cursor(&ops, &b, ctx & 1 == 1, srv.alloc);
            let who = format!("reader operations {:?} in the build {}, context {}, on {}", ops, srv.name, CTX[ctx as usize], hex(&b));
            let got = srv.ask_raw(&query(1, ctx, align, ops.len(), &[&ops[..], &b].concat())).map_err(|f| Fail::new(format!("{}: {}", who, f.msg)))?;
            ensure!(got.lines().count() == if srv.std { 4 } else { 2 }, "{}: odd answer {}", who, got);
            for (k, line) in got.lines().enumerate() {
                let want = format!("{}{} {}", text, end, if end == "ok" && k < 2 { pos as i64 } else { -1 });
                ensure!(line == want, "{}: the {} says {:?} instead of {:?}", who, ["borrowing reader", "copying reader", "unbuffered stream", "buffered stream"][k], line, want);
            }
        }
        Ok(())
    })
}
fn writing(far: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let ctx = s.below(4) as u8;
    let (mut o, mut q) = ([Out::new(false), Out::new(true)], vec![]);
    for _ in 0..s.usize_below(12) + 1 {
        let op = if s.chance(1, 5) { 12 } else { s.below(17) as u8 };
        q.push(op);
        match op {
            0..=11 | 15 => {
                let w = [1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 4, 8, 0, 0, 0, 8][op as usize];
                let v = if w == 16 { s.u128() } else { s.int(8 * w as u32) as u128 };
                q.extend_from_slice(&v.to_le_bytes()[..w]);
                for x in &mut o { x.uint(v, w) }
            }
            12 => { let v = s.int(64); q.extend_from_slice(&v.to_le_bytes()); let e = varint(v); for x in &mut o { x.raw(&e) } }
            14 => { let n = s.usize_below(20); q.push(n as u8); for _ in 0..n { let v = s.int(16) as u16; q.extend_from_slice(&v.to_le_bytes()); for x in &mut o { x.u16(v) } } }
            _ => { let n = s.usize_below(30); q.push(n as u8); let b = s.bytes(n); q.extend_from_slice(&b); for x in &mut o { x.raw(&b) } }
        }
    }
    cx.note(|| format!("writer operations {} in the context {}", hex(&q), CTX[ctx as usize]));
    cx.nontrivial("writer", &q);
    with(far, |v| {
        for srv in v.iter_mut() {
            cx.evals(1);
            let who = format!("writer operations {} in the build {}, context {}", hex(&q), srv.name, CTX[ctx as usize]);
            let got = srv.ask_raw(&query(2, ctx, 0, 0, &q)).map_err(|f| Fail::new(format!("{}: {}", who, f.msg)))?;
            let want = hex_plain(&o[ctx as usize & 1].b);
            ensure!(got == want, "{}: gives {} instead of {}", who, got, want);
        }
        Ok(())
    })
}
fn main() {
    let mut m = pbt::Main::new("C23", "a non-empty input of a type, or a sequence of operations; distinct by content; every build that offers the type answers");
    m.section("types, optimised and reduced builds", 12_000, 600_000, |s, cx| bytes(false, s, cx));
    m.section("reader operations, optimised and reduced builds", 6_000, 300_000, |s, cx| reading(false, s, cx));
    m.section("writer operations, optimised and reduced builds", 4_000, 200_000, |s, cx| writing(false, s, cx));
    m.section("types, other machines", 640, 40_000, |s, cx| bytes(true, s, cx));
    m.section("reader operations, other machines", 320, 20_000, |s, cx| reading(true, s, cx));
    m.section("writer operations, other machines", 160, 10_000, |s, cx| writing(true, s, cx));
    m.extra.push(("builds".into(), format!("{};{}", std::env::var("PROBES").unwrap_or_default(), std::env::var("PROBES_FAR").unwrap_or_default()).split(';').filter_map(|x| x.split('=').next()).collect::<Vec<_>>().join(", ")));
    m.run()
}
