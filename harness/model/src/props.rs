//! Property functions over erased types, shared by the checks.
use crate::codec::{In, Out, DE};
use crate::ty::{end, flags, Ty, BV};
use pbt::io::{Sched, ScriptRead, ScriptWrite, Step};
use pbt::sys::with_guard;
use pbt::{ensure, fail, hex, Cx, Fail, Res, Src};
use speedy::{Error, IsEof};
use std::path::PathBuf;

/// Largest generated message: must fit the guard regions.
pub const MAX_INPUT: usize = 900_000;

pub struct Tmp(pub PathBuf);
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
/// A scratch file of this worker.
pub fn tmp(tag: &str) -> Tmp {
    let d = pbt::run::root().join("target").join("scratch");
    let _ = std::fs::create_dir_all(&d);
    Tmp(d.join(format!("{}-{}", std::process::id(), tag)))
}
pub fn is_eof_class(e: &Error) -> bool { e.is_eof() }
pub fn show_err(e: &Error) -> String { format!("{:?}", e) }
pub fn show(r: &Result<BV, Error>) -> String { match r { Ok(v) => format!("Ok({})", hex(&v.canon())), Err(e) => format!("Err({})", e) } }
pub fn pick_ty<'t>(s: &mut Src, tys: &'t [Ty]) -> &'t Ty { let i = s.cycle(tys.len()); &tys[i] }

/// A value with its model encoding.
pub struct Case { pub v: BV, pub enc: Vec<u8>, pub be: bool, pub canon: Vec<u8>, pub fail: bool }
pub fn gen_value(s: &mut Src, t: &Ty) -> Case {
    if t.is(flags::SLOW) { s.scale_small() } else { s.scale() }
    let mut be = s.bool();
    if t.is(flags::NATIVE_ONLY) { be = false; }
    let v = (t.gen)(s);
    let mut o = Out::new(be);
    v.enc(&mut o);
    let canon = v.canon_read();
    Case { v, enc: o.b, be, canon, fail: o.fail }
}
fn ename(be: bool) -> &'static str { if be { "BE" } else { "LE" } }

/// All five readers on valid data give back the value and consume exactly its encoding.
pub fn round_trip(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let c = gen_value(s, t);
    let e = end(c.be);
    if c.fail || c.enc.len() > MAX_INPUT { cx.label("skipped: unwritable value"); return Ok(()); }
    cx.note(|| format!("type {} {} value with model encoding {}", t.name, ename(c.be), hex(&c.enc)));
    let bytes = match c.v.w_vec(e) { Ok(b) => b, Err(x) => fail!("{}: writing a valid value failed: {}", t.name, x) };
    ensure!(bytes.len() <= MAX_INPUT, "{}: {} bytes written for a value the model encodes in {}", t.name, bytes.len(), c.enc.len());
    if !bytes.is_empty() { cx.nontrivial(t.name, &bytes); }
    cx.sample(|| format!("{} {} <-> {}", t.name, ename(c.be), hex(&bytes)));
    let junk = if t.is(flags::EOFSENS) { vec![] } else { let n = s.usize_below(5); s.bytes(n) };
    let mut all = bytes.clone();
    all.extend_from_slice(&junk);
    let same = |who: &str, r: Result<BV, Error>| -> Result<(), Fail> {
        match r {
            Ok(v) => { let k = v.canon(); if k == c.canon { Ok(()) } else { Err(Fail::new(format!("{} {}: {} returned a different value: wrote {} read {} (bytes {})", t.name, ename(c.be), who, hex(&c.canon), hex(&k), hex(&bytes)))) } }
            Err(x) => Err(Fail::new(format!("{} {}: {} failed on a valid encoding {}: {}", t.name, ename(c.be), who, hex(&bytes), x))),
        }
    };
    let gap = s.usize_below(2) * s.usize_below(9);
    with_guard(0, |g| {
        let gap = if t.is(flags::ALIGNED) { all.len().wrapping_neg() & 15 } else { gap };
        let inp = g.end(&all, gap);
        let (r, n) = (t.r_buf)(e, inp);
        same("buffer reader", r)?;
        ensure!(n == bytes.len(), "{}: buffer reader consumed {} of {} bytes", t.name, n, bytes.len());
        same("plain buffer reader", (t.r_buf_plain)(e, inp))?;
        if t.is(flags::BORROW) { return Ok(()); }
        let (r, n) = (t.r_copy)(e, inp);
        same("copying buffer reader", r)?;
        ensure!(n == bytes.len(), "{}: copying reader consumed {} of {} bytes", t.name, n, bytes.len());
        same("plain copying reader", (t.r_copy_plain)(e, inp))?;
        Ok(())
    })?;
    if t.is(flags::BORROW) { return Ok(()); }
    let mut st = ScriptRead::new(&all, Sched::gen(s, false));
    same("unbuffered stream reader", (t.r_unbuf)(e, &mut st))?;
    if !t.is(flags::EOFSENS) { ensure!(st.pos == bytes.len(), "{}: unbuffered reader took {} bytes from the stream, the encoding has {}", t.name, st.pos, bytes.len()); }
    let mut st = ScriptRead::new(&all, Sched::gen(s, false));
    same("buffered stream reader", (t.r_bufd)(e, &mut st))?;
    if s.chance(1, 4) {
        let f = tmp("rt");
        c.v.w_file(e, &f.0).map_err(|x| Fail::new(format!("{}: writing to a file failed: {}", t.name, x)))?;
        same("file reader", (t.r_file)(e, &f.0))?;
        cx.label("file");
    }
    Ok(())
}

/// The bytes are the documented ones, and documented bytes decode to the value.
pub fn format(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let c = gen_value(s, t);
    let e = end(c.be);
    if c.enc.len() > MAX_INPUT { return Ok(()); }
    cx.note(|| format!("type {} {} documented encoding {}", t.name, ename(c.be), hex(&c.enc)));
    match (c.v.w_vec(e), c.fail) {
        (Err(_), true) => { cx.label("unwritable value refused"); return Ok(()); }
        (Ok(b), true) => fail!("{}: a value with no encoding was written as {}", t.name, hex(&b)),
        (Err(x), false) => fail!("{} {}: writing failed: {} (expected {})", t.name, ename(c.be), x, hex(&c.enc)),
        (Ok(b), false) => ensure!(b == c.enc, "{} {}: wrote {} but the documented encoding is {}", t.name, ename(c.be), hex(&b), hex(&c.enc)),
    }
    if !c.enc.is_empty() { cx.nontrivial(t.name, &c.enc); }
    cx.sample(|| format!("{} {} = {}", t.name, ename(c.be), hex(&c.enc)));
    with_guard(0, |g| {
        let inp = g.end(&c.enc, if t.is(flags::ALIGNED) { c.enc.len().wrapping_neg() & 15 } else { 0 });
        for which in 0..2 {
            if which == 1 && t.is(flags::BORROW) { continue; }
            let (r, n) = if which == 0 { (t.r_buf)(e, inp) } else { (t.r_copy)(e, inp) };
            match r {
                Ok(v) => { let k = v.canon(); ensure!(k == c.canon, "{} {}: the documented encoding {} decodes to {} instead of {}", t.name, ename(c.be), hex(&c.enc), hex(&k), hex(&c.canon)); }
                Err(x) => fail!("{} {}: the documented encoding {} is refused: {}", t.name, ename(c.be), hex(&c.enc), x),
            }
            ensure!(n == c.enc.len(), "{}: consumed {} of {}", t.name, n, c.enc.len());
        }
        Ok(())
    })
}

/// Every writer produces the same bytes, and the size is predicted.
pub fn writers(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let c = gen_value(s, t);
    let e = end(c.be);
    cx.note(|| format!("type {} {} value with model encoding {} (unwritable: {})", t.name, ename(c.be), hex(&c.enc), c.fail));
    let vec = c.v.w_vec(e);
    let sched = Sched::gen(s, true);
    let mut sink = ScriptWrite::new(sched);
    let st = c.v.w_stream(e, &mut sink);
    let f = tmp("w");
    let old = { let n = s.usize_below(4) * 40; s.bytes(n) };
    let use_file = s.chance(1, 3);
    let file = if use_file {
        if !old.is_empty() { let mut o = old.clone(); o.resize(old.len() + c.enc.len(), 0xee); std::fs::write(&f.0, &o).unwrap(); }
        Some(c.v.w_file(e, &f.0))
    } else { None };
    let needed = c.v.needed(e);
    let bytes = match vec {
        Err(x) => {
            ensure!(c.fail, "{}: writing to a vector failed: {}", t.name, x);
            ensure!(st.is_err(), "{}: a value that cannot be written was written to a stream", t.name);
            if let Some(r) = file { ensure!(r.is_err(), "{}: a value that cannot be written was written to a file", t.name); }
            let mut b = vec![0; c.enc.len() + 64];
            ensure!(c.v.w_buf(e, &mut b).is_err(), "{}: a value that cannot be written was written to a buffer", t.name);
            cx.label("unwritable value");
            return Ok(());
        }
        Ok(b) => b,
    };
    ensure!(!c.fail, "{}: a value that cannot be encoded was written as {}", t.name, hex(&bytes));
    if !bytes.is_empty() { cx.nontrivial(t.name, &bytes); }
    cx.sample(|| format!("{} {} -> {}", t.name, ename(c.be), hex(&bytes)));
    match needed { Ok(n) => ensure!(n == bytes.len(), "{}: predicted size {} but {} bytes are written", t.name, n, bytes.len()), Err(x) => fail!("{}: size prediction failed: {}", t.name, x) }
    match st { Ok(()) => ensure!(sink.out == bytes, "{}: stream got {} but vector {}", t.name, hex(&sink.out), hex(&bytes)), Err(x) => fail!("{}: writing to a stream (schedule {:?}) failed: {}", t.name, sink.sched, x) }
    if let Some(r) = file {
        if let Err(x) = r { fail!("{}: writing to a file failed: {}", t.name, x); }
        let got = std::fs::read(&f.0).unwrap();
        ensure!(got == bytes, "{}: file has {} but vector {}", t.name, hex(&got), hex(&bytes));
        cx.label("file");
    }
    // fixed buffers: exact, longer, shorter; ending at an unmapped page
    with_guard(1, |g| {
        if bytes.len() + 64 > g.capacity() { return Ok(()); }
        let extra = s.usize_below(20);
        let b = g.end_mut(bytes.len() + extra, 0xA7);
        if let Err(x) = c.v.w_buf(e, b) { fail!("{}: a buffer of {} bytes is refused for {} bytes: {}", t.name, b.len(), bytes.len(), x); }
        ensure!(b[..bytes.len()] == bytes[..], "{}: buffer got {} but vector {}", t.name, hex(&b[..bytes.len()]), hex(&bytes));
        ensure!(b[bytes.len()..].iter().all(|&x| x == 0xA7), "{}: bytes beyond the encoding were modified", t.name);
        if !bytes.is_empty() {
            let short = s.usize_below(bytes.len());
            let b = g.end_mut(short, 0xA7);
            ensure!(c.v.w_buf(e, b).is_err(), "{}: {} bytes written successfully into a buffer of {}", t.name, bytes.len(), short);
            let b = g.end_mut(bytes.len() + 8, 0xA7);
            let r = c.v.w_buf(e, &mut b[..short]);
            ensure!(r.is_err() && b[short..].iter().all(|&x| x == 0xA7), "{}: writing into a short slice touched memory after it", t.name);
        }
        Ok(())
    })
}

// ---- inputs that are not (necessarily) valid ----
const SPECIAL: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x1fffffffffffffff, 0x2000000000000000, 0x4000000000000000, 0x20000000, 0x40000000, 999_999_999, 1_000_000_000];
/// A byte string for a type: random, valid, mutated, or another type's encoding.
pub fn hostile(s: &mut Src, t: &Ty, all: &[Ty], be: bool) -> (Vec<u8>, &'static str) {
    let how = s.below(10);
    if how == 0 {
        let n = s.usize_below(40);
        return (s.bytes(n), "random");
    }
    if t.is(flags::SLOW) || s.chance(3, 4) { s.scale_small() } else { s.scale() }
    let src = if how == 1 { let i = s.usize_below(all.len()); &all[i] } else { t };
    let v = (src.gen)(s);
    let mut o = Out::new(be);
    v.enc(&mut o);
    let mut b = o.b;
    if b.len() > 100_000 { b.truncate(100_000); }
    if how == 1 { return (b, "foreign"); }
    if how == 2 { let n = s.usize_below(9); let j = s.bytes(n); b.extend_from_slice(&j); return (b, "valid"); }
    let n = 1 + s.usize_below(3);
    for _ in 0..n {
        let len = b.len();
        match s.below(10) {
            0 if len > 0 => { let i = s.usize_below(len); b[i] ^= 1 << s.below(8); }
            1 if len > 0 => { let i = s.usize_below(len); b[i] = s.int(8) as u8; }
            2 | 3 => {
                // a special number over some position, favouring the front where lengths and tags live
                let w = *s.pick(&[1usize, 2, 4, 8, 4, 8]);
                let i = if len == 0 { 0 } else if s.bool() { s.usize_below(len.min(12)) } else { s.usize_below(len) };
                let x = *s.pick(SPECIAL);
                let x = x.wrapping_add(s.below(3)).wrapping_sub(1);
                let mut o = Out::new(be);
                o.uint(x as u128, w);
                while b.len() < i + w { b.push(0); }
                b[i..i + w].copy_from_slice(&o.b);
            }
            4 => { let k = s.usize_below(len + 1); b.truncate(len - k); }
            5 if len > 0 => { let i = s.usize_below(len); let k = 1 + s.usize_below((len - i).min(9)); b.drain(i..i + k); }
            6 => { let i = s.usize_below(len + 1); let k = s.usize_below(9); let j = s.bytes(k); b.splice(i..i, j); }
            7 if len > 1 => { let i = s.usize_below(len); let k = s.usize_below(len); let m = 1 + s.usize_below((len - i.max(k)).min(16)); let seg = b[i..i + m].to_vec(); b[k..k + m].copy_from_slice(&seg); }
            8 => {
                // a count whose product with an element's size is just above a multiple of the machine's word
                let size = 1 + s.below(40) as u128;
                let k = 1 + s.below(size as u64) as u128;
                let x = ((k << 64) + size - 1) / size + s.below(4) as u128;
                let x = x as u64;
                let (at, w) = if s.chance(3, 4) { (if s.chance(3, 4) { 0 } else { s.usize_below(len.min(16) + 1) }, false) } else { (s.usize_below(len + 1), true) };
                let mut o = Out::new(be);
                if w || s.bool() { o.varint(x) } else { o.u64(x) }
                let cut = if s.bool() { o.b.len().min(len - at) } else { s.usize_below(9).min(len - at) };
                b.splice(at..at + cut, o.b);
            }
            _ => { let n = s.usize_below(20); let j = s.bytes(n); b.extend_from_slice(&j); }
        }
    }
    (b, "mutated")
}
/// How much a buffer reader may allocate for an input of `len` bytes.
pub fn alloc_bound(len: usize) -> usize { len * 1024 + (1 << 20) }

/// What the model says about an input.
pub struct Verdict { pub r: Result<BV, DE>, pub consumed: usize, pub fuzzy: bool, pub declared: u128 }
pub fn judge(t: &Ty, b: &[u8], be: bool) -> Verdict {
    let mut i = In::new(b, be);
    let r = (t.dec)(&mut i);
    Verdict { r, consumed: i.pos, fuzzy: i.fuzzy, declared: i.declared }
}

/// Arbitrary bytes: value or error as the model says, within the buffer, without panics or huge allocations.
pub fn hostile_buffers(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let be = if t.is(flags::NATIVE_ONLY) { false } else { s.bool() };
    let (b, kind) = hostile(s, t, tys, be);
    let e = end(be);
    cx.note(|| format!("type {} {} input ({}) {}", t.name, ename(be), kind, hex(&b)));
    let want = judge(t, &b, be);
    if let Err(DE::Big) = want.r { cx.label("skipped: huge number of empty elements"); return Ok(()); }
    cx.label(match &want.r { Ok(_) => "model accepts", Err(DE::Eof) => "model: end of input", Err(_) => "model: invalid" });
    cx.label(kind);
    if kind != "valid" || want.r.is_err() { cx.nontrivial(t.name, &b); }
    cx.sample(|| format!("{} {} {} -> {}", t.name, ename(be), hex(&b), match &want.r { Ok(v) => format!("value {}", hex(&v.canon())), Err(e) => format!("{:?}", e) }));
    let gap = s.usize_below(2) * s.usize_below(16);
    with_guard(0, |g| {
        let gap = if t.is(flags::ALIGNED) { b.len().wrapping_neg() & 15 } else { gap };
        let inp = if s.bool() { g.end(&b, gap) } else { g.start(&b, if t.is(flags::ALIGNED) { 0 } else { gap }) };
        for which in 0..2 {
            let who = if which == 0 { "buffer reader" } else { "copying reader" };
            let ((r, n), u) = pbt::alloc::measure(|| if which == 0 { (t.r_buf)(e, inp) } else { (t.r_copy)(e, inp) });
            ensure!(n <= b.len(), "{}: {} reports {} bytes consumed of {}", t.name, who, n, b.len());
            if !t.is(flags::SLOW) && !t.is(flags::ZST) { ensure!(u.biggest.max(u.peak) <= alloc_bound(b.len()), "{}: {} allocated {} bytes (largest single request {}) for an input of {} bytes", t.name, who, u.peak, u.biggest, b.len()); }
            if which == 1 && t.is(flags::BORROW) {
                let empty_ok = r.is_ok();
                if empty_ok && t.is(flags::BUILTIN) { fail!("{}: a borrow-only type was read by a copying reader", t.name); }
                continue;
            }
            if want.fuzzy { drop(r); continue; }
            match (&r, &want.r) {
                (Ok(v), Ok(w)) => {
                    let (a, b2) = (v.canon(), w.canon());
                    ensure!(a == b2, "{} {}: {} read {} as {} instead of {}", t.name, ename(be), who, hex(&b), hex(&a), hex(&b2));
                    ensure!(n == want.consumed, "{}: {} consumed {} bytes of {}, the encoding has {}", t.name, who, n, hex(&b), want.consumed);
                }
                (Err(_), Err(_)) => {}
                (Ok(v), Err(x)) => fail!("{} {}: {} accepted {} as {}, but it is not an encoding ({:?})", t.name, ename(be), who, hex(&b), hex(&v.canon()), x),
                (Err(x), Ok(w)) => fail!("{} {}: {} refused {} ({}), an encoding of {}", t.name, ename(be), who, hex(&b), x, hex(&w.canon())),
            }
            // the plain variants are the same reader
            let p = if which == 0 { (t.r_buf_plain)(e, inp) } else { (t.r_copy_plain)(e, inp) };
            match (&r, &p) {
                (Ok(a), Ok(b)) => ensure!(a.canon() == b.canon(), "{}: the plain {} disagrees", t.name, who),
                (Err(_), Err(_)) => {}
                _ => fail!("{} {}: the plain {} gives {}, the length-reporting one {} for {}", t.name, ename(be), who, show(&p), show(&r), hex(&b)),
            }
        }
        Ok(())
    })
}

/// Five readers, one input: all agree.
pub fn readers_agree(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    if t.is(flags::BORROW) { return Ok(()); }
    let be = if t.is(flags::NATIVE_ONLY) { false } else { s.bool() };
    let e = end(be);
    let (b, kind) = if s.chance(1, 3) {
        s.scale();
        let v = (t.gen)(s);
        let mut o = Out::new(be);
        v.enc(&mut o);
        if o.b.len() > MAX_INPUT { o.b.truncate(MAX_INPUT); }
        if s.chance(1, 3) { let n = s.usize_below(o.b.len() + 1); o.b.truncate(n); }
        let k = if o.b.len() > 8192 { "large" } else { "valid" };
        (o.b, k)
    } else { hostile(s, t, tys, be) };
    cx.note(|| format!("type {} {} input ({}) {}", t.name, ename(be), kind, hex(&b)));
    let want = judge(t, &b, be);
    if let Err(DE::Big) = want.r { return Ok(()); }
    if want.fuzzy { cx.label("skipped: end of input swallowed mid-field"); return Ok(()); }
    if want.declared > (64 << 20) { cx.label("skipped for streams: huge declared length"); return Ok(()); }
    cx.label(kind);
    if !b.is_empty() { cx.nontrivial(t.name, &b); }
    cx.sample(|| format!("{} {} {} ({})", t.name, ename(be), hex(&b), kind));
    let (first, n0) = with_guard(0, |g| { let inp = g.end(&b, if t.is(flags::ALIGNED) { b.len().wrapping_neg() & 15 } else { 0 }); let (r, n) = (t.r_buf)(e, inp); (r.map(|v| v.canon()).map_err(|e| format!("{}", e)), n) });
    let cmp = |who: &str, r: Result<BV, Error>| -> Result<bool, Fail> {
        match (r, &first) {
            (Ok(v), Ok(c)) => { let k = v.canon(); if &k == c { Ok(true) } else { Err(Fail::new(format!("{} {}: the {} reads {} as {}, the buffer reader as {}", t.name, ename(be), who, hex(&b), hex(&k), hex(c)))) } }
            (Err(_), Err(_)) => Ok(false),
            (Ok(v), Err(x)) => Err(Fail::new(format!("{} {}: the {} accepts {} as {}, the buffer reader fails: {}", t.name, ename(be), who, hex(&b), hex(&v.canon()), x))),
            (Err(x), Ok(c)) => Err(Fail::new(format!("{} {}: the {} fails on {}: {}; the buffer reader reads {}", t.name, ename(be), who, hex(&b), x, hex(c)))),
        }
    };
    let (r, n) = (t.r_copy)(e, &b);
    if cmp("copying reader", r)? { ensure!(n == n0, "{}: copying reader consumed {}, buffer reader {}", t.name, n, n0); }
    let mut st = ScriptRead::new(&b, Sched::gen(s, true));
    let r = (t.r_unbuf)(e, &mut st);
    let ok = cmp("unbuffered stream reader", r)?;
    if ok && !t.is(flags::EOFSENS) { ensure!(st.pos == n0, "{}: unbuffered stream reader took {} bytes, the buffer reader consumed {} of {}", t.name, st.pos, n0, hex(&b)); }
    let sched = Sched::gen(s, true);
    cx.note(|| format!("buffered schedule {:?}", sched));
    let mut st = ScriptRead::new(&b, sched);
    cmp("buffered stream reader", (t.r_bufd)(e, &mut st))?;
    if s.chance(1, 8) {
        let f = tmp("ra");
        std::fs::write(&f.0, &b).unwrap();
        cmp("file reader", (t.r_file)(e, &f.0))?;
        cx.label("file");
    }
    Ok(())
}

/// Every strict prefix fails as end of input.
pub fn truncation(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let c = gen_value(s, t);
    let e = end(c.be);
    if c.fail || c.enc.len() > MAX_INPUT { return Ok(()); }
    let min = (t.min)();
    ensure!(min <= c.enc.len(), "{}: declared minimum size {} but a value encodes as {} ({} bytes)", t.name, min, hex(&c.enc), c.enc.len());
    if t.is(flags::EOFSENS) || c.enc.is_empty() { return Ok(()); }
    cx.note(|| format!("type {} {} encoding {}", t.name, ename(c.be), hex(&c.enc)));
    let n = c.enc.len();
    let cuts: Vec<usize> = if n <= 24 { (0..n).collect() } else { let mut v = vec![0, n - 1, n - 2, n / 2]; for _ in 0..6 { v.push(s.usize_below(n)); } v };
    for &k in &cuts {
        cx.evals(1);
        cx.nontrivial(t.name, &c.enc[..k]);
        let p = &c.enc[..k];
        let chk = |who: &str, r: Result<BV, Error>| -> Res {
            match r {
                Ok(v) => Err(Fail::new(format!("{} {}: the {} read {} from {} bytes of the {}-byte encoding {}", t.name, ename(c.be), who, hex(&v.canon()), k, n, hex(&c.enc)))),
                Err(x) if x.is_eof() => Ok(()),
                Err(x) => Err(Fail::new(format!("{} {}: the {} reports `{}` ({:?}), not end of input, for {} of {} bytes of {}", t.name, ename(c.be), who, x, x, k, n, hex(&c.enc)))),
            }
        };
        with_guard(0, |g| { let inp = g.end(p, if t.is(flags::ALIGNED) { k.wrapping_neg() & 15 } else { 0 }); chk("buffer reader", (t.r_buf)(e, inp).0)?; chk("plain buffer reader", (t.r_buf_plain)(e, inp)) })?;
        if t.is(flags::BORROW) { continue; }
        chk("copying reader", (t.r_copy)(e, p).0)?;
        chk("unbuffered stream reader", (t.r_unbuf)(e, &mut ScriptRead::new(p, Sched::whole())))?;
        chk("buffered stream reader", (t.r_bufd)(e, &mut ScriptRead::new(p, Sched::gen(s, true))))?;
    }
    if !t.is(flags::BORROW) && s.chance(1, 10) {
        let k = *s.pick(&cuts);
        let f = tmp("tr");
        std::fs::write(&f.0, &c.enc[..k]).unwrap();
        match (t.r_file)(e, &f.0) { Err(x) if x.is_eof() => {} r => fail!("{}: file reader on {} of {} bytes: {}", t.name, k, n, show(&r)) }
        cx.label("file");
    }
    cx.sample(|| format!("{} {}: {} prefixes of {}", t.name, ename(c.be), cuts.len(), hex(&c.enc)));
    Ok(())
}

/// Several values of different types, one after another.
pub fn sequence(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let n = 1 + s.usize_below(5);
    let mut items = vec![];
    let mut all = vec![];
    for k in 0..n {
        let t = if k == 0 { pick_ty(s, tys) } else { let i = s.usize_below(tys.len()); &tys[i] };
        if t.is(flags::EOFSENS) || t.is(flags::BORROW) { continue; }
        let c = gen_value(s, t);
        if c.fail || c.enc.len() > 100_000 { continue; }
        let b = match c.v.w_vec(end(c.be)) { Ok(b) => b, Err(x) => fail!("{}: writing failed: {}", t.name, x) };
        all.extend_from_slice(&b);
        items.push((t, c, b));
    }
    if items.is_empty() { return Ok(()); }
    let k = s.usize_below(6);
    let junk = s.bytes(k);
    all.extend_from_slice(&junk);
    cx.note(|| format!("sequence {} over {}", items.iter().map(|i| i.0.name).collect::<Vec<_>>().join(", "), hex(&all)));
    if items.len() > 1 { cx.nontrivial(items[0].0.name, &all); }
    cx.sample(|| format!("{} -> {}", items.iter().map(|i| i.0.name).collect::<Vec<_>>().join(" ++ "), hex(&all)));
    for which in 0..2 {
        with_guard(0, |g| {
            let inp = g.end(&all, 0);
            let mut pos = 0;
            for (t, c, b) in &items {
                let (r, n) = if which == 0 { (t.r_buf)(end(c.be), &inp[pos..]) } else { (t.r_copy)(end(c.be), &inp[pos..]) };
                match r { Ok(v) => { let k = v.canon(); ensure!(k == c.canon, "{}: read {} instead of {} at offset {}", t.name, hex(&k), hex(&c.canon), pos) } Err(x) => fail!("{}: reading at offset {} failed: {}", t.name, pos, x) }
                ensure!(n == b.len(), "{}: {} bytes consumed instead of {}", t.name, n, b.len());
                pos += n;
            }
            Ok(())
        })?;
    }
    let mut st = ScriptRead::new(&all, Sched::gen(s, true));
    let mut pos = 0;
    for (t, c, b) in &items {
        let r = (t.r_unbuf)(end(c.be), &mut st);
        match r { Ok(v) => { let k = v.canon(); ensure!(k == c.canon, "{}: unbuffered stream read {} instead of {} at offset {}", t.name, hex(&k), hex(&c.canon), pos) } Err(x) => fail!("{}: unbuffered reading at offset {} failed: {}", t.name, pos, x) }
        pos += b.len();
        ensure!(st.pos == pos, "{}: unbuffered reading took the stream to {} instead of {}", t.name, st.pos, pos);
    }
    ensure!(st.eof_hits == 0, "the unbuffered reader asked for bytes past the end of the messages");
    Ok(())
}

/// Compares all readers with the model on one input.
/// `pure`: the input is a prefix of valid data, so that running out is the only thing wrong with it.
pub fn against_model(s: &mut Src, cx: &mut Cx, t: &Ty, b: &[u8], be: bool, pure: bool, what: &str) -> Res {
    let e = end(be);
    let want = judge(t, b, be);
    if let Err(DE::Big) = want.r { return Ok(()); }
    if want.fuzzy { cx.label("unspecified: cut in the middle of an optional tail"); return Ok(()); }
    cx.label(match &want.r { Ok(_) => "model accepts", Err(DE::Eof) => "model: end of input", Err(_) => "model: invalid" });
    cx.nontrivial(t.name, b);
    cx.note(|| format!("{} {} {}: input {} model {}", t.name, ename(be), what, hex(b), match &want.r { Ok(v) => hex(&v.canon()), Err(e) => format!("{:?}", e) }));
    let cmp = |who: &str, r: Result<BV, Error>| -> Res {
        match (r, &want.r) {
            (Ok(v), Ok(w)) => { let (a, b2) = (v.canon(), w.canon()); if a != b2 { fail!("{} {}: {}: the {} reads {} as {} instead of {}", t.name, ename(be), what, who, hex(b), hex(&a), hex(&b2)); } }
            (Err(x), Err(DE::Eof)) => ensure!(!pure || x.is_eof(), "{} {}: {}: the {} fails on {} with `{}`, which is not end of input", t.name, ename(be), what, who, hex(b), x),
            (Err(_), Err(_)) => {}
            (Ok(v), Err(x)) => fail!("{} {}: {}: the {} accepts {} as {}, which should fail ({:?})", t.name, ename(be), what, who, hex(b), hex(&v.canon()), x),
            (Err(x), Ok(w)) => fail!("{} {}: {}: the {} refuses {} ({}), which should read as {}", t.name, ename(be), what, who, hex(b), x, hex(&w.canon())),
        }
        Ok(())
    };
    with_guard(0, |g| {
        let inp = g.end(b, 0);
        let (r, n) = (t.r_buf)(e, inp);
        if r.is_ok() { ensure!(n == want.consumed, "{} {}: {}: {} bytes consumed of {}, expected {}", t.name, ename(be), what, n, hex(b), want.consumed); }
        cmp("buffer reader", r)?;
        cmp("plain buffer reader", (t.r_buf_plain)(e, inp))?;
        if !t.is(flags::BORROW) { cmp("copying reader", (t.r_copy)(e, inp).0)?; cmp("plain copying reader", (t.r_copy_plain)(e, inp))?; }
        Ok(())
    })?;
    if let Err(DE::Bad) = want.r {
        // with plenty of bytes after the fault it cannot be mistaken for the end of the input
        let mut long = b.to_vec();
        long.extend(std::iter::repeat(0).take(5000));
        let again = judge(t, &long, be);
        if matches!(again.r, Err(DE::Bad)) && again.declared < 4000 && !again.fuzzy {
            cx.label("invalid, with room to spare");
            with_guard(0, |g| { let inp = g.end(&long, 0); match (t.r_buf)(e, inp).0 { Ok(v) => fail!("{} {}: {}: invalid data {} is read as {}", t.name, ename(be), what, hex(b), hex(&v.canon())), Err(x) => ensure!(!x.is_eof(), "{} {}: {}: invalid data {} followed by 5000 zeros is called end of input: {}", t.name, ename(be), what, hex(b), x) } Ok(()) })?;
        }
    }
    // a stream of unknown length whose declared contents cannot be allocated may be refused as such
    if t.is(flags::BORROW) || (want.declared > 1 << 28 && want.r.is_err()) { return Ok(()); }
    cmp("unbuffered stream reader", (t.r_unbuf)(e, &mut ScriptRead::new(b, Sched::gen(s, true))))?;
    cmp("buffered stream reader", (t.r_bufd)(e, &mut ScriptRead::new(b, Sched::gen(s, true))))?;
    Ok(())
}
/// Values cut at every point (types that treat the end of input as data included), against the model.
pub fn prefixes(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    s.scale_small();
    let be = s.bool();
    let v = (t.gen)(s);
    let mut o = Out::new(be);
    v.enc(&mut o);
    if o.fail || o.b.len() > 50_000 { return Ok(()); }
    let b = o.b;
    cx.sample(|| format!("{} {}: prefixes of {}", t.name, ename(be), hex(&b)));
    let n = b.len();
    let cuts: Vec<usize> = if n <= 16 { (0..=n).collect() } else { let mut c = vec![0, 1, n, n - 1, n - 2]; for _ in 0..8 { c.push(s.usize_below(n)); } c };
    for k in cuts { cx.evals(1); against_model(s, cx, t, &b[..k], be, true, "prefix")?; }
    // one corrupted byte, near the front more often than not
    if n > 0 {
        for _ in 0..3 {
            let mut c = b.clone();
            let i = if s.bool() { s.usize_below(n.min(8)) } else { s.usize_below(n) };
            c[i] = if s.bool() { c[i] ^ (1 << s.below(8)) } else { s.int(8) as u8 };
            cx.evals(1);
            against_model(s, cx, t, &c, be, false, "corrupted byte")?;
        }
    }
    Ok(())
}
/// A stream error inside or before a field is an error, also where the end of input would be forgiven.
pub fn stream_errors(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    if t.is(flags::BORROW) { return Ok(()); }
    s.scale_small();
    let be = s.bool();
    let v = (t.gen)(s);
    let mut o = Out::new(be);
    v.enc(&mut o);
    if o.fail || o.b.len() > 50_000 { return Ok(()); }
    let b = o.b;
    let off = if s.bool() { b.len() } else { s.usize_below(b.len() + 1) };
    let kind = *s.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::InvalidData, std::io::ErrorKind::TimedOut, std::io::ErrorKind::BrokenPipe]);
    for which in 0..2 {
        let mut st = ScriptRead::new(&b, Sched::gen(s, true));
        st.fault = Some((off, kind));
        let r = if which == 0 { (t.r_unbuf)(end(be), &mut st) } else { (t.r_bufd)(end(be), &mut st) };
        cx.note(|| format!("{} {} {} with {:?} after {} bytes", t.name, ename(be), hex(&b), kind, off));
        if st.fault_hits == 0 {
            // the value was complete without touching the error
            cx.label("error not reached");
            continue;
        }
        cx.nontrivial(t.name, &b[..off]);
        cx.label("error reached");
        match r {
            Ok(v) => {
                // a buffering reader may run into the error after it already had all it needed
                let full = judge(t, &b[..off], be);
                let fine = which == 1 && !t.is(flags::EOFSENS) && matches!(&full.r, Ok(w) if w.canon() == v.canon());
                ensure!(fine, "{} {}: a stream failing with {:?} after {} bytes of {} was read as {}", t.name, ename(be), kind, off, hex(&b), hex(&v.canon()));
            }
            Err(x) => {
                ensure!(!x.is_eof(), "{} {}: a stream failing with {:?} after {} bytes is reported as end of input ({})", t.name, ename(be), kind, off, x);
                let io: std::io::Error = x.into();
                ensure!(io.kind() == kind, "{} {}: a stream failing with {:?} is reported as {:?}", t.name, ename(be), kind, io.kind());
            }
        }
    }
    Ok(())
}
/// An enum with its declared tags.
pub struct EnumRec { pub ty: Ty, pub tags: &'static [u64], pub lt: crate::codec::Len, pub peek: bool, pub variant: fn(&mut Src, usize) -> BV }
/// Tags select exactly their variant: every tag value with every payload, against the model.
pub fn tags(s: &mut Src, cx: &mut Cx, es: &[EnumRec]) -> Res {
    use crate::codec::Len;
    let i = s.cycle(es.len());
    let e = &es[i];
    let be = s.bool();
    s.scale_small();
    let k = s.usize_below(e.tags.len());
    let v = (e.variant)(s, k);
    let mut o = Out::new(be);
    v.enc(&mut o);
    if o.fail { return Ok(()); }
    let own = o.b;
    match v.w_vec(end(be)) { Ok(b) => ensure!(b == own, "{}: variant {} with tag {} is written as {} instead of {}", e.ty.name, k, e.tags[k], hex(&b), hex(&own)), Err(x) => fail!("{}: writing failed: {}", e.ty.name, x) }
    match v.needed(end(be)) { Ok(n) => ensure!(n == own.len(), "{}: variant {} predicted at {} bytes, takes {}", e.ty.name, k, n, own.len()), Err(x) => fail!("{}: {}", e.ty.name, x) }
    against_model(s, cx, &e.ty, &own, be, true, "own encoding")?;
    let width = match e.lt { Len::U7 | Len::U8 => 1, Len::U16 => 2, Len::U32 => 4, Len::U64 => 8, _ => crate::codec::unvarint(&own).map(|x| x.1).unwrap_or(1) };
    let payload = own[width.min(own.len())..].to_vec();
    cx.sample(|| format!("{} {}: other tags before payload {}", e.ty.name, ename(be), hex(&payload)));
    // other tags before the same payload (padded so that a longer variant has bytes to read)
    let top = match e.lt { Len::U7 => 255, Len::U8 => 255, Len::U16 => 65535, Len::U32 => u32::MAX as u64, _ => u64::MAX };
    let all: Vec<u64> = if top == 255 { (0..=255).collect() } else {
        let mut c = vec![];
        for _ in 0..24 { c.push(match s.below(5) { 0 => *s.pick(e.tags), 1 => s.pick(e.tags).wrapping_add(s.below(3)).wrapping_sub(1), 2 => *s.pick(e.tags) ^ (1 << s.below(64)), 3 => s.int(64), _ => s.below(40) } & top); }
        c
    };
    let pad = if s.bool() { 0 } else { 3000 };
    let padding = vec![0x01; pad];
    for x in all {
        let mut o = Out::new(be);
        if e.lt == Len::Varint { o.varint(x) } else { o.uint(x as u128, width) }
        let mut b = o.b;
        b.extend_from_slice(&payload);
        b.extend_from_slice(&padding);
        let known = e.tags.contains(&x);
        cx.label(if known { "declared tag" } else { "undeclared tag" });
        cx.evals(1);
        if top == 255 && !known {
            // cheap form of the comparison for the exhaustive part
            with_guard(0, |g| { let inp = g.end(&b, 0); match (e.ty.r_buf)(end(be), inp).0 { Ok(v) => fail!("{}: undeclared tag {} is read as {}", e.ty.name, x, hex(&v.canon())), Err(y) => ensure!(pad == 0 || !y.is_eof(), "{}: undeclared tag {} is reported as end of input", e.ty.name, x) } Ok(()) })?;
            cx.nontrivial(e.ty.name, &b);
            continue;
        }
        against_model(s, cx, &e.ty, &b, be, false, "tag with foreign payload")?;
    }
    // cut inside the tag
    for k in 0..width.min(own.len()) { against_model(s, cx, &e.ty, &own[..k], be, true, "tag cut short")?; }
    Ok(())
}
#[allow(unused)]
fn unused(_: Step) {}
