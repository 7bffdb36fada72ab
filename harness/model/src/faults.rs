//! Streams, sinks and files that misbehave; classification and conversion of the resulting errors.
use crate::codec::DE;
use crate::props::*;
use crate::ty::{end, flags, Ty, BV};
use pbt::io::{Sched, ScriptRead, ScriptWrite, WFault, FAULT_MSG};
use pbt::{ensure, fail, hex, sys, Cx, Res, Src};
use speedy::{Error, IsEof};
use std::io::ErrorKind;

pub const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::NotConnected, ErrorKind::InvalidInput, ErrorKind::StorageFull, ErrorKind::NotFound];
fn ename(be: bool) -> &'static str { if be { "BE" } else { "LE" } }
fn small(s: &mut Src) { if s.chance(1, 12) { s.scale() } else { s.scale_small() } }
fn value(s: &mut Src, t: &Ty) -> Option<(Case, Vec<u8>)> {
    small(s);
    let be = s.bool() && !t.is(flags::NATIVE_ONLY);
    let v = (t.gen)(s);
    let mut o = crate::codec::Out::new(be);
    v.enc(&mut o);
    if o.fail || o.b.len() > 300_000 { return None; }
    let canon = v.canon_read();
    let b = o.b.clone();
    Some((Case { v, enc: o.b, be, canon, fail: false }, b))
}
/// Offsets to break at: all of them when the encoding is short, else a sample with the edges.
fn offsets(s: &mut Src, n: usize) -> Vec<usize> {
    if n <= 20 { (0..=n + 1).collect() } else {
        let mut v = vec![0, 1, n - 1, n, n + 1];
        for _ in 0..6 { v.push(s.usize_below(n)); }
        if n > 8192 { v.push(8192); v.push(8191); }
        v
    }
}
/// The error that the stream gave came through whole.
fn carries(x: Error, kind: ErrorKind, what: &str) -> Res {
    ensure!(!x.is_eof() || kind == ErrorKind::UnexpectedEof, "{}: a stream error of kind {:?} is reported as end of input ({})", what, kind, x);
    let text = x.to_string();
    ensure!(text.contains(FAULT_MSG), "{}: the stream's message is lost: {}", what, text);
    let io: std::io::Error = x.into();
    ensure!(io.kind() == kind, "{}: a stream error of kind {:?} is reported as {:?}", what, kind, io.kind());
    ensure!(io.get_ref().map(|e| e.to_string()).as_deref() == Some(FAULT_MSG), "{}: the stream's error is replaced by {}", what, io);
    Ok(())
}
fn read(t: &Ty, be: bool, which: usize, st: &mut ScriptRead) -> Result<BV, Error> { if which == 0 { (t.r_unbuf)(end(be), st) } else { (t.r_bufd)(end(be), st) } }
const WHO: [&str; 2] = ["unbuffered stream reader", "buffered stream reader"];

/// Short reads and interruptions alone change nothing.
pub fn interrupted_reads(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let Some((c, b)) = value(s, t) else { return Ok(()) };
    let mut all = b.clone();
    let junk = if t.is(flags::EOFSENS) { 0 } else { s.usize_below(4) };
    all.extend(s.bytes(junk));
    for which in 0..2 {
        let sched = Sched::gen(s, true);
        let mut st = ScriptRead::new(&all, sched.clone());
        cx.note(|| format!("{} {} {} {} schedule {:?}", t.name, ename(c.be), WHO[which], hex(&b), sched));
        let r = read(t, c.be, which, &mut st);
        if st.interrupts > 0 { cx.nontrivial(t.name, format!("{:?}{:?}", b, sched).as_bytes()); cx.label("interrupted"); }
        match r {
            Ok(v) => { let k = v.canon(); ensure!(k == c.canon, "{} {}: {} with schedule {:?} reads {} as {} instead of {}", t.name, ename(c.be), WHO[which], sched, hex(&b), hex(&k), hex(&c.canon)); }
            Err(x) => fail!("{} {}: {} with schedule {:?} ({} interruptions) fails on {}: {}", t.name, ename(c.be), WHO[which], sched, st.interrupts, hex(&b), x),
        }
    }
    cx.sample(|| format!("{} {} {} under interruptions", t.name, ename(c.be), hex(&b)));
    Ok(())
}
/// An I/O error at every offset.
pub fn read_faults(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let Some((c, b)) = value(s, t) else { return Ok(()) };
    let all = { let mut a = b.clone(); a.extend(s.bytes(3)); a };
    let all = if t.is(flags::EOFSENS) { b.clone() } else { all };
    let kind = *s.pick(KINDS);
    let once = s.chance(1, 3);
    for off in offsets(s, b.len()) {
        for which in 0..2 {
            let sched = Sched::gen(s, true);
            let mut st = ScriptRead::new(&all, sched.clone());
            st.fault = Some((off, kind));
            st.once = once;
            let what = format!("{} {} {} schedule {:?}, {:?} after {} bytes of {}", t.name, ename(c.be), WHO[which], sched, kind, off, hex(&b));
            cx.note(|| what.clone());
            let r = read(t, c.be, which, &mut st);
            cx.evals(1);
            if off < b.len() { cx.nontrivial(t.name, format!("{:?}{}{:?}{}", b, off, kind, which).as_bytes()); }
            match r {
                Ok(v) => {
                    ensure!(off >= b.len(), "{}: read as {} although the stream failed in the middle", what, hex(&v.canon()));
                    ensure!(st.fault_hits == 0, "{}: the error was met and swallowed", what);
                    let k = v.canon();
                    ensure!(k == c.canon, "{}: read as {} instead of {}", what, hex(&k), hex(&c.canon));
                    cx.label("complete before the error");
                }
                Err(x) => {
                    ensure!(st.fault_hits > 0, "{}: fails with {} although the stream did not fail", what, x);
                    // (who has everything does not ask for more: what the stream does behind the value, be it an error or that it waits, is not noticed)
                    ensure!(off < b.len() || t.is(flags::EOFSENS), "{}: ran into an error behind the value", what);
                    carries(x, kind, &what)?;
                    cx.label("error reported");
                }
            }
        }
    }
    cx.sample(|| format!("{} {} {}: {:?} at every offset", t.name, ename(c.be), hex(&b), kind));
    Ok(())
}
/// The stream ends early, or pretends to.
pub fn early_end(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    if t.is(flags::EOFSENS) { return Ok(()); }
    let Some((c, b)) = value(s, t) else { return Ok(()) };
    for off in offsets(s, b.len()) {
        for which in 0..2 {
            let sched = Sched::gen(s, true);
            let pretend = s.chance(1, 3);
            let data = if pretend { &b[..] } else { &b[..off.min(b.len())] };
            let mut st = ScriptRead::new(data, sched.clone());
            if pretend { st.false_end = Some(off); }
            let what = format!("{} {} {} schedule {:?}, {} after {} bytes of {}", t.name, ename(c.be), WHO[which], sched, if pretend { "one empty read" } else { "end" }, off, hex(&b));
            cx.note(|| what.clone());
            cx.evals(1);
            if off < b.len() { cx.nontrivial(t.name, format!("{:?}{}{}", b, off, which).as_bytes()); }
            match read(t, c.be, which, &mut st) {
                Ok(v) => { ensure!(off >= b.len() || pretend, "{}: read as {}", what, hex(&v.canon())); let k = v.canon(); ensure!(k == c.canon, "{}: read as {} instead of {}", what, hex(&k), hex(&c.canon)); }
                Err(x) => { ensure!(off < b.len(), "{}: complete data is refused: {}", what, x); ensure!(x.is_eof(), "{}: reported as {}", what, x); }
            }
        }
    }
    Ok(())
}
extern "C" { fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32; }
/// Files that are missing, unreadable, not regular, too short, or being fed through a pipe.
pub fn read_files(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let Some((c, b)) = value(s, t) else { return Ok(()) };
    let e = end(c.be);
    let io_kind = |r: Result<BV, Error>, what: &str| -> Result<ErrorKind, pbt::Fail> {
        match r { Ok(v) => Err(pbt::Fail::new(format!("{}: reading {} gives {}", t.name, what, hex(&v.canon())))), Err(x) => { if x.is_eof() { return Err(pbt::Fail::new(format!("{}: reading {} is called end of input", t.name, what))); } Ok(std::io::Error::from(x).kind()) } }
    };
    match s.below(5) {
        0 => {
            let p = pbt::run::root().join("target/scratch/no such directory/file");
            let k = io_kind((t.r_file)(e, &p), "a missing file")?;
            ensure!(k == ErrorKind::NotFound, "{}: a missing file is reported as {:?}", t.name, k);
            cx.label("missing");
        }
        1 => {
            let p = pbt::run::root().join("target");
            // (some file systems call directories empty, and what occupies no bytes can be read from nothing)
            if b.is_empty() && std::fs::metadata(&p).map_or(true, |m| m.len() == 0) { return Ok(()); }
            io_kind((t.r_file)(e, &p), "a directory")?;
            cx.label("directory");
        }
        2 => {
            let f = tmp("nd");
            let _ = std::fs::write(&f.0, b"x");
            let p = f.0.join("x");
            io_kind((t.r_file)(e, &p), "a path through something that is no directory")?;
            cx.label("bad path");
        }
        _ => {
            // a named pipe fed in pieces
            let cut = if s.chance(2, 3) || t.is(flags::EOFSENS) { b.len() } else { s.usize_below(b.len() + 1) };
            let f = tmp("fifo");
            let path = f.0.clone();
            let _ = std::fs::remove_file(&path);
            let cpath = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
            if unsafe { mkfifo(cpath.as_ptr(), 0o600) } != 0 { cx.label("no fifo"); return Ok(()); }
            let data = b[..cut].to_vec();
            let step = 1 + s.usize_below(data.len().min(4000).max(1));
            let p2 = path.clone();
            let h = std::thread::spawn(move || {
                use std::io::Write;
                if let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(&p2) { for c in data.chunks(step) { if w.write_all(c).is_err() { break; } } }
            });
            let r = (t.r_file)(e, &path);
            // unblock a writer that nobody opened the pipe for
            let _ = { use std::os::unix::fs::OpenOptionsExt; std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&path) };
            let _ = h.join();
            cx.nontrivial(t.name, &b[..cut]);
            cx.label(if cut == b.len() { "pipe" } else { "pipe cut short" });
            match r {
                Ok(v) => { ensure!(cut == b.len(), "{}: {} of {} bytes from a pipe are read as {}", t.name, cut, b.len(), hex(&v.canon())); let k = v.canon(); ensure!(k == c.canon, "{}: a pipe with {} is read as {} instead of {}", t.name, hex(&b), hex(&k), hex(&c.canon)); }
                Err(x) => { ensure!(cut < b.len(), "{}: reading {} from a pipe failed: {}", t.name, hex(&b), x); ensure!(x.is_eof(), "{}: a pipe cut short is reported as {}", t.name, x); }
            }
        }
    }
    Ok(())
}

// ---- writing ----
/// Sinks failing at every offset; afterwards the sink has exactly the bytes before the fault.
pub fn write_faults(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let Some((c, _)) = value(s, t) else { return Ok(()) };
    let b = match c.v.w_vec(end(c.be)) { Ok(b) => b, Err(x) => fail!("{}: writing failed: {}", t.name, x) };
    let fault = if s.chance(1, 4) { WFault::Zero } else { WFault::Err(*s.pick(KINDS)) };
    let once = s.bool();
    for off in offsets(s, b.len()) {
        let sched = Sched::gen(s, true);
        let mut w = ScriptWrite::new(sched.clone());
        w.fault = Some((off, fault.clone()));
        w.once = once;
        let what = format!("{} {} schedule {:?}, {:?}{} after {} bytes of {}", t.name, ename(c.be), sched, fault, if once { " once" } else { "" }, off, hex(&b));
        cx.note(|| what.clone());
        cx.evals(1);
        if off < b.len() { cx.nontrivial(t.name, format!("{:?}{}{:?}", b, off, fault).as_bytes()); }
        match c.v.w_stream(end(c.be), &mut w) {
            Ok(()) => {
                ensure!(off >= b.len(), "{}: writing is said to have succeeded", what);
                ensure!(w.out == b, "{}: success, but the sink has {}", what, hex(&w.out));
            }
            Err(x) => {
                ensure!(off < b.len(), "{}: fails with {} although everything fits", what, x);
                ensure!(w.out == b[..off], "{}: the sink ends up with {}", what, hex(&w.out));
                match &fault {
                    WFault::Zero => { let k = std::io::Error::from(x).kind(); ensure!(k == ErrorKind::WriteZero, "{}: reported as {:?}", what, k) }
                    WFault::Err(k) => { let text = x.to_string(); let io: std::io::Error = x.into(); ensure!(io.kind() == *k && text.contains(FAULT_MSG), "{}: reported as {:?}: {}", what, io.kind(), text) }
                }
                cx.label("error reported");
            }
        }
    }
    cx.sample(|| format!("{} {} {}: sink failing ({:?}) at every offset", t.name, ename(c.be), hex(&b), fault));
    Ok(())
}
pub fn short_writes(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let Some((c, _)) = value(s, t) else { return Ok(()) };
    let b = match c.v.w_vec(end(c.be)) { Ok(b) => b, Err(x) => fail!("{}: writing failed: {}", t.name, x) };
    let sched = Sched::gen(s, true);
    let mut w = ScriptWrite::new(sched.clone());
    cx.note(|| format!("{} {} schedule {:?} {}", t.name, ename(c.be), sched, hex(&b)));
    cx.nontrivial(t.name, format!("{:?}{:?}", b, sched).as_bytes());
    match c.v.w_stream(end(c.be), &mut w) {
        Ok(()) => ensure!(w.out == b, "{} {}: with schedule {:?} the sink got {} instead of {}", t.name, ename(c.be), sched, hex(&w.out), hex(&b)),
        Err(x) => fail!("{} {}: with schedule {:?} writing {} failed: {}", t.name, ename(c.be), sched, hex(&b), x),
    }
    Ok(())
}
/// Files: full device, size limit, bad paths; success means the bytes are in the file.
pub fn write_files(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    sys::ignore_signal(25);
    let t = pick_ty(s, tys);
    let Some((c, _)) = value(s, t) else { return Ok(()) };
    let e = end(c.be);
    let b = match c.v.w_vec(e) { Ok(b) => b, Err(x) => fail!("{}: writing failed: {}", t.name, x) };
    cx.note(|| format!("{} {} {}", t.name, ename(c.be), hex(&b)));
    match s.below(6) {
        0 | 1 => {
            let p = std::path::Path::new("/dev/full");
            if !p.exists() { cx.label("no /dev/full"); return Ok(()); }
            cx.label("full device");
            cx.nontrivial(t.name, &b);
            match c.v.w_file(e, p) {
                Ok(()) => ensure!(b.is_empty(), "{}: writing {} bytes to a full device is said to have succeeded", t.name, b.len()),
                Err(x) => { ensure!(!b.is_empty(), "{}: writing nothing fails: {}", t.name, x); let k = std::io::Error::from(x).kind(); ensure!(k == ErrorKind::StorageFull, "{}: a full device is reported as {:?}", t.name, k); }
            }
        }
        2 | 3 => {
            let f = tmp("fs");
            let lim = s.usize_below(b.len() + 2);
            sys::limit(sys::RLIMIT_FSIZE, lim as u64);
            let r = c.v.w_file(e, &f.0);
            sys::limit(sys::RLIMIT_FSIZE, u64::MAX);
            let got = std::fs::read(&f.0).unwrap_or_default();
            cx.label("size limit");
            cx.nontrivial(t.name, format!("{}{:?}", lim, b).as_bytes());
            ensure!(got.len() <= b.len() && got[..] == b[..got.len()], "{}: limit {}: the file has {} for {}", t.name, lim, hex(&got), hex(&b));
            match r {
                Ok(()) => ensure!(got == b, "{}: writing {} bytes with a limit of {} is said to have succeeded, the file has {}", t.name, b.len(), lim, got.len()),
                Err(x) => { ensure!(lim < b.len(), "{}: writing {} bytes below a limit of {} fails: {}", t.name, b.len(), lim, x); let k = std::io::Error::from(x).kind(); ensure!(k == ErrorKind::FileTooLarge, "{}: the size limit is reported as {:?}", t.name, k); }
            }
        }
        4 => {
            let (p, want) = if s.bool() { (pbt::run::root().join("target/scratch/no such directory/f"), ErrorKind::NotFound) } else { (pbt::run::root().join("target/scratch"), ErrorKind::IsADirectory) };
            let _ = std::fs::create_dir_all(pbt::run::root().join("target/scratch"));
            cx.label("bad path");
            match c.v.w_file(e, &p) { Ok(()) => fail!("{}: writing to {} is said to have succeeded", t.name, p.display()), Err(x) => { let k = std::io::Error::from(x).kind(); ensure!(k == want, "{}: writing to {} is reported as {:?}", t.name, p.display(), k); } }
        }
        _ => {
            let f = tmp("ok");
            if s.bool() { let n = s.usize_below(60); let j = s.bytes(n); std::fs::write(&f.0, &j).unwrap(); }
            if let Err(x) = c.v.w_file(e, &f.0) { fail!("{}: writing to a file failed: {}", t.name, x); }
            let got = std::fs::read(&f.0).unwrap();
            ensure!(got == b, "{}: the file has {} instead of {}", t.name, hex(&got), hex(&b));
            cx.label("success");
        }
    }
    Ok(())
}

// ---- classification ----
/// What every error must satisfy, given whether it is an end of input and what I/O error lies under it.
pub fn well_formed(x: Error, eof: bool, what: &str) -> Res {
    ensure!(x.is_eof() == eof, "{}: `{}` is {}classified as end of input", what, x, if eof { "not " } else { "" });
    let text = x.to_string();
    ensure!(!text.trim().is_empty(), "{}: an error without a message", what);
    ensure!(!format!("{:?}", x).is_empty(), "{}: no debug text", what);
    let io_inside = std::error::Error::source(&x).map(|e| e.to_string());
    let io: std::io::Error = x.into();
    match io_inside {
        Some(t) => ensure!(io.to_string() == t, "{}: the I/O error `{}` became `{}`", what, t, io),
        None => {
            let want = if eof { ErrorKind::UnexpectedEof } else { ErrorKind::InvalidData };
            ensure!(io.kind() == want, "{}: `{}` converts to {:?} instead of {:?}", what, text, io.kind(), want);
            ensure!(io.to_string() == text, "{}: the message `{}` became `{}`", what, text, io);
        }
    }
    Ok(())
}
/// All readers on broken data: the errors are of the right class, convert and print.
pub fn classify(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let be = if t.is(flags::NATIVE_ONLY) { false } else { s.bool() };
    let e = end(be);
    // either a strict prefix of a valid encoding, or invalid data with plenty behind it
    let cut = s.bool();
    let (b, eof) = if cut {
        let Some((c, b)) = value(s, t) else { return Ok(()) };
        if b.is_empty() || t.is(flags::EOFSENS) { return Ok(()); }
        if be != c.be { let Some(()) = Some(()) else { return Ok(()) }; }
        let k = s.usize_below(b.len());
        let e2 = c.be;
        return classify_on(s, cx, t, &b[..k], e2, true);
    } else {
        let (mut b, _) = hostile(s, t, tys, be);
        b.extend(std::iter::repeat(0).take(5000));
        let w = judge(t, &b, be);
        if !matches!(w.r, Err(DE::Bad)) || w.declared >= 4000 || w.fuzzy { cx.label("not usable"); return Ok(()); }
        (b, false)
    };
    let _ = e;
    classify_on(s, cx, t, &b, be, eof)
}
fn classify_on(s: &mut Src, cx: &mut Cx, t: &Ty, b: &[u8], be: bool, eof: bool) -> Res {
    let e = end(be);
    if t.is(flags::NATIVE_ONLY) && be { return Ok(()); }
    let what = format!("{} {} {} data {}", t.name, ename(be), if eof { "truncated" } else { "invalid" }, hex(&b[..b.len().min(200)]));
    cx.note(|| what.clone());
    cx.nontrivial(t.name, b);
    cx.label(if eof { "truncated" } else { "invalid" });
    cx.sample(|| what.clone());
    let f = tmp("cl");
    let file = s.chance(1, 6);
    if file { std::fs::write(&f.0, b).unwrap(); }
    pbt::sys::with_guard(0, |g| {
        let inp = g.end(b, if t.is(flags::ALIGNED) { b.len().wrapping_neg() & 15 } else { 0 });
        for which in 0..7 {
            if which >= 2 && t.is(flags::BORROW) { continue; }
            let (who, r) = match which {
                0 => ("buffer reader", (t.r_buf)(e, inp).0),
                1 => ("plain buffer reader", (t.r_buf_plain)(e, inp)),
                2 => ("copying reader", (t.r_copy)(e, inp).0),
                3 => ("plain copying reader", (t.r_copy_plain)(e, inp)),
                4 => ("unbuffered stream", (t.r_unbuf)(e, &mut ScriptRead::new(b, Sched::gen(s, true)))),
                5 => ("buffered stream", (t.r_bufd)(e, &mut ScriptRead::new(b, Sched::gen(s, true)))),
                _ if file => ("file", (t.r_file)(e, &f.0)),
                _ => continue,
            };
            match r { Ok(v) => fail!("{}: {} accepts it as {}", what, who, hex(&v.canon())), Err(x) => well_formed(x, eof, &format!("{} from the {}", what, who))? }
        }
        Ok(())
    })
}
/// Errors of the writers.
pub fn classify_writes(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let Some((c, b)) = value(s, t) else { return Ok(()) };
    if b.is_empty() { return Ok(()); }
    let k = s.usize_below(b.len());
    cx.nontrivial(t.name, &b[..k]);
    let mut buf = vec![0; k];
    match c.v.w_buf(end(c.be), &mut buf) {
        Ok(()) => fail!("{}: {} bytes written to {}", t.name, b.len(), k),
        Err(x) => { let text = x.to_string(); ensure!(!text.trim().is_empty(), "{}: no message", t.name); }
    }
    Ok(())
}

/// Whatever is accepted as a type with one encoding per value is written back as the same bytes.
pub fn accept_rewrite(s: &mut Src, cx: &mut Cx, tys: &[Ty]) -> Res {
    let t = pick_ty(s, tys);
    let be = if t.is(flags::NATIVE_ONLY) { false } else { s.bool() };
    let (b, kind) = hostile(s, t, tys, be);
    let e = end(be);
    cx.note(|| format!("{} {} {} {}", t.name, ename(be), kind, hex(&b)));
    pbt::sys::with_guard(0, |g| {
        let inp = g.end(&b, if t.is(flags::ALIGNED) { b.len().wrapping_neg() & 15 } else { 0 });
        let (r, n) = (t.r_buf)(e, inp);
        let w = judge(t, &b, be);
        if let Err(DE::Big) = w.r { return Ok(()); }
        match r {
            Ok(v) => {
                ensure!(w.r.is_ok(), "{} {}: {} is accepted as {}", t.name, ename(be), hex(&b), hex(&v.canon()));
                let again = match v.w_vec(e) { Ok(x) => x, Err(x) => fail!("{} {}: {} is read as a value that cannot be written: {}", t.name, ename(be), hex(&b), x) };
                ensure!(again == b[..n], "{} {}: {} is read and written back as {}", t.name, ename(be), hex(&b[..n]), hex(&again));
                cx.label("accepted");
                cx.nontrivial(t.name, &b[..n]);
            }
            Err(x) => { ensure!(w.r.is_err(), "{} {}: {} is refused: {}", t.name, ename(be), hex(&b), x); cx.label("refused"); cx.nontrivial(t.name, &b); }
        }
        cx.sample(|| format!("{} {} {} {}", t.name, ename(be), if w.r.is_ok() { "accepted" } else { "refused" }, hex(&b)));
        Ok(())
    })
}
