use model::faults::*;
use model::flags::*;
use pbt::{ensure, fail, Cx, Res, Src};
use speedy::{Error, IsEof, Readable, Writable, Endianness};
use std::io::ErrorKind;

#[derive(speedy::Readable, speedy::Writable, Debug)]
struct Lens { n: u8, #[speedy(length = n)] v: Vec<u16>, #[speedy(length_type = u7)] w: Vec<u8>, #[speedy(constant_prefix = "mag")] x: u8 }
#[derive(speedy::Readable, speedy::Writable, Debug)]
#[speedy(tag_type = u16)]
enum Tagged { #[speedy(tag = 3)] A(u8), #[speedy(tag = 500)] B { x: u32 } }

fn text(s: &mut Src) -> String { let n = s.usize_below(12); let mut t: String = (0..n).map(|_| model::std_types::gen_char(s)).collect(); if s.bool() { t.push_str("end of input"); } t }
/// Custom errors keep their text, are no end of input and convert without loss.
fn custom(s: &mut Src, cx: &mut Cx) -> Res {
    let t = text(s);
    cx.nontrivial("custom", t.as_bytes());
    cx.sample(|| format!("custom error {:?}", t));
    let e = Error::custom(&t);
    ensure!(!e.is_eof(), "custom error {:?} is called end of input", t);
    ensure!(e.to_string() == t, "custom error {:?} prints as {:?}", t, e.to_string());
    let io: std::io::Error = e.into();
    ensure!(io.to_string() == t, "custom error {:?} converts to {:?}", t, io.to_string());
    ensure!(io.kind() != ErrorKind::UnexpectedEof, "custom error {:?} converts to an unexpected end", t);
    // a Display implementor that is not a string
    let n = s.int(64);
    ensure!(Error::custom(n).to_string() == n.to_string(), "custom error from a number");
    ensure!(Error::custom(format_args!("<{}>", t)).to_string() == format!("<{}>", t), "custom error from format_args");
    Ok(())
}
/// Errors of derived writers and readers.
fn derived(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.usize_below(6);
    let m = s.int(8) as u8;
    let long = s.chance(1, 3);
    let w = if long { 128 + s.usize_below(200) } else { s.usize_below(4) };
    let v = Lens { n: m, v: vec![7; n], w: vec![1; w], x: 9 };
    let e = if s.bool() { Endianness::BigEndian } else { Endianness::LittleEndian };
    cx.note(|| format!("n {} len {} w {}", m, n, w));
    let bad = m as usize != n || w > 127;
    match v.write_to_vec_with_ctx(e) {
        Ok(b) => {
            ensure!(!bad, "{:?} was written", v);
            // break the prefix
            let at = b.len() - 4 + s.usize_below(3);
            let mut c = b.clone();
            c[at] ^= 1 << s.below(8);
            cx.nontrivial("prefix", &c);
            for which in 0..4 {
                let r = match which { 0 => Lens::read_from_buffer_with_ctx(e, &c), 1 => Lens::read_from_buffer_copying_data_with_ctx(e, &c), 2 => Lens::read_from_stream_unbuffered_with_ctx(e, &c[..]), _ => Lens::read_from_stream_buffered_with_ctx(e, &c[..]) };
                match r { Ok(v) => fail!("a broken prefix is accepted: {:?}", v), Err(x) => { well_formed(x, false, "a broken prefix")? } }
            }
        }
        Err(x) => {
            ensure!(bad, "{:?} cannot be written: {}", v, x);
            cx.nontrivial("lengths", format!("{:?}", v).as_bytes());
            well_formed(x, false, "a length that cannot be written")?;
        }
    }
    let tag = s.int(16) as u16;
    let mut o = model::Out::new(e == Endianness::BigEndian);
    o.u16(tag);
    o.raw(&[0; 8]);
    match Tagged::read_from_buffer_with_ctx(e, &o.b) { Ok(_) => ensure!(tag == 3 || tag == 500, "tag {} is accepted", tag), Err(x) => { ensure!(tag != 3 && tag != 500, "tag {} is refused: {}", tag, x); well_formed(x, false, "an unknown tag")? } }
    Ok(())
}
/// How the scripted stream makes its error.
#[derive(Clone, Debug)]
enum Make { Plain, Text(String), /** an error of the user's own, with an identity */ Own(u64), /** of the operating system */ Os(i32) }
#[derive(Debug)]
struct Own(u64, ErrorKind);
impl std::fmt::Display for Own { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "own error {:x}", self.0) } }
impl std::error::Error for Own {}
impl Make {
    fn error(&self, k: ErrorKind) -> std::io::Error { match self { Make::Plain => k.into(), Make::Text(t) => std::io::Error::new(k, t.clone()), Make::Own(n) => std::io::Error::new(k, Own(*n, k)), Make::Os(n) => std::io::Error::from_raw_os_error(*n) } }
    /// Is this the very error that was made?
    fn intact(&self, k: ErrorKind, e: &std::io::Error) -> bool {
        e.kind() == k && e.to_string() == self.error(k).to_string() && match self {
            Make::Plain => e.get_ref().is_none() && e.raw_os_error().is_none(),
            Make::Text(_) => e.get_ref().is_some_and(|i| !i.is::<std::io::Error>()) && e.raw_os_error().is_none(),
            Make::Own(n) => e.get_ref().and_then(|i| i.downcast_ref::<Own>()).is_some_and(|o| o.0 == *n),
            Make::Os(n) => e.raw_os_error() == Some(*n),
        }
    }
}
/// An I/O error of any kind raised by a stream comes back intact; only the unexpected-EOF kind is an end of input.
fn stream_kinds(s: &mut Src, cx: &mut Cx) -> Res {
    const ALL: &[ErrorKind] = &[ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::BrokenPipe, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::AlreadyExists];
    struct S<'x>(ErrorKind, &'x Make, usize);
    impl<'x> std::io::Read for S<'x> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.2 > 0 && !b.is_empty() { let n = self.2.min(b.len()); self.2 -= n; b[..n].fill(0); return Ok(n); } Err(self.1.error(self.0)) } }
    impl<'x> std::io::Write for S<'x> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.2 > 0 { let n = self.2.min(b.len()); self.2 -= n; return Ok(n); } Err(self.1.error(self.0)) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    let how = match s.below(4) { 0 => Make::Plain, 1 => Make::Text(text(s)), 2 => Make::Own(s.int(64)), _ => Make::Os(1 + s.below(130) as i32) };
    let mut k = *s.pick(ALL);
    if let Make::Os(n) = how { k = std::io::Error::from_raw_os_error(n).kind(); if k == ErrorKind::Interrupted { return Ok(()); } }
    let at = s.usize_below(16);
    cx.nontrivial("kind", format!("{:?}{:?}{}", k, how, at).as_bytes());
    cx.note(|| format!("{:?} made as {:?} after {} bytes", k, how, at));
    let want = how.error(k).to_string();
    for which in 0..4 {
        let (what, r): (&str, Result<(), Error>) = match which {
            0 => ("unbuffered read", <(u64, u64)>::read_from_stream_unbuffered(S(k, &how, at)).map(|_| ())),
            1 => ("buffered read", <(u64, u64)>::read_from_stream_buffered(S(k, &how, at)).map(|_| ())),
            2 => ("write", (1u64, 2u64).write_to_stream(S(k, &how, at))),
            _ => ("vector read", <Vec<u32>>::read_from_stream_unbuffered(std::io::Cursor::new([4u8, 0, 0, 0]).chain_(S(k, &how, at.min(15)))).map(|_| ())),
        };
        match r {
            Ok(()) => fail!("{}: success although the stream failed with {:?}", what, k),
            Err(x) => {
                ensure!(x.is_eof() == (k == ErrorKind::UnexpectedEof), "{}: {:?} classified as end of input: {}", what, k, x.is_eof());
                ensure!(x.to_string() == want, "{}: message {:?} became {:?}", what, want, x.to_string());
                let src = std::error::Error::source(&x).and_then(|e| e.downcast_ref::<std::io::Error>());
                ensure!(src.is_some_and(|e| how.intact(k, e)), "{}: the source of the error is {:?} instead of {:?}", what, src, how.error(k));
                let io: std::io::Error = x.into();
                ensure!(how.intact(k, &io), "{}: the stream's error {:?} converts to {:?}", what, how.error(k), io);
            }
        }
    }
    Ok(())
}
/// Errors of the file system come back intact from the entry points that take a path.
fn files(s: &mut Src, cx: &mut Cx) -> Res {
    let p = model::props::tmp("c24");
    let n = s.usize_below(4);
    // a path that leads nowhere, a path through a file, a directory, a path no system takes
    let (path, what) = match s.below(4) {
        0 => (p.0.join("none"), "nowhere"),
        1 => { std::fs::write(&p.0, vec![0; n]).unwrap(); (p.0.join("x"), "through a file") }
        2 => { std::fs::create_dir(&p.0).unwrap(); (p.0.clone(), "a directory") }
        _ => (p.0.join("x".repeat(300 + n)), "an overlong name"),
    };
    cx.nontrivial(what, &[n as u8]);
    cx.note(|| format!("path {}: {:?}", what, path));
    let res = (|| -> Res {
        let open = std::fs::File::open(&path).and_then(|mut f| { use std::io::Read; f.read(&mut [0]).map(|_| ()) }).err();
        let create = std::fs::File::create(&path).err();
        for write in [false, true] {
            let (name, r, want): (&str, Result<(), Error>, &Option<std::io::Error>) = if write { ("write_to_file", 7u32.write_to_file(&path), &create) } else { ("read_from_file", u32::read_from_file(&path).map(|_| ()), &open) };
            let (Err(x), Some(want)) = (r, want) else { fail!("{} to {}: succeeds", name, what) };
            ensure!(!x.is_eof() && !x.to_string().is_empty(), "{} to {}: {:?}", name, what, x);
            let io: std::io::Error = x.into();
            // a directory can be opened, and how it then fails depends on what is done with it
            if what == "a directory" && !write { ensure!(io.raw_os_error().is_some(), "{} to {}: fails with {:?}", name, what, io); continue; }
            ensure!(io.kind() == want.kind() && io.raw_os_error() == want.raw_os_error(), "{} to {}: fails with {:?} instead of {:?}", name, what, io, want);
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir(&p.0);
    res
}
trait Chain: std::io::Read + Sized { fn chain_<R: std::io::Read>(self, r: R) -> std::io::Chain<Self, R> { std::io::Read::chain(self, r) } }
impl<T: std::io::Read> Chain for T {}

fn main() {
    let mut m = pbt::Main::new("C24", "truncated and invalid data of every registry type through every reader, refused writes, injected stream errors of eleven kinds, custom errors with generated texts; non-trivial = distinct provoked error (type and data)");
    let t = chk_reg::all(); m.section("truncated and invalid data", 720_000, 3_000_000, move |s, cx| classify(s, cx, &t));
    let t: Vec<_> = chk_reg::all().into_iter().filter(|t| !t.is(BORROW)).collect(); m.section("buffers too small", 240_000, 960_000, move |s, cx| classify_writes(s, cx, &t));
    m.section("derived types", 240_000, 960_000, derived);
    m.section("stream error kinds", 240_000, 960_000, stream_kinds);
    m.section("files", 16_000, 64_000, files);
    m.section("custom errors", 60_000, 240_000, custom);
    m.run()
}
