//! Lengths beyond 32 bits, on memory which is there only where it is written.
use crate::props::tmp;
use crate::Out;
use pbt::{ensure, fail, hex, Cx, Res, Src};
use speedy::{BigEndian, Context, Endianness, Error, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::io::{self, Write};

#[derive(Readable, Writable)] struct Fix<'a> { a: u8, d: &'a [u8], z: u8 }
#[derive(Readable, Writable)] struct F8<'a> { a: u8, #[speedy(length_type = u8)] d: &'a [u8], z: u8 }
#[derive(Readable, Writable)] struct F7<'a> { a: u8, #[speedy(length_type = u7)] d: &'a [u8], z: u8 }
#[derive(Readable, Writable)] struct F16<'a> { a: u8, #[speedy(length_type = u16)] d: &'a [u8], z: u8 }
#[derive(Readable, Writable)] struct F32<'a> { a: u8, #[speedy(length_type = u32)] d: Cow<'a, [u8]>, z: u8 }
#[derive(Readable, Writable)] struct F64<'a> { a: u8, #[speedy(length_type = u64)] d: &'a [u8], z: u8 }
#[derive(Readable, Writable)] struct C64<'a> { a: u8, #[speedy(length_type = u64)] d: Cow<'a, [u8]>, z: u8 }
#[derive(Readable, Writable)] struct Var<'a> { a: u8, #[speedy(length_type = u64_varint)] d: &'a [u8], z: u8 }
#[derive(Readable, Writable)] struct CVar<'a> { a: u8, #[speedy(length_type = u64_varint)] d: Cow<'a, [u8]>, z: u8 }
#[derive(Readable, Writable)] struct Opt<'a> { a: u8, #[speedy(length_type = u64)] d: Option<&'a [u8]>, z: u8 }
#[derive(Readable, Writable)] enum En<'a> { #[speedy(tag = 7)] A(#[speedy(length_type = u64)] &'a [i8], u8) }

const SIZE: usize = (1 << 32) + (1 << 21);
thread_local! { static MEM: *mut u8 = pbt::sys::sparse(SIZE); }
/// What a stream of bytes looks like without looking at all of it.
struct Sum { n: u64, head: Vec<u8>, tail: Vec<u8>, calls: u32 }
impl Sum {
    fn new() -> Sum { Sum { n: 0, head: vec![], tail: vec![], calls: 0 } }
    fn add(&mut self, b: &[u8]) {
        self.n += b.len() as u64; self.calls += 1;
        if self.head.len() < 32 { let k = b.len().min(32 - self.head.len()); self.head.extend_from_slice(&b[..k]) }
        self.tail.extend_from_slice(&b[b.len().saturating_sub(8)..]);
        let k = self.tail.len().saturating_sub(8); self.tail.drain(..k);
    }
}
impl Write for &mut Sum {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.add(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct By<'a, C>(&'a mut Sum, C);
impl<'a, C: Context> Writer<C> for By<'a, C> {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), C::Error> { self.0.add(b); Ok(()) }
    fn context(&self) -> &C { &self.1 }
    fn context_mut(&mut self) -> &mut C { &mut self.1 }
}
pub const KINDS: &[&str] = &["a slice", "a field", "a length of u7", "of u8", "of u16", "of u32", "of u64", "of u64, copy-on-write", "a varint", "a varint, copy-on-write", "an optional of u64", "a variant with one of u64"];
/// Prefix, or none if the length cannot be written.
fn front(kind: usize, n: usize, be: bool) -> Option<Vec<u8>> {
    let mut o = Out::new(be);
    match kind { 0 => {} 10 => { o.u8(1); o.u8(1) } 11 => o.u32(7), _ => o.u8(1) }
    let bits = match kind { 2 => 7, 3 => 8, 4 => 16, 0 | 1 | 5 => 32, _ => 64 };
    if bits < 64 && n as u64 >> bits != 0 { return None; }
    match kind { 2 | 3 => o.u8(n as u8), 4 => o.u16(n as u16), 0 | 1 | 5 => o.u32(n as u32), 8 | 9 => o.varint(n as u64), _ => o.u64(n as u64) }
    Some(o.b)
}
macro_rules! with {
    ($kind:expr, $d:expr, $t:ident => $e:expr) => {{
        let (a, d, z) = (1u8, $d, 2u8);
        match $kind {
            0 => { let $t = d; $e }
            1 => { let $t = &Fix { a, d, z }; $e }
            2 => { let $t = &F7 { a, d, z }; $e }
            3 => { let $t = &F8 { a, d, z }; $e }
            4 => { let $t = &F16 { a, d, z }; $e }
            5 => { let $t = &F32 { a, d: Cow::Borrowed(d), z }; $e }
            6 => { let $t = &F64 { a, d, z }; $e }
            7 => { let $t = &C64 { a, d: Cow::Borrowed(d), z }; $e }
            8 => { let $t = &Var { a, d, z }; $e }
            9 => { let $t = &CVar { a, d: Cow::Borrowed(d), z }; $e }
            10 => { let $t = &Opt { a, d: Some(d), z }; $e }
            _ => { let $t = &En::A(unsafe { std::slice::from_raw_parts(d.as_ptr() as *const i8, d.len()) }, z); $e }
        }
    }};
}
fn length(s: &mut Src) -> usize {
    match s.below(6) {
        0 => (1 << 32) - 1 - s.usize_below(4),
        1 => (1 << 32) + s.usize_below(300),
        2 => (1 << 32) + s.usize_below(1 << 20),
        3 => (1 << 31) - 2 + s.usize_below(4),
        4 => (1usize << s.below(33)) - 1 + s.usize_below(3),
        _ => s.usize_below(300),
    }
}
fn total(kind: usize, f: usize, n: usize) -> usize { f + n + (kind != 0) as usize }

/// The size is predicted, and the bytes come out, or the length is refused.
pub fn write(s: &mut Src, cx: &mut Cx) -> Res {
    match s.below(3) { 0 => write_as("LittleEndian", LittleEndian::default, false, s, cx), 1 => write_as("BigEndian", BigEndian::default, true, s, cx), _ => { let e = if s.bool() { Endianness::BigEndian } else { Endianness::LittleEndian }; write_as("Endianness", move || e, e == Endianness::BigEndian, s, cx) } }
}
fn write_as<C: Context<Error = Error>>(name: &str, c: impl Fn() -> C, be: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let kind = s.usize_below(KINDS.len());
    let n = length(s);
    let base = MEM.with(|m| *m);
    let (first, last) = (s.int(8) as u8 | 1, s.int(8) as u8 | 1);
    let d: &'static [u8] = unsafe { *base = first; *base.add(n.max(1) - 1) = last; std::slice::from_raw_parts(base, n) };
    let what = format!("{} bytes as {} ({})", n, KINDS[kind], name);
    cx.note(|| what.clone()); cx.label(KINDS[kind]);
    if n >= 1 << 31 { cx.nontrivial(KINDS[kind], &n.to_le_bytes()) }
    let want = front(kind, n, be);
    let r = (|| -> Res {
        let need = with!(kind, d, t => Writable::<C>::bytes_needed(t));
        let mut a = Sum::new();
        let ra = with!(kind, d, t => t.write_to_stream_with_ctx(c(), &mut a));
        let mut b = Sum::new();
        let rb = with!(kind, d, t => t.write_to(&mut By(&mut b, c())));
        let mut small = [0xEEu8; 40];
        let room = s.usize_below(40).min(n);
        let rs = with!(kind, d, t => t.write_to_buffer_with_ctx(c(), &mut small[..room]));
        ensure!(rs.is_err(), "{}: fits into {} bytes", what, room);
        match want {
            None => {
                // (nothing is said of the size of what has no encoding)
                ensure!(ra.is_err() && rb.is_err(), "{}: is not refused: {:?} {:?}", what, ra, rb);
                for e in [ra, rb] { ensure!(!e.unwrap_err().is_eof(), "{}: refused as end of input", what) }
            }
            Some(f) => {
                let t = total(kind, f.len(), n);
                ensure!(matches!(need, Ok(x) if x == t), "{}: predicted as {:?} instead of {}", what, need, t);
                let mut head = f.clone(); head.extend_from_slice(&d[..n.min(32)]); if kind != 0 && n < 32 { head.push(2) } head.truncate(32);
                let mut tail = f.clone(); tail.extend_from_slice(&d[n.saturating_sub(8)..]); if kind != 0 { tail.push(2) } let k = tail.len().saturating_sub(8); tail.drain(..k);
                for (r, x, how) in [(ra, a, "stream"), (rb, b, "writer")] {
                    if let Err(e) = r { fail!("{}: {} refuses: {}", what, how, e) }
                    ensure!(x.n == t as u64, "{}: {} got {} bytes instead of {}", what, how, x.n, t);
                    ensure!(x.head == head, "{}: {} got {}.. instead of {}..", what, how, hex(&x.head), hex(&head));
                    ensure!(x.tail == tail, "{}: {} got ..{} instead of ..{}", what, how, hex(&x.tail), hex(&tail));
                }
            }
        }
        Ok(())
    })();
    unsafe { *base = 0; *base.add(n.max(1) - 1) = 0; }
    r
}
/// What is there can be borrowed, and what is not there is missed.
pub fn read(s: &mut Src, cx: &mut Cx) -> Res {
    match s.below(3) { 0 => read_as("LittleEndian", LittleEndian::default, false, s, cx), 1 => read_as("BigEndian", BigEndian::default, true, s, cx), _ => { let e = if s.bool() { Endianness::BigEndian } else { Endianness::LittleEndian }; read_as("Endianness", move || e, e == Endianness::BigEndian, s, cx) } }
}
fn read_as<C: Context<Error = Error>>(name: &str, c: impl Fn() -> C, be: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let kind = s.usize_below(KINDS.len());
    let n = length(s);
    // (the prefix may speak of more than there is, by what would be lost in 32 bits)
    let lie = if n >= 1 << 20 || s.chance(2, 3) { 0 } else { (1 + s.usize_below(3)) << if s.chance(3, 4) { 32 } else { s.below(31) as usize + 32 } };
    let Some(f) = front(kind, n.wrapping_add(lie), be) else { return Ok(()); };
    let base = MEM.with(|m| *m);
    let t = total(kind, f.len(), n);
    let cut = if lie == 0 && s.chance(1, 3) { 1 + s.usize_below(t.min(1 << 20)) } else { 0 };
    let more = if cut == 0 { s.usize_below(9) } else { 0 };
    let what = format!("{} bytes (declared as {}, {} missing) as {} ({})", n, n.wrapping_add(lie), cut, KINDS[kind], name);
    cx.note(|| what.clone()); cx.label(KINDS[kind]);
    if n.wrapping_add(lie) >= 1 << 31 { cx.nontrivial(KINDS[kind], &[n, lie, cut].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()) }
    let data: &'static [u8] = unsafe {
        std::ptr::copy_nonoverlapping(f.as_ptr(), base, f.len());
        if kind != 0 { *base.add(t - 1) = 2 }
        std::slice::from_raw_parts(base, t - cut + more)
    };
    macro_rules! rd { ($t:ident) => {{ let (r, k) = <$t as Readable<'static, C>>::read_with_length_from_buffer_with_ctx(c(), data); (r.map(|x| { let d: &[u8] = &x.d; (d.as_ptr() as usize, d.len(), x.a == 1 && x.z == 2) }), k) }} }
    macro_rules! rc { ($t:ident) => {{ let (r, k) = <$t as Readable<'static, C>>::read_with_length_from_buffer_with_ctx(c(), data); (r.map(|x| { let b = matches!(x.d, Cow::Borrowed(_)); (x.d.as_ptr() as usize, x.d.len(), b && x.a == 1 && x.z == 2) }), k) }} }
    let (r, k) = match kind {
        0 => { let (r, k) = <&[u8] as Readable<'static, C>>::read_with_length_from_buffer_with_ctx(c(), data); (r.map(|x| (x.as_ptr() as usize, x.len(), true)), k) }
        1 => rd!(Fix), 2 => rd!(F7), 3 => rd!(F8), 4 => rd!(F16), 5 => rc!(F32), 6 => rd!(F64), 7 => rc!(C64), 8 => rd!(Var), 9 => rc!(CVar),
        10 => { let (r, k) = Opt::read_with_length_from_buffer_with_ctx(c(), data); (r.map(|x| { let d = x.d.unwrap_or(&[]); (d.as_ptr() as usize, d.len(), x.a == 1 && x.z == 2) }), k) }
        _ => { let (r, k) = En::read_with_length_from_buffer_with_ctx(c(), data); (r.map(|En::A(d, z)| (d.as_ptr() as usize, d.len(), z == 2)), k) }
    };
    unsafe { std::ptr::write_bytes(base, 0, f.len()); *base.add(t - 1) = 0 }
    if lie != 0 || cut != 0 {
        match r { Err(e) => ensure!(e.is_eof(), "{}: {} instead of the end of the input", what, e), Ok((_, l, _)) => fail!("{}: {} bytes are read", what, l) }
        return Ok(());
    }
    match r {
        Err(e) => fail!("{}: {}", what, e),
        Ok((p, l, ok)) => {
            ensure!(l == n && ok, "{}: {} bytes are read, or what surrounds them is not", what, l);
            ensure!(n == 0 || p == base as usize + f.len(), "{}: read from another place", what);
            ensure!(k == t, "{}: {} bytes consumed instead of {}", what, k, t);
            Ok(())
        }
    }
}

/// Moves about in what it reads.
struct Walk;
thread_local! { static STEPS: std::cell::RefCell<(Vec<(u32, usize)>, Option<String>)> = const { std::cell::RefCell::new((vec![], None)) }; }
impl<'a, C: Context<Error = Error>> Readable<'a, C> for Walk {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, Error> {
        let (steps, total) = STEPS.with(|x| { let mut x = x.borrow_mut(); let t = x.0.pop().unwrap().1; (std::mem::take(&mut x.0), t) });
        let base = MEM.with(|m| *m);
        let mut at = 0;
        let bad = |m: String| STEPS.with(|x| { x.borrow_mut().1.get_or_insert(m); });
        for (op, n) in steps {
            let fits = n <= total - at;
            if let Some(x) = r.can_read_at_least(n) { if x != fits { bad(format!("can_read_at_least({}) says {} with {} left", n, x, total - at)) } }
            let ok = match op {
                0 => r.skip_bytes(n),
                1 => match r.read_bytes_borrowed(n) { None => continue, Some(x) => x.map(|b| if b.len() != n || b.as_ptr() as usize != base as usize + at { bad(format!("{} bytes borrowed at {} are {}", n, at, b.len())) }) },
                2 => match r.read_bytes_borrowed_from_reader(n) { None => continue, Some(x) => x.map(|b| if b.len() != n || b.as_ptr() as usize != base as usize + at { bad(format!("{} bytes borrowed from the reader at {} are {}", n, at, b.len())) }) },
                3 => r.read_vec::<u8>(n.min(100).max(n >> 33)).map(|v| v.len()).and_then(|k| if k == n { Ok(()) } else { r.skip_bytes(n - k) }),
                _ => match r.read_cow::<u8>(n.min(1 << 21).max(n >> 33)) { Ok(v) => { let k = v.len(); drop(v); if k == n { Ok(()) } else { r.skip_bytes(n - k) } } Err(e) => Err(e) },
            };
            match ok {
                Ok(()) if fits => at += n,
                Ok(()) => { bad(format!("step {} of {} bytes at {} succeeds with {} left", op, n, at, total - at)); return Ok(Walk) }
                Err(e) if !fits => { if !e.is_eof() { bad(format!("{} instead of the end of the input", e)) } if op >= 3 { return Ok(Walk) } continue }
                Err(e) => { bad(format!("step {} of {} bytes at {} fails with {} left: {}", op, n, at, total - at, e)); return Ok(Walk) }
            }
            if at < total { let b = r.peek_u8()?; if b != unsafe { *base.add(at) } { bad(format!("the byte at {} is {}", at, b)) } }
        }
        Ok(Walk)
    }
}
/// Cursors over more than 32 bits can count.
pub fn walk(s: &mut Src, cx: &mut Cx) -> Res {
    let base = MEM.with(|m| *m);
    let total = length(s);
    let mut steps: Vec<(u32, usize)> = (0..1 + s.len()).map(|_| (s.below(5) as u32, if s.chance(1, 3) { s.usize_below(600) } else { length(s) })).collect();
    // (a byte to be found where a step ends)
    let (mut at, mut marks) = (0, vec![]);
    for (_, n) in &steps { if *n <= total - at { at += n; if at < total { marks.push(at); unsafe { *base.add(at) = at as u8 | 1 } } } }
    cx.note(|| format!("{:?} over {} bytes", steps, total));
    if at >= 1 << 31 { cx.nontrivial("walk", format!("{:?}", steps).as_bytes()) }
    let text = format!("{:?}", steps);
    steps.push((9, total));
    let d: &'static [u8] = unsafe { std::slice::from_raw_parts(base, total) };
    let mut r = Ok(());
    for how in 0..2 {
        STEPS.with(|x| *x.borrow_mut() = (steps.clone(), None));
        let e = if how == 0 { Walk::read_with_length_from_buffer_with_ctx(Endianness::BigEndian, d) } else { Walk::read_with_length_from_buffer_copying_data_with_ctx(Endianness::BigEndian, d) };
        if let Some(m) = STEPS.with(|x| x.borrow_mut().1.take()) { r = Err(pbt::Fail::new(format!("{} ({}): {}", text, how, m))); break; }
        if let (Err(e), _) = e { r = Err(pbt::Fail::new(format!("{} ({}): {}", text, how, e))); break; }
    }
    for m in marks { unsafe { *base.add(m) = 0 } }
    r
}

thread_local! { static STOP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Takes no memory, and so can be there in any number.
struct Unit;
impl<C: Context> Writable<C> for Unit { fn write_to<W: ?Sized + Writer<C>>(&self, _: &mut W) -> Result<(), C::Error> { if STOP.with(|x| x.get()) { Err(Error::custom("the elements were reached").into()) } else { Ok(()) } } }
#[derive(Writable)] struct LUs<'a> { n: usize, #[speedy(length = n)] d: &'a [Unit], z: u8 }
#[derive(Writable)] struct L32<'a> { n: u32, #[speedy(length = n)] d: &'a [u8], z: u8 }
#[derive(Writable)] struct L16<'a> { n: u16, #[speedy(length = n)] d: Cow<'a, [i8]>, z: u8 }
#[derive(Writable)] struct L8<'a> { n: u8, #[speedy(length = n)] d: Cow<'a, str>, z: u8 }
#[derive(Writable)] struct LSum<'a> { p: u32, q: u16, #[speedy(length = *p as usize * 256 + *q as usize)] d: &'a [u8], z: u8 }
#[derive(Writable)] struct LOpt { n: u32, #[speedy(length = n)] d: String, z: u8 }
#[derive(Writable)] struct LMul<'a> { n: u64, #[speedy(length = *n as usize * 65536)] d: &'a [Unit], z: u8 }
#[derive(Writable)] enum LEn<'a> { #[speedy(tag = 3)] B { n: usize, #[speedy(length = n)] d: &'a [Unit], z: u8 } }
#[derive(Writable)] struct LTup<'a>(u32, #[speedy(length = t0)] &'a [u8], u8);
const LKINDS: &[&str] = &["usize", "u32", "u16", "u8", "a sum", "u32, owned text", "a product", "a variant", "of a tuple struct"];

/// A list whose length is not what the `length` expression says is refused, however much the two have in common.
pub fn disagreeing(s: &mut Src, cx: &mut Cx) -> Res {
    match s.below(3) { 0 => disagreeing_as("LittleEndian", LittleEndian::default, false, s, cx), 1 => disagreeing_as("BigEndian", BigEndian::default, true, s, cx), _ => { let e = if s.bool() { Endianness::BigEndian } else { Endianness::LittleEndian }; disagreeing_as("Endianness", move || e, e == Endianness::BigEndian, s, cx) } }
}
fn disagreeing_as<C: Context<Error = Error>>(name: &str, c: impl Fn() -> C, be: bool, s: &mut Src, cx: &mut Cx) -> Res {
    let kind = s.usize_below(LKINDS.len());
    // elements of no size can be there in any number, but writing them takes a moment each
    let none = matches!(kind, 0 | 6 | 7);
    let low = s.usize_below(if none { 6 } else { 300 });
    let apart = match s.below(6) { 0 => 0, 1 => 1 + s.usize_below(3), 2 => 256 * (1 + s.usize_below(5)), 3 => 65536 * (1 + s.usize_below(2)), 4 => 1usize << s.below(if none { 63 } else { 18 }), _ => (1 + s.usize_below(7)) << if none { 32 } else { 8 } };
    let (expr, len) = if s.bool() { (low, low + apart) } else { (low + apart, low) };
    let expr = match kind { 2 => expr & 0xffff, 3 => expr & 0xff, 6 => expr / 65536 * 65536, _ => expr };
    if !none && expr >> 32 != 0 { return Ok(()); }
    if none && expr == len && len > 1 << 20 { return Ok(()); }
    let units: &[Unit] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), if none { len } else { 0 }) };
    let text = if none { String::new() } else { "x".repeat(len) };
    let bytes = text.as_bytes();
    let z = s.int(8) as u8;
    let mut o = Out::new(be);
    match kind { 0 => o.u64(expr as u64), 1 | 5 | 8 => o.u32(expr as u32), 2 => o.u16(expr as u16), 3 => o.u8(expr as u8), 4 => { o.u32((expr / 256) as u32); o.u16((expr % 256) as u16) } 6 => o.u64((expr / 65536) as u64), _ => { o.u32(3); o.u64(expr as u64) } }
    o.raw(bytes); o.u8(z);
    let want = o.b;
    let what = format!("{} elements where a length expression ({}) says {} ({})", len, LKINDS[kind], expr, name);
    cx.note(|| what.clone()); cx.label(LKINDS[kind]); cx.label(if expr == len { "of the right length" } else { "of another length" });
    if expr != len { cx.nontrivial(LKINDS[kind], &[expr, len].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()) }
    STOP.with(|x| x.set(expr != len));
    macro_rules! go { ($t:expr) => {{
        let t = $t;
        let mut st = vec![]; let mut b = vec![0xEEu8; want.len() + 8];
        let r = [t.write_to_vec_with_ctx(c()), t.write_to_stream_with_ctx(c(), &mut st).map(|_| st), t.write_to_buffer_with_ctx(c(), &mut b).map(|_| b[..want.len()].to_vec())];
        for (r, how) in r.into_iter().zip(["vector", "stream", "buffer"]) {
            match r {
                Ok(b) if expr == len => ensure!(b == want, "{}: {}: written as {} instead of {}", what, how, hex(&b), hex(&want)),
                Err(e) if expr == len => fail!("{}: {}: refused: {}", what, how, e),
                Ok(b) => fail!("{}: {}: written, as {}", what, how, hex(&b[..b.len().min(60)])),
                Err(e) => ensure!(!e.to_string().contains("the elements were reached"), "{}: {}: the length is let through", what, how),
            }
        }
    }}; }
    match kind {
        0 => go!(LUs { n: expr, d: units, z }),
        1 => go!(L32 { n: expr as u32, d: bytes, z }),
        2 => go!(L16 { n: expr as u16, d: Cow::Owned(bytes.iter().map(|x| *x as i8).collect()), z }),
        3 => go!(L8 { n: expr as u8, d: Cow::Borrowed(&text), z }),
        4 => go!(LSum { p: (expr / 256) as u32, q: (expr % 256) as u16, d: bytes, z }),
        5 => go!(LOpt { n: expr as u32, d: text.clone(), z }),
        6 => go!(LMul { n: (expr / 65536) as u64, d: units, z }),
        7 => go!(LEn::B { n: expr, d: units, z }),
        _ => go!(LTup(expr as u32, bytes, z)),
    }
    Ok(())
}

/// Reads two bytes wherever it is told to, in order of position; what it finds is the value.
struct Places(Vec<u16>);
/// Where to read.
struct Plan(Vec<u64>);
impl Context for Plan { type Error = Error; fn endianness(&self) -> Endianness { Endianness::BigEndian } }
impl<'a> Readable<'a, Plan> for Places {
    fn read_from<R: Reader<'a, Plan>>(r: &mut R) -> Result<Self, Error> {
        let plan = std::mem::take(&mut r.context_mut().0);
        let (mut at, mut got) = (0, vec![]);
        for p in plan {
            r.skip_bytes((p - at) as usize)?;
            got.push(r.read_u16()?);
            at = p + 2;
        }
        Ok(Places(got))
    }
}
/// Files of more than 32 bits can count, and files too large to be mapped, hold what they hold.
pub fn file(s: &mut Src, cx: &mut Cx) -> Res {
    use std::io::{Seek, SeekFrom};
    let size: u64 = match s.below(8) { 0 => 1 + s.below(4), 1 => (1 << 32) - s.below(4), 2 | 3 => (1 << 32) + 1 + s.below(5000), 4 => (2 << 32) + s.below(1 << 20), 5 => (1 << 31) + s.below(9), 6 => (1 << 40) + s.below(1 << 40), _ => 1 + s.below(1 << 20) };
    // (what cannot be mapped is read from the front)
    let far = size <= 3 << 32;
    let mut plan: Vec<u64> = (0..1 + s.usize_below(5)).map(|_| match s.below(7) { 0 => s.below(9), 1 => size - s.below(4).min(size), 2 => (1 << 32) - 2 + s.below(4), 3 => (1 << 31) - 2 + s.below(4), 4 => s.below(size), 5 => s.below(1 << 14), _ => s.int(34) }).collect();
    if !far { for p in &mut plan { *p %= 100_000 } }
    plan.sort();
    plan.dedup_by(|a, b| *a < *b + 2);
    let f = tmp("sparse");
    let mut h = match std::fs::File::create(&f.0) { Ok(h) => h, Err(_) => { cx.label("no scratch file"); return Ok(()); } };
    if h.set_len(size).is_err() { cx.label("no file of that size"); return Ok(()); }
    let mut want = vec![];
    for &p in &plan {
        let x = s.int(16) as u16;
        if p + 2 > size { continue; }
        if h.seek(SeekFrom::Start(p)).is_err() || h.write_all(&x.to_be_bytes()).is_err() { cx.label("no file of that size"); return Ok(()); }
        want.push(x);
    }
    drop(h);
    let whole = plan.iter().all(|p| p + 2 <= size);
    let what = format!("a file of {} bytes, read at {:?}", size, plan);
    cx.note(|| what.clone()); cx.sample(|| what.clone());
    cx.label(if !far { "too large to be mapped" } else if size >> 32 != 0 { "beyond 32 bits" } else { "smaller" });
    if plan.iter().any(|p| p >> 31 != 0) || !far { cx.nontrivial("file", &[&[size][..], &plan[..]].concat().iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()) }
    let judge = |who: &str, r: Result<Places, Error>| -> Res {
        match r {
            Ok(p) => ensure!(whole && p.0 == want, "{}: the {} finds {:?} instead of {:?}{}", what, who, p.0, want, if whole { "" } else { " and then the end" }),
            Err(e) => ensure!(!whole && e.is_eof(), "{}: the {} fails: {}", what, who, e),
        }
        Ok(())
    };
    judge("file reader", Places::read_from_file_with_ctx(Plan(plan.clone()), &f.0))?;
    if plan.iter().all(|p| *p < 1 << 20) {
        judge("buffered stream reader", Places::read_from_stream_buffered_with_ctx(Plan(plan.clone()), std::fs::File::open(&f.0).unwrap()))?;
        judge("unbuffered stream reader", Places::read_from_stream_unbuffered_with_ctx(Plan(plan.clone()), std::fs::File::open(&f.0).unwrap()))?;
    }
    Ok(())
}
