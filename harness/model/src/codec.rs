//! The wire format, written from the README's table; shares nothing with speedy.
use pbt::Src;

/// Byte sink of the reference encoder.
#[derive(Clone, Debug)]
pub struct Out {
    pub b: Vec<u8>,
    pub be: bool,
    /// The value cannot be written (a length does not fit, a time before the epoch, ..).
    pub fail: bool,
    /// Canonical form for comparing values: unordered collections sorted, unwritten parts included.
    pub canon: bool,
    /// With `canon`: the form the value has after being read back (skipped fields are defaults).
    pub as_read: bool,
}
impl Out {
    pub fn new(be: bool) -> Out { Out { b: Vec::new(), be, fail: false, canon: false, as_read: false } }
    pub fn canon() -> Out { Out { b: Vec::new(), be: false, fail: false, canon: true, as_read: false } }
    pub fn raw(&mut self, b: &[u8]) { self.b.extend_from_slice(b); }
    /// The low `n` bytes of `v` in the stream's byte order.
    pub fn uint(&mut self, v: u128, n: usize) {
        for i in 0..n {
            let shift = if self.be { n - 1 - i } else { i };
            self.b.push((v >> (8 * shift)) as u8);
        }
    }
    pub fn u8(&mut self, v: u8) { self.b.push(v); }
    pub fn u16(&mut self, v: u16) { self.uint(v as u128, 2); }
    pub fn u32(&mut self, v: u32) { self.uint(v as u128, 4); }
    pub fn u64(&mut self, v: u64) { self.uint(v as u128, 8); }
    pub fn u128(&mut self, v: u128) { self.uint(v, 16); }
    pub fn varint(&mut self, v: u64) { self.b.extend_from_slice(&varint(v)); }
    pub fn len(&mut self, n: usize, lt: Len) {
        match lt {
            Len::U7 => { if n > 127 { self.fail = true; } self.u8(n as u8) }
            Len::U8 => { if n > 255 { self.fail = true; } self.u8(n as u8) }
            Len::U16 => { if n > 65535 { self.fail = true; } self.u16(n as u16) }
            Len::U32 => { if n as u64 > u32::MAX as u64 { self.fail = true; } self.u32(n as u32) }
            Len::U64 => self.u64(n as u64),
            Len::Varint => self.varint(n as u64),
            Len::None => { if self.canon { self.u64(n as u64) } }
            Len::None_ => {}
        }
    }
    /// Encodes one entry of an unordered collection apart from the rest.
    pub fn entries<I: IntoIterator>(&mut self, it: I, f: impl Fn(I::Item, &mut Out)) {
        if !self.canon {
            for x in it { f(x, self); }
            return;
        }
        let as_read = self.as_read;
        let mut v: Vec<Vec<u8>> = it.into_iter().map(|x| { let mut o = Out::canon(); o.as_read = as_read; f(x, &mut o); self.fail |= o.fail; o.b }).collect();
        v.sort();
        for e in v { self.u64(e.len() as u64); self.b.extend_from_slice(&e); }
    }
}
/// Width of a length prefix or tag.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Len { U7, U8, U16, U32, U64, Varint, None, /** Nothing, not even in the canonical form. */ None_ }

/// Reference varint encoder: the number of leading one bits of the first byte says how many bytes follow;
/// the first byte holds the most significant bits, the others are little endian.
pub fn varint(v: u64) -> Vec<u8> {
    for extra in 0..8u32 {
        let bits = 7 * (extra + 1);
        if (v as u128) < (1u128 << bits) {
            let mut out = Vec::new();
            let mut prefix = 0u8;
            for i in 0..extra { prefix |= 0x80 >> i; }
            out.push(prefix | (v >> (8 * extra)) as u8);
            for i in 0..extra { out.push((v >> (8 * i)) as u8); }
            return out;
        }
    }
    let mut out = vec![0xff];
    out.extend_from_slice(&v.to_le_bytes());
    out
}
/// Reference varint decoder: the number denoted and the bytes it takes, or None if cut short.
pub fn unvarint(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()?;
    let mut extra = 0;
    while extra < 8 && first & (0x80 >> extra) != 0 { extra += 1; }
    if b.len() < 1 + extra { return None; }
    let mut v = 0u64;
    for i in 0..extra { v |= (b[1 + i] as u64) << (8 * i); }
    if extra < 7 {
        let high = (first & (0xffu8 >> (extra + 1))) as u64;
        v |= high << (8 * extra);
    }
    Some((v, 1 + extra))
}

/// Why the reference decoder refuses.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DE { Eof, Bad, Big }

/// Reference decoder state.
pub struct In<'i> {
    pub b: &'i [u8],
    pub pos: usize,
    pub be: bool,
    /// End of input was swallowed in the middle of something: what follows is not specified.
    pub fuzzy: bool,
    /// The largest number of bytes a stream reader would have to reserve on the word of a length prefix.
    pub declared: u128,
    pub steps: u64,
}
impl<'i> In<'i> {
    pub fn new(b: &'i [u8], be: bool) -> In<'i> { In { b, pos: 0, be, fuzzy: false, declared: 0, steps: 0 } }
    pub fn left(&self) -> usize { self.b.len() - self.pos }
    pub fn raw(&mut self, n: usize) -> Result<&'i [u8], DE> {
        if n > self.left() { return Err(DE::Eof); }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn uint(&mut self, n: usize) -> Result<u128, DE> {
        let be = self.be;
        let s = self.raw(n)?;
        let mut v = 0u128;
        for i in 0..n { let x = if be { s[i] } else { s[n - 1 - i] }; v = (v << 8) | x as u128; }
        Ok(v)
    }
    pub fn u8(&mut self) -> Result<u8, DE> { Ok(self.uint(1)? as u8) }
    pub fn u16(&mut self) -> Result<u16, DE> { Ok(self.uint(2)? as u16) }
    pub fn u32(&mut self) -> Result<u32, DE> { Ok(self.uint(4)? as u32) }
    pub fn u64(&mut self) -> Result<u64, DE> { Ok(self.uint(8)? as u64) }
    pub fn u128(&mut self) -> Result<u128, DE> { self.uint(16) }
    pub fn varint(&mut self) -> Result<u64, DE> {
        let (v, n) = unvarint(&self.b[self.pos..]).ok_or(DE::Eof)?;
        self.pos += n;
        Ok(v)
    }
    /// A length prefix.
    pub fn len(&mut self, lt: Len) -> Result<usize, DE> {
        Ok(match lt {
            Len::U7 => { let v = self.u8()?; if v > 127 { return Err(DE::Bad); } v as usize }
            Len::U8 => self.u8()? as usize,
            Len::U16 => self.u16()? as usize,
            Len::U32 => self.u32()? as usize,
            Len::U64 => self.u64()? as usize,
            Len::Varint => self.varint()? as usize,
            Len::None | Len::None_ => unreachable!(),
        })
    }
    /// Reads a declared number of items, each of at least `min` bytes (`size` in memory).
    pub fn many<T>(&mut self, n: usize, min: usize, size: usize, mut f: impl FnMut(&mut Self) -> Result<T, DE>) -> Result<Vec<T>, DE> {
        self.declared = self.declared.max(n as u128 * size.max(1) as u128);
        if min > 0 && n as u128 * min as u128 > self.left() as u128 { return Err(DE::Eof); }
        let mut v = Vec::new();
        for _ in 0..n {
            self.steps += 1;
            if self.steps > 200_000 && min == 0 { return Err(DE::Big); }
            v.push(f(self)?);
        }
        Ok(v)
    }
    /// Reads items until the input ends.
    pub fn until_end<T>(&mut self, mut f: impl FnMut(&mut Self) -> Result<T, DE>) -> Result<Vec<T>, DE> {
        let mut v = Vec::new();
        loop {
            let start = self.pos;
            match f(self) {
                Ok(x) => { if self.pos == start { return Err(DE::Big); } v.push(x) }
                Err(DE::Eof) => { if start != self.b.len() { self.fuzzy = true; } return Ok(v); }
                Err(e) => return Err(e),
            }
        }
    }
    /// A field that defaults at the end of input.
    pub fn or_default<T>(&mut self, d: impl FnOnce() -> T, f: impl FnOnce(&mut Self) -> Result<T, DE>) -> Result<T, DE> {
        let start = self.pos;
        match f(self) {
            Err(DE::Eof) => { if start != self.b.len() { self.fuzzy = true; } Ok(d()) }
            r => r,
        }
    }
}

/// A type as the documentation describes it.
pub trait M: Sized + 'static {
    /// The least number of bytes any value takes.
    const MIN: usize;
    fn gen(s: &mut Src) -> Self;
    fn enc(&self, o: &mut Out);
    fn dec(i: &mut In) -> Result<Self, DE>;
    /// The k-th of a sequence of distinct values, where that is easy.
    fn nth(_k: u64) -> Option<Self> { None }
}
pub fn encode<T: M>(v: &T, be: bool) -> Out { let mut o = Out::new(be); v.enc(&mut o); o }
/// The canonical form as it will be after a round trip.
pub fn canon_read<T: M>(v: &T) -> Vec<u8> { let mut o = Out::canon(); o.as_read = true; v.enc(&mut o); o.b }
pub fn canon<T: M>(v: &T) -> Vec<u8> { let mut o = Out::canon(); v.enc(&mut o); o.b }
