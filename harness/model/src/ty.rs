//! Type-erased records: one per registry type, with every reading and writing entry point.
use crate::codec::{canon, canon_read, In, Out, DE, M};
use pbt::Src;
use speedy::{Endianness, Error, Readable, Writable};
use std::any::Any;
use std::io::{Read, Write};
use std::path::Path;

pub mod flags {
    /// A built-in (not derived) type.
    pub const BUILTIN: u32 = 1;
    /// A third-party type.
    pub const EXT: u32 = 2;
    /// Can only be read by borrowing from a buffer.
    pub const BORROW: u32 = 4;
    /// Treats the end of the input as data (until-end, default on end) or looks ahead (peek).
    pub const EOFSENS: u32 = 8;
    /// Accepts several encodings of one value, or has no unique order.
    pub const NONUNIQUE: u32 = 16;
    /// Derived.
    pub const DERIVED: u32 = 32;
    /// Cannot be read when the byte order is not native (borrowed multi-byte data).
    pub const NATIVE_ONLY: u32 = 64;
    /// Constructing values is slow.
    pub const SLOW: u32 = 128;
    /// Needs alignment of the input.
    pub const ALIGNED: u32 = 256;
    /// Has elements that occupy no bytes.
    pub const ZST: u32 = 512;
    /// The declared minimum may be less than the true one.
    pub const COLLECTION: u32 = 1024;
}

pub trait Val {
    fn enc(&self, o: &mut Out);
    fn canon(&self) -> Vec<u8>;
    fn canon_read(&self) -> Vec<u8>;
    fn needed(&self, e: Endianness) -> Result<usize, Error>;
    fn w_vec(&self, e: Endianness) -> Result<Vec<u8>, Error>;
    fn w_buf(&self, e: Endianness, b: &mut [u8]) -> Result<(), Error>;
    fn w_stream(&self, e: Endianness, w: &mut dyn Write) -> Result<(), Error>;
    fn w_file(&self, e: Endianness, p: &Path) -> Result<(), Error>;
    fn any(&self) -> &dyn Any;
}
impl<T: M + Writable<Endianness>> Val for T {
    fn enc(&self, o: &mut Out) { M::enc(self, o) }
    fn canon(&self) -> Vec<u8> { canon(self) }
    fn canon_read(&self) -> Vec<u8> { canon_read(self) }
    fn needed(&self, _: Endianness) -> Result<usize, Error> { Writable::<Endianness>::bytes_needed(self) }
    fn w_vec(&self, e: Endianness) -> Result<Vec<u8>, Error> { self.write_to_vec_with_ctx(e) }
    fn w_buf(&self, e: Endianness, b: &mut [u8]) -> Result<(), Error> { self.write_to_buffer_with_ctx(e, b) }
    fn w_stream(&self, e: Endianness, w: &mut dyn Write) -> Result<(), Error> { self.write_to_stream_with_ctx(e, w) }
    fn w_file(&self, e: Endianness, p: &Path) -> Result<(), Error> { self.write_to_file_with_ctx(e, p) }
    fn any(&self) -> &dyn Any { self }
}
pub type BV = Box<dyn Val>;

#[derive(Clone)]
pub struct Ty {
    pub name: &'static str,
    pub flags: u32,
    pub model_min: usize,
    pub size: usize,
    pub gen: fn(&mut Src) -> BV,
    pub dec: fn(&mut In) -> Result<BV, DE>,
    pub r_buf: fn(Endianness, &'static [u8]) -> (Result<BV, Error>, usize),
    pub r_buf_plain: fn(Endianness, &'static [u8]) -> Result<BV, Error>,
    pub r_copy: fn(Endianness, &[u8]) -> (Result<BV, Error>, usize),
    pub r_copy_plain: fn(Endianness, &[u8]) -> Result<BV, Error>,
    pub r_unbuf: fn(Endianness, &mut dyn Read) -> Result<BV, Error>,
    pub r_bufd: fn(Endianness, &mut dyn Read) -> Result<BV, Error>,
    pub r_file: fn(Endianness, &Path) -> Result<BV, Error>,
    pub min: fn() -> usize,
}
fn bx<T: M + Writable<Endianness>>(r: Result<T, Error>) -> Result<BV, Error> { r.map(|v| Box::new(v) as BV) }
pub fn ty<T: M + Readable<'static, Endianness> + Writable<Endianness>>(name: &'static str, flags: u32) -> Ty {
    Ty {
        name,
        flags,
        model_min: T::MIN,
        size: std::mem::size_of::<T>(),
        gen: |s| Box::new(T::gen(s)),
        dec: |i| T::dec(i).map(|v| Box::new(v) as BV),
        r_buf: |e, b| { let (r, n) = T::read_with_length_from_buffer_with_ctx(e, b); (bx(r), n) },
        r_buf_plain: |e, b| bx(T::read_from_buffer_with_ctx(e, b)),
        r_copy: |e, b| { let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx(e, b); (bx(r), n) },
        r_copy_plain: |e, b| bx(T::read_from_buffer_copying_data_with_ctx(e, b)),
        r_unbuf: |e, s| bx(T::read_from_stream_unbuffered_with_ctx(e, s)),
        r_bufd: |e, s| bx(T::read_from_stream_buffered_with_ctx(e, s)),
        r_file: |e, p| bx(T::read_from_file_with_ctx(e, p)),
        min: || <T as Readable<'static, Endianness>>::minimum_bytes_needed(),
    }
}
impl Ty {
    pub fn is(&self, f: u32) -> bool { self.flags & f != 0 }
}
pub fn end(be: bool) -> Endianness { if be { Endianness::BigEndian } else { Endianness::LittleEndian } }
#[macro_export]
macro_rules! tys {
    ($v:expr, $f:expr; $($t:ty),* $(,)?) => {{ $($v.push($crate::ty::ty::<$t>(stringify!($t), $f));)* }}
}
