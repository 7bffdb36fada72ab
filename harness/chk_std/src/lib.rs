//! Contexts, errors, readers and writers as a user of the library would write them.
pub mod bad;
use speedy::{BigEndian, Context, Endianness, Error, IsEof, LittleEndian, Reader, Writer};

/// An error type of the user's own; every other user error calls itself an end of input.
#[derive(Debug)]
pub enum UErr { Lib(Error), User(u64) }
impl From<Error> for UErr { fn from(e: Error) -> UErr { UErr::Lib(e) } }
impl IsEof for UErr { fn is_eof(&self) -> bool { match self { UErr::Lib(e) => e.is_eof(), UErr::User(n) => n & 1 == 1 } } }
impl std::fmt::Display for UErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { UErr::Lib(e) => write!(f, "{}", e), UErr::User(n) => write!(f, "user error {}", n) } } }

/// A context of the user's own.
#[derive(Clone, Debug)]
pub struct UCtx { pub be: bool }
impl Context for UCtx { type Error = UErr; fn endianness(&self) -> Endianness { end(self.be) } }
pub fn end(be: bool) -> Endianness { if be { Endianness::BigEndian } else { Endianness::LittleEndian } }

/// Contexts whose byte order may be changed while they are in use.
pub trait Ctl: Context<Error = <Self as Ctl>::Er> {
    type Er: From<Error> + IsEof + std::fmt::Display;
    fn make(be: bool) -> Self;
    fn set(&mut self, be: bool);
    const FIXED: Option<bool> = None;
}
impl Ctl for Endianness { type Er = Error; fn make(be: bool) -> Self { end(be) } fn set(&mut self, be: bool) { *self = end(be) } }
impl Ctl for UCtx { type Er = UErr; fn make(be: bool) -> Self { UCtx { be } } fn set(&mut self, be: bool) { self.be = be } }
impl Ctl for LittleEndian { type Er = Error; fn make(_: bool) -> Self { LittleEndian {} } fn set(&mut self, _: bool) {} const FIXED: Option<bool> = Some(false); }
impl Ctl for BigEndian { type Er = Error; fn make(_: bool) -> Self { BigEndian {} } fn set(&mut self, _: bool) {} const FIXED: Option<bool> = Some(true); }

/// A reader implementing only what it must; `hint` adds the size check.
pub struct MyReader<'b, C> { pub data: &'b [u8], pub pos: usize, pub ctx: C, pub hint: bool }
impl<'a, 'b, C: Context> Reader<'a, C> for MyReader<'b, C> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> {
        self.peek_bytes(out)?;
        self.pos += out.len();
        Ok(())
    }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> {
        match self.data[self.pos..].get(..out.len()) {
            Some(x) => { out.copy_from_slice(x); Ok(()) }
            None => Err(Error::from_eof().into()),
        }
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
    fn can_read_at_least(&self, n: usize) -> Option<bool> { if self.hint { Some(self.data.len() - self.pos >= n) } else { None } }
}
trait FromEof { fn from_eof() -> Error; }
impl FromEof for Error {
    /// The library's own end-of-input error, obtained through its public interface.
    fn from_eof() -> Error { <u8 as speedy::Readable<Endianness>>::read_from_stream_unbuffered_with_ctx(Endianness::LittleEndian, std::io::empty()).unwrap_err() }
}
/// A writer implementing only what it must.
pub struct MyWriter<C> { pub out: Vec<u8>, pub ctx: C, pub room: Option<usize> }
impl<C: Context> Writer<C> for MyWriter<C> {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), C::Error> {
        if let Some(r) = self.room { if self.out.len() + b.len() > r { return Err(Error::custom("no room").into()); } }
        self.out.extend_from_slice(b);
        Ok(())
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
