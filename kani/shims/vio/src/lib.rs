//! `std::io` with errors that are only their kind, and reading and writing byte by byte: the packed
//! errors of the standard library are out of reach of the solver.
pub use std::io::{ErrorKind, SeekFrom};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
}
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    pub fn new<E>(kind: ErrorKind, e: E) -> Error {
        core::mem::forget(e);
        Error { kind }
    }
    pub fn other<E>(e: E) -> Error {
        core::mem::forget(e);
        Error { kind: ErrorKind::Other }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}
impl From<ErrorKind> for Error {
    fn from(kind: ErrorKind) -> Error {
        Error { kind }
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("i/o error")
    }
}
impl std::error::Error for Error {}

pub trait Read {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let mut at = 0;
        while at < buf.len() {
            let n = self.read(&mut buf[at..])?;
            if n == 0 {
                return Err(Error { kind: ErrorKind::UnexpectedEof });
            }
            at += n;
        }
        Ok(())
    }
    fn read_to_end(&mut self, out: &mut Vec<u8>) -> Result<usize> {
        let mut n = 0;
        loop {
            let mut b = [0u8];
            if self.read(&mut b)? == 0 {
                return Ok(n);
            }
            out.push(b[0]);
            n += 1;
        }
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
pub trait BufRead: Read {
    fn fill_buf(&mut self) -> Result<&[u8]>;
    fn consume(&mut self, amt: usize);
}
pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()>;
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let mut at = 0;
        while at < buf.len() {
            let n = self.write(&buf[at..])?;
            if n == 0 {
                return Err(Error { kind: ErrorKind::WriteZero });
            }
            at += n;
        }
        Ok(())
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
impl<R: Read + ?Sized> Read for &mut R {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        (**self).read(buf)
    }
}
impl<W: Write + ?Sized> Write for &mut W {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        (**self).write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        (**self).flush()
    }
}
/// Copies as much as fits and returns how much that was.
pub fn copy_some(dst: &mut [u8], src: &[u8]) -> usize {
    let mut i = 0;
    while i < src.len() && i < dst.len() {
        dst[i] = src[i];
        i += 1;
    }
    i
}
impl Read for &[u8] {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = copy_some(buf, self);
        *self = &self[n..];
        Ok(n)
    }
}
impl BufRead for &[u8] {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        Ok(self)
    }
    fn consume(&mut self, amt: usize) {
        *self = &self[amt..];
    }
}
impl Write for Vec<u8> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut i = 0;
        while i < buf.len() {
            self.push(buf[i]);
            i += 1;
        }
        Ok(i)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Cursor<T> {
    inner: T,
    pos: u64,
}
impl<T> Cursor<T> {
    pub const fn new(inner: T) -> Cursor<T> {
        Cursor { inner, pos: 0 }
    }
    pub fn into_inner(self) -> T {
        self.inner
    }
    pub fn get_ref(&self) -> &T {
        &self.inner
    }
    pub fn position(&self) -> u64 {
        self.pos
    }
    pub fn set_position(&mut self, pos: u64) {
        self.pos = pos
    }
}
impl<T: AsRef<[u8]>> Read for Cursor<T> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let s = self.inner.as_ref();
        let at = core::cmp::min(self.pos, s.len() as u64) as usize;
        let n = copy_some(buf, &s[at..]);
        self.pos += n as u64;
        Ok(n)
    }
}
pub trait Seek {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64>;
}
impl<T: AsRef<[u8]>> Seek for Cursor<T> {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        let to = match pos {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => (self.inner.as_ref().len() as u64).checked_add_signed(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
        };
        match to {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(Error { kind: ErrorKind::InvalidInput }),
        }
    }
}
