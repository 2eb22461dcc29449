//! LEB128 with the interface and the error cases of the `leb128` crate.
pub mod read {
    use vio as io;
    #[derive(Debug)]
    pub enum Error {
        IoError(io::Error),
        Overflow,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("leb128 error")
        }
    }
    impl std::error::Error for Error {}
    fn next<R: io::Read + ?Sized>(r: &mut R) -> Result<u8, Error> {
        let mut b = [0u8];
        match r.read_exact(&mut b) {
            Ok(()) => Ok(b[0]),
            Err(e) => Err(Error::IoError(e)),
        }
    }
    pub fn unsigned<R: io::Read + ?Sized>(r: &mut R) -> Result<u64, Error> {
        let mut result = 0u64;
        let mut shift = 0;
        loop {
            let mut b = next(r)?;
            if shift == 63 && b != 0 && b != 1 {
                while b & 0x80 != 0 {
                    b = next(r)?;
                }
                return Err(Error::Overflow);
            }
            result |= ((b & 0x7f) as u64) << shift;
            if b & 0x80 == 0 {
                return Ok(result);
            }
            shift += 7;
        }
    }
}
pub mod write {
    use vio as io;
    pub fn unsigned<W: io::Write + ?Sized>(w: &mut W, mut val: u64) -> Result<usize, io::Error> {
        let mut n = 0;
        loop {
            let mut b = (val & 0x7f) as u8;
            val >>= 7;
            if val != 0 {
                b |= 0x80;
            }
            w.write_all(&[b])?;
            n += 1;
            if val == 0 {
                return Ok(n);
            }
        }
    }
}
