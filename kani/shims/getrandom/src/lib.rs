//! Stand-in for `getrandom`: random bytes are symbolic choices.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("getrandom error")
    }
}
impl std::error::Error for Error {}
pub fn fill(dest: &mut [u8]) -> Result<(), Error> {
    for b in dest.iter_mut() {
        *b = nd::u8();
    }
    Ok(())
}
pub fn fill_uninit(dest: &mut [core::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() {
        b.write(nd::u8());
    }
    Ok(unsafe { &mut *(dest as *mut [core::mem::MaybeUninit<u8>] as *mut [u8]) })
}
