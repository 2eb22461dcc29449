//! Stand-in for `sha2` that notes what is hashed and answers with a value of the harness's choice.
#[derive(Clone, Default)]
pub struct Sha256 {
    data: Vec<u8>,
}
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self {
        self.update(d);
        self
    }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(d)
    }
    fn digest(d: impl AsRef<[u8]>) -> Output {
        Self::new_with_prefix(d).finalize()
    }
}
pub type Output = [u8; 32];
const MOST: usize = 128;
struct Last {
    bytes: [u8; MOST],
    len: usize,
    count: usize,
    answer: [u8; 32],
    _mark: u8,
}
static mut LAST: Last = Last { bytes: [0; MOST], len: 0, count: 0, answer: [0; 32], _mark: 0x5a };
/// What the next digests are.
pub fn answer(a: [u8; 32]) {
    unsafe { LAST.answer = a }
}
/// What was hashed last and how many things were hashed.
#[allow(static_mut_refs)]
pub fn last() -> (&'static [u8], usize) {
    unsafe { (&LAST.bytes[..LAST.len], LAST.count) }
}
impl Digest for Sha256 {
    fn new() -> Self {
        Sha256 { data: Vec::with_capacity(MOST) }
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.data.extend_from_slice(d.as_ref());
    }
    fn finalize(self) -> Output {
        unsafe {
            assert!(self.data.len() <= MOST, "room of the model");
            let mut i = 0;
            while i < self.data.len() {
                LAST.bytes[i] = self.data[i];
                i += 1;
            }
            LAST.len = self.data.len();
            LAST.count += 1;
            LAST.answer
        }
    }
}
