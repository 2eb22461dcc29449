//! SHA-256. Under the model checker see `nd::uf`: a function without collisions.
pub const HASH_LEN: usize = 32;
pub const ZERO_HASHES_MAX_INDEX: usize = 48;
fn real(b: &[u8]) -> [u8; 32] {
    #[cfg(kani)]
    {
        let _ = b;
        unreachable!()
    }
    #[cfg(not(kani))]
    {
        use sha2::Digest;
        sha2::Sha256::digest(b).into()
    }
}
fn arr(b: &[u8]) -> [u8; 32] {
    assert!(b.len() >= 32, "two values of 32 bytes");
    unsafe { core::ptr::read_unaligned(b.as_ptr() as *const [u8; 32]) }
}
pub fn hash_fixed(b: &[u8]) -> [u8; 32] {
    if b.len() == 64 {
        return hash32_concat(&b[..32], &b[32..]);
    }
    nd::uf::hash(2, b, real)
}
pub fn hash(b: &[u8]) -> Vec<u8> {
    hash_fixed(b).to_vec()
}
pub fn hash32_concat(l: &[u8], r: &[u8]) -> [u8; 32] {
    nd::uf::pair(&arr(l), &arr(r), real)
}
/// For what a harness expects: see `nd::uf::next`.
pub fn next_hash(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    nd::uf::next(l, r, real)
}
pub struct ZeroHashes;
pub static ZERO_HASHES: ZeroHashes = ZeroHashes;
/// Marked: Kani lets a static share storage with constants of the same content.
struct State {
    _mark: u64,
    known: usize,
    cache: [[u8; 32]; ZERO_HASHES_MAX_INDEX + 1],
}
static mut STATE: State =
    State { _mark: 0x5afe_2e40_0000_0001, known: 1, cache: [[0; 32]; ZERO_HASHES_MAX_INDEX + 1] };
impl std::ops::Index<usize> for ZeroHashes {
    type Output = [u8; 32];
    fn index(&self, depth: usize) -> &[u8; 32] {
        unsafe {
            while STATE.known <= depth {
                let z = STATE.cache[STATE.known - 1];
                STATE.cache[STATE.known] = hash32_concat(&z, &z);
                STATE.known += 1;
            }
            &STATE.cache[depth]
        }
    }
}
