//! Hash tree roots of SSZ values.
use alloy_primitives::{Address, FixedBytes, B256, U256};
use ethereum_hashing::{hash32_concat, ZERO_HASHES};
pub type Hash256 = B256;
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}
pub type PackedEncoding = Vec<u8>;
pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Container
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> B256;
    /// Basic values are packed into chunks; this is how many bytes one takes.
    fn packed() -> Option<usize> {
        None
    }
    fn pack(&self, _out: &mut Vec<u8>) {
        unreachable!()
    }
}
fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    hash32_concat(a, b)
}
/// Root of the tree of `depth` levels over the chunks, padded with zeros.
pub fn merkle_depth(chunks: &[[u8; 32]], depth: usize) -> [u8; 32] {
    if chunks.is_empty() {
        return ZERO_HASHES[depth];
    }
    if depth == 0 {
        return chunks[0];
    }
    let half = 1usize << (depth - 1);
    let (l, r) = if chunks.len() > half { (&chunks[..half], &chunks[half..]) } else { (chunks, &chunks[..0]) };
    pair(&merkle_depth(l, depth - 1), &merkle_depth(r, depth - 1))
}
pub fn depth_for(n: usize) -> usize {
    let mut d = 0;
    while (1usize << d) < n {
        d += 1;
    }
    d
}
pub fn merkle_root(chunks: &[[u8; 32]]) -> B256 {
    B256::new(merkle_depth(chunks, depth_for(chunks.len())))
}
pub fn mix_in_length(root: &B256, length: usize) -> B256 {
    let mut b = [0u8; 32];
    let l = length.to_le_bytes();
    let mut i = 0;
    while i < 8 {
        b[i] = l[i];
        i += 1;
    }
    B256::new(pair(&root.0, &b))
}
/// Chunks of a sequence of values.
pub fn chunks_of<T: TreeHash>(items: &[T]) -> Vec<[u8; 32]> {
    let mut out = Vec::with_capacity(items.len());
    if T::packed().is_none() {
        for i in items {
            out.push(i.tree_hash_root().0);
        }
        return out;
    }
    let mut bytes = Vec::new();
    for i in items {
        i.pack(&mut bytes);
    }
    let mut at = 0;
    while at < bytes.len() {
        let mut c = [0u8; 32];
        let mut j = 0;
        while j < 32 && at + j < bytes.len() {
            c[j] = bytes[at + j];
            j += 1;
        }
        out.push(c);
        at += 32;
    }
    out
}
macro_rules! int {
    ($($t:ty),*) => {$(
        impl TreeHash for $t {
            fn tree_hash_root(&self) -> B256 {
                let mut b = [0u8; 32];
                let l = self.to_le_bytes();
                let mut i = 0;
                while i < l.len() {
                    b[i] = l[i];
                    i += 1;
                }
                B256::new(b)
            }
            fn packed() -> Option<usize> {
                Some(core::mem::size_of::<$t>())
            }
            fn pack(&self, out: &mut Vec<u8>) {
                let l = self.to_le_bytes();
                let mut i = 0;
                while i < l.len() {
                    out.push(l[i]);
                    i += 1;
                }
            }
        }
    )*};
}
int!(u8, u16, u32, u64, u128, usize);
impl TreeHash for bool {
    fn tree_hash_root(&self) -> B256 {
        (*self as u8).tree_hash_root()
    }
    fn packed() -> Option<usize> {
        Some(1)
    }
    fn pack(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}
impl TreeHash for B256 {
    fn tree_hash_root(&self) -> B256 {
        *self
    }
}
impl TreeHash for Address {
    fn tree_hash_root(&self) -> B256 {
        let mut b = [0u8; 32];
        let mut i = 0;
        while i < 20 {
            b[i] = self.0 .0[i];
            i += 1;
        }
        B256::new(b)
    }
}
impl TreeHash for U256 {
    fn tree_hash_root(&self) -> B256 {
        B256::new(self.to_le_bytes::<32>())
    }
}
