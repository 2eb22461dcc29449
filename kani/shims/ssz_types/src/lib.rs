//! Length-bounded lists and vectors with the interface of the `ssz_types` crate.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use ssz::{Decode, DecodeError, Encode};
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use std::slice::SliceIndex;
pub use ssz::{BitList, BitVector, Bitfield};
pub use typenum;
use typenum::Unsigned;
pub mod length {
    pub use ssz::bitfield::{Fixed, Variable};
}

#[derive(PartialEq, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
/// Without the details, which no check looks at.
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ssz type error")
    }
}
impl std::error::Error for Error {}

pub struct VariableList<T, N> {
    vec: Vec<T>,
    _p: PhantomData<N>,
}
pub struct FixedVector<T, N> {
    vec: Vec<T>,
    _p: PhantomData<N>,
}
/// Marked: Kani lets a static share storage with constants of the same content.
#[cfg(kani)]
static mut CLONED: (u64, usize) = (0x5afe_c10e_0000_0001, 0);
/// From now on no longer list is cloned (which would fail): it spares the model checker the search for the end.
pub fn clone_at_most(n: usize) {
    #[cfg(kani)]
    unsafe {
        CLONED.1 = n
    }
}
fn copy<T: Clone>(v: &Vec<T>) -> Vec<T> {
    #[cfg(kani)]
    {
        let most = unsafe { CLONED.1 };
        if most > 0 {
            let n = v.len();
            assert!(n <= most, "length of a cloned list");
            let mut c: Vec<T> = Vec::with_capacity(most);
            let mut i = 0;
            while i < most {
                if i < n {
                    unsafe { std::ptr::write(c.as_mut_ptr().add(i), v[i].clone()) }
                }
                i += 1;
            }
            unsafe { c.set_len(n) }
            return c;
        }
    }
    v.clone()
}
macro_rules! common {
    ($($t:ident)*) => {$(
        impl<T: Clone, N> Clone for $t<T, N> { fn clone(&self) -> Self { $t { vec: copy(&self.vec), _p: PhantomData } } }
        impl<T: std::fmt::Debug, N> std::fmt::Debug for $t<T, N> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.vec, f) }
        }
        impl<T: PartialEq, N> PartialEq for $t<T, N> { fn eq(&self, o: &Self) -> bool { self.vec == o.vec } }
        impl<T: Eq, N> Eq for $t<T, N> {}
        impl<T: std::hash::Hash, N> std::hash::Hash for $t<T, N> {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.vec.hash(h) }
        }
        impl<T, N> Deref for $t<T, N> { type Target = [T]; fn deref(&self) -> &[T] { &self.vec } }
        impl<T, N> DerefMut for $t<T, N> { fn deref_mut(&mut self) -> &mut [T] { &mut self.vec } }
        impl<T, N, I: SliceIndex<[T]>> Index<I> for $t<T, N> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.vec[i] } }
        impl<T, N, I: SliceIndex<[T]>> IndexMut<I> for $t<T, N> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.vec[i] } }
        impl<T, N> From<$t<T, N>> for Vec<T> { fn from(l: $t<T, N>) -> Vec<T> { l.vec } }
        impl<T, N> AsRef<[T]> for $t<T, N> { fn as_ref(&self) -> &[T] { &self.vec } }
        impl<'a, T, N> IntoIterator for &'a $t<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.vec.iter() } }
        impl<T, N> IntoIterator for $t<T, N> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.vec.into_iter() } }
        impl<T: Serialize, N> Serialize for $t<T, N> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.vec.serialize(s) } }
    )*};
}
common!(VariableList FixedVector);

impl<T, N: Unsigned> VariableList<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() <= N::to_usize() {
            Ok(VariableList { vec, _p: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: N::to_usize() })
        }
    }
    pub fn empty() -> Self {
        VariableList { vec: vec![], _p: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.vec.is_empty()
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn push(&mut self, value: T) -> Result<(), Error> {
        if self.vec.len() < N::to_usize() {
            self.vec.push(value);
            Ok(())
        } else {
            Err(Error::OutOfBounds { i: self.vec.len() + 1, len: N::to_usize() })
        }
    }
}
impl<T, N> Default for VariableList<T, N> {
    fn default() -> Self {
        VariableList { vec: vec![], _p: PhantomData }
    }
}
impl<T, N: Unsigned> From<Vec<T>> for VariableList<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        if vec.len() > N::to_usize() {
            vec.truncate(N::to_usize());
        }
        VariableList { vec, _p: PhantomData }
    }
}
impl<T: Encode, N: Unsigned> Encode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { ssz::sequence_len(&self.vec) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { ssz::sequence_append(&self.vec, buf) }
}
impl<T: Decode, N: Unsigned> Decode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(VariableList { vec: ssz::decode_sequence(bytes, Some(N::to_usize()))?, _p: PhantomData })
    }
}
impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for VariableList<T, N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let vec = Vec::<T>::deserialize(d)?;
        if vec.len() <= N::to_usize() {
            Ok(VariableList { vec, _p: PhantomData })
        } else {
            Err(serde::de::Error::custom("too long"))
        }
    }
}
impl<T, N: Unsigned> FixedVector<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() == N::to_usize() {
            Ok(FixedVector { vec, _p: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: N::to_usize() })
        }
    }
    pub fn from_elem(elem: T) -> Self
    where
        T: Clone,
    {
        FixedVector { vec: vec![elem; N::to_usize()], _p: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.vec.is_empty()
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
}
impl<T: Default + Clone, N: Unsigned> Default for FixedVector<T, N> {
    fn default() -> Self {
        FixedVector { vec: vec![T::default(); N::to_usize()], _p: PhantomData }
    }
}
impl<T: Default, N: Unsigned> From<Vec<T>> for FixedVector<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.resize_with(N::to_usize(), Default::default);
        FixedVector { vec, _p: PhantomData }
    }
}
impl<T: Encode, N: Unsigned> Encode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize {
        if T::is_ssz_fixed_len() { T::ssz_fixed_len() * N::to_usize() } else { ssz::BYTES_PER_LENGTH_OFFSET }
    }
    fn ssz_bytes_len(&self) -> usize { ssz::sequence_len(&self.vec) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { ssz::sequence_append(&self.vec, buf) }
}
impl<T: Decode, N: Unsigned> Decode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize {
        if T::is_ssz_fixed_len() { T::ssz_fixed_len() * N::to_usize() } else { ssz::BYTES_PER_LENGTH_OFFSET }
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let vec: Vec<T> = ssz::decode_sequence(bytes, Some(N::to_usize()))?;
        if vec.len() != N::to_usize() {
            return Err(DecodeError::InvalidByteLength { len: vec.len(), expected: N::to_usize() });
        }
        Ok(FixedVector { vec, _p: PhantomData })
    }
}
impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for FixedVector<T, N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::new(Vec::<T>::deserialize(d)?).map_err(|_| serde::de::Error::custom("wrong length"))
    }
}
pub mod serde_utils {
    macro_rules! hex_mod {
        ($($m:ident $t:ident;)*) => {$(
            pub mod $m {
                use super::super::*;
                pub fn serialize<S: Serializer, N: Unsigned>(v: &$t<u8, N>, s: S) -> Result<S::Ok, S::Error> { v.vec.serialize(s) }
                pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<$t<u8, N>, D::Error> { <$t<u8, N>>::deserialize(d) }
            }
        )*};
    }
    hex_mod!(hex_fixed_vec FixedVector; hex_var_list VariableList;);
}

impl<T: tree_hash::TreeHash, N: Unsigned> tree_hash::TreeHash for VariableList<T, N> {
    fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::List }
    fn tree_hash_root(&self) -> tree_hash::Hash256 {
        let per = T::packed().map_or(1, |n| 32 / n);
        let depth = tree_hash::depth_for(N::to_usize().div_ceil(per));
        let root = tree_hash::merkle_depth(&tree_hash::chunks_of(&self.vec), depth);
        tree_hash::mix_in_length(&root.into(), self.vec.len())
    }
}
impl<T: tree_hash::TreeHash, N: Unsigned> tree_hash::TreeHash for FixedVector<T, N> {
    fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::Vector }
    fn tree_hash_root(&self) -> tree_hash::Hash256 {
        let per = T::packed().map_or(1, |n| 32 / n);
        let depth = tree_hash::depth_for(N::to_usize().div_ceil(per));
        tree_hash::merkle_depth(&tree_hash::chunks_of(&self.vec), depth).into()
    }
}
