//! Bit lists and bit vectors: bit `i` is bit `i % 8` of byte `i / 8`; an encoded list ends with one
//! set bit behind the last element.
use crate::{Decode, DecodeError, Encode};
use std::marker::PhantomData;
use typenum::Unsigned;

#[derive(PartialEq, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
/// Without the details, which no check looks at.
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Fixed<N>(PhantomData<N>);
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Variable<N>(PhantomData<N>);
pub type BitList<N> = Bitfield<Variable<N>>;
pub type BitVector<N> = Bitfield<Fixed<N>>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Bitfield<T> {
    bytes: Vec<u8>,
    len: usize,
    _p: PhantomData<T>,
}
fn bytes_for(n: usize) -> usize {
    std::cmp::max(1, (n + 7) / 8)
}
fn zeros(n: usize) -> Vec<u8> {
    vec![0u8; n]
}
fn highest_set_bit(b: &[u8]) -> Option<usize> {
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        if b[i] != 0 {
            return Some(i * 8 + 7 - b[i].leading_zeros() as usize);
        }
    }
    None
}
impl<T> Bitfield<T> {
    pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
        if i >= self.len {
            return Err(Error::OutOfBounds { i, len: self.len });
        }
        if value {
            self.bytes[i / 8] |= 1 << (i % 8);
        } else {
            self.bytes[i / 8] &= !(1 << (i % 8));
        }
        Ok(())
    }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        if i < self.len {
            Ok(self.bytes[i / 8] >> (i % 8) & 1 == 1)
        } else {
            Err(Error::OutOfBounds { i, len: self.len })
        }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn is_zero(&self) -> bool {
        self.num_set_bits() == 0
    }
    pub fn num_set_bits(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.bytes.len() {
            n += self.bytes[i].count_ones() as usize;
            i += 1;
        }
        n
    }
    pub fn highest_set_bit(&self) -> Option<usize> {
        highest_set_bit(&self.bytes)
    }
    pub fn into_raw_bytes(self) -> Vec<u8> {
        self.bytes
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.bytes
    }
    pub fn iter(&self) -> BitIter<'_, T> {
        BitIter { b: self, i: 0 }
    }
    fn raw(bytes: Vec<u8>, len: usize) -> Result<Self, Error> {
        if bytes.len() != bytes_for(len) {
            return Err(Error::InvalidByteCount { given: bytes.len(), expected: bytes_for(len) });
        }
        if len % 8 != 0 && bytes[bytes.len() - 1] >> (len % 8) != 0 {
            return Err(Error::ExcessBits);
        }
        if len == 0 && bytes[0] != 0 {
            return Err(Error::ExcessBits);
        }
        Ok(Bitfield { bytes, len, _p: PhantomData })
    }
}
pub struct BitIter<'a, T> {
    b: &'a Bitfield<T>,
    i: usize,
}
impl<'a, T> Iterator for BitIter<'a, T> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        let r = self.b.get(self.i).ok()?;
        self.i += 1;
        Some(r)
    }
}
impl<N: Unsigned + Clone> Bitfield<Variable<N>> {
    pub fn with_capacity(n: usize) -> Result<Self, Error> {
        if n > N::to_usize() {
            return Err(Error::OutOfBounds { i: n, len: N::to_usize() });
        }
        Ok(Bitfield { bytes: zeros(bytes_for(n)), len: n, _p: PhantomData })
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        let len = self.len;
        let mut bytes = self.bytes;
        if len / 8 == bytes.len() {
            bytes.push(1);
        } else {
            bytes[len / 8] |= 1 << (len % 8);
        }
        bytes
    }
    pub fn from_bytes(bytes: Vec<u8>) -> Result<Self, Error> {
        let n = bytes.len();
        let len = highest_set_bit(&bytes).ok_or(Error::MissingLengthInformation)?;
        // the bit behind the last element must be in the last byte
        if len / 8 + 1 != n {
            return Err(Error::InvalidByteCount { given: n, expected: len / 8 + 1 });
        }
        if len > N::to_usize() {
            return Err(Error::OutOfBounds { i: N::to_usize(), len: N::to_usize() });
        }
        let mut bytes = bytes;
        bytes[len / 8] &= !(1 << (len % 8));
        bytes.truncate(bytes_for(len));
        Self::raw(bytes, len)
    }
}
impl<N: Unsigned + Clone> Bitfield<Fixed<N>> {
    pub fn new() -> Self {
        Bitfield { bytes: zeros(bytes_for(N::to_usize())), len: N::to_usize(), _p: PhantomData }
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.bytes
    }
    pub fn from_bytes(bytes: Vec<u8>) -> Result<Self, Error> {
        Self::raw(bytes, N::to_usize())
    }
}
impl<N: Unsigned + Clone> Default for Bitfield<Fixed<N>> {
    fn default() -> Self {
        Self::new()
    }
}
impl<N: Unsigned + Clone> Encode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { (self.len + 8) / 8 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { crate::put(buf, &self.clone().into_bytes()) }
}
impl<N: Unsigned + Clone> Decode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(copy(bytes)).map_err(|_| DecodeError::BytesInvalid(String::new()))
    }
}
impl<N: Unsigned + Clone> Encode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { bytes_for(N::to_usize()) }
    fn ssz_bytes_len(&self) -> usize { self.bytes.len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { crate::put(buf, &self.bytes) }
}
impl<N: Unsigned + Clone> Decode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { bytes_for(N::to_usize()) }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(copy(bytes)).map_err(|_| DecodeError::BytesInvalid(String::new()))
    }
}
fn copy(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len() + 1);
    crate::put(&mut v, b);
    v
}
