//! SSZ encoding and decoding with the interface and the rules of the `ethereum_ssz` crate, written
//! in a form that a solver can carry (loops over known lengths, no growth of vectors).
use std::sync::Arc;

pub use typenum;
pub mod bitfield;
pub use bitfield::{BitList, BitVector, Bitfield, Error as BitfieldError};

pub const BYTES_PER_LENGTH_OFFSET: usize = 4;
pub const MAX_LENGTH_VALUE: usize = u32::MAX as usize;
pub const MAX_UNION_SELECTOR: u8 = 127;
pub const BYTES_PER_UNION_SELECTOR: usize = 1;

pub mod prelude {}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut buf = Vec::with_capacity(room(self));
        self.ssz_append(&mut buf);
        buf
    }
}
/// Room for an encoding, which spares the model checker the steps of growing.
fn room<T: Encode + ?Sized>(t: &T) -> usize {
    if cfg!(feature = "plain") {
        64
    } else {
        t.ssz_bytes_len()
    }
}
pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

#[derive(PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}
/// Without the details, which no check looks at.
impl std::fmt::Debug for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ssz decode error")
    }
}
impl std::error::Error for DecodeError {}

pub fn encode_length(len: usize) -> [u8; BYTES_PER_LENGTH_OFFSET] {
    debug_assert!(len <= MAX_LENGTH_VALUE);
    (len as u32).to_le_bytes()
}
pub fn read_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    if bytes.len() < 4 {
        return Err(DecodeError::InvalidLengthPrefix { len: bytes.len(), expected: 4 });
    }
    Ok(bytes[0] as usize | (bytes[1] as usize) << 8 | (bytes[2] as usize) << 16 | (bytes[3] as usize) << 24)
}
pub fn sanitize_offset(
    offset: usize,
    previous: Option<usize>,
    num_bytes: usize,
    num_fixed: Option<usize>,
) -> Result<usize, DecodeError> {
    if num_fixed.map_or(false, |n| offset < n) {
        Err(DecodeError::OffsetIntoFixedPortion(offset))
    } else if previous.is_none() && num_fixed.map_or(false, |n| offset != n) {
        Err(DecodeError::OffsetSkipsVariableBytes(offset))
    } else if offset > num_bytes {
        Err(DecodeError::OffsetOutOfBounds(offset))
    } else if previous.map_or(false, |p| p > offset) {
        Err(DecodeError::OffsetsAreDecreasing(offset))
    } else {
        Ok(offset)
    }
}
pub fn split_union_bytes(bytes: &[u8]) -> Result<(u8, &[u8]), DecodeError> {
    if bytes.is_empty() {
        return Err(DecodeError::OutOfBoundsByte { i: 0 });
    }
    if bytes[0] > MAX_UNION_SELECTOR {
        return Err(DecodeError::UnionSelectorInvalid(bytes[0]));
    }
    Ok((bytes[0], &bytes[1..]))
}

/// Where the parts of a container with `N` fields lie; a field is given by its fixed length, or
/// `None` if it has a variable one.
pub fn parts<const N: usize>(bytes: &[u8], fields: &[Option<usize>; N]) -> Result<[(usize, usize); N], DecodeError> {
    let mut out = [(0usize, 0usize); N];
    let mut at = 0usize;
    let mut previous: Option<usize> = None;
    let mut first: Option<usize> = None;
    let mut last = 0usize;
    let mut i = 0;
    while i < N {
        match fields[i] {
            Some(n) => {
                if at > bytes.len() || bytes.len() - at < n {
                    return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: at + n });
                }
                out[i] = (at, at + n);
                at += n;
            }
            None => {
                if at > bytes.len() {
                    return Err(DecodeError::OutOfBoundsByte { i: at });
                }
                let o = read_offset(&bytes[at..])?;
                sanitize_offset(o, previous, bytes.len(), None)?;
                match first {
                    None => first = Some(o),
                    Some(_) => out[last].1 = o,
                }
                out[i].0 = o;
                last = i;
                previous = Some(o);
                at += BYTES_PER_LENGTH_OFFSET;
            }
        }
        i += 1;
    }
    match first {
        Some(o) if o < at => return Err(DecodeError::OffsetIntoFixedPortion(o)),
        Some(o) if o > at => return Err(DecodeError::OffsetSkipsVariableBytes(o)),
        Some(_) => out[last].1 = bytes.len(),
        None if at != bytes.len() => {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: at });
        }
        None => {}
    }
    Ok(out)
}

/// Appends bytes one by one, which keeps what is known about them.
pub fn put(buf: &mut Vec<u8>, bytes: &[u8]) {
    let mut i = 0;
    while i < bytes.len() {
        buf.push(bytes[i]);
        i += 1;
    }
}

pub struct SszEncoder<'a> {
    offset: usize,
    buf: &'a mut Vec<u8>,
    variable_bytes: Vec<u8>,
}
impl<'a> SszEncoder<'a> {
    pub fn container(buf: &'a mut Vec<u8>, num_fixed_bytes: usize) -> Self {
        SszEncoder { offset: num_fixed_bytes, buf, variable_bytes: Vec::with_capacity(VARIABLE) }
    }
    pub fn append<T: Encode>(&mut self, item: &T) {
        if T::is_ssz_fixed_len() {
            item.ssz_append(self.buf);
        } else {
            put(self.buf, &encode_length(self.offset + self.variable_bytes.len()));
            item.ssz_append(&mut self.variable_bytes);
        }
    }
    pub fn append_parameterized<F: Fn(&mut Vec<u8>)>(&mut self, fixed: bool, f: F) {
        if fixed {
            f(self.buf);
        } else {
            put(self.buf, &encode_length(self.offset + self.variable_bytes.len()));
            f(&mut self.variable_bytes);
        }
    }
    pub fn finalize(&mut self) -> &mut Vec<u8> {
        put(self.buf, &self.variable_bytes);
        self.buf
    }
}
/// Room reserved for the variable part, so that it does not grow while it is written.
const VARIABLE: usize = 64;

pub struct SszDecoderBuilder<'a> {
    bytes: &'a [u8],
    fields: [Option<usize>; 32],
    n: usize,
}
impl<'a> SszDecoderBuilder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        SszDecoderBuilder { bytes, fields: [None; 32], n: 0 }
    }
    pub fn register_type<T: Decode>(&mut self) -> Result<(), DecodeError> {
        self.fields[self.n] = if T::is_ssz_fixed_len() { Some(T::ssz_fixed_len()) } else { None };
        self.n += 1;
        Ok(())
    }
    pub fn register_anonymous_variable_length_item(&mut self) -> Result<(), DecodeError> {
        self.fields[self.n] = None;
        self.n += 1;
        Ok(())
    }
    pub fn build(self) -> Result<SszDecoder<'a>, DecodeError> {
        // trailing unused fields count as fixed fields without bytes
        let mut fields = [Some(0usize); 32];
        let mut i = 0;
        while i < self.n {
            fields[i] = self.fields[i];
            i += 1;
        }
        Ok(SszDecoder { bytes: self.bytes, parts: parts(self.bytes, &fields)?, at: 0 })
    }
}
pub struct SszDecoder<'a> {
    bytes: &'a [u8],
    parts: [(usize, usize); 32],
    at: usize,
}
impl<'a> SszDecoder<'a> {
    pub fn decode_next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        let (a, b) = self.parts[self.at];
        self.at += 1;
        T::from_ssz_bytes(&self.bytes[a..b])
    }
    pub fn decode_next_with<T, F: FnOnce(&'a [u8]) -> Result<T, DecodeError>>(&mut self, f: F) -> Result<T, DecodeError> {
        let (a, b) = self.parts[self.at];
        self.at += 1;
        f(&self.bytes[a..b])
    }
}

macro_rules! uint {
    ($($t:ty)*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { size_of::<$t>() }
            fn ssz_bytes_len(&self) -> usize { size_of::<$t>() }
            fn ssz_append(&self, buf: &mut Vec<u8>) { put(buf, &self.to_le_bytes()) }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { size_of::<$t>() }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                const N: usize = size_of::<$t>();
                if bytes.len() != N {
                    return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: N });
                }
                let mut a = [0u8; N];
                let mut i = 0;
                while i < N { a[i] = bytes[i]; i += 1; }
                Ok(<$t>::from_le_bytes(a))
            }
        }
    )*};
}
uint!(u8 u16 u32 u64 u128 usize);

impl Encode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn ssz_bytes_len(&self) -> usize { 1 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.push(*self as u8) }
}
impl Decode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.len() != 1 {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: 1 });
        }
        match bytes[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DecodeError::BytesInvalid(String::new())),
        }
    }
}

impl<const N: usize> Encode for [u8; N] {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn ssz_bytes_len(&self) -> usize { N }
    fn ssz_append(&self, buf: &mut Vec<u8>) { put(buf, self) }
}
impl<const N: usize> Decode for [u8; N] {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.len() != N {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: N });
        }
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N { a[i] = bytes[i]; i += 1; }
        Ok(a)
    }
}
impl<const N: usize> Encode for alloy_primitives::FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn ssz_bytes_len(&self) -> usize { N }
    fn ssz_append(&self, buf: &mut Vec<u8>) { put(buf, &self.0) }
}
impl<const N: usize> Decode for alloy_primitives::FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(alloy_primitives::FixedBytes(<[u8; N]>::from_ssz_bytes(bytes)?))
    }
}
impl Encode for alloy_primitives::Address {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 20 }
    fn ssz_bytes_len(&self) -> usize { 20 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { put(buf, &self.0 .0) }
}
impl Decode for alloy_primitives::Address {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 20 }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(alloy_primitives::Address::from(<[u8; 20]>::from_ssz_bytes(bytes)?))
    }
}
macro_rules! wide {
    ($($t:ty, $n:literal;)*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_bytes_len(&self) -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { put(buf, &self.to_le_bytes::<$n>()) }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                Ok(<$t>::from_le_bytes(<[u8; $n]>::from_ssz_bytes(bytes)?))
            }
        }
    )*};
}
wide!(alloy_primitives::U256, 32; alloy_primitives::U128, 16;);
impl Encode for alloy_primitives::Bytes {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { self.len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { put(buf, self) }
}
impl Decode for alloy_primitives::Bytes {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> { Ok(bytes.to_vec().into()) }
}
impl<T: Encode> Encode for Arc<T> {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn ssz_bytes_len(&self) -> usize { (**self).ssz_bytes_len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { (**self).ssz_append(buf) }
}
impl<T: Decode> Decode for Arc<T> {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> { Ok(Arc::new(T::from_ssz_bytes(bytes)?)) }
}
impl<T: Encode> Encode for &T {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn ssz_bytes_len(&self) -> usize { (**self).ssz_bytes_len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { (**self).ssz_append(buf) }
}

/// A sequence of items: back to back if they have a fixed length, behind a table of offsets if not.
pub fn sequence_len<T: Encode>(items: &[T]) -> usize {
    if T::is_ssz_fixed_len() {
        T::ssz_fixed_len() * items.len()
    } else {
        let mut n = 0;
        let mut i = 0;
        while i < items.len() {
            n += BYTES_PER_LENGTH_OFFSET + items[i].ssz_bytes_len();
            i += 1;
        }
        n
    }
}
pub fn sequence_append<T: Encode>(items: &[T], buf: &mut Vec<u8>) {
    if !T::is_ssz_fixed_len() {
        let mut at = items.len() * BYTES_PER_LENGTH_OFFSET;
        let mut i = 0;
        while i < items.len() {
            put(buf, &encode_length(at));
            at += items[i].ssz_bytes_len();
            i += 1;
        }
    }
    let mut i = 0;
    while i < items.len() {
        items[i].ssz_append(buf);
        i += 1;
    }
}
impl<T: Encode> Encode for Vec<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { sequence_len(self) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { sequence_append(self, buf) }
}
impl<T: Decode> Decode for Vec<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> { decode_sequence(bytes, None) }
}
pub fn decode_sequence<T: Decode>(bytes: &[u8], max: Option<usize>) -> Result<Vec<T>, DecodeError> {
    if bytes.is_empty() {
        return Ok(Vec::new());
    }
    if !T::is_ssz_fixed_len() {
        return decode_list_of_variable_length_items::<T, Vec<T>>(bytes, max);
    }
    let size = T::ssz_fixed_len();
    if size == 0 {
        return Err(DecodeError::ZeroLengthItem);
    }
    let n = bytes.len() / size;
    if bytes.len() % size != 0 {
        return Err(DecodeError::InvalidByteLength { len: bytes.len() % size, expected: size });
    }
    if max.map_or(false, |m| n > m) {
        return Err(DecodeError::BytesInvalid(String::new()));
    }
    let mut out = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        out.push(T::from_ssz_bytes(&bytes[i * size..(i + 1) * size])?);
        i += 1;
    }
    Ok(out)
}
pub fn decode_list_of_variable_length_items<T: Decode, C: TryFromIter<T>>(
    bytes: &[u8],
    max_len: Option<usize>,
) -> Result<C, DecodeError> {
    if bytes.is_empty() {
        return C::from_items(Vec::new());
    }
    let first = read_offset(bytes)?;
    sanitize_offset(first, None, bytes.len(), Some(first))?;
    if first % BYTES_PER_LENGTH_OFFSET != 0 || first < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidListFixedBytesLen(first));
    }
    let n = first / BYTES_PER_LENGTH_OFFSET;
    if max_len.map_or(false, |m| n > m) {
        return Err(DecodeError::BytesInvalid(String::new()));
    }
    let mut out = Vec::with_capacity(n);
    let mut offset = first;
    let mut i = 1;
    while i <= n {
        let start = offset;
        let end = if i == n {
            bytes.len()
        } else {
            offset = read_offset(&bytes[i * BYTES_PER_LENGTH_OFFSET..])?;
            sanitize_offset(offset, Some(start), bytes.len(), Some(first))?
        };
        out.push(T::from_ssz_bytes(&bytes[start..end])?);
        i += 1;
    }
    C::from_items(out)
}
pub trait TryFromIter<T>: Sized {
    fn from_items(items: Vec<T>) -> Result<Self, DecodeError>;
}
impl<T> TryFromIter<T> for Vec<T> {
    fn from_items(items: Vec<T>) -> Result<Self, DecodeError> {
        Ok(items)
    }
}

impl<T: Encode> Encode for Option<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { 1 + self.as_ref().map_or(0, |v| v.ssz_bytes_len()) }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            None => buf.push(0),
            Some(v) => {
                buf.push(1);
                v.ssz_append(buf);
            }
        }
    }
}
impl<T: Decode> Decode for Option<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let (s, body) = split_union_bytes(bytes)?;
        match s {
            0 => Ok(None),
            1 => Ok(Some(T::from_ssz_bytes(body)?)),
            o => Err(DecodeError::UnionSelectorInvalid(o)),
        }
    }
}
macro_rules! tuple {
    ($n:literal: $($t:ident $i:tt),*) => {
        impl<$($t: Encode),*> Encode for ($($t,)*) {
            fn is_ssz_fixed_len() -> bool { $($t::is_ssz_fixed_len() &&)* true }
            fn ssz_fixed_len() -> usize {
                if <Self as Encode>::is_ssz_fixed_len() { $($t::ssz_fixed_len() +)* 0 } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn ssz_bytes_len(&self) -> usize {
                if <Self as Encode>::is_ssz_fixed_len() { return <Self as Encode>::ssz_fixed_len(); }
                let mut n = 0; $(n += if $t::is_ssz_fixed_len() { $t::ssz_fixed_len() } else { 4 + self.$i.ssz_bytes_len() };)* n
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let mut e = SszEncoder::container(buf, $($t::ssz_fixed_len() +)* 0);
                $(e.append(&self.$i);)*
                e.finalize();
            }
        }
        impl<$($t: Decode),*> Decode for ($($t,)*) {
            fn is_ssz_fixed_len() -> bool { $($t::is_ssz_fixed_len() &&)* true }
            fn ssz_fixed_len() -> usize {
                if <Self as Decode>::is_ssz_fixed_len() { $($t::ssz_fixed_len() +)* 0 } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                let p = parts::<$n>(bytes, &[$(if $t::is_ssz_fixed_len() { Some($t::ssz_fixed_len()) } else { None }),*])?;
                Ok(($($t::from_ssz_bytes(&bytes[p[$i].0..p[$i].1])?,)*))
            }
        }
    };
}
tuple!(2: A 0, B 1);
tuple!(3: A 0, B 1, C 2);
tuple!(4: A 0, B 1, C 2, D 3);
tuple!(5: A 0, B 1, C 2, D 3, E 4);
