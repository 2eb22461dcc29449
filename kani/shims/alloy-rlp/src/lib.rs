//! Re-implementation of the parts of `alloy-rlp` used by trin and alloy-primitives (the published
//! crate is not available offline). Same wire format, same error cases.
pub use bytes::{Buf, BufMut, Bytes, BytesMut};
extern crate self as alloy_rlp;

pub const EMPTY_STRING_CODE: u8 = 0x80;
pub const EMPTY_LIST_CODE: u8 = 0xC0;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    Overflow,
    LeadingZero,
    InputTooShort,
    NonCanonicalSingleByte,
    NonCanonicalSize,
    UnexpectedLength,
    UnexpectedString,
    UnexpectedList,
    ListLengthMismatch { expected: usize, got: usize },
    Custom(&'static str),
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(match self {
            Error::Overflow => "overflow",
            Error::LeadingZero => "leading zero",
            Error::InputTooShort => "input too short",
            Error::NonCanonicalSingleByte => "non-canonical single byte",
            Error::NonCanonicalSize => "non-canonical size",
            Error::UnexpectedLength => "unexpected length",
            Error::UnexpectedString => "unexpected string",
            Error::UnexpectedList => "unexpected list",
            Error::ListLengthMismatch { .. } => "unexpected list length",
            Error::Custom(m) => m,
        })
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;

pub const fn length_of_length(payload_length: usize) -> usize {
    if payload_length < 56 {
        1
    } else {
        1 + (usize::BITS as usize / 8) - payload_length.leading_zeros() as usize / 8
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Header {
    pub list: bool,
    pub payload_length: usize,
}

fn get_next_byte(buf: &mut &[u8]) -> Result<u8> {
    if buf.is_empty() {
        return Err(Error::InputTooShort);
    }
    let b = buf[0];
    *buf = &buf[1..];
    Ok(b)
}
fn advance_unchecked<'a>(buf: &mut &'a [u8], cnt: usize) -> &'a [u8] {
    let b = &buf[..cnt];
    *buf = &buf[cnt..];
    b
}
fn static_left_pad<const N: usize>(data: &[u8]) -> Result<[u8; N]> {
    if data.len() > N {
        return Err(Error::Overflow);
    }
    let mut v = [0u8; N];
    if data.is_empty() {
        return Ok(v);
    }
    if data[0] == 0 {
        return Err(Error::LeadingZero);
    }
    v[N - data.len()..].copy_from_slice(data);
    Ok(v)
}

pub enum PayloadView<'a> {
    String(&'a [u8]),
    List(Vec<&'a [u8]>),
}

impl Header {
    pub fn decode(buf: &mut &[u8]) -> Result<Self> {
        let payload_length;
        let mut list = false;
        let first = *buf.first().ok_or(Error::InputTooShort)?;
        match first {
            0..=0x7F => payload_length = 1,
            b @ 0x80..=0xB7 => {
                *buf = &buf[1..];
                payload_length = (b - 0x80) as usize;
                if payload_length == 1 {
                    let x = *buf.first().ok_or(Error::InputTooShort)?;
                    if x < EMPTY_STRING_CODE {
                        return Err(Error::NonCanonicalSingleByte);
                    }
                }
            }
            b @ (0xB8..=0xBF | 0xF8..=0xFF) => {
                *buf = &buf[1..];
                list = b >= 0xF8;
                let code = if list { 0xF7 } else { 0xB7 };
                let len_of_len = (b - code) as usize;
                if buf.len() < len_of_len {
                    return Err(Error::InputTooShort);
                }
                let len = advance_unchecked(buf, len_of_len);
                let len = u64::from_be_bytes(static_left_pad(len)?);
                payload_length = usize::try_from(len).map_err(|_| Error::Custom("Input too big"))?;
                if payload_length < 56 {
                    return Err(Error::NonCanonicalSize);
                }
            }
            b => {
                *buf = &buf[1..];
                list = true;
                payload_length = (b - EMPTY_LIST_CODE) as usize;
            }
        }
        if buf.len() < payload_length {
            return Err(Error::InputTooShort);
        }
        Ok(Self {
            list,
            payload_length,
        })
    }
    pub fn decode_bytes<'a>(buf: &mut &'a [u8], is_list: bool) -> Result<&'a [u8]> {
        let Self {
            list,
            payload_length,
        } = Self::decode(buf)?;
        if list != is_list {
            return Err(if is_list {
                Error::UnexpectedString
            } else {
                Error::UnexpectedList
            });
        }
        Ok(advance_unchecked(buf, payload_length))
    }
    pub fn decode_str<'a>(buf: &mut &'a [u8]) -> Result<&'a str> {
        let bytes = Self::decode_bytes(buf, false)?;
        core::str::from_utf8(bytes).map_err(|_| Error::Custom("invalid string"))
    }
    pub fn decode_raw<'a>(buf: &mut &'a [u8]) -> Result<PayloadView<'a>> {
        let Self {
            list,
            payload_length,
        } = Self::decode(buf)?;
        let mut payload = advance_unchecked(buf, payload_length);
        if !list {
            return Ok(PayloadView::String(payload));
        }
        let mut items = Vec::new();
        while !payload.is_empty() {
            let before = payload;
            let Self { payload_length, .. } = Self::decode(&mut payload)?;
            let hl = before.len() - payload.len();
            advance_unchecked(&mut payload, payload_length);
            items.push(&before[..hl + payload_length]);
        }
        Ok(PayloadView::List(items))
    }
    pub fn encode(&self, out: &mut dyn BufMut) {
        if self.payload_length < 56 {
            let code = if self.list {
                EMPTY_LIST_CODE
            } else {
                EMPTY_STRING_CODE
            };
            out.put_u8(code + self.payload_length as u8);
        } else {
            let be = self.payload_length.to_be_bytes();
            let lz = self.payload_length.leading_zeros() as usize / 8;
            let be = &be[lz..];
            let code = if self.list { 0xF7 } else { 0xB7 };
            out.put_u8(code + be.len() as u8);
            out.put_slice(be);
        }
    }
    pub const fn length(&self) -> usize {
        length_of_length(self.payload_length)
    }
    pub const fn length_with_payload(&self) -> usize {
        self.length() + self.payload_length
    }
}

pub trait Encodable {
    fn encode(&self, out: &mut dyn BufMut);
    fn length(&self) -> usize {
        let mut out = Vec::new();
        self.encode(&mut out);
        out.len()
    }
}
pub trait Decodable: Sized {
    fn decode(buf: &mut &[u8]) -> Result<Self>;
}
/// # Safety
/// The bound must hold.
pub unsafe trait MaxEncodedLen<const N: usize>: Encodable {}
/// # Safety
/// The bound must hold.
pub unsafe trait MaxEncodedLenAssoc: Encodable {
    const LEN: usize;
}
#[macro_export]
macro_rules! impl_max_encoded_len {
    ($t:ty, $len:expr) => {
        unsafe impl $crate::MaxEncodedLen<{ $len }> for $t {}
        unsafe impl $crate::MaxEncodedLenAssoc for $t {
            const LEN: usize = $len;
        }
    };
}

impl<T: Encodable + ?Sized> Encodable for &T {
    fn encode(&self, out: &mut dyn BufMut) {
        (**self).encode(out)
    }
    fn length(&self) -> usize {
        (**self).length()
    }
}
impl<T: Encodable + ?Sized> Encodable for Box<T> {
    fn encode(&self, out: &mut dyn BufMut) {
        (**self).encode(out)
    }
    fn length(&self) -> usize {
        (**self).length()
    }
}
impl<T: Decodable> Decodable for Box<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        T::decode(buf).map(Box::new)
    }
}
impl Encodable for [u8] {
    fn length(&self) -> usize {
        let mut len = self.len();
        if len != 1 || self[0] >= EMPTY_STRING_CODE {
            len += length_of_length(len);
        }
        len
    }
    fn encode(&self, out: &mut dyn BufMut) {
        if self.len() != 1 || self[0] >= EMPTY_STRING_CODE {
            Header {
                list: false,
                payload_length: self.len(),
            }
            .encode(out);
        }
        out.put_slice(self);
    }
}
impl<const N: usize> Encodable for [u8; N] {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl<const N: usize> Decodable for [u8; N] {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let b = Header::decode_bytes(buf, false)?;
        b.try_into().map_err(|_| Error::UnexpectedLength)
    }
}
impl Encodable for str {
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
}
impl Encodable for String {
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
}
impl Decodable for String {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_str(buf).map(Into::into)
    }
}
impl Encodable for Bytes {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl Encodable for BytesMut {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl Decodable for Bytes {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(|b| Bytes::from(b.to_vec()))
    }
}
impl Decodable for BytesMut {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(BytesMut::from)
    }
}
impl Encodable for bool {
    fn length(&self) -> usize {
        1
    }
    fn encode(&self, out: &mut dyn BufMut) {
        out.put_u8(if *self { 1 } else { EMPTY_STRING_CODE })
    }
}
impl Decodable for bool {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Ok(match get_next_byte(buf)? {
            EMPTY_STRING_CODE => false,
            1 => true,
            _ => return Err(Error::Custom("invalid bool value, must be 0 or 1")),
        })
    }
}
macro_rules! uint_impl {
    ($($t:ty),+) => {$(
        impl Encodable for $t {
            fn length(&self) -> usize {
                let x = *self;
                if (x as u128) < EMPTY_STRING_CODE as u128 {
                    1
                } else {
                    1 + (<$t>::BITS as usize / 8) - (x.leading_zeros() as usize / 8)
                }
            }
            fn encode(&self, out: &mut dyn BufMut) {
                let x = *self;
                if x == 0 {
                    out.put_u8(EMPTY_STRING_CODE);
                } else if (x as u128) < EMPTY_STRING_CODE as u128 {
                    out.put_u8(x as u8);
                } else {
                    let be = x.to_be_bytes();
                    let be = &be[x.leading_zeros() as usize / 8..];
                    out.put_u8(EMPTY_STRING_CODE + be.len() as u8);
                    out.put_slice(be);
                }
            }
        }
        impl Decodable for $t {
            fn decode(buf: &mut &[u8]) -> Result<Self> {
                let b = Header::decode_bytes(buf, false)?;
                static_left_pad(b).map(<$t>::from_be_bytes)
            }
        }
        impl_max_encoded_len!($t, { (<$t>::BITS as usize / 8) + length_of_length(<$t>::BITS as usize / 8) });
    )+};
}
uint_impl!(u8, u16, u32, u64, usize, u128);

pub fn list_length<B: core::borrow::Borrow<T>, T: ?Sized + Encodable>(l: &[B]) -> usize {
    let p = rlp_list_header(l).payload_length;
    p + length_of_length(p)
}
fn rlp_list_header<B: core::borrow::Borrow<T>, T: ?Sized + Encodable>(l: &[B]) -> Header {
    let mut h = Header {
        list: true,
        payload_length: 0,
    };
    for x in l {
        h.payload_length += x.borrow().length();
    }
    h
}
pub fn encode_list<B: core::borrow::Borrow<T>, T: ?Sized + Encodable>(
    values: &[B],
    out: &mut dyn BufMut,
) {
    rlp_list_header(values).encode(out);
    for v in values {
        v.borrow().encode(out);
    }
}
pub fn encode_iter<'a, I, B, T>(values: I, out: &mut dyn BufMut)
where
    I: Iterator<Item = &'a B> + Clone,
    B: core::borrow::Borrow<T> + ?Sized + 'a,
    T: ?Sized + Encodable,
{
    let mut h = Header {
        list: true,
        payload_length: 0,
    };
    for x in values.clone() {
        h.payload_length += x.borrow().length();
    }
    h.encode(out);
    for v in values {
        v.borrow().encode(out);
    }
}
pub fn encode<T: Encodable>(value: T) -> Vec<u8> {
    let mut out = Vec::with_capacity(value.length());
    value.encode(&mut out);
    out
}
pub fn encode_fixed_size_vec<T: Encodable>(value: &T) -> Vec<u8> {
    encode(value)
}
pub fn decode_exact<T: Decodable>(bytes: impl AsRef<[u8]>) -> Result<T> {
    let mut buf = bytes.as_ref();
    let out = T::decode(&mut buf)?;
    if !buf.is_empty() {
        return Err(Error::UnexpectedLength);
    }
    Ok(out)
}
impl<T: Encodable> Encodable for Vec<T> {
    fn length(&self) -> usize {
        list_length::<T, T>(self)
    }
    fn encode(&self, out: &mut dyn BufMut) {
        encode_list::<T, T>(self, out)
    }
}
impl<T: Decodable> Decodable for Vec<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let mut bytes = Header::decode_bytes(buf, true)?;
        let mut vec = Vec::new();
        let payload_view = &mut bytes;
        while !payload_view.is_empty() {
            vec.push(T::decode(payload_view)?);
        }
        Ok(vec)
    }
}
