//! C30: hex text.
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
pub mod bytes;

use bytes::*;

fn digit(n: u8, upper: bool) -> u8 {
    if n < 10 {
        b'0' + n
    } else if upper {
        b'A' + (n - 10)
    } else {
        b'a' + (n - 10)
    }
}
fn value(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}
/// `text` is `0x` followed by the digits of `data`.
fn is_hex_of(text: &str, data: &[u8], upper: bool) {
    let t = text.as_bytes();
    assert!(t.len() == 2 + 2 * data.len(), "two digits per byte after the prefix");
    assert!(t[0] == b'0' && t[1] == b'x', "prefix is 0x");
    let mut i = 0;
    while i < data.len() {
        assert!(t[2 + 2 * i] == digit(data[i] >> 4, upper), "high digit");
        assert!(t[3 + 2 * i] == digit(data[i] & 15, upper), "low digit");
        i += 1;
    }
}

macro_rules! encode {
    ($n:literal) => {{
        let d: [u8; $n] = nd::arr();
        is_hex_of(&hex_encode(&d[..]), &d, false);
        is_hex_of(&hex_encode_upper(&d[..]), &d, true);
        if $n <= 8 {
            is_hex_of(&hex_encode_compact(&d[..]), &d, false);
        }
        nd::reach!(true, "encoded");
    }};
}
macro_rules! compact {
    ($n:literal) => {{
        let d: [u8; $n] = nd::arr();
        let s = hex_encode_compact(&d[..]);
        let t = s.as_bytes();
        assert!(t.len() == 12, "shortened form has twelve characters");
        let e = [
            b'0', b'x',
            digit(d[0] >> 4, false), digit(d[0] & 15, false), digit(d[1] >> 4, false), digit(d[1] & 15, false),
            b'.', b'.',
            digit(d[$n - 2] >> 4, false), digit(d[$n - 2] & 15, false), digit(d[$n - 1] >> 4, false), digit(d[$n - 1] & 15, false),
        ];
        assert!(t == e, "first and last two bytes");
        nd::reach!(true, "shortened");
    }};
}
macro_rules! decode {
    ($n:literal) => {{
        let b: [u8; $n] = nd::arr();
        nd::assume(nd::stubs::valid_utf8(&b));
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        let got = hex_decode(s);
        let mut good = $n >= 2 && $n % 2 == 0;
        if $n >= 2 {
            good = good && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X');
            let mut i = 2;
            while i < $n {
                good = good && value(b[i]).is_some();
                i += 1;
            }
        }
        assert!(got.is_ok() == good, "accepted exactly when 0x followed by an even number of hex digits");
        if let Ok(v) = &got {
            assert!(2 * v.len() + 2 == $n, "length of decoded bytes");
            let mut i = 0;
            while i < v.len() {
                let hi = value(b[2 + 2 * i]).unwrap();
                let lo = value(b[3 + 2 * i]).unwrap();
                assert!(v[i] == hi * 16 + lo, "decoded byte");
                i += 1;
            }
        }
        nd::reach!($n < 2 || $n % 2 == 1 || got.is_ok(), "decoding reached");
        std::mem::forget(got);
    }};
}
/// Encoding and decoding give the bytes back.
macro_rules! roundtrip {
    ($n:literal, $upper:literal) => {{
        let d: [u8; $n] = nd::arr();
        let text = if $upper { hex_encode_upper(&d[..]) } else { hex_encode(&d[..]) };
        let got = hex_decode(&text);
        match &got {
            Ok(v) => {
                assert!(v.len() == $n, "as many bytes as were encoded");
                let mut i = 0;
                while i < $n {
                    assert!(v[i] == d[i], "the byte that was encoded");
                    i += 1;
                }
            }
            Err(_) => panic!("encoded bytes decode"),
        }
        nd::reach!(got.is_ok(), "decoded");
        std::mem::forget(got);
    }};
}
/// Valid text of `$n` characters in which one character at any place is arbitrary.
macro_rules! spoilt {
    ($n:literal) => {{
        let mut b = [b'0'; $n];
        b[1] = b'x';
        let at = nd::range(0, $n - 1);
        let c = nd::u8();
        nd::assume(c < 128);
        b[at] = c;
        let got = hex_decode(unsafe { std::str::from_utf8_unchecked(&b) });
        let good = if at == 0 {
            c == b'0'
        } else if at == 1 {
            c == b'x' || c == b'X'
        } else {
            value(c).is_some()
        };
        assert!(got.is_ok() == good, "one wrong character anywhere is refused");
        nd::reach!(got.is_ok(), "accepted");
        nd::reach!(got.is_err(), "refused");
        std::mem::forget(got);
    }};
}
nd::harnesses! {
    [20] fn encode_3() { encode!(3) }
    [60] fn encode_20() { encode!(20) }
    [90] fn encode_32() { encode!(32) }
    [50] fn compact_10() { compact!(10) }
    [60] fn compact_16() { compact!(16) }
    [20] fn roundtrip_1() { roundtrip!(1, false) }
    [20] fn roundtrip_upper_1() { roundtrip!(1, true) }
    [30] fn roundtrip_4() { roundtrip!(4, false) }
    [30] fn roundtrip_upper_4() { roundtrip!(4, true) }
    [40] fn roundtrip_9() { roundtrip!(9, false) }
    [12] fn decode_8() { decode!(8) }
    [14] fn decode_9() { decode!(9) }
    [14] fn decode_10() { decode!(10) }
    [40] fn spoilt_22() { spoilt!(22) }
    [30] fn encode_0() { encode!(0) }
    [30] fn encode_1() { encode!(1) }
    [30] fn encode_2() { encode!(2) }
    [30] fn encode_4() { encode!(4) }
    [40] fn encode_8() { encode!(8) }
    [50] fn compact_9() { compact!(9) }
    [80] fn compact_32() { compact!(32) }
    [8] fn decode_0() { decode!(0) }
    [8] fn decode_1() { decode!(1) }
    [8] fn decode_2() { decode!(2) }
    [8] fn decode_3() { decode!(3) }
    [8] fn decode_4() { decode!(4) }
    [8] fn decode_5() { decode!(5) }
    [8] fn decode_6() { decode!(6) }
}
