//! C14: accept codes of both protocol versions.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/ethportal-api/src/types/accept_code.rs"]
pub mod accept_code;
#[path = "/repo/crates/ethportal-api/src/types/protocol_versions.rs"]
pub mod protocol_versions;

use accept_code::*;
use alloy::primitives::Bytes;
use protocol_versions::ProtocolVersion;

fn code(b: u8) -> AcceptCode {
    match b {
        0 => AcceptCode::Accepted,
        1 => AcceptCode::Declined,
        2 => AcceptCode::AlreadyStored,
        3 => AcceptCode::NotWithinRadius,
        4 => AcceptCode::RateLimited,
        5 => AcceptCode::InboundTransferInProgress,
        _ => AcceptCode::Unspecified,
    }
}
/// A list of `N` answers.
fn list<const N: usize>(codes: &[u8; N]) -> AcceptCodeList {
    let mut l = match AcceptCodeList::new(N) {
        Ok(l) => l,
        Err(_) => panic!("up to 64 answers fit"),
    };
    assert!(l.len() == N, "one answer for each item");
    let mut i = 0;
    while i < N {
        assert!(l[i] == AcceptCode::Declined, "nothing is accepted at first");
        l.set(i, code(codes[i]));
        i += 1;
    }
    let mut i = 0;
    while i < N {
        assert!(l[i] == code(codes[i]), "an answer stays at its position");
        i += 1;
    }
    l
}
fn numbers() {
    let b = nd::u8();
    let c = AcceptCode::from(b);
    assert!(c == code(b), "the meaning of a code");
    let back = u8::from(c);
    assert!(if b < 6 { back == b } else { back >= 6 }, "the number of a code");
    nd::reach!(b == 5, "the last code");
    nd::reach!(b == 200, "an unknown code");
}
fn codes<const N: usize>() -> [u8; N] {
    let c = nd::arr();
    let mut i = 0;
    while i < N {
        nd::assume(c[i] < 7);
        i += 1;
    }
    c
}
fn declined<const N: usize>() {
    let c: [u8; N] = codes();
    let l = list(&c);
    let mut any = false;
    let mut i = 0;
    while i < N {
        any |= c[i] == 0;
        i += 1;
    }
    assert!(l.all_declined() == !any, "declined exactly if no item is accepted");
    nd::reach!(!any, "all declined");
    std::mem::forget(l);
}
/// Both sides use the byte form.
fn bytes<const N: usize>(version: ProtocolVersion) {
    let c: [u8; N] = codes();
    let l = list(&c);
    let e = match l.encode(version) {
        Ok(e) => e,
        Err(_) => panic!("answers are encoded"),
    };
    assert!(e.len() == N, "one byte for each answer");
    let d = match AcceptCodeList::decode(version, e) {
        Ok(d) => d,
        Err(_) => panic!("encoded answers are decoded"),
    };
    assert!(d.len() == N, "as many answers");
    let mut i = 0;
    while i < N {
        assert!(d[i] == code(c[i]), "the same answers in the same order");
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget((l, d));
}
/// Both sides use the bit list.
fn bits<const N: usize>() {
    let c: [u8; N] = codes();
    let l = list(&c);
    let e = match l.encode(ProtocolVersion::V0) {
        Ok(e) => e,
        Err(_) => panic!("answers are encoded"),
    };
    assert!(e.len() == N / 8 + 1, "one bit for each answer and the end mark");
    let mut i = 0;
    while i < N {
        assert!((e[i / 8] >> (i % 8) & 1 == 1) == (c[i] == 0), "the bit of an item says whether it is accepted");
        i += 1;
    }
    assert!(e[N / 8] >> (N % 8) == 1, "the end mark");
    let d = match AcceptCodeList::decode(ProtocolVersion::V0, e) {
        Ok(d) => d,
        Err(_) => panic!("encoded answers are decoded"),
    };
    assert!(d.len() == N, "as many answers");
    let mut i = 0;
    while i < N {
        assert!((d[i] == AcceptCode::Accepted) == (c[i] == 0), "the same items are accepted");
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget((l, d));
}
/// Any message of `N` bytes in the byte form.
fn any_bytes<const N: usize>(version: ProtocolVersion) {
    let m: [u8; N] = nd::arr();
    match AcceptCodeList::decode(version, Bytes::from(m.to_vec())) {
        Ok(d) => {
            assert!(N <= 64, "more than 64 answers are refused");
            assert!(d.len() == N, "one answer for each byte");
            let mut i = 0;
            while i < N {
                assert!(d[i] == code(m[i]), "the answer of a byte");
                i += 1;
            }
            std::mem::forget(d);
        }
        Err(e) => {
            assert!(N > 64, "up to 64 answers are understood");
            std::mem::forget(e);
        }
    }
    nd::reach!(true, "reached");
}
/// Any message of `N` bytes in the bit list form, whose last byte may be given.
fn any_bits<const N: usize>(last: Option<u8>) {
    let mut m = [0u8; N];
    let mut i = 0;
    while i < N {
        m[i] = match last {
            Some(l) if i == N - 1 => l,
            _ => nd::u8(),
        };
        i += 1;
    }
    let got = AcceptCodeList::decode(ProtocolVersion::V0, Bytes::from(m.to_vec()));
    let last = if N == 0 { 0 } else { m[N - 1] };
    // highest bit set
    let len = if last == 0 { usize::MAX } else { (N - 1) * 8 + 7 - last.leading_zeros() as usize };
    match &got {
        Ok(d) => {
            assert!(len <= 64, "no end mark or more than 64 answers");
            assert!(d.len() == len, "the answers end at the end mark");
            let mut i = 0;
            while i < N * 8 {
                if i < len {
                    assert!((d[i] == AcceptCode::Accepted) == (m[i / 8] >> (i % 8) & 1 == 1), "the answer of a bit");
                }
                i += 1;
            }
        }
        Err(_) => assert!(len > 64, "a proper bit list is understood"),
    }
    nd::reach!(true, "reached");
    std::mem::forget(got);
}
fn too_many() {
    assert!(AcceptCodeList::new(65).is_err(), "not more than 64 answers");
    nd::reach!(true, "reached");
}

nd::harnesses! { leak
    [2] fn number_of_a_code() { numbers() }
    [6] fn declined_0() { declined::<0>() }
    [6] fn declined_3() { declined::<3>() }
    [8] fn bytes_v1_0() { bytes::<0>(ProtocolVersion::V1) }
    [8] fn bytes_v1_3() { bytes::<3>(ProtocolVersion::V1) }
    [8] fn bytes_v2_2() { bytes::<2>(ProtocolVersion::V2) }
    [8] fn bytes_newer_2() { bytes::<2>(ProtocolVersion::UnspecifiedVersion(9)) }
    [12] fn bits_0() { bits::<0>() }
    [12] fn bits_1() { bits::<1>() }
    [12] fn bits_3() { bits::<3>() }
    [12] fn bits_8() { bits::<8>() }
    [12] fn bits_9() { bits::<9>() }
    [8] fn any_bytes_0() { any_bytes::<0>(ProtocolVersion::V1) }
    [8] fn any_bytes_3() { any_bytes::<3>(ProtocolVersion::V1) }
    [68] fn any_bytes_65() { any_bytes::<65>(ProtocolVersion::V2) }
    [12] fn any_bits_0() { any_bits::<0>(None) }
    [12] fn any_bits_1() { any_bits::<1>(None) }
    [18] fn any_bits_2_unmarked() { any_bits::<2>(Some(0)) }
    [18] fn any_bits_2_full() { any_bits::<2>(Some(1)) }
    [18] fn any_bits_2_more() { any_bits::<2>(Some(0xa5)) }
    [74] fn any_bits_9_full() { any_bits::<9>(Some(1)) }
    [74] fn any_bits_9_over() { any_bits::<9>(Some(2)) }
    [74] fn any_bits_9_unmarked() { any_bits::<9>(Some(0)) }
    [90] fn any_bits_10_over() { any_bits::<10>(Some(1)) }
    [68] fn new_65() { too_many() }
}
