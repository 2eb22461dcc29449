//! C13: framing of content items.
extern crate vstd as std;
#[path = "/repo/crates/portalnet/src/utils/portal_wire.rs"]
pub mod portal_wire;

use alloy::primitives::Bytes;
use portal_wire::*;

/// The items of a payload as (start, end), or `None` if it is malformed.
fn split(p: &[u8]) -> Option<([(usize, usize); 16], usize)> {
    let mut out = [(0, 0); 16];
    let mut n = 0;
    let mut at = 0;
    while at < p.len() {
        let (mut len, mut shift) = (0u128, 0);
        loop {
            if at >= p.len() {
                return None;
            }
            let b = p[at];
            at += 1;
            len |= ((b & 0x7f) as u128) << shift;
            shift += 7;
            if b & 0x80 == 0 {
                break;
            }
        }
        if len > (p.len() - at) as u128 {
            return None;
        }
        out[n] = (at, at + len as usize);
        n += 1;
        at += len as usize;
    }
    Some((out, n))
}
fn same(item: &Bytes, p: &[u8], part: (usize, usize)) -> bool {
    if item.len() != part.1 - part.0 {
        return false;
    }
    let mut i = 0;
    while i < item.len() {
        if item[i] != p[part.0 + i] {
            return false;
        }
        i += 1;
    }
    true
}
/// Payloads with some bytes given and the rest (`_`) free.
macro_rules! byte {
    (_) => { nd::u8() };
    ($b:literal) => { $b };
}
macro_rules! shaped {
    ($($b:tt)*) => {{
        let p = [$(byte!($b)),*];
        check(&p);
    }};
}
fn check(p: &[u8]) {
    let want = split(p);
    let got = decode_content_payload(Bytes::from(p.to_vec()));
    match (&got, &want) {
        (Ok(g), Some((parts, n))) => {
            assert!(g.len() == *n, "all items are found");
            let mut i = 0;
            while i < *n {
                assert!(same(&g[i], p, parts[i]), "an item is the bytes behind its length");
                i += 1;
            }
        }
        (Err(_), None) => {}
        (Ok(_), None) => panic!("a malformed payload is refused"),
        (Err(_), Some(_)) => panic!("a well-formed payload is accepted"),
    }
    nd::reach!(true, "decoded");
    std::mem::forget(got);
}
macro_rules! any_single {
    ($n:literal) => {{
        let p: [u8; $n] = nd::arr();
        let want = split(&p);
        let got = decode_single_content_payload(Bytes::from(p.to_vec()));
        match (&got, &want) {
            (Ok(g), Some((parts, 1))) => assert!(same(g, &p, parts[0]), "the item is the bytes behind its length"),
            (Err(_), Some((_, 1))) => panic!("a payload of one item is accepted"),
            (Ok(_), _) => panic!("anything but exactly one item is refused"),
            (Err(_), _) => {}
        }
        nd::reach!(got.is_err(), "refused");
        std::mem::forget(got);
    }};
}
/// Items of the given lengths survive being framed.
macro_rules! items {
    ($($n:literal)*) => {{
        let items = [$(Bytes::from(nd::arr::<$n>().to_vec())),*];
        let payload = encode_content_payload(&items);
        let payload = match payload {
            Ok(p) => p,
            Err(_) => panic!("items are framed"),
        };
        let total = 0 $(+ $n + if $n < 128 { 1 } else { 2 })*;
        assert!(payload.len() == total, "each item behind the shortest form of its length");
        let got = decode_content_payload(Bytes::from(payload.freeze()));
        match &got {
            Ok(g) => {
                assert!(g.len() == items.len(), "as many items");
                let mut i = 0;
                while i < items.len() {
                    assert!(g[i] == items[i], "the same items in the same order");
                    i += 1;
                }
            }
            Err(_) => panic!("what was framed can be split"),
        }
        std::mem::forget(got);
        nd::reach!(true, "reached");
    }};
}

/// The framed form of a long item (contents concrete, length in two bytes).
fn long() {
    let items = [Bytes::from(vec![7u8; 130])];
    match encode_content_payload(&items) {
        Ok(p) => assert!(p.len() == 132 && p[0] == 0x82 && p[1] == 1 && p[2] == 7 && p[131] == 7, "a length of two bytes"),
        Err(_) => panic!("items are framed"),
    }
    nd::reach!(true, "reached");
}

nd::harnesses! { roomy
    [4] fn payload_none() { shaped!() }
    [4] fn payload_any() { shaped!(_) }
    [6] fn payload_0_any() { shaped!(0 _) }
    [6] fn payload_1_any() { shaped!(1 _) }
    [6] fn payload_1x_any() { shaped!(1 _ _) }
    [7] fn payload_2x_any() { shaped!(2 _ _ _) }
    [7] fn payload_0_1x_any() { shaped!(0 1 _ _) }
    [7] fn payload_1x_1x_0() { shaped!(1 _ 1 _ 0) }
    [7] fn payload_1x_2x() { shaped!(1 _ 2 _) }
    [7] fn payload_3x_short() { shaped!(3 _ _) }
    [7] fn payload_long_zero() { shaped!(0x80 0 1 _) }
    [8] fn payload_long_two() { shaped!(0x82 0x80 0 _ _) }
    [8] fn payload_unfinished() { shaped!(1 _ 0x81) }
    [9] fn payload_huge() { shaped!(0xff 0xff 0xff 0xff 0x0f _ _) }
    [9] fn payload_beyond_32_bits() { shaped!(0x80 0x80 0x80 0x80 0x10 _ _) }
    [9] fn payload_wraps_32_bits() { shaped!(0x81 0x80 0x80 0x80 0x10 _) }
    [13] fn payload_wraps_64_bits() { shaped!(0x81 0x80 0x80 0x80 0x80 0x80 0x80 0x80 0x80 0x02 _) }
    [134] fn long_item() { long() }
    [4] fn single_0() { any_single!(0) }
    [4] fn single_1() { any_single!(1) }
    [5] fn single_2() { any_single!(2) }
    [6] fn single_3() { any_single!(3) }
    [7] fn single_4() { any_single!(4) }
    [9] fn items_none() { 
        let got = encode_content_payload(&[]);
        assert!(matches!(&got, Ok(p) if p.is_empty()), "no items, no bytes");
        nd::reach!(true, "reached");
    }
    [9] fn items_0() { items!(0) }
    [9] fn items_3() { items!(3) }
    [9] fn items_0_0() { items!(0 0) }
    [9] fn items_2_0_1() { items!(2 0 1) }
    [9] fn items_0_1_0() { items!(0 1 0) }
}
