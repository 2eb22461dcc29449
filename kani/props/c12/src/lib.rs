//! C12: the XOR metric.
#[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
pub mod distance;

use alloy::primitives::U256;
use distance::{Distance, Metric, XorMetric};
use ssz::{Decode, Encode};

fn xor(x: &[u8; 32], y: &[u8; 32]) -> [u8; 32] {
    let mut z = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        z[i] = x[i] ^ y[i];
        i += 1;
    }
    z
}
/// Number of bits up to and including the highest set one of a big-endian number.
fn bits(z: &[u8; 32]) -> usize {
    let mut i = 0;
    while i < 32 {
        if z[i] != 0 {
            return (31 - i) * 8 + (8 - z[i].leading_zeros() as usize);
        }
        i += 1;
    }
    0
}
/// -1, 0 or 1 as the first big-endian number is smaller than, equal to or greater than the second.
fn order(a: &[u8; 32], b: &[u8; 32]) -> i8 {
    let mut i = 0;
    while i < 32 {
        if a[i] != b[i] {
            return if a[i] < b[i] { -1 } else { 1 };
        }
        i += 1;
    }
    0
}

nd::harnesses! {
    [40] fn value() {
        let (x, y) = (nd::b32(), nd::b32());
        let d = XorMetric::distance(&x, &y);
        let z = xor(&x, &y);
        assert!(d.big_endian() == z, "the distance is the exclusive or of the ids");
        assert!((d == Distance::ZERO) == (x == y), "zero exactly for equal ids");
        assert!(XorMetric::distance(&y, &x) == d, "symmetric");
        nd::reach!(x == y, "equal ids");
        nd::reach!(x != y, "different ids");
    }
    [40] fn logarithm() {
        let (x, y) = (nd::b32(), nd::b32());
        let d = XorMetric::distance(&x, &y);
        let want = bits(&xor(&x, &y));
        match d.log2() {
            None => assert!(want == 0, "no logarithm only for equal ids"),
            Some(l) => assert!(l == want && want != 0, "the logarithm is the index of the highest differing bit"),
        }
        nd::reach!(want == 0, "equal ids");
        nd::reach!(want == 1, "lowest bit");
        nd::reach!(want == 256, "highest bit");
    }
    [40] fn leading_bytes() {
        let (x, y) = (nd::b32(), nd::b32());
        let d = XorMetric::distance(&x, &y);
        let z = xor(&x, &y);
        let want = (z[0] as u32) << 24 | (z[1] as u32) << 16 | (z[2] as u32) << 8 | z[3] as u32;
        assert!(d.big_endian_u32() == want, "the 32-bit view is the four leading bytes");
        nd::reach!(true, "reached");
    }
    [40] fn ordering() {
        let (a, b) = (nd::b32(), nd::b32());
        let zero = [0u8; 32];
        let (p, q) = (XorMetric::distance(&a, &zero), XorMetric::distance(&zero, &b));
        let o = order(&a, &b);
        assert!((p < q) == (o < 0) && (p == q) == (o == 0) && (p > q) == (o > 0), "distances are ordered as numbers");
        assert!((p <= q) == (o <= 0) && (p >= q) == (o >= 0), "distances are ordered as numbers");
        assert!(p >= Distance::ZERO && p <= Distance::MAX, "between the smallest and the greatest distance");
        assert!((p == Distance::MAX) == (a == [0xFF; 32]), "the greatest distance");
        nd::reach!(o < 0, "smaller");
        nd::reach!(o == 0, "equal");
    }
    [40] fn unidirectional() {
        // for each id and distance there is exactly one other id at that distance
        let (x, y, y2) = (nd::b32(), nd::b32(), nd::b32());
        let (d, d2) = (XorMetric::distance(&x, &y), XorMetric::distance(&x, &y2));
        assert!((d == d2) == (y == y2), "one id at each distance");
        nd::reach!(y != y2, "different ids");
    }
    [40] fn from_number() {
        let z = nd::b32();
        let n = U256::from_be_bytes(z);
        let d = Distance::from(n);
        assert!(d.big_endian() == z, "made from a number");
        assert!(*d == n, "seen as a number");
        let enc = d.as_ssz_bytes();
        assert!(enc.len() == 32, "encoded length");
        let mut i = 0;
        while i < 32 {
            assert!(enc[i] == z[31 - i], "encoded as little-endian number");
            i += 1;
        }
        let back = Distance::from_ssz_bytes(&enc);
        assert!(back == Ok(d), "decodes to itself");
        std::mem::forget(back);
        nd::reach!(true, "reached");
    }
}
