//! C23: packed nibble paths.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/ethportal-api/src/types/state_trie/nibbles.rs"]
pub mod nibbles;

use nibbles::Nibbles;
use ssz::{Decode, Encode};

fn path<const N: usize>(bound: u8) -> [u8; N] {
    let p: [u8; N] = nd::arr();
    let mut i = 0;
    while i < N {
        nd::assume(p[i] <= bound);
        i += 1;
    }
    p
}
fn survives<const N: usize>() {
    let p = path::<N>(15);
    anyhow::expect_ok();
    let n = match Nibbles::try_from_unpacked_nibbles(&p) {
        Ok(n) => n,
        Err(_) => panic!("a path of nibbles is accepted"),
    };
    assert!(n.nibbles().len() == N, "the length of the path");
    let mut i = 0;
    while i < N {
        assert!(n.nibbles()[i] == p[i], "the nibbles of the path");
        i += 1;
    }
    let e = n.as_ssz_bytes();
    assert!(e.len() == 1 + N / 2 && n.ssz_bytes_len() == e.len(), "the length of the encoding");
    assert!(if N % 2 == 0 { e[0] == 0 } else { e[0] == 0x10 | p[0] }, "flag and first nibble");
    let mut i = 0;
    while i < N / 2 {
        let k = N % 2 + 2 * i;
        assert!(e[1 + i] == p[k] << 4 | p[k + 1], "two nibbles in a byte");
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget((n, e));
}
/// Values above 15 are refused, wherever they are.
fn values<const N: usize>() {
    let p = path::<N>(255);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        ok &= p[i] < 16;
        i += 1;
    }
    let got = Nibbles::try_from_unpacked_nibbles(&p);
    assert!(got.is_ok() == ok, "exactly nibbles are accepted");
    nd::reach!(!ok, "refused");
    std::mem::forget(got);
}
fn too_long<const N: usize>() {
    let p = path::<N>(255);
    let got = Nibbles::try_from_unpacked_nibbles(&p);
    assert!(got.is_err(), "not more than 64 nibbles");
    nd::reach!(true, "reached");
    std::mem::forget(got);
}
/// Every byte string is refused or is the one encoding of the path it decodes to. (That the encoding of
/// every path is this one is checked above.)
fn canonical<const N: usize>(first: Option<u8>) {
    let mut b: [u8; N] = nd::arr();
    if let Some(f) = first {
        b[0] = f;
    }
    let well_formed = N > 0 && (b[0] == 0 || b[0] >> 4 == 1) && (N <= 32 || N == 33 && b[0] == 0);
    match Nibbles::from_ssz_bytes(&b) {
        Ok(n) => {
            assert!(well_formed, "malformed bytes are refused");
            let odd = (b[0] >> 4) as usize;
            assert!(n.nibbles().len() == 2 * (N - 1) + odd, "the length of the path");
            if odd == 1 {
                assert!(n.nibbles()[0] == b[0] & 15, "the first nibble");
            }
            let mut i = 1;
            while i < N {
                let k = 2 * (i - 1) + odd;
                assert!(n.nibbles()[k] == b[i] >> 4 && n.nibbles()[k + 1] == b[i] & 15, "the nibbles of a byte");
                i += 1;
            }
            std::mem::forget(n);
        }
        Err(e) => {
            assert!(!well_formed, "well-formed bytes are understood");
            std::mem::forget(e);
        }
    }
    nd::reach!(first.is_some() || well_formed, "reached");
}
fn unpack<const N: usize>() {
    let b: [u8; N] = nd::arr();
    let u = Nibbles::unpack_nibbles(&b);
    assert!(u.len() == 2 * N, "two nibbles for each byte");
    let mut i = 0;
    while i < N {
        assert!(u[2 * i] == b[i] >> 4 && u[2 * i + 1] == b[i] & 15, "high nibble first");
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget(u);
}
fn refused_empty() {
    assert!(Nibbles::from_ssz_bytes(&[]).is_err(), "no bytes are no path");
    nd::reach!(true, "reached");
}

nd::harnesses! { roomy
    [6] fn survives_0() { survives::<0>() }
    [6] fn survives_1() { survives::<1>() }
    [8] fn survives_4() { survives::<4>() }
    [9] fn survives_5() { survives::<5>() }
    [68] fn survives_63() { survives::<63>() }
    [68] fn survives_64() { survives::<64>() }
    [8] fn values_1() { values::<1>() }
    [12] fn values_7() { values::<7>() }
    [68] fn values_64() { values::<64>() }
    [70] fn too_long_65() { too_long::<65>() }
    [4] fn empty() { refused_empty() }
    [8] fn canonical_1() { canonical::<1>(None) }
    [8] fn canonical_2() { canonical::<2>(None) }
    [12] fn canonical_3() { canonical::<3>(None) }
    [12] fn canonical_5_even() { canonical::<5>(Some(0)) }
    [12] fn canonical_5_odd() { canonical::<5>(Some(0x1c)) }
    [70] fn canonical_33_even() { canonical::<33>(Some(0)) }
    [70] fn canonical_32_odd() { canonical::<32>(Some(0x1c)) }
    [70] fn canonical_33_odd() { canonical::<33>(Some(0x1c)) }
    [70] fn canonical_34() { canonical::<34>(Some(0)) }
    [6] fn unpack_3() { unpack::<3>() }
}
