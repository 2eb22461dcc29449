//! C37: lists of records that fit into a packet.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/portalnet/src/overlay/service/utils.rs"]
pub mod utils;

use ssz::Encode;
use utils::pop_while_ssz_bytes_len_gt;

/// A record of variable encoded length.
#[derive(Clone, Copy, PartialEq)]
struct Record {
    id: u32,
    len: usize,
}
impl Encode for Record {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let mut i = 0;
        while i < self.len {
            buf.push(i as u8);
            i += 1;
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        self.len
    }
}
/// A record of four bytes.
#[derive(Clone, Copy, PartialEq)]
struct Fixed(u32);
impl Encode for Fixed {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        4
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0.to_le_bytes())
    }
    fn ssz_bytes_len(&self) -> usize {
        4
    }
}
/// Length of the encoding of the first `n` records: an offset of four bytes and the record for each.
fn size<const N: usize>(r: &[Record; N], n: usize) -> usize {
    let mut s = 0;
    let mut i = 0;
    while i < n {
        s += 4 + r[i].len;
        i += 1;
    }
    s
}
fn records<const N: usize>(max_len: u16) {
    let mut r = [Record { id: 0, len: 0 }; N];
    let mut v = Vec::with_capacity(8);
    let mut i = 0;
    while i < N {
        let len = nd::u16();
        nd::assume(len <= max_len);
        r[i] = Record { id: nd::u32(), len: len as usize };
        v.push(r[i]);
        i += 1;
    }
    let max = nd::u16() as usize;
    pop_while_ssz_bytes_len_gt(&mut v, max);
    let n = v.len();
    assert!(n <= N, "not more than before");
    let mut i = 0;
    while i < n {
        assert!(v[i] == r[i], "a prefix in the original order");
        i += 1;
    }
    assert!(size(&r, n) <= max, "it fits");
    assert!(n == N || size(&r, n + 1) > max, "nothing that fits is left out");
    nd::reach!(n == N, "all fit");
    nd::reach!(n < N || N == 0, "some are left out");
    std::mem::forget(v);
}
fn fixed<const N: usize>() {
    let mut r = [0u32; N];
    let mut v = Vec::with_capacity(8);
    let mut i = 0;
    while i < N {
        r[i] = nd::u32();
        v.push(Fixed(r[i]));
        i += 1;
    }
    let max = nd::u64() as usize;
    pop_while_ssz_bytes_len_gt(&mut v, max);
    let want = if max / 4 < N { max / 4 } else { N };
    assert!(v.len() == want, "the longest prefix that fits");
    let mut i = 0;
    while i < want {
        assert!(v[i].0 == r[i], "in the original order");
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget(v);
}

nd::harnesses! {
    [4] fn none() { records::<0>(0) }
    [5] fn one() { records::<1>(1000) }
    [6] fn two() { records::<2>(1000) }
    [7] fn three() { records::<3>(1000) }
    [9] fn five() { records::<5>(300) }
    [8] fn fixed_four() { fixed::<4>() }
}
