//! C11: content ids.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
include!("../../c10/src/frame.rs");

/// The id is the digest of the encoding and of nothing else.
fn hashed<K: OverlayContentKey>((key, e): (K, Expect)) {
    let digest: [u8; 32] = nd::arr();
    sha2::answer(digest);
    let id = key.content_id();
    let mut i = 0;
    while i < 32 {
        assert!(id[i] == digest[i], "the id is the digest");
        i += 1;
    }
    let (what, times) = sha2::last();
    assert!(times == 1 && e.is(what), "the encoding of the key is what is hashed");
    nd::reach!(true, "reached");
    std::mem::forget(key);
}
fn bit(id: &[u8; 32], i: usize) -> bool {
    id[i / 8] >> (7 - i % 8) & 1 == 1
}
fn key(number: u64, receipts: bool) -> HistoryContentKey {
    if receipts {
        HistoryContentKey::new_block_receipts(number)
    } else {
        HistoryContentKey::new_block_body(number)
    }
}
/// The specified arrangement: the 16 low bits of the number, the others from low to high, the kind.
fn by_number() {
    let n = nd::u64();
    let receipts = nd::bool();
    let id = key(n, receipts).content_id();
    let mut i = 0;
    while i < 64 {
        let from = if i < 16 { 15 - i } else { i };
        assert!(bit(&id, i) == (n >> from & 1 == 1), "place of a bit of the number");
        i += 1;
    }
    let mut i = 8;
    while i < 31 {
        assert!(id[i] == 0, "nothing between number and kind");
        i += 1;
    }
    assert!(id[31] == receipts as u8, "the kind");
    nd::reach!(true, "reached");
}
fn distinct() {
    let (a, b) = (nd::u64(), nd::u64());
    let (r, s) = (nd::bool(), nd::bool());
    nd::assume(a != b || r != s);
    let (x, y) = (key(a, r).content_id(), key(b, s).content_id());
    let mut same = true;
    let mut i = 0;
    while i < 32 {
        same &= x[i] == y[i];
        i += 1;
    }
    assert!(!same, "different content has different ids");
    nd::reach!(a == b, "the same block");
}
/// Blocks in a row are apart by 2^240 in the id space.
fn spread() {
    let n = nd::u64();
    nd::assume(n % 65536 != 65535);
    let r = nd::bool();
    let (x, y) = (key(n, r).content_id(), key(n + 1, r).content_id());
    let top = |id: &[u8; 32]| (id[0] as u32) << 8 | id[1] as u32;
    assert!(top(&y) == top(&x) + 1, "one step further");
    let mut i = 2;
    while i < 32 {
        assert!(x[i] == y[i], "and nothing else");
        i += 1;
    }
    nd::reach!(true, "reached");
}

nd::harnesses! { roomy
    [70] fn numbers() { by_number() }
    [40] fn different() { distinct() }
    [40] fn in_a_row() { spread() }
    [40] fn legacy_0() { hashed(legacy(0)) }
    [40] fn legacy_1() { hashed(legacy(1)) }
    [40] fn legacy_2() { hashed(legacy(2)) }
    [40] fn legacy_3() { hashed(legacy(3)) }
    [40] fn legacy_4() { hashed(legacy(4)) }
    [40] fn legacy_5() { hashed(legacy(5)) }
    [40] fn beacon_10() { hashed(beacon(0x10)) }
    [40] fn beacon_11() { hashed(beacon(0x11)) }
    [40] fn beacon_12() { hashed(beacon(0x12)) }
    [40] fn beacon_13() { hashed(beacon(0x13)) }
    [40] fn beacon_14() { hashed(beacon(0x14)) }
    [75] fn state_20() { hashed(state::<4>(0x20)) }
    [105] fn state_22() { hashed(state::<0>(0x22)) }
}
