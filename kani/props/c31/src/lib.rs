//! C31: random ids with a number of leading zero bits.
#[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
pub mod bytes;

use bytes::random_32byte_array;

fn leading_zeros(b: &[u8; 32]) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < 32 {
        if b[i] != 0 {
            return n + b[i].leading_zeros();
        }
        n += 8;
        i += 1;
    }
    n
}

/// Ids whose first byte that is not zero is byte `$i`: everything behind it can take any value.
macro_rules! behind {
    ($i:literal) => {{
        let k = nd::u8();
        nd::assume(k / 8 == $i);
        let id = random_32byte_array(k);
        let (mut ones, mut zeros, mut mixed) = (true, true, true);
        let mut j = $i + 1;
        while j < 32 {
            ones = ones && id[j] == 0xFF;
            zeros = zeros && id[j] == 0;
            mixed = mixed && id[j] == 0x5A ^ (j as u8);
            j += 1;
        }
        nd::must_reach!(ones, "MUST: everything behind the first set bit all ones");
        nd::must_reach!(zeros, "MUST: everything behind the first set bit all zeros");
        nd::must_reach!(mixed, "MUST: everything behind the first set bit mixed");
        nd::must_reach!(id[31] == 0xFF || $i == 31, "MUST: last byte all ones");
        nd::must_reach!(id[31] == 0 || $i == 31, "MUST: last byte all zeros");
    }};
}
nd::harnesses! {
    [34] fn behind_0() { behind!(0) }
    [34] fn behind_1() { behind!(1) }
    [34] fn behind_2() { behind!(2) }
    [34] fn behind_3() { behind!(3) }
    [34] fn behind_7() { behind!(7) }
    [34] fn behind_15() { behind!(15) }
    [34] fn behind_16() { behind!(16) }
    [34] fn behind_24() { behind!(24) }
    [34] fn behind_30() { behind!(30) }
    [34] fn behind_31() { behind!(31) }
    [34] fn first_byte_middle() {
        let k = nd::u8();
        let id = random_32byte_array(k);
        let first = id[(k / 8) as usize];
        nd::must_reach!(k % 8 == 0 && first == 129, "MUST: first byte 129");
        nd::must_reach!(k % 8 == 0 && first == 254, "MUST: first byte 254");
        nd::must_reach!(k % 8 == 0 && first == 0b1010_1010, "MUST: first byte 170");
        nd::must_reach!(k % 8 == 1 && first == 65, "MUST: first byte 65");
        nd::must_reach!(k % 8 == 1 && first == 126, "MUST: first byte 126");
        nd::must_reach!(k % 8 == 2 && first == 43, "MUST: first byte 43");
        nd::must_reach!(k % 8 == 3 && first == 21, "MUST: first byte 21");
        nd::must_reach!(k % 8 == 4 && first == 10, "MUST: first byte 10");
        nd::must_reach!(k % 8 == 5 && first == 5, "MUST: first byte 5");
        nd::must_reach!(k % 8 == 5 && first == 6, "MUST: first byte 6");
        nd::must_reach!(k % 8 == 7 && first == 1, "MUST: first byte 1");
    }
    [34] fn exact_count() {
        let k = nd::u8();
        let id = random_32byte_array(k);
        assert!(leading_zeros(&id) == k as u32, "exactly the requested number of leading zero bits");
        nd::reach!(k == 255, "largest request");
        nd::reach!(k == 0, "smallest request");
    }
    [34] fn first_byte_is_free() {
        let k = nd::u8();
        let id = random_32byte_array(k);
        let first = id[(k / 8) as usize];
        let top = 255u8 >> (k % 8);
        let low = 128u8 >> (k % 8);
        nd::must_reach!(k % 8 == 0 && first == top, "MUST: largest first byte, no zero bits");
        nd::must_reach!(k % 8 == 0 && first == low, "MUST: smallest first byte, no zero bits");
        nd::must_reach!(k % 8 == 1 && first == top, "MUST: largest first byte, 1 zero bit");
        nd::must_reach!(k % 8 == 1 && first == low, "MUST: smallest first byte, 1 zero bit");
        nd::must_reach!(k % 8 == 2 && first == top, "MUST: largest first byte, 2 zero bits");
        nd::must_reach!(k % 8 == 3 && first == top, "MUST: largest first byte, 3 zero bits");
        nd::must_reach!(k % 8 == 4 && first == top, "MUST: largest first byte, 4 zero bits");
        nd::must_reach!(k % 8 == 5 && first == top, "MUST: largest first byte, 5 zero bits");
        nd::must_reach!(k % 8 == 6 && first == top, "MUST: largest first byte, 6 zero bits");
        nd::must_reach!(k % 8 == 2 && first == low, "MUST: smallest first byte, 2 zero bits");
        nd::must_reach!(k % 8 == 6 && first == low, "MUST: smallest first byte, 6 zero bits");
    }
    [34] fn tail_is_free() {
        let k = nd::u8();
        nd::assume(k < 248);
        let id = random_32byte_array(k);
        let i = (k / 8) as usize;
        nd::must_reach!(id[31] == 255, "MUST: last byte all ones");
        nd::must_reach!(id[31] == 0, "MUST: last byte all zeros");
        nd::must_reach!(id[i + 1] == 255, "MUST: byte after the first set one all ones");
        nd::must_reach!(id[i + 1] == 0, "MUST: byte after the first set one all zeros");
        nd::must_reach!(k < 8 && id[16] == 255 && id[17] == 0, "MUST: middle bytes free");
    }
}
