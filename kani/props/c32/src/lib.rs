//! C32: fork names and digests.
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
pub mod utils {
    #[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
    pub mod bytes;
}
pub mod types {
    pub mod consensus {
        #[path = "/repo/crates/ethportal-api/src/types/consensus/fork.rs"]
        pub mod fork;
    }
}
pub use types::consensus;
extern crate self as ethportal_api;

use std::str::FromStr;
use types::consensus::fork::ForkName;

const ALL: [ForkName; 4] = [ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra];
const DIGEST: [[u8; 4]; 4] =
    [[0x4a, 0x26, 0xc5, 0x8b], [0xbb, 0xa4, 0xda, 0x96], [0x6a, 0x95, 0xa1, 0xa9], [0xad, 0x53, 0x2c, 0xeb]];
/// Accepted texts with the fork they stand for.
const NAMES: [(&str, usize); 5] = [("bellatrix", 0), ("capella", 1), ("deneb", 2), ("electra", 3), ("merge", 0)];
const TITLE: [&str; 4] = ["Bellatrix", "Capella", "Deneb", "Electra"];

fn same_ignoring_case(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i].to_ascii_lowercase() != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn expected(b: &[u8]) -> Option<ForkName> {
    let mut i = 0;
    while i < NAMES.len() {
        if same_ignoring_case(b, NAMES[i].0.as_bytes()) {
            return Some(ALL[NAMES[i].1]);
        }
        i += 1;
    }
    None
}
fn parse(text: &str) -> bool {
    let want = expected(text.as_bytes());
    let got = ForkName::from_str(text);
    match (&got, want) {
        (Ok(g), Some(w)) => assert!(*g == w, "the fork that the name stands for"),
        (Err(_), None) => {}
        (Ok(_), None) => panic!("an unknown name is refused"),
        (Err(_), Some(_)) => panic!("a known name is accepted in any letter case"),
    }
    std::mem::forget(got);
    want.is_some()
}
macro_rules! any_text {
    ($n:literal) => {{
        let b: [u8; $n] = nd::arr();
        nd::assume(nd::stubs::valid_utf8(&b));
        let known = parse(unsafe { std::str::from_utf8_unchecked(&b) });
        nd::reach!(!known, "unknown name");
    }};
}
macro_rules! near {
    ($i:literal, $n:literal) => {{
        let mut b = [0u8; $n];
        let name = NAMES[$i].0.as_bytes();
        let at = nd::usize();
        let c = nd::u8();
        let upper = nd::u32();
        nd::assume(c < 128);
        let mut i = 0;
        while i < $n {
            b[i] = if i == at { c } else if upper >> i & 1 == 1 { name[i].to_ascii_uppercase() } else { name[i] };
            i += 1;
        }
        let known = parse(unsafe { std::str::from_utf8_unchecked(&b) });
        nd::reach!(known && upper == !0, "recognised in upper case");
        nd::reach!(!known, "unknown name");
    }};
}
fn shown(k: usize) {
    let f = ALL[k];
    let s = f.to_string();
    assert!(s.as_bytes() == NAMES[k].0.as_bytes(), "prints as its lower-case name");
    assert!(ForkName::from_str(&s) == Ok(f), "parses back from what it prints");
    let t: String = f.into();
    assert!(t.as_bytes() == NAMES[k].0.as_bytes(), "converts to the same text");
    assert!(ForkName::try_from(t) == Ok(f), "converts back from text");
    assert!(f.as_capitalized_str() == TITLE[k], "capitalised name");
    nd::reach!(true, "reached");
}

/// A known name with one extra ASCII character in front or behind.
macro_rules! longer {
    ($i:literal, $n:literal) => {{
        let mut b = [0u8; $n];
        let name = NAMES[$i].0.as_bytes();
        let front = nd::bool();
        let c = nd::u8();
        nd::assume(c < 128);
        let mut i = 0;
        while i < $n {
            b[i] = if front {
                if i == 0 { c } else { name[i - 1] }
            } else if i == $n - 1 { c } else { name[i] };
            i += 1;
        }
        let k = parse(unsafe { std::str::from_utf8_unchecked(&b) });
        nd::reach!(!k, "not recognised");
    }};
}

nd::harnesses! {
    [13] fn longer_bellatrix() { longer!(0, 10) }
    [12] fn longer_capella() { longer!(1, 8) }
    [12] fn longer_deneb() { longer!(2, 6) }
    [12] fn longer_electra() { longer!(3, 8) }
    [12] fn longer_merge() { longer!(4, 6) }
    [40] fn digests() {
        let d: [u8; 4] = nd::arr();
        let got = ForkName::try_from(d);
        let mut k = 0;
        while k < 4 {
            if d == DIGEST[k] {
                assert!(got == Ok(ALL[k]), "a mainnet digest names its fork");
            }
            k += 1;
        }
        if let Ok(f) = &got {
            assert!(f.as_fork_digest() == d, "only the digest of a fork is accepted");
        }
        nd::reach!(got.is_ok(), "known digest");
        nd::reach!(got.is_err(), "unknown digest");
        std::mem::forget(got);
    }
    [8] fn digest_of_fork() {
        let k = nd::usize();
        nd::assume(k < 4);
        assert!(ALL[k].as_fork_digest() == DIGEST[k], "digest of mainnet");
        assert!(matches!(ForkName::try_from(DIGEST[k]), Ok(f) if f == ALL[k]), "digest names the fork");
        nd::reach!(k == 3, "last fork");
    }
    [9] fn text_0() { any_text!(0) }
    [9] fn text_1() { any_text!(1) }
    [9] fn text_4() { any_text!(4) }
    [9] fn text_5() { any_text!(5) }
    [9] fn text_6() { any_text!(6) }
    [14] fn near_bellatrix() { near!(0, 9) }
    [12] fn near_capella() { near!(1, 7) }
    [12] fn near_deneb() { near!(2, 5) }
    [12] fn near_electra() { near!(3, 7) }
    [12] fn near_merge() { near!(4, 5) }
    [16] fn shown_bellatrix() { shown(0) }
    [16] fn shown_capella() { shown(1) }
    [16] fn shown_deneb() { shown(2) }
    [16] fn shown_electra() { shown(3) }
}
