//! C29: block range to epochs.
extern crate self as ethportal_api;
extern crate vstd as std;

pub mod types {
    pub mod consensus {
        #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
        pub mod constants;
    }
}
pub use types::consensus;
#[path = "/repo/bin/portal-bridge/src/types/range.rs"]
pub mod range;

use range::block_range_to_epochs;

const E: u64 = 8192;

fn check(start: u64, end: u64, most: u64) {
    let got = block_range_to_epochs(start, end);
    let first = start / E;
    let count = end / E - first + 1;
    assert!(got.len() as u64 == count, "exactly the epochs that contain a block of the range");
    let mut k = 0;
    while k < most {
        if k < count {
            let e = first + k;
            let lo = e * E;
            let hi = lo + (E - 1);
            match got.get(&e) {
                None => panic!("an epoch of the range is missing"),
                Some(None) => assert!(start <= lo && hi <= end, "marked complete only when wholly inside the range"),
                Some(Some((a, b))) => {
                    assert!(start > lo || hi > end, "an epoch wholly inside the range is marked complete");
                    assert!(*a == start.max(lo) && *b == end.min(hi), "first and last block of the overlap");
                }
            }
        }
        k += 1;
    }
}

nd::harnesses! {
    [9] fn any_position() {
        let start = nd::u64();
        let span = nd::u64();
        nd::assume(span <= 2 * E + 10 && start <= u64::MAX - span);
        check(start, start + span, 4);
        nd::reach!(start + span == u64::MAX, "last block number reached");
        nd::reach!(span > 2 * E, "several epochs reached");
    }
    [10] fn many_epochs() {
        let start = nd::u64();
        let span = nd::u64();
        nd::assume(start < 4 * E && span <= 6 * E);
        check(start, start + span, 8);
        nd::reach!(span == 6 * E, "long range reached");
    }
}
