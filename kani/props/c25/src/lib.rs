//! C25: slots, times and the numbers derived from them.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
extern crate self as ethportal_api;
#[path = "/repo/crates/ethportal-api/src/types/network.rs"]
pub mod network;
#[path = "/repo/crates/ethportal-api/src/types/network_spec.rs"]
pub mod network_spec;
#[path = "/repo/crates/ethportal-api/src/types/protocol_versions.rs"]
pub mod protocol_versions;
pub mod consensus {
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    pub mod constants;
    #[path = "/repo/crates/ethportal-api/src/types/consensus/historical_summaries.rs"]
    pub mod historical_summaries;
    /// The parts of these types the file with the period needs to compile.
    pub mod header {
        #[derive(Debug, Clone, Default, PartialEq)]
        pub struct BeaconBlockHeader {
            pub state_root: alloy_primitives::B256,
        }
    }
    pub mod signature {
        pub struct BlsSignature {
            pub signature: [u8; 96],
        }
    }
}
mod bls {
    pub struct PublicKey;
    pub struct AggregateSignature;
    impl AggregateSignature {
        pub fn from_bytes(_: &[u8]) -> Result<Self, ()> {
            Err(())
        }
        pub fn fast_aggregate_verify(&self, _: &[u8], _: &[&PublicKey]) -> bool {
            false
        }
    }
}
mod val {
    pub mod merkle {
        pub mod proof {
            pub fn merkle_root_from_branch(l: alloy_primitives::B256, _: &[alloy_primitives::B256], _: usize, _: usize) -> alloy_primitives::B256 {
                l
            }
        }
    }
}
pub mod utils {
    use alloy_primitives::{FixedBytes, B256};
    pub fn compute_fork_data_root(_: FixedBytes<4>, r: B256) -> B256 {
        r
    }
}
mod light {
    use crate::{bls as milagro_bls, val as trin_validation};
    include!("/repo/crates/light-client/src/consensus/utils.rs");
}

use alloy_hardforks::EthereumChainHardforks;
use bimap::BiHashMap;
use consensus::{constants::*, historical_summaries::historical_summary_index};
use network::Network;
use network_spec::{NetworkSpec, MAINNET, SEPOLIA};
use protocol_versions::*;
use std::time::{Duration, SystemTime};

const CAPELLA_SLOT: u64 = 6_209_536;

fn spec(genesis: u64) -> std::mem::ManuallyDrop<NetworkSpec> {
    let mut v = Vec::with_capacity(2);
    v.push(ProtocolVersion::V0);
    match NetworkSpec::new(BiHashMap::new(), Network::Mainnet, ProtocolVersionList::new(v), EthereumChainHardforks::mainnet(), genesis) {
        Ok(s) => std::mem::ManuallyDrop::new(s),
        Err(_) => panic!("a specification"),
    }
}
nd::harnesses! {
    [12] fn timestamp_of_slot() { slot_time(0, 1 << 32) }
    [12] fn slot_beyond_32_bits() { slot_time(1 << 32, MAX_SLOT) }
    [12] fn now_in_slots() { now() }
    [12] fn slot_and_back() { back() }
    [12] fn mainnet_times() { genesis(&MAINNET, 1_606_824_023) }
    [12] fn sepolia_times() { genesis(&SEPOLIA, 1_655_733_600) }
    [12, z3] fn summary_number() { summary() }
    [12, z3] fn period_number() { period() }
}
const MAX_SLOT: u64 = 1 << 40;

fn slot_time(from: u64, to: u64) {
    let genesis = nd::u32() as u64;
    let slot = nd::u64();
    nd::assume(from <= slot && slot < to);
    let s = spec(genesis);
    let t = s.slot_to_timestamp_u64(slot);
    nd::reach!(true, "reached");
    assert!(t == genesis + 12 * slot, "the time of a slot is genesis plus twelve seconds per slot");
    let t = s.slot_to_timestamp(slot);
    assert!(t == SystemTime::UNIX_EPOCH + Duration::from_secs(genesis + 12 * slot), "also as a point in time");
}
fn now() {
    let genesis = nd::u32() as u64;
    let since = nd::u64();
    nd::assume(since < 12 * MAX_SLOT);
    let nanos = nd::u32();
    nd::assume(nanos < 1_000_000_000);
    let s = spec(genesis);
    std::clock::set_wall(Duration::new(genesis + since, nanos));
    let n = s.current_slot();
    nd::reach!(true, "reached");
    assert!(n <= since && n * 12 <= since && since - n * 12 < 12, "the current slot is the number of whole slots since genesis");
}
fn back() {
    let genesis = nd::u32() as u64;
    let slot = nd::u64();
    nd::assume(slot < MAX_SLOT);
    let late = nd::u8();
    nd::assume(late < 12);
    let s = spec(genesis);
    std::clock::set_wall(Duration::from_secs(genesis + slot * 12 + late as u64));
    nd::reach!(true, "reached");
    assert!(s.current_slot() == slot, "a slot lasts twelve seconds");
}
/// That slots count from genesis is shown for all genesis times above.
fn genesis(s: &NetworkSpec, at: u64) {
    nd::reach!(true, "reached");
    assert!(s.slot_to_timestamp_u64(0) == at, "slots count from the genesis of the network");
}
fn summary() {
    let slot = nd::u64();
    match historical_summary_index(slot) {
        None => assert!(slot < CAPELLA_SLOT, "every slot since Capella has a summary"),
        Some(i) => {
            let i = i as u64;
            assert!(slot >= CAPELLA_SLOT, "no slot before Capella has a summary");
            let from = slot - CAPELLA_SLOT;
            assert!(i <= from && i * 8192 <= from && from - i * 8192 < 8192, "a summary covers 8192 slots");
        }
    }
    nd::must_reach!(slot == CAPELLA_SLOT, "the first slot of Capella");
    assert!(SLOTS_PER_EPOCH == 32 && SLOTS_PER_HISTORICAL_ROOT == 8192 && CAPELLA_FORK_EPOCH == 194_048, "mainnet constants");
}
fn period() {
    let slot = nd::u64();
    let p = light::calc_sync_period(slot);
    nd::reach!(true, "reached");
    assert!(p <= slot && p <= u64::MAX / 8192 && p * 8192 <= slot && slot - p * 8192 < 8192, "a sync committee period has 8192 slots");
}
