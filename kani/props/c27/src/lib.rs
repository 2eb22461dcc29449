//! C27: split of the storage capacity.
extern crate self as ethportal_api;
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    #[path = "/repo/crates/ethportal-api/src/types/network.rs"]
    pub mod network;
}
pub mod error {
    #[derive(Debug)]
    pub enum ContentStoreError {
        Database(String),
        InvalidData { message: String },
    }
}
pub mod utils {
    use r2d2::Pool;
    use r2d2_sqlite::SqliteConnectionManager;
    pub fn setup_sql(_: &std::path::Path) -> Result<Pool<SqliteConnectionManager>, crate::error::ContentStoreError> {
        match Pool::new(SqliteConnectionManager::memory()) {
            Ok(p) => Ok(p),
            Err(_) => unreachable!(),
        }
    }
}
#[path = "/repo/crates/storage/src/config.rs"]
pub mod config;

use config::*;
use discv5::enr::NodeId;
use types::distance::Distance;
use types::network::Subnetwork;

const MB: u64 = 1_000_000;

fn factory(c: StorageCapacityConfig) -> PortalStorageConfigFactory {
    match PortalStorageConfigFactory::new(c, NodeId::new(&[7; 32]), std::path::PathBuf::new()) {
        Ok(f) => f,
        Err(_) => panic!("a factory is made"),
    }
}
fn any_network() -> Subnetwork {
    match nd::u8() {
        0 => Subnetwork::Beacon,
        1 => Subnetwork::LegacyHistory,
        2 => Subnetwork::State,
        3 => Subnetwork::History,
        4 => Subnetwork::CanonicalIndices,
        5 => Subnetwork::VerkleState,
        6 => Subnetwork::TransactionGossip,
        _ => Subnetwork::Utp,
    }
}
fn created(f: &PortalStorageConfigFactory, n: Subnetwork) -> Option<u64> {
    let radius = Distance::from(alloy::primitives::U256::from_limbs([nd::u64(), nd::u64(), nd::u64(), nd::u64()]));
    match f.create(&n, radius) {
        Ok(c) => {
            assert!(c.max_radius == radius, "the radius is handed on");
            assert!(c.node_id == NodeId::new(&[7; 32]), "the node id is handed on");
            let b = c.storage_capacity_bytes;
            std::mem::forget(c);
            Some(b)
        }
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
const ALL: [Subnetwork; 3] = [Subnetwork::Beacon, Subnetwork::LegacyHistory, Subnetwork::State];
/// The total is shared by history and state; beacon needs none of it.
fn combined(beacon: bool, history: bool, state: bool, reverse: bool) {
    let on = [beacon, history, state];
    let mut subnetworks = Vec::with_capacity(4);
    let mut i = 0;
    while i < 3 {
        let k = if reverse { 2 - i } else { i };
        if on[k] {
            subnetworks.push(ALL[k]);
        }
        i += 1;
    }
    let total_mb = nd::u32();
    let f = factory(StorageCapacityConfig::Combined { total_mb, subnetworks });
    let total = total_mb as u64 * MB;
    let n = any_network();
    let sharing = history as u64 + state as u64;
    let want = match n {
        Subnetwork::Beacon if beacon => Some(0),
        Subnetwork::LegacyHistory if history => Some(total / sharing),
        Subnetwork::State if state => Some(total / sharing),
        _ => None,
    };
    assert!(created(&f, n) == want, "the share of a network");
    nd::reach!(n == Subnetwork::Utp, "a network that is not enabled");
    std::mem::forget(f);
}
fn specific() {
    let mb = |b: bool, v: u32| if b { Some(v) } else { None };
    let (b, h, s) = (mb(nd::bool(), nd::u32()), mb(nd::bool(), nd::u32()), mb(nd::bool(), nd::u32()));
    let f = factory(StorageCapacityConfig::Specific { beacon_mb: b, legacy_history_mb: h, state_mb: s });
    let n = any_network();
    let want = match n {
        Subnetwork::Beacon => b,
        Subnetwork::LegacyHistory => h,
        Subnetwork::State => s,
        _ => None,
    };
    assert!(created(&f, n) == want.map(|m| m as u64 * MB), "the capacity as given");
    nd::reach!(n == Subnetwork::State && s.is_some(), "given");
    nd::reach!(n == Subnetwork::Beacon && b.is_none(), "not given");
    std::mem::forget(f);
}

nd::harnesses! {
    [34] fn nothing_enabled() { combined(false, false, false, false) }
    [34] fn beacon() { combined(true, false, false, false) }
    [34] fn history() { combined(false, true, false, false) }
    [34] fn state() { combined(false, false, true, false) }
    [34] fn beacon_history() { combined(true, true, false, false) }
    [34] fn beacon_state() { combined(true, false, true, true) }
    [34] fn history_state() { combined(false, true, true, false) }
    [34] fn all() { combined(true, true, true, false) }
    [34] fn all_reversed() { combined(true, true, true, true) }
    [34] fn per_network() { specific() }
}
