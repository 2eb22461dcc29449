//! C20: when and how much a store prunes.
extern crate self as ethportal_api;
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    #[path = "/repo/crates/ethportal-api/src/types/network.rs"]
    pub mod network;
}
pub mod error {
    #[derive(Debug)]
    pub enum ContentStoreError {
        Database(String),
        InvalidData { message: String },
    }
}
pub mod utils {
    use r2d2::Pool;
    use r2d2_sqlite::SqliteConnectionManager;
    pub fn setup_sql(_: &std::path::Path) -> Result<Pool<SqliteConnectionManager>, crate::error::ContentStoreError> {
        unreachable!()
    }
}
#[path = "/repo/crates/storage/src/config.rs"]
pub mod config;
pub use config::PortalStorageConfig;
/// Metrics: the last figures that were reported.
pub mod metrics {
    pub mod storage {
        use std::cell::Cell;
        #[derive(Clone, Default)]
        pub struct StorageMetricsReporter {
            pub entries: Cell<u64>,
            pub bytes: Cell<f64>,
        }
        impl StorageMetricsReporter {
            pub fn report_entry_count(&self, n: u64) {
                self.entries.set(n)
            }
            pub fn report_content_data_storage_bytes(&self, b: f64) {
                self.bytes.set(b)
            }
        }
    }
}
pub mod versioned {
    #[derive(Clone, Debug, Eq, PartialEq)]
    pub enum ContentType {
        State,
        LegacyHistoryEternal,
        LegacyHistoryEphemeral,
    }
    impl std::fmt::Display for ContentType {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("content")
        }
    }
    pub mod usage_stats {
        use crate::metrics as trin_metrics;
        include!("/repo/crates/storage/src/versioned/usage_stats.rs");
    }
    pub mod id_indexed_v1 {
        #[path = "/repo/crates/storage/src/versioned/id_indexed_v1/config.rs"]
        pub mod config;
        #[path = "/repo/crates/storage/src/versioned/id_indexed_v1/pruning_strategy.rs"]
        pub mod pruning_strategy;
        pub use config::IdIndexedV1StoreConfig;
        pub use pruning_strategy::{PruningConfig, PruningStrategy};
    }
}

use std::time::Duration;
use versioned::id_indexed_v1::*;
use versioned::usage_stats::UsageStats;

fn strategy(capacity: u64, pruning: PruningConfig) -> PruningStrategy {
    let pool = match r2d2::Pool::new(r2d2_sqlite::SqliteConnectionManager::memory()) {
        Ok(p) => p,
        Err(_) => unreachable!(),
    };
    let config = PortalStorageConfig {
        storage_capacity_bytes: capacity,
        node_id: discv5::enr::NodeId::new(&[7; 32]),
        node_data_dir: std::path::PathBuf::new(),
        sql_connection_pool: pool,
        max_radius: types::distance::Distance::MAX,
    };
    let mut config = IdIndexedV1StoreConfig::new(versioned::ContentType::State, types::network::Subnetwork::State, config);
    config.pruning_config = pruning;
    PruningStrategy::new(config)
}
fn range() -> std::ops::Range<Duration> {
    Duration::from_millis(100)..Duration::from_millis(300)
}
/// The most entries that a step may delete: what is deleted of a store far above its capacity.
fn most(s: &PruningStrategy) -> u64 {
    s.get_pruning_count(&UsageStats::new(1 << 40, 0, 1))
}
/// Sizes of a step. `quarters` is the target as part of the capacity.
fn sized(entries: u64, capacity: u64, quarters: u64) {
    let s = strategy(capacity, PruningConfig::new(quarters as f64 / 4.0, 0.25, range()));
    let (total, extra) = (nd::u16() as u64, nd::below(4) as u64);
    let stats = UsageStats::new(entries, total, extra);
    let usage = total + entries * extra;
    let max = PruningStrategy::STARTING_MAX_PRUNING_COUNT;
    assert!(s.should_prune(&stats) == (usage > capacity), "pruning starts exactly above the capacity");
    // twice the target, which may be half a byte off
    let target = quarters * capacity / 2;
    let above = s.is_usage_above_target_capacity(&stats);
    assert!(if 2 * usage > target + 1 { above } else { 2 * usage + 1 > target || !above }, "above the target");
    let count = s.get_pruning_count(&stats);
    if usage <= capacity {
        assert!(count == 0, "nothing is pruned up to the capacity");
    } else if capacity == 0 {
        assert!(count == entries, "without capacity nothing is kept");
    } else {
        assert!(count <= entries && count <= max, "no more than the limit, and than there is");
        assert!(count > 0 || entries == 0, "something is deleted if there is something");
        let left = entries - count;
        if count < max {
            assert!(2 * left * usage <= (target + 1) * entries, "what is left is expected not to be above the target");
        }
        assert!(entries == 0 || 2 * (left + 1) * usage + entries >= target * entries, "no more is deleted than what it takes to get to the target");
    }
    nd::reach!(count > 0 || entries == 0, "something to prune");
    std::mem::forget(s);
}
/// As configured in the node.
fn by_default(entries: u64, capacity: u64) {
    let s = strategy(capacity, PruningConfig::default());
    let stats = UsageStats::new(entries, nd::u16() as u64, 2);
    let usage = stats.total_entry_size_bytes() + entries * 2;
    let count = s.get_pruning_count(&stats);
    assert!((count > 0) == (usage > capacity), "something is deleted exactly above the capacity");
    assert!(count <= entries, "no more than there is");
    assert!((entries - count) * usage <= capacity * entries, "what is left is expected to fit");
    assert!(count == 0 || 2 * (entries - count + 1) * usage >= capacity * entries, "not even half of the capacity is given up");
    nd::reach!(count > 1, "something to prune");
    std::mem::forget(s);
}
fn limits(steps: usize, change: f64, quarters: u64, first: usize) {
    let mut s = strategy(1, PruningConfig::new(0.5, change, range()));
    let mut was = most(&s);
    assert!(was == PruningStrategy::STARTING_MAX_PRUNING_COUNT, "the limit at first");
    let mut i = 0;
    while i < first {
        s.observe_pruning_duration(Duration::from_millis(301));
        i += 1;
    }
    was = most(&s);
    let mut i = 0;
    while i < steps {
        let nanos = nd::u32() as u64;
        s.observe_pruning_duration(Duration::from_nanos(nanos));
        let is = most(&s);
        let (fast, slow) = (nanos < 100_000_000, nanos > 300_000_000);
        nd::reach!(fast, "fast");
        assert!(is >= 1, "at least one entry can be deleted");
        if fast {
            assert!(is >= was && 4 * is <= (4 + quarters) * was + 2, "fast pruning raises the limit by no more than the fraction");
            assert!(4 * is + 2 >= (4 + quarters) * was, "fast pruning raises the limit");
        } else if slow {
            assert!(is <= was && (4 * is + 2 >= (4 - quarters) * was), "slow pruning lowers the limit by no more than the fraction");
            assert!(is == 1 || 4 * is <= (4 - quarters) * was + 2, "slow pruning lowers the limit");
        } else if nanos < 300_000_000 {
            assert!(is == was, "pruning in good time leaves the limit");
        }
        was = is;
        i += 1;
    }
    std::mem::forget(s);
}
/// What is stored and deleted counts, with the room each entry takes.
fn counted() {
    let (entries, total, extra) = (nd::u32() as u64, nd::u32() as u64, nd::u8() as u64);
    let mut u = UsageStats::new(entries, total, extra);
    let (stored, deleted, many, size) = (nd::u16() as u64, nd::u16() as u64, nd::u16() as u64, nd::u32() as u64);
    u.on_store(stored);
    assert!(u == UsageStats::new(entries + 1, total + stored, extra), "a stored entry counts");
    nd::assume(total + stored >= deleted + size && entries >= many);
    u.on_delete(deleted);
    u.on_multi_delete(many, size);
    let (e, t) = (entries - many, total + stored - deleted - size);
    assert!(u.entry_count() == e && u.total_entry_size_bytes() == t, "deleted entries count no longer");
    assert!(u.estimated_disk_usage_bytes() == t + e * extra, "every entry takes its size and the extra room");
    let limit = nd::u64();
    assert!(u.is_estimated_disk_usage_above(limit) == (t + e * extra > limit), "usage above a size");
    let m = metrics::storage::StorageMetricsReporter::default();
    u.report_metrics(&m);
    assert!(m.entries.get() == e, "the count is reported");
    nd::reach!(e == 0, "all deleted");
}

nd::harnesses! {
    [8] fn none() { sized(0, 1000, 3) }
    [8] fn without_capacity() { sized(5, 0, 3) }
    [8] fn one_entry() { sized(1, 1000, 2) }
    [8] fn three_entries() { sized(3, 77, 3) }
    [8] fn eleven_entries() { sized(11, 1000, 3) }
    [8] fn many_entries() { sized(256, 5001, 3) }
    [8] fn to_the_capacity() { sized(7, 640, 4) }
    [8] fn to_nothing() { sized(9, 640, 0) }
    [8] fn with_defaults() { by_default(40, 3001) }
    [8] fn limit_at_first() { limits(3, 0.25, 1, 0) }
    [8] fn limit_at_one() { limits(2, 0.75, 3, 5) }
    [8] fn usage_counted() { counted() }
}
