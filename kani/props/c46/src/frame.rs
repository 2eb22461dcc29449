// The routing table: the real code over a flat table.
/// Ids of 8 bits in place of 256, as the last byte.
pub mod dv {
    pub mod enr {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct NodeId(pub u8);
        impl NodeId {
            pub fn raw(&self) -> [u8; 32] {
                let mut r = [0; 32];
                r[31] = self.0;
                r
            }
        }
        impl std::fmt::Display for NodeId {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("id")
            }
        }
    }
    use enr::NodeId;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct Enr {
        pub id: u8,
        pub seq: u8,
    }
    impl Enr {
        pub fn node_id(&self) -> NodeId {
            NodeId(self.id)
        }
        pub fn seq(&self) -> u64 {
            self.seq as u64
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ConnectionState {
        Connected,
        Disconnected,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ConnectionDirection {
        Incoming,
        Outgoing,
    }
    pub use kbucket::Key;
    pub mod kbucket {
        use super::*;
        use crate::types::node::Node;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct NodeStatus {
            pub state: ConnectionState,
            pub direction: ConnectionDirection,
        }
        impl NodeStatus {
            pub fn is_connected(&self) -> bool {
                match self.state {
                    ConnectionState::Connected => true,
                    ConnectionState::Disconnected => false,
                }
            }
            pub fn is_incoming(&self) -> bool {
                match self.direction {
                    ConnectionDirection::Outgoing => false,
                    ConnectionDirection::Incoming => true,
                }
            }
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Distance(pub u8);
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct Key<T> {
            preimage: T,
            hash: u8,
        }
        impl From<NodeId> for Key<NodeId> {
            fn from(n: NodeId) -> Self {
                Key { preimage: n, hash: n.0 }
            }
        }
        impl<T> Key<T> {
            pub fn preimage(&self) -> &T {
                &self.preimage
            }
            pub fn distance<U>(&self, o: &Key<U>) -> Distance {
                Distance(self.hash ^ o.hash)
            }
            pub fn log2_distance<U>(&self, o: &Key<U>) -> Option<u64> {
                let d = self.hash ^ o.hash;
                if d == 0 {
                    None
                } else {
                    Some(8 - d.leading_zeros() as u64)
                }
            }
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum FailureReason {
            TooManyIncoming,
            BucketFilter,
            TableFilter,
            KeyNonExistent,
            BucketFull,
            InvalidSelfUpdate,
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum InsertResult<T> {
            Inserted,
            Pending { disconnected: Key<T> },
            StatusUpdated { promoted_to_connected: bool },
            ValueUpdated,
            Updated { promoted_to_connected: bool },
            UpdatedPending,
            Failed(FailureReason),
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum UpdateResult {
            Updated,
            UpdatedAndPromoted,
            UpdatedPending,
            Failed(FailureReason),
            NotModified,
        }
        #[derive(Clone, Debug)]
        pub struct AppliedPending<K, V> {
            pub inserted: Key<K>,
            pub evicted: Option<(Key<K>, V)>,
        }
        pub use crate::ROOM;
        pub struct Slot {
            pub key: Key<NodeId>,
            pub value: Node,
            pub status: NodeStatus,
            pub pending: bool,
        }
        const NONE: Option<Slot> = None;
        /// A table that has room for all nodes; what the real one would refuse is up to the harness.
        /// Outside of the lock, where the model checker keeps track of it, and marked: Kani lets a static share
        /// storage with constants of the same content.
        pub struct Table {
            pub _mark: u64,
            pub local: u8,
            pub refuse: bool,
            pub slots: [Option<Slot>; ROOM],
        }
        pub static mut TABLE: Table = Table { _mark: 0x5afe_c460_0000_0001, local: 0, refuse: false, slots: [NONE; ROOM] };
        pub fn t() -> &'static mut Table {
            unsafe { &mut *std::ptr::addr_of_mut!(TABLE) }
        }
        pub struct KBucketsTable<K, V>(pub std::marker::PhantomData<(K, V)>);
        pub struct NodeRefView<'a, K, V> {
            pub key: &'a Key<K>,
            pub value: &'a V,
        }
        pub struct EntryRefView<'a, K, V> {
            pub node: NodeRefView<'a, K, V>,
            pub status: NodeStatus,
        }
        pub struct Held<'a, V>(&'a mut V);
        impl<'a, V> Held<'a, V> {
            pub fn value(&mut self) -> &mut V {
                self.0
            }
        }
        pub struct Seen<'a, V>(&'a V);
        impl<'a, V> Seen<'a, V> {
            pub fn value(&self) -> &V {
                self.0
            }
        }
        pub enum Entry<'a, K, V> {
            Present(Seen<'a, V>, NodeStatus),
            Pending(Held<'a, V>, NodeStatus),
            Absent(std::marker::PhantomData<K>),
            SelfEntry,
        }
        pub struct Iter<'a, V> {
            next: usize,
            at: Option<u64>,
            _v: std::marker::PhantomData<&'a V>,
        }
        impl<'a> Iterator for Iter<'a, Node> {
            type Item = EntryRefView<'a, NodeId, Node>;
            fn next(&mut self) -> Option<Self::Item> {
                let mut i = 0;
                while i < ROOM {
                    if i >= self.next {
                        if let Some(s) = &t().slots[i] {
                            let here = match self.at {
                                None => true,
                                Some(d) => s.key.log2_distance(&Key::from(NodeId(t().local))) == Some(d),
                            };
                            if !s.pending && here {
                                self.next = i + 1;
                                return Some(EntryRefView { node: NodeRefView { key: &s.key, value: &s.value }, status: s.status });
                            }
                        }
                    }
                    i += 1;
                }
                self.next = ROOM;
                None
            }
        }
        pub struct Bucket;
        pub struct BucketNode<K> {
            pub key: Key<K>,
        }
        impl Bucket {
            pub fn iter(&self) -> std::option::IntoIter<BucketNode<NodeId>> {
                None.into_iter()
            }
        }
        impl KBucketsTable<NodeId, Node> {
            fn at(&self, k: &Key<NodeId>) -> Option<usize> {
                let mut i = 0;
                while i < ROOM {
                    if let Some(s) = &t().slots[i] {
                        if s.key.preimage.0 == k.preimage.0 {
                            return Some(i);
                        }
                    }
                    i += 1;
                }
                None
            }
            pub fn entry<'a>(&'a mut self, k: &Key<NodeId>) -> Entry<'a, NodeId, Node> {
                if k.preimage.0 == t().local {
                    return Entry::SelfEntry;
                }
                match self.at(k) {
                    None => Entry::Absent(std::marker::PhantomData),
                    Some(i) => {
                        let s = t().slots[i].as_mut().unwrap();
                        if s.pending {
                            Entry::Pending(Held(&mut s.value), s.status)
                        } else {
                            Entry::Present(Seen(&s.value), s.status)
                        }
                    }
                }
            }
            pub fn remove(&mut self, k: &Key<NodeId>) -> bool {
                match self.at(k) {
                    None => false,
                    Some(i) => {
                        t().slots[i] = None;
                        true
                    }
                }
            }
            pub fn update_node(&mut self, k: &Key<NodeId>, value: Node, state: Option<ConnectionState>) -> UpdateResult {
                match self.at(k) {
                    None => UpdateResult::Failed(FailureReason::KeyNonExistent),
                    Some(i) => {
                        if t().refuse {
                            t().slots[i] = None;
                            return UpdateResult::Failed(FailureReason::TableFilter);
                        }
                        let s = t().slots[i].as_mut().unwrap();
                        s.value = value;
                        if let Some(state) = state {
                            s.status.state = state;
                        }
                        UpdateResult::Updated
                    }
                }
            }
            pub fn update_node_status(&mut self, k: &Key<NodeId>, state: ConnectionState, direction: Option<ConnectionDirection>) -> UpdateResult {
                match self.at(k) {
                    None => UpdateResult::Failed(FailureReason::KeyNonExistent),
                    Some(i) => {
                        let s = t().slots[i].as_mut().unwrap();
                        s.status.state = state;
                        if let Some(d) = direction {
                            s.status.direction = d;
                        }
                        UpdateResult::Updated
                    }
                }
            }
            pub fn insert_or_update(&mut self, k: &Key<NodeId>, value: Node, status: NodeStatus) -> InsertResult<NodeId> {
                if k.preimage.0 == t().local {
                    return InsertResult::Failed(FailureReason::InvalidSelfUpdate);
                }
                if t().refuse {
                    return InsertResult::Failed(FailureReason::BucketFull);
                }
                if let Some(i) = self.at(k) {
                    t().slots[i] = Some(Slot { key: *k, value, status, pending: false });
                    return InsertResult::ValueUpdated;
                }
                let mut i = 0;
                while i < ROOM {
                    if t().slots[i].is_none() {
                        t().slots[i] = Some(Slot { key: *k, value, status, pending: false });
                        return InsertResult::Inserted;
                    }
                    i += 1;
                }
                InsertResult::Failed(FailureReason::BucketFull)
            }
            pub fn iter(&mut self) -> Iter<'_, Node> {
                Iter { next: 0, at: None, _v: std::marker::PhantomData }
            }
            /// One distance at a time.
            pub fn nodes_by_distances(&mut self, d: &[u64], max: usize) -> std::iter::Take<Iter<'_, Node>> {
                assert!(d.len() == 1);
                Iter { next: 0, at: Some(d[0]), _v: std::marker::PhantomData }.take(max)
            }
            pub fn buckets_iter(&self) -> std::option::IntoIter<Bucket> {
                None.into_iter()
            }
            pub fn take_applied_pending(&mut self) -> Option<AppliedPending<NodeId, Node>> {
                None
            }
        }
    }
}
pub struct Bucket {
    pub node_ids: Vec<dv::enr::NodeId>,
}
pub struct KBucketsTable {
    pub buckets: Vec<Bucket>,
}
pub trait OverlayContentKey {
    fn to_bytes(&self) -> u8 {
        0
    }
}
pub struct AnyKey;
impl OverlayContentKey for AnyKey {}
pub mod types {
    pub mod distance {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Distance(pub u8);
        impl Distance {
            pub const MAX: Self = Distance(255);
            pub const ZERO: Self = Distance(0);
        }
        impl std::fmt::Display for Distance {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("distance")
            }
        }
        pub trait Metric {
            fn distance(x: &[u8; 32], y: &[u8; 32]) -> Distance;
        }
        pub struct XorMetric;
        impl Metric for XorMetric {
            fn distance(x: &[u8; 32], y: &[u8; 32]) -> Distance {
                Distance(x[31] ^ y[31])
            }
        }
    }
    pub mod enr {
        pub use crate::dv::Enr;
    }
    pub mod ping_extensions {
        pub mod extension_types {
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct PingExtensionType(pub u16);
        }
    }
    #[path = "/repo/crates/portalnet/src/types/node.rs"]
    pub mod node;
    pub mod kbucket {
        use crate::dv as discv5;
        include!("/repo/crates/portalnet/src/types/kbucket.rs");
    }
}
pub mod gossip {
    use crate::dv as discv5;
    include!("/repo/crates/portalnet/src/gossip/neighborhood.rs");
}
use dv::{
    enr::NodeId,
    kbucket::{Key, NodeStatus, Slot},
    ConnectionDirection::Outgoing,
    ConnectionState::{Connected, Disconnected},
    Enr,
};
use types::{
    distance::{Distance, XorMetric},
    kbucket::{Entry, SharedKBucketsTable},
    node::Node,
};

/// What a harness puts into the table: id, sequence number, radius, whether connected.
#[derive(Clone, Copy)]
pub struct Peer(u8, u8, u8, bool);
fn slot(p: &Peer) -> Slot {
    Slot {
        key: Key::from(NodeId(p.0)),
        value: Node::new(Enr { id: p.0, seq: p.1 }, Distance(p.2)),
        status: NodeStatus { state: if p.3 { Connected } else { Disconnected }, direction: Outgoing },
        pending: false,
    }
}
fn table<const N: usize>(local: u8, peers: &[Peer; N], refuse: bool) -> SharedKBucketsTable {
    let t = dv::kbucket::t();
    t.local = local;
    t.refuse = refuse;
    let mut i = 0;
    while i < ROOM {
        let new = if i < N { Some(slot(&peers[i])) } else { None };
        std::mem::forget(std::mem::replace(&mut t.slots[i], new));
        i += 1;
    }
    SharedKBucketsTable::new(dv::kbucket::KBucketsTable(std::marker::PhantomData))
}
