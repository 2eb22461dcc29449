//! The parts of `discv5` that the code under test uses: node ids, node records without signatures, and
//! routing keys.
pub mod enr {
    use alloy_rlp::{Decodable, Encodable};
    use std::marker::PhantomData;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct NodeId {
        raw: [u8; 32],
    }
    impl NodeId {
        pub const fn new(raw: &[u8; 32]) -> Self {
            NodeId { raw: *raw }
        }
        pub fn parse(b: &[u8]) -> Result<Self, &'static str> {
            if b.len() > 32 {
                return Err("Input too large");
            }
            let mut raw = [0u8; 32];
            let mut i = 0;
            while i < b.len() {
                raw[32 - b.len() + i] = b[i];
                i += 1;
            }
            Ok(NodeId { raw })
        }
        pub fn random() -> Self {
            NodeId { raw: nd::b32() }
        }
        pub const fn raw(&self) -> [u8; 32] {
            self.raw
        }
    }
    impl From<[u8; 32]> for NodeId {
        fn from(raw: [u8; 32]) -> Self {
            NodeId { raw }
        }
    }
    impl From<&Enr<CombinedKey>> for NodeId {
        fn from(e: &Enr<CombinedKey>) -> Self {
            e.node_id()
        }
    }
    impl PartialEq<[u8; 32]> for NodeId {
        fn eq(&self, o: &[u8; 32]) -> bool {
            self.raw == *o
        }
    }
    impl AsRef<[u8]> for NodeId {
        fn as_ref(&self) -> &[u8] {
            &self.raw
        }
    }
    impl std::fmt::Display for NodeId {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("id")
        }
    }
    impl std::fmt::Debug for NodeId {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("id")
        }
    }
    impl serde::Serialize for NodeId {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(&self.raw)
        }
    }

    pub struct CombinedKey;
    pub trait EnrKey {}
    impl EnrKey for CombinedKey {}

    /// A record: the node's id, its sequence number, at most one further entry, and the length of what
    /// else is in the encoding.
    pub struct Enr<K> {
        id: NodeId,
        seq: u64,
        entry: Option<(&'static str, &'static [u8])>,
        _k: PhantomData<K>,
    }
    impl<K> Enr<K> {
        /// For harnesses.
        pub fn model(id: [u8; 32], seq: u64, entry: Option<(&'static str, &'static [u8])>) -> Self {
            Enr { id: NodeId { raw: id }, seq, entry, _k: PhantomData }
        }
        pub fn node_id(&self) -> NodeId {
            self.id
        }
        pub fn seq(&self) -> u64 {
            self.seq
        }
        pub fn get_raw_rlp(&self, key: impl AsRef<[u8]>) -> Option<&[u8]> {
            match self.entry {
                Some((k, v)) if same(k.as_bytes(), key.as_ref()) => Some(v),
                _ => None,
            }
        }
        pub fn get_decodable<T: Decodable>(&self, key: impl AsRef<[u8]>) -> Option<Result<T, alloy_rlp::Error>> {
            let mut raw = self.get_raw_rlp(key)?;
            Some(T::decode(&mut raw))
        }
        pub fn to_base64(&self) -> String {
            String::from("enr:")
        }
    }
    fn same(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < a.len() {
            if a[i] != b[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    impl<K> Clone for Enr<K> {
        fn clone(&self) -> Self {
            Enr { id: self.id, seq: self.seq, entry: self.entry, _k: PhantomData }
        }
    }
    impl<K> PartialEq for Enr<K> {
        fn eq(&self, o: &Self) -> bool {
            self.id == o.id && self.seq == o.seq
        }
    }
    impl<K> Eq for Enr<K> {}
    impl<K> std::hash::Hash for Enr<K> {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.id.hash(h)
        }
    }
    impl<K> std::fmt::Debug for Enr<K> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("enr")
        }
    }
    impl<K> std::fmt::Display for Enr<K> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("enr")
        }
    }
    impl<K> serde::Serialize for Enr<K> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(&self.id.raw)
        }
    }
}
pub type Enr = enr::Enr<enr::CombinedKey>;

pub mod kbucket {
    use alloy_primitives::U256;
    use crate::enr::NodeId;
    /// A key of the routing table: what it stands for and its position.
    #[derive(Clone, Debug)]
    pub struct Key<T> {
        preimage: T,
        hash: [u8; 32],
    }
    impl<T> Key<T> {
        pub fn new_raw(preimage: T, hash: [u8; 32]) -> Key<T> {
            Key { preimage, hash }
        }
        pub fn preimage(&self) -> &T {
            &self.preimage
        }
        pub fn into_preimage(self) -> T {
            self.preimage
        }
        pub fn hash(&self) -> [u8; 32] {
            self.hash
        }
        pub fn distance<U>(&self, o: &Key<U>) -> Distance {
            Distance(U256::from_be_bytes(self.hash) ^ U256::from_be_bytes(o.hash))
        }
        pub fn log2_distance<U>(&self, o: &Key<U>) -> Option<u64> {
            let d = self.distance(o).0;
            if d.is_zero() { None } else { Some(256 - d.leading_zeros() as u64) }
        }
    }
    impl From<NodeId> for Key<NodeId> {
        fn from(n: NodeId) -> Self {
            Key { preimage: n, hash: n.raw() }
        }
    }
    impl<T> PartialEq for Key<T> {
        fn eq(&self, o: &Key<T>) -> bool {
            self.hash == o.hash
        }
    }
    impl<T> Eq for Key<T> {}
    impl<T> AsRef<Key<T>> for Key<T> {
        fn as_ref(&self) -> &Key<T> {
            self
        }
    }
    impl<T> std::hash::Hash for Key<T> {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.hash.hash(h)
        }
    }
    #[derive(Copy, Clone, PartialEq, Eq, Default, PartialOrd, Ord, Debug)]
    pub struct Distance(pub U256);
    pub const MAX_NODES_PER_BUCKET: usize = 16;
}
pub use kbucket::Key;
pub mod rpc {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct RequestId(pub Vec<u8>);
}
