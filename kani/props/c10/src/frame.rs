// The content keys of the repository, for C10 and C11.
pub mod utils {
    #[cfg(not(kani))]
    #[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
    pub mod bytes;
    /// Hex text goes into error and log messages only, which no check looks at; see C30 for the functions.
    #[cfg(kani)]
    pub mod bytes {
        pub fn hex_encode<T: AsRef<[u8]>>(_: T) -> String {
            String::new()
        }
        pub use hex_encode as hex_encode_compact;
        pub use hex_encode as hex_encode_upper;
        pub fn hex_decode(_: &str) -> Result<Vec<u8>, &'static str> {
            Err("not in the model")
        }
    }
}
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/content_key/mod.rs"]
    pub mod content_key;
    pub mod state_trie {
        #[path = "/repo/crates/ethportal-api/src/types/state_trie/nibbles.rs"]
        pub mod nibbles;
    }
}
pub use types::content_key::{beacon::*, error::ContentKeyError, history::HistoryContentKey, legacy_history::LegacyHistoryContentKey, overlay::*, state::*};
pub type RawContentKey = alloy::primitives::Bytes;
pub use alloy::primitives::B256;
pub use types::state_trie::nibbles::Nibbles;

/// A key and the bytes that name it: selector and fields.
pub struct Expect {
    pub bytes: [u8; 104],
    pub len: usize,
}
impl Expect {
    pub fn new(selector: u8) -> Self {
        let mut e = Expect { bytes: [0; 104], len: 0 };
        e.put(&[selector]);
        e
    }
    pub fn put(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.bytes[self.len] = b[i];
            self.len += 1;
            i += 1;
        }
    }
    pub fn with(mut self, b: &[u8]) -> Self {
        self.put(b);
        self
    }
    pub fn is(&self, b: &[u8]) -> bool {
        if b.len() != self.len {
            return false;
        }
        let mut same = true;
        let mut i = 0;
        while i < self.len {
            same &= b[i] == self.bytes[i];
            i += 1;
        }
        same
    }
}
pub fn history(kind: u8) -> (HistoryContentKey, Expect) {
    let n = nd::u64();
    let k = if kind == 0 { HistoryContentKey::new_block_body(n) } else { HistoryContentKey::new_block_receipts(n) };
    (k, Expect::new(kind).with(&n.to_le_bytes()))
}
pub fn legacy(kind: u8) -> (LegacyHistoryContentKey, Expect) {
    let h: [u8; 32] = nd::arr();
    let e = Expect::new(kind);
    match kind {
        0 => (LegacyHistoryContentKey::new_block_header_by_hash(h), e.with(&h)),
        1 => (LegacyHistoryContentKey::new_block_body(h), e.with(&h)),
        2 => (LegacyHistoryContentKey::new_block_receipts(h), e.with(&h)),
        3 => {
            let n = nd::u64();
            (LegacyHistoryContentKey::new_block_header_by_number(n), e.with(&n.to_le_bytes()))
        }
        4 => {
            let n = nd::u8();
            (LegacyHistoryContentKey::new_ephemeral_headers_find_content(h, n), e.with(&h).with(&[n]))
        }
        _ => (LegacyHistoryContentKey::new_ephemeral_header_offer(h), e.with(&h)),
    }
}
pub fn beacon(kind: u8) -> (BeaconContentKey, Expect) {
    let e = Expect::new(kind);
    let n = nd::u64();
    let b = n.to_le_bytes();
    match kind {
        0x10 => {
            let block_hash = nd::arr();
            (BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash }), e.with(&block_hash))
        }
        0x11 => {
            let count = nd::u64();
            let k = LightClientUpdatesByRangeKey { start_period: n, count };
            (BeaconContentKey::LightClientUpdatesByRange(k), e.with(&b).with(&count.to_le_bytes()))
        }
        0x12 => (BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey::new(n)), e.with(&b)),
        0x13 => (BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey::new(n)), e.with(&b)),
        _ => (BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: n }), e.with(&b)),
    }
}
/// Keys of the state network; paths have `N` nibbles.
pub fn state<const N: usize>(kind: u8) -> (StateContentKey, Expect) {
    let (a, h): ([u8; 32], [u8; 32]) = (nd::arr(), nd::arr());
    let mut e = Expect::new(kind);
    let (address_hash, node_hash) = (B256::new(a), B256::new(h));
    if kind == 0x22 {
        let k = ContractBytecodeKey { address_hash, code_hash: node_hash };
        return (StateContentKey::ContractBytecode(k), e.with(&a).with(&h));
    }
    let mut p: [u8; N] = nd::arr();
    // The first nibble of an odd path shares a byte with the flag that decides about the layout.
    if N % 2 == 1 {
        p[0] = 0xc;
    }
    let mut i = 0;
    while i < N {
        nd::assume(p[i] < 16);
        i += 1;
    }
    anyhow::expect_ok();
    let path = match Nibbles::try_from_unpacked_nibbles(&p) {
        Ok(n) => n,
        Err(_) => panic!("a path of nibbles is accepted"),
    };
    // The path comes last, its place is given before the hashes.
    let at = if kind == 0x20 { 36u32 } else { 68 };
    let k = if kind == 0x20 {
        e = e.with(&at.to_le_bytes()).with(&h);
        StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash })
    } else {
        e = e.with(&a).with(&at.to_le_bytes()).with(&h);
        StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash, path, node_hash })
    };
    e = e.with(&[if N % 2 == 0 { 0 } else { 0x10 | p[0] }]);
    let mut i = N % 2;
    while i < N {
        e = e.with(&[p[i] << 4 | p[i + 1]]);
        i += 2;
    }
    (k, e)
}
