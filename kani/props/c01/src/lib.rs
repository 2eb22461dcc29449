//! C01: header proofs against the trusted roots.
extern crate self as ethportal_api;
extern crate vstd as std;
#[cfg(not(kani))]
extern crate alloy_real as alloy;
#[cfg(kani)]
extern crate handles as alloy;
/// Roots in handles where the values of the checked code are.
pub mod th {
    pub use tree_hash::*;
    pub type Hash256 = crate::B256;
}
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
/// `alloy` with a header whose hash is a free value: all that is known of it is that other headers have others.
pub mod al {
    pub use alloy::primitives;
    pub mod consensus {
        use alloy::primitives::{B256, U256};
        use serde::Deserialize;
        #[derive(Debug, Clone, PartialEq, Eq, Default, Deserialize)]
        pub struct Header {
            pub parent_hash: B256,
            pub state_root: B256,
            pub transactions_root: B256,
            pub receipts_root: B256,
            pub difficulty: U256,
            pub number: u64,
            pub timestamp: u64,
            pub hash: B256,
        }
        impl Header {
            pub fn hash_slow(&self) -> B256 {
                self.hash
            }
        }
    }
}
pub mod consensus {
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    pub mod constants;
    #[path = "/repo/crates/ethportal-api/src/types/consensus/historical_summaries.rs"]
    pub mod historical_summaries;
    pub mod beacon_state {
        use alloy::primitives::B256;
        use ssz_types::{typenum, FixedVector, VariableList};
        pub type HistoricalRoots = VariableList<B256, typenum::U16777216>;
        pub type RootsPerHistoricalRoot = FixedVector<B256, typenum::U8192>;
        pub struct HistoricalBatch;
        impl HistoricalBatch {
            pub fn build_block_root_proof(&self, _: usize) -> Vec<B256> {
                unreachable!()
            }
        }
    }
    pub mod beacon_block {
        use alloy::primitives::B256;
        macro_rules! block {
            ($($t:ident)*) => {$(
                pub struct $t;
                impl $t {
                    pub fn build_execution_block_hash_proof(&self) -> Vec<B256> {
                        unreachable!()
                    }
                    pub fn tree_hash_root(&self) -> B256 {
                        unreachable!()
                    }
                }
            )*};
        }
        block!(BeaconBlockBellatrix BeaconBlockCapella BeaconBlockDeneb BeaconBlockElectra);
    }
    pub mod proof {
        use alloy::primitives::B256;
        pub fn build_merkle_proof_for_index<T>(_: T, _: usize) -> Vec<B256> {
            unreachable!()
        }
    }
}
pub mod types {
    pub use crate::consensus;
    #[path = "/repo/crates/ethportal-api/src/types/network.rs"]
    pub mod network;
    #[path = "/repo/crates/ethportal-api/src/types/network_spec.rs"]
    pub mod network_spec;
    #[path = "/repo/crates/ethportal-api/src/types/protocol_versions.rs"]
    pub mod protocol_versions;
    pub mod bytes {
        use ssz_types::{typenum, VariableList};
        pub type ByteList1024 = VariableList<u8, typenum::U1024>;
    }
    pub mod execution {
        pub mod header_with_proof {
            use crate::al as alloy;
            mod jsonrpsee {
                pub mod core {
                    pub use serde::Serialize;
                }
            }
            include!("/repo/crates/ethportal-api/src/types/execution/header_with_proof.rs");
        }
        pub mod accumulator {
            use crate::th as tree_hash;
            include!("/repo/crates/ethportal-api/src/types/execution/accumulator.rs");
        }
        pub mod ssz_header {
            pub mod encode {
                use crate::al::consensus::Header;
                pub fn is_ssz_fixed_len() -> bool {
                    false
                }
                pub fn ssz_append(_: &Header, _: &mut Vec<u8>) {
                    unreachable!()
                }
                pub fn ssz_fixed_len() -> usize {
                    4
                }
                pub fn ssz_bytes_len(_: &Header) -> usize {
                    unreachable!()
                }
            }
            pub mod decode {
                use crate::al::consensus::Header;
                pub fn is_ssz_fixed_len() -> bool {
                    false
                }
                pub fn ssz_fixed_len() -> usize {
                    4
                }
                pub fn from_ssz_bytes(_: &[u8]) -> Result<Header, ssz::DecodeError> {
                    unreachable!()
                }
            }
        }
    }
}
pub mod merkle {
    #[path = "/repo/crates/validation/src/merkle/proof.rs"]
    pub mod proof;
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
}
pub struct Asset {
    pub data: &'static [u8],
}
pub struct TrinValidationAssets;
impl TrinValidationAssets {
    pub fn get(_: &str) -> Option<Asset> {
        None
    }
}
pub mod accumulator {
    use crate::{al as alloy, th as tree_hash};
    include!("/repo/crates/validation/src/accumulator.rs");
}
#[path = "/repo/crates/validation/src/historical_roots_acc.rs"]
pub mod historical_roots_acc;
/// Locks that are never waited for.
pub mod tk {
    pub mod sync {
        pub use parking_lot::RwLock;
    }
}
pub mod historical_summaries_provider {
    use crate::tk as tokio;
    include!(concat!(env!("OUT_DIR"), "/historical_summaries_provider.rs"));
}
pub mod header_validator {
    use crate::{al as alloy, tk as tokio};
    include!(concat!(env!("OUT_DIR"), "/header_validator.rs"));
}
/// The source of summaries of a running node; answers with what the harness put there.
pub mod oracle {
    use crate::consensus::historical_summaries::HistoricalSummaries;
    #[derive(Debug, Clone, Default)]
    pub struct HeaderOracle {
        pub answer: Option<HistoricalSummaries>,
    }
    impl HeaderOracle {
        pub fn get_historical_summary(&self, _epoch: u64) -> anyhow::Result<HistoricalSummaries> {
            match &self.answer {
                Some(s) => Ok(s.clone()),
                None => Err(anyhow::Error::bare()),
            }
        }
    }
}

use accumulator::PreMergeAccumulator;
use al::consensus::Header;
use alloy::primitives::B256;
use consensus::historical_summaries::{HistoricalSummaries, HistoricalSummary};
use ethereum_hashing::{hash32_concat, next_hash};
use header_validator::HeaderValidator;
use historical_roots_acc::HistoricalRootsAccumulator;
use historical_summaries_provider::*;
use std::sync::Arc;
use tk::sync::RwLock;
use types::execution::header_with_proof::*;

const PARIS: u64 = 15_537_394;
const SHANGHAI: u64 = 1_681_338_455;
const CANCUN: u64 = 1_710_338_135;
const CAPELLA_SLOT: u64 = 6_209_536;

fn roots<const N: usize>() -> [B256; N] {
    let mut r = [B256::ZERO; N];
    let mut i = 0;
    while i < N {
        r[i] = B256::new(nd::uf::any());
        i += 1;
    }
    r
}
fn list<const N: usize>(r: &[B256; N]) -> Vec<B256> {
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(r[i]);
        i += 1;
    }
    v
}
fn fixed<T: ssz_types::typenum::Unsigned + Clone, const N: usize>(r: &[B256; N]) -> ssz_types::FixedVector<B256, T> {
    match ssz_types::FixedVector::new(list(r)) {
        Ok(f) => f,
        Err(_) => panic!("length of a branch"),
    }
}
type Node = [u8; 32];
fn node(v: &B256) -> Node {
    unsafe { *(v.as_slice().as_ptr() as *const Node) }
}
/// One step up: the bit says that the node is the right one.
fn step(bit: bool, s: Node, n: Node, hash: fn(&Node, &Node) -> Node) -> Node {
    let (l, r) = if bit { (s, n) } else { (n, s) };
    hash(&l, &r)
}
/// The root that a branch leads to from a leaf at a position.
fn fold(leaf: &B256, branch: &[B256], depth: usize, position: u64) -> Node {
    let mut n = node(leaf);
    let mut i = 0;
    while i < depth {
        n = step(position >> i & 1 == 1, node(&branch[i]), n, next_hash);
        i += 1;
    }
    n
}
fn header(number: u64, timestamp: u64) -> Header {
    Header { number, timestamp, hash: B256::new(nd::uf::any()), ..Default::default() }
}
fn summaries<const N: usize>(r: &[B256; N]) -> HistoricalSummaries {
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(HistoricalSummary { block_summary_root: r[i], state_summary_root: B256::new([0xee; 32]) });
        i += 1;
    }
    match HistoricalSummaries::new(v) {
        Ok(s) => s,
        Err(_) => unreachable!(),
    }
}
fn validator<const E: usize, const R: usize, const S: usize>(e: &[B256; E], r: &[B256; R], s: &[B256; S]) -> HeaderValidator {
    HeaderValidator {
        pre_merge_acc: PreMergeAccumulator { historical_epochs: list(e).into() },
        historical_roots_acc: HistoricalRootsAccumulator { historical_roots: list(r).into() },
        historical_summaries_provider: HistoricalSummariesProvider::new(HistoricalSummariesSource::HistoricalSummaries(summaries(s))),
    }
}
fn accepts(v: &HeaderValidator, header: Header, proof: BlockHeaderProof) -> bool {
    let h = HeaderWithProof { header, proof };
    let r = v.validate_header_with_proof(&h).is_ok();
    std::mem::forget(h);
    r
}
/// `merkle_root_from_branch` as the solver follows it best, for positions that are not fixed.
/// That the real one does this is shown by C02, and below for fixed positions.
#[cfg(kani)]
pub fn model(leaf: B256, branch: &[B256], depth: usize, index: usize) -> B256 {
    assert!(branch.len() == depth, "length of a branch");
    let mut n = node(&leaf);
    let mut i = 0;
    while i < depth {
        n = step(index >> i & 1 == 1, node(&branch[i]), n, |l, r| hash32_concat(l, r));
        i += 1;
    }
    B256::new(n)
}
fn pre_merge(epoch: u64, position: u64) {
    nd::uf::numbered();
    let trusted = roots::<3>();
    let branch = roots::<15>();
    let number = epoch * 8192 + position;
    let h = header(number, nd::u64());
    let want = fold(&h.hash, &branch, 15, 2 * position) == node(&trusted[epoch as usize]);
    let v = validator(&trusted, &[], &[]);
    let got = accepts(&v, h, BlockHeaderProof::HistoricalHashes(fixed(&branch)));
    nd::reach!(want, "a valid proof");
    assert!(got == want, "a header before the merge is accepted exactly if its branch leads to the root of its epoch");
    std::mem::forget(v);
}
fn any_position() -> u64 {
    (nd::u16() % 8192) as u64
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Roots,
    Capella,
    Deneb,
}
use Kind::*;
/// A number and a time of the fork that proofs of the kind belong to.
fn in_fork(kind: Kind) -> (u64, u64) {
    let (n, t) = (nd::u64(), nd::u64());
    nd::assume(n >= PARIS);
    nd::assume(match kind {
        Roots => t < SHANGHAI,
        Capella => t >= SHANGHAI && t < CANCUN,
        Deneb => t >= CANCUN,
    });
    (n, t)
}
fn proof(kind: Kind, beacon: &[B256; 14], root: B256, execution: &[B256; 12], slot: u64) -> BlockHeaderProof {
    let mut beacon13 = [B256::ZERO; 13];
    let mut execution11 = [B256::ZERO; 11];
    let mut i = 0;
    while i < 13 {
        beacon13[i] = beacon[i];
        if i < 11 {
            execution11[i] = execution[i];
        }
        i += 1;
    }
    match kind {
        Roots => BlockHeaderProof::HistoricalRoots(BlockProofHistoricalRoots {
            beacon_block_proof: fixed(beacon),
            beacon_block_root: root,
            execution_block_proof: fixed(&execution11),
            slot,
        }),
        Capella => BlockHeaderProof::HistoricalSummariesCapella(BlockProofHistoricalSummariesCapella {
            beacon_block_proof: fixed(&beacon13),
            beacon_block_root: root,
            execution_block_proof: fixed(&execution11),
            slot,
        }),
        Deneb => BlockHeaderProof::HistoricalSummariesDeneb(BlockProofHistoricalSummariesDeneb {
            beacon_block_proof: fixed(&beacon13),
            beacon_block_root: root,
            execution_block_proof: fixed(execution),
            slot,
        }),
    }
}
/// Whether the execution branch leads from the header to the beacon block.
fn executed(kind: Kind, hash: &B256, execution: &[B256; 12], root: &B256) -> bool {
    match kind {
        Deneb => fold(hash, execution, 12, 0b100_1001_01100) == node(root),
        _ => fold(hash, execution, 11, 0b100_1001_1100) == node(root),
    }
}
/// Whether the beacon branch leads from the block at a place among 8192 to the trusted root.
fn recorded(kind: Kind, root: &B256, beacon: &[B256; 14], place: u64, trusted: &B256) -> bool {
    match kind {
        // block roots are the left half of a batch
        Roots => fold(root, beacon, 14, place) == node(trusted),
        _ => fold(root, beacon, 13, place) == node(trusted),
    }
}
fn first_slot(kind: Kind) -> u64 {
    if kind == Roots {
        0
    } else {
        CAPELLA_SLOT
    }
}
fn with_lists(kind: Kind, trusted: &[B256; 3]) -> HeaderValidator {
    ssz_types::clone_at_most(3);
    match kind {
        Roots => validator(&[], trusted, &[]),
        _ => validator(&[], &[], trusted),
    }
}
/// Beacon side: the execution branch is a valid one.
fn block_recorded(kind: Kind, period: u64, place: u64) {
    nd::uf::numbered();
    let (trusted, beacon, execution) = (roots::<3>(), roots::<14>(), [B256::ZERO; 12]);
    let (n, t) = in_fork(kind);
    let h = header(n, t);
    let root = B256::new(nd::uf::any());
    let valid = executed(kind, &h.hash, &execution, &root);
    nd::assume(valid);
    let want = recorded(kind, &root, &beacon, place, &trusted[period as usize]);
    let slot = first_slot(kind) + period * 8192 + place;
    let v = with_lists(kind, &trusted);
    let got = accepts(&v, h, proof(kind, &beacon, root, &execution, slot));
    nd::reach!(want, "a valid proof");
    assert!(got == want, "the beacon block is the one that the trusted roots have at the slot");
    std::mem::forget(v);
}
/// Execution side: the beacon branch is a valid one.
fn header_executed(kind: Kind) {
    nd::uf::numbered();
    let (trusted, beacon, execution) = (roots::<3>(), [B256::ZERO; 14], roots::<12>());
    let (n, t) = in_fork(kind);
    let h = header(n, t);
    let root = B256::new(nd::uf::any());
    let valid = recorded(kind, &root, &beacon, 21, &trusted[1]);
    nd::assume(valid);
    let want = executed(kind, &h.hash, &execution, &root);
    let v = with_lists(kind, &trusted);
    let got = accepts(&v, h, proof(kind, &beacon, root, &execution, first_slot(kind) + 8192 + 21));
    nd::reach!(want, "a valid proof");
    assert!(got == want, "the header is the one of the beacon block");
    std::mem::forget(v);
}
/// Slots the trusted lists do not have.
fn other_slot(kind: Kind) {
    nd::uf::numbered();
    let (trusted, beacon, execution) = (roots::<3>(), [B256::ZERO; 14], [B256::ZERO; 12]);
    let (n, t) = in_fork(kind);
    let h = header(n, t);
    let root = B256::new(nd::uf::any());
    let valid = executed(kind, &h.hash, &execution, &root);
    nd::assume(valid);
    let slot = nd::u64();
    nd::assume(slot < first_slot(kind) || slot - first_slot(kind) >= 3 * 8192);
    let v = with_lists(kind, &trusted);
    let got = accepts(&v, h, proof(kind, &beacon, root, &execution, slot));
    nd::reach!(true, "reached");
    assert!(!got, "slots that are not in the trusted lists are refused");
    std::mem::forget(v);
}
/// Everything leads where it should, but the header is not of the fork.
fn other_fork(kind: Kind) {
    nd::uf::numbered();
    let (trusted, beacon, execution) = (roots::<3>(), [B256::ZERO; 14], [B256::ZERO; 12]);
    let (n, t) = (nd::u64(), nd::u64());
    nd::assume(n >= PARIS || t < SHANGHAI);
    let h = header(n, t);
    let root = B256::new(nd::uf::any());
    let valid = executed(kind, &h.hash, &execution, &root);
    nd::assume(valid);
    let valid = recorded(kind, &root, &beacon, 7, &trusted[0]);
    nd::assume(valid);
    let v = with_lists(kind, &trusted);
    let got = accepts(&v, h, proof(kind, &beacon, root, &execution, first_slot(kind) + 7));
    let want = match kind {
        Roots => n >= PARIS && t < SHANGHAI,
        Capella => t >= SHANGHAI && t < CANCUN,
        Deneb => t >= CANCUN,
    };
    nd::reach!(want, "of the fork");
    assert!(got == want, "a proof counts only for headers of its fork");
    std::mem::forget(v);
}
/// Headers before the merge and the list as long as it is on mainnet.
fn pre_merge_any() {
    nd::uf::numbered();
    #[cfg(kani)]
    let epochs: Vec<B256> = unsafe { std::mem::transmute(vec![0u8; 1897]) };
    #[cfg(not(kani))]
    let epochs = vec![B256::ZERO; 1897];
    let v = HeaderValidator { pre_merge_acc: PreMergeAccumulator { historical_epochs: epochs.into() }, ..validator(&[], &[], &[]) };
    let n = nd::u64();
    let got = accepts(&v, header(n, nd::u64()), BlockHeaderProof::HistoricalHashes(fixed(&[B256::ZERO; 15])));
    nd::reach!(n == PARIS - 1, "the last block before the merge");
    assert!(!got, "no branch leads to the empty value");
    std::mem::forget(v);
}
fn after_merge() {
    nd::uf::numbered();
    let trusted = [B256::new(nd::uf::any()); 3];
    let branch = [B256::ZERO; 15];
    let n = nd::u64();
    nd::assume(n >= PARIS);
    let v = validator(&trusted, &[], &[]);
    let got = accepts(&v, header(n, nd::u64()), BlockHeaderProof::HistoricalHashes(fixed(&branch)));
    nd::reach!(n == PARIS, "the first block after the merge");
    assert!(!got, "headers after the merge are not in the accumulator");
    std::mem::forget(v);
}
/// Summaries from the node: looked up when needed, and kept.
fn looked_up() {
    let trusted = roots::<2>();
    let oracle = Arc::new(RwLock::new(oracle::HeaderOracle { answer: Some(summaries(&trusted)) }));
    let p = HistoricalSummariesProvider::new(HistoricalSummariesSource::HeaderOracle(oracle.clone()));
    let mut round = 0;
    let mut known = false;
    while round < 2 {
        let slot = nd::u64();
        let here = slot >= CAPELLA_SLOT && slot - CAPELLA_SLOT < 2 * 8192;
        match p.get_historical_summary(slot) {
            Ok(s) => {
                assert!(here, "no summary for a slot that has none");
                let want = if slot - CAPELLA_SLOT < 8192 { &trusted[0] } else { &trusted[1] };
                assert!(s.block_summary_root.as_slice()[0] == want.as_slice()[0] && s.block_summary_root.as_slice()[31] == want.as_slice()[31], "the summary of the slot");
                known = true;
            }
            Err(_) => assert!(!here || round == 1 && !known, "the summary is found, or still known"),
        }
        nd::reach!(round == 0 || known && here, "kept");
        // from now on the node answers nothing
        std::mem::forget(std::mem::replace(&mut *oracle.write(), oracle::HeaderOracle { answer: None }));
        round += 1;
    }
    std::mem::forget(p);
}

nd::harnesses! { model merkle::proof::merkle_root_from_branch => model;
    [36] fn pre_merge_epoch_2() { pre_merge(2, any_position()) }
    [60] fn recorded_roots_2() { block_recorded(Roots, 2, any_position()) }
    [60] fn recorded_capella_2() { block_recorded(Capella, 2, any_position()) }
    [60] fn recorded_deneb_1() { block_recorded(Deneb, 1, any_position()) }
    [60] fn executed_roots() { header_executed(Roots) }
    [60] fn executed_capella() { header_executed(Capella) }
    [60] fn executed_deneb() { header_executed(Deneb) }
    [60] fn other_slot_roots() { other_slot(Roots) }
    [60] fn other_slot_capella() { other_slot(Capella) }
    [60] fn other_slot_deneb() { other_slot(Deneb) }
    [60] fn other_fork_roots() { other_fork(Roots) }
    [60] fn other_fork_capella() { other_fork(Capella) }
    [60] fn other_fork_deneb() { other_fork(Deneb) }
    [36] fn pre_merge_all() { pre_merge_any() }
    [36] fn pre_merge_after() { after_merge() }
    ;
    [36] fn pre_merge_at_5461() { pre_merge(0, 5461) }
    [60] fn summaries_looked_up() { looked_up() }
}
