//! C02: Merkle trees and proofs.
extern crate vstd as std;
#[cfg(not(kani))]
extern crate alloy_real as alloy;
#[cfg(kani)]
extern crate handles as alloy;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
/// Boxed tree nodes as slots of a typed pool, which the model checker follows better than the heap.
#[cfg(kani)]
pub mod pool {
    use super::merkle::proof::MerkleTree;
    use std::ops::{Deref, DerefMut};
    const CAP: usize = 48;
    const NONE: Option<MerkleTree> = None;
    static mut POOL: [Option<MerkleTree>; CAP] = [NONE; CAP];
    /// Marked: Kani lets a static share storage with constants of the same content.
    struct Count {
        _mark: u64,
        used: usize,
    }
    static mut COUNT: Count = Count { _mark: 0x5afe_b0c5_0000_0001, used: 0 };
    pub struct Box<T>(usize, std::marker::PhantomData<T>);
    impl Box<MerkleTree> {
        pub fn new(t: MerkleTree) -> Self {
            unsafe {
                let n = COUNT.used;
                assert!(n < CAP, "room of the model");
                std::ptr::write(&mut POOL[n], Some(t));
                COUNT.used = n + 1;
                Box(n, std::marker::PhantomData)
            }
        }
    }
    impl Deref for Box<MerkleTree> {
        type Target = MerkleTree;
        fn deref(&self) -> &MerkleTree {
            match unsafe { &POOL[self.0] } {
                Some(t) => t,
                None => unreachable!(),
            }
        }
    }
    impl DerefMut for Box<MerkleTree> {
        fn deref_mut(&mut self) -> &mut MerkleTree {
            match unsafe { &mut POOL[self.0] } {
                Some(t) => t,
                None => unreachable!(),
            }
        }
    }
    impl PartialEq for Box<MerkleTree> {
        fn eq(&self, o: &Self) -> bool {
            **self == **o
        }
    }
    impl std::fmt::Debug for Box<MerkleTree> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("node")
        }
    }
}
pub mod merkle {
    pub mod proof {
        #[cfg(kani)]
        use crate::pool::Box;
        include!("/repo/crates/validation/src/merkle/proof.rs");
    }
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
}
use alloy::primitives::B256;
use ethereum_hashing::hash32_concat;
use merkle::proof::*;

fn pair(l: &B256, r: &B256) -> B256 {
    B256::new(hash32_concat(l.as_slice(), r.as_slice()))
}
/// Level `level` of the tree over the leaves padded with zeros: node `i`.
fn node<const N: usize>(leaves: &[B256; N], level: usize, i: usize) -> B256 {
    if level == 0 {
        return if i < N { leaves[i] } else { B256::ZERO };
    }
    pair(&node(leaves, level - 1, 2 * i), &node(leaves, level - 1, 2 * i + 1))
}
fn leaves<const N: usize>() -> [B256; N] {
    let mut l = [B256::ZERO; N];
    let mut i = 0;
    while i < N {
        l[i] = B256::new(nd::b32());
        i += 1;
    }
    l
}
fn pushed<const N: usize>(l: &[B256; N], depth: usize) -> MerkleTree {
    let mut t = MerkleTree::create(&[], depth);
    let mut i = 0;
    while i < N {
        assert!(t.push_leaf(l[i], depth).is_ok(), "a leaf that fits is taken");
        i += 1;
    }
    t
}
fn root<const N: usize>(depth: usize) {
    let l = leaves::<N>();
    let t = MerkleTree::create(&l, depth);
    assert!(t.hash() == node(&l, depth, 0), "the root over the padded leaves");
    nd::reach!(true, "reached");
    std::mem::forget(t);
}
fn by_one<const N: usize>(depth: usize) {
    let l = leaves::<N>();
    let mut t = pushed(&l, depth);
    assert!(t.hash() == node(&l, depth, 0), "the root of a tree built leaf by leaf");
    if N == 1 << depth {
        assert!(t.push_leaf(B256::ZERO, depth).is_err(), "a full tree takes no more");
    }
    nd::reach!(true, "reached");
    std::mem::forget(t);
}
fn proof<const N: usize>(depth: usize, index: usize, by_one: bool) {
    let l = leaves::<N>();
    let t = if by_one { pushed(&l, depth) } else { MerkleTree::create(&l, depth) };
    let r = node(&l, depth, 0);
    let (leaf, branch) = match t.generate_proof(index, depth) {
        Ok(p) => p,
        Err(_) => panic!("a proof for each leaf"),
    };
    assert!(leaf == l[index], "the leaf at the index");
    assert!(branch.len() == depth, "one sibling for each level");
    assert!(verify_merkle_proof(leaf, &branch, depth, index, r), "a generated proof verifies");
    nd::reach!(true, "reached");
    std::mem::forget((t, branch));
}
/// Whatever verifies is the genuine leaf with the genuine siblings.
fn genuine<const N: usize, const D: usize>(index: usize) {
    let l = leaves::<N>();
    let r = node(&l, D, 0);
    let leaf = B256::new(nd::b32());
    let branch = leaves::<D>();
    let ok = verify_merkle_proof(leaf, &branch, D, index, r);
    let mut same = leaf == l[index];
    let mut i = 0;
    while i < D {
        same &= branch[i] == node(&l, i, (index >> i) ^ 1);
        i += 1;
    }
    assert!(ok == same, "only the leaf at the index with its siblings verifies");
    nd::reach!(ok, "genuine");
}
/// The root that a branch leads to.
fn climbs<const D: usize>(index: usize) {
    let leaf = B256::new(nd::b32());
    let branch = leaves::<D>();
    let mut want = leaf;
    let mut i = 0;
    while i < D {
        want = if index >> i & 1 == 1 { pair(&branch[i], &want) } else { pair(&want, &branch[i]) };
        i += 1;
    }
    assert!(merkle_root_from_branch(leaf, &branch, D, index) == want, "each sibling on its side");
    nd::reach!(true, "reached");
}
fn wrong_length<const B: usize>(depth: usize) {
    let branch = leaves::<B>();
    let leaf = B256::new(nd::b32());
    // the root that the branch would lead to
    let mut want = leaf;
    let mut i = 0;
    while i < B {
        want = pair(&want, &branch[i]);
        i += 1;
    }
    let r = if nd::bool() { want } else { B256::new(nd::b32()) };
    assert!(!verify_merkle_proof(leaf, &branch, depth, 0, r), "the branch has one sibling for each level");
    nd::reach!(true, "reached");
}
fn finalized<const N: usize>(depth: usize, count: usize) {
    let l = leaves::<N>();
    let mut t = MerkleTree::create(&l, depth);
    assert!(t.finalize_deposits(count, depth).is_ok(), "leaves are finalized");
    let r = node(&l, depth, 0);
    assert!(t.hash() == r, "finalizing keeps the root");
    let hashes = t.get_finalized_hashes();
    if count == N {
        let s = match MerkleTree::from_finalized_snapshot(&hashes, count, depth) {
            Ok(s) => s,
            Err(_) => panic!("a snapshot is taken"),
        };
        assert!(s.hash() == r, "the tree of a snapshot has the same root");
        std::mem::forget(s);
    }
    nd::reach!(true, "reached");
    std::mem::forget((t, hashes));
}

nd::harnesses! { roomy
    [34] fn root_d0_1() { root::<1>(0) }
    [34] fn root_d1_0() { root::<0>(1) }
    [34] fn root_d1_1() { root::<1>(1) }
    [34] fn root_d1_2() { root::<2>(1) }
    [34] fn root_d2_0() { root::<0>(2) }
    [34] fn root_d2_1() { root::<1>(2) }
    [34] fn root_d2_2() { root::<2>(2) }
    [34] fn root_d2_3() { root::<3>(2) }
    [34] fn root_d2_4() { root::<4>(2) }
    [34] fn root_d3_3() { root::<3>(3) }
    [34] fn root_d3_5() { root::<5>(3) }
    [34] fn by_one_d1_2() { by_one::<2>(1) }
    [34] fn by_one_d2_3() { by_one::<3>(2) }
    [34] fn by_one_d2_4() { by_one::<4>(2) }
    [34] fn by_one_d3_3() { by_one::<3>(3) }
    [34] fn by_one_d3_5() { by_one::<5>(3) }
    [34] fn proof_d1_2_1() { proof::<2>(1, 1, false) }
    [34] fn proof_d2_3_0() { proof::<3>(2, 0, false) }
    [34] fn proof_d2_3_1() { proof::<3>(2, 1, true) }
    [34] fn proof_d2_3_2() { proof::<3>(2, 2, false) }
    [34] fn proof_d2_4_3() { proof::<4>(2, 3, true) }
    [34] fn proof_d3_1_0() { proof::<1>(3, 0, false) }
    [34] fn proof_d3_5_4() { proof::<5>(3, 4, false) }
    [34] fn genuine_d1_0() { genuine::<2, 1>(0) }
    [34] fn genuine_d1_1() { genuine::<2, 1>(1) }
    [34] fn genuine_d2_0() { genuine::<4, 2>(0) }
    [34] fn genuine_d2_1() { genuine::<4, 2>(1) }
    [34] fn genuine_d2_2() { genuine::<4, 2>(2) }
    [34] fn genuine_d2_3() { genuine::<4, 2>(3) }
    [34] fn climbs_d0() { climbs::<0>(0) }
    [34] fn climbs_d3_5() { climbs::<3>(5) }
    [34] fn climbs_d4_6() { climbs::<4>(6) }
    [34] fn climbs_d4_9() { climbs::<4>(9) }
    [34] fn wrong_length_0_1() { wrong_length::<0>(1) }
    [34] fn wrong_length_1_0() { wrong_length::<1>(0) }
    [34] fn wrong_length_1_2() { wrong_length::<1>(2) }
    [34] fn wrong_length_3_2() { wrong_length::<3>(2) }
    [34] fn finalized_d1_1() { finalized::<2>(1, 1) }
    [34] fn finalized_d2_2() { finalized::<3>(2, 2) }
    [34] fn finalized_d2_1() { finalized::<3>(2, 1) }
    [34] fn finalized_d2_4() { finalized::<4>(2, 4) }
    [34] fn finalized_d1_2() { finalized::<2>(1, 2) }
}
