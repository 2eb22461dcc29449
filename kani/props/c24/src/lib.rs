//! C24: walking a trie node along a path.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/ethportal-api/src/types/state_trie/trie_traversal.rs"]
pub mod trie_traversal;

use alloy::primitives::{Bytes, B256};
use eth_trie::nibbles::Nibbles;
use eth_trie::lock::RwLock;
use eth_trie::node::{empty_children, Arc, BranchNode, Node};
use trie_traversal::*;

fn path<const P: usize>() -> [u8; P] {
    let p: [u8; P] = nd::arr();
    let mut i = 0;
    while i < P {
        nd::assume(p[i] < 16);
        i += 1;
    }
    p
}
fn nibbles<const K: usize>(p: &[u8; K]) -> Nibbles {
    let mut v = Vec::with_capacity(8);
    let mut i = 0;
    while i < K {
        v.push(p[i]);
        i += 1;
    }
    Nibbles::from_vec(v)
}
fn leaf_key<const K: usize>(p: &[u8; K]) -> Nibbles {
    let mut v = Vec::with_capacity(8);
    let mut i = 0;
    while i < K {
        v.push(p[i]);
        i += 1;
    }
    v.push(16);
    Nibbles::from_vec(v)
}
fn hash_of(k: u8) -> B256 {
    B256::new([0xa0 + k; 32])
}
fn value(n: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(2);
    v.push(n);
    v.push(0x55);
    v
}
enum Want<'a> {
    Nothing,
    Value(u8),
    Next(B256, &'a [u8]),
    Malformed,
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn check(n: Node, p: &[u8], w: Want) {
    let got = n.traverse(p);
    match w {
        Want::Nothing => assert!(matches!(got, TraversalResult::Empty(_)), "the path leads to nothing"),
        Want::Value(v) => match &got {
            TraversalResult::Value(b) => assert!(b.len() == 2 && b[0] == v && b[1] == 0x55, "the value at the path"),
            _ => panic!("the path leads to a value"),
        },
        Want::Next(h, rest) => match &got {
            TraversalResult::Node(n) => {
                assert!(n.hash.0[0] == h.0[0] && n.hash.0[31] == h.0[31], "the next node");
                assert!(same(n.remaining_path, rest), "the rest of the path");
            }
            _ => panic!("the path leads to a node"),
        },
        Want::Malformed => assert!(matches!(got, TraversalResult::Error(_)), "a malformed node is an error"),
    }
    std::mem::forget((n, got));
}
fn hash<const P: usize>() {
    let p = path::<P>();
    check(Node::from_hash(hash_of(1)), &p, Want::Next(hash_of(1), &p));
    nd::reach!(true, "reached");
}
fn empty<const P: usize>() {
    let p = path::<P>();
    check(Node::Empty, &p, Want::Nothing);
    nd::reach!(true, "reached");
}
/// A leaf with a key of `K` nibbles.
fn leaf<const K: usize, const P: usize>() {
    let (k, p) = (path::<K>(), path::<P>());
    let v = nd::u8();
    let hit = same(&k, &p);
    check(Node::from_leaf(leaf_key(&k), value(v)), &p, if hit { Want::Value(v) } else { Want::Nothing });
    nd::reach!(hit == (K == P), "reached");
}
/// A leaf whose key has no end mark, or consists of it.
fn bad_leaf<const K: usize, const P: usize>() {
    let (k, p) = (path::<K>(), path::<P>());
    check(Node::from_leaf(nibbles(&k), value(1)), &p, Want::Malformed);
    check(Node::from_leaf(leaf_key(&[]), value(1)), &p, Want::Malformed);
    nd::reach!(true, "reached");
}
fn prefixed<'a>(p: &'a [u8], k: &[u8]) -> Option<&'a [u8]> {
    if p.len() < k.len() {
        return None;
    }
    if same(&p[..k.len()], k) { Some(&p[k.len()..]) } else { None }
}
fn extension<const K: usize, const P: usize>() {
    let (k, p) = (path::<K>(), path::<P>());
    let w = match prefixed(&p, &k) {
        Some(rest) => Want::Next(hash_of(2), rest),
        None => Want::Nothing,
    };
    let hit = matches!(w, Want::Next(..));
    check(Node::from_extension(nibbles(&k), Node::from_hash(hash_of(2))), &p, w);
    nd::reach!(hit == (K <= P), "reached");
}
fn bad_extension<const P: usize>() {
    let p = path::<P>();
    check(Node::from_extension(nibbles(&[]), Node::from_hash(hash_of(2))), &p, Want::Malformed);
    nd::reach!(true, "reached");
}
/// A branch with a hashed child at each even position and none at the odd ones.
fn branch<const P: usize>(first: u8) {
    let mut p = path::<P>();
    if P > 0 {
        p[0] = first;
    }
    let mut c = empty_children();
    let mut i = 0;
    while i < 16 {
        c[i] = Node::from_hash(hash_of(i as u8));
        i += 2;
    }
    let v = nd::u8();
    let w = if P == 0 {
        Want::Value(v)
    } else if p[0] % 2 == 0 {
        Want::Next(hash_of(p[0]), &p[1..])
    } else {
        Want::Nothing
    };
    let b = RwLock::new(BranchNode { children: c, value: Some(value(v)) });
    check(Node::Branch(Arc::of(&b)), &p, w);
    std::mem::forget(b);
    nd::reach!(true, "reached");
}
fn bare_branch() {
    check(Node::from_branch(empty_children(), None), &[], Want::Nothing);
    nd::reach!(true, "reached");
}
/// A leaf inside a branch.
fn branch_leaf<const K: usize, const P: usize>(first: u8) {
    let (k, mut p) = (path::<K>(), path::<P>());
    p[0] = first;
    let mut c = empty_children();
    c[5] = Node::from_leaf(leaf_key(&k), value(9));
    let hit = P > 0 && p[0] == 5 && same(&p[1..], &k);
    let b = RwLock::new(BranchNode { children: c, value: None });
    check(Node::Branch(Arc::of(&b)), &p, if hit { Want::Value(9) } else { Want::Nothing });
    nd::reach!(hit == (first == 5 && P == K + 1), "reached");
}
/// A branch inside an extension.
fn extension_branch<const K: usize, const P: usize>(next: u8) {
    let (k, mut p) = (path::<K>(), path::<P>());
    let mut k = k;
    let mut i = 0;
    while i < K {
        k[i] = 3;
        p[i] = 3;
        i += 1;
    }
    if P > K {
        p[K] = next;
    }
    let mut c = empty_children();
    c[0] = Node::from_hash(hash_of(3));
    c[15] = Node::from_hash(hash_of(4));
    let w = match prefixed(&p, &k) {
        Some(rest) => {
            if rest.len() == 0 {
                Want::Value(7)
            } else if rest[0] == 0 {
                Want::Next(hash_of(3), &rest[1..])
            } else if rest[0] == 15 {
                Want::Next(hash_of(4), &rest[1..])
            } else {
                Want::Nothing
            }
        }
        None => Want::Nothing,
    };
    let b = RwLock::new(BranchNode { children: c, value: Some(value(7)) });
    check(Node::from_extension(nibbles(&k), Node::Branch(Arc::of(&b))), &p, w);
    std::mem::forget(b);
    nd::reach!(true, "reached");
}

nd::harnesses! {
    [6] fn hash_0() { hash::<0>() }
    [6] fn hash_3() { hash::<3>() }
    [6] fn empty_2() { empty::<2>() }
    [8] fn leaf_1_1() { leaf::<1, 1>() }
    [8] fn leaf_3_3() { leaf::<3, 3>() }
    [8] fn leaf_2_3() { leaf::<2, 3>() }
    [8] fn leaf_3_2() { leaf::<3, 2>() }
    [8] fn leaf_1_0() { leaf::<1, 0>() }
    [8] fn bad_leaf_2_2() { bad_leaf::<2, 2>() }
    [8] fn bad_leaf_0_0() { bad_leaf::<0, 0>() }
    [8] fn extension_1_3() { extension::<1, 3>() }
    [8] fn extension_2_2() { extension::<2, 2>() }
    [8] fn extension_3_2() { extension::<3, 2>() }
    [8] fn extension_1_0() { extension::<1, 0>() }
    [8] fn bad_extension_2() { bad_extension::<2>() }
    [18] fn branch_0() { branch::<0>(0) }
    [18] fn branch_1_first() { branch::<1>(0) }
    [18] fn branch_1_last() { branch::<1>(15) }
    [18] fn branch_3_third() { branch::<3>(2) }
    [18] fn branch_3_odd() { branch::<3>(9) }
    [18] fn branch_3_fourteen() { branch::<3>(14) }
    [18] fn branch_each() { let mut f = 0; while f < 16 { branch::<2>(f); f += 1; } }
    [18] fn leaf_6_6() { leaf::<6, 6>() }
    [18] fn extension_5_7() { extension::<5, 7>() }
    [18] fn branch_empty() { bare_branch() }
    [18] fn branch_leaf_1_2() { branch_leaf::<1, 2>(5) }
    [18] fn branch_leaf_2_2() { branch_leaf::<2, 2>(5) }
    [18] fn branch_leaf_1_2_other() { branch_leaf::<1, 2>(4) }
    [18] fn extension_branch_1_3() { extension_branch::<1, 3>(15) }
    [18] fn extension_branch_1_2() { extension_branch::<1, 2>(0) }
    [18] fn extension_branch_1_2_none() { extension_branch::<1, 2>(1) }
    [18] fn extension_branch_2_2() { extension_branch::<2, 2>(0) }
}
