//! C26: rule sets and rewards of mainnet's hard forks.
extern crate self as trin_evm;
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/evm/src/spec_id.rs"]
pub mod spec_id;
pub mod storage {
    pub mod evm_db {
        pub struct EvmDB;
    }
}
pub mod e2hs {
    pub mod types {
        use alloy::{eips::eip4895::Withdrawal, primitives::Address};
        /// The fields of a header that matter here.
        #[derive(Clone, Default)]
        pub struct Header {
            pub number: u64,
            pub timestamp: u64,
            pub beneficiary: Address,
        }
        #[derive(Clone)]
        pub struct ProcessedBlock {
            pub header: Header,
            pub uncles: Option<Vec<Header>>,
            pub withdrawals: Option<Vec<Withdrawal>>,
            pub transactions: Vec<()>,
        }
    }
}
pub mod evm {
    #[path = "/repo/bin/trin-execution/src/evm/dao_fork.rs"]
    pub mod dao_fork;
    #[path = "/repo/bin/trin-execution/src/evm/post_block_beneficiaries.rs"]
    pub mod post_block_beneficiaries;
}

use alloy::eips::eip4895::Withdrawal;
use alloy::primitives::Address;
use e2hs::types::{Header, ProcessedBlock};
use evm::post_block_beneficiaries::get_post_block_beneficiaries;
use revm::{database::State, handler::MainnetContext, MainnetEvm};
use revm_primitives::hardfork::SpecId;
use spec_id::*;
use std::collections::HashMap;
use storage::evm_db::EvmDB;

/// Mainnet's activations by block number, up to the one before Prague.
const FORKS: [(SpecId, u64); 18] = [
    (SpecId::FRONTIER, 0),
    (SpecId::FRONTIER_THAWING, 200_000),
    (SpecId::HOMESTEAD, 1_150_000),
    (SpecId::DAO_FORK, 1_920_000),
    (SpecId::TANGERINE, 2_463_000),
    (SpecId::SPURIOUS_DRAGON, 2_675_000),
    (SpecId::BYZANTIUM, 4_370_000),
    (SpecId::CONSTANTINOPLE, 7_280_000),
    (SpecId::PETERSBURG, 7_280_000),
    (SpecId::ISTANBUL, 9_069_000),
    (SpecId::MUIR_GLACIER, 9_200_000),
    (SpecId::BERLIN, 12_244_000),
    (SpecId::LONDON, 12_965_000),
    (SpecId::ARROW_GLACIER, 13_773_000),
    (SpecId::GRAY_GLACIER, 15_050_000),
    (SpecId::MERGE, 15_537_394),
    (SpecId::SHANGHAI, 17_034_870),
    (SpecId::CANCUN, 19_426_587),
];
const PRAGUE: u64 = 22_431_084;

fn rules() {
    let n = nd::u64();
    nd::assume(n < PRAGUE);
    let mut want = SpecId::FRONTIER;
    let mut i = 0;
    while i < FORKS.len() {
        if n >= FORKS[i].1 {
            want = FORKS[i].0;
        }
        i += 1;
    }
    assert!(get_spec_id(n) == want, "the rules of mainnet at this block");
    nd::reach!(want == SpecId::CANCUN, "the newest");
    nd::reach!(want == SpecId::FRONTIER, "the oldest");
}
fn forward() {
    let (a, b) = (nd::u64(), nd::u64());
    nd::assume(a <= b);
    assert!(get_spec_id(a) <= get_spec_id(b), "rules never go back");
    nd::reach!(get_spec_id(a) < get_spec_id(b), "they advance");
}
fn activation() {
    let i = nd::u8() as usize;
    nd::assume(i < FORKS.len());
    assert!(get_spec_block_number(FORKS[i].0) == FORKS[i].1, "the activation of a fork");
    nd::reach!(i == 17, "the newest");
}

const ETH: u128 = 1_000_000_000_000_000_000;
const DAO: [u8; 20] = [0xbf, 0x4e, 0xd7, 0xb2, 0x7f, 0x1d, 0x66, 0x65, 0x46, 0xe3, 0x0d, 0x74, 0xd5, 0x0d, 0x17, 0x3d, 0x20, 0xbc, 0xa7, 0x54];
const DRAINED: u128 = 12_001_362_651_949_204_206_140_413;
fn drain(n: usize) -> u128 {
    assert!(n == 116, "the accounts that are drained");
    DRAINED
}
fn address(k: u8) -> Address {
    let mut a = [0x11; 20];
    a[19] = k;
    Address::new(a)
}
fn base(n: u64) -> u128 {
    if n >= 15_537_394 {
        0
    } else if n >= 7_280_000 {
        2 * ETH
    } else if n >= 4_370_000 {
        3 * ETH
    } else {
        5 * ETH
    }
}
fn credited(b: &ProcessedBlock) -> [u128; 4] {
    let mut evm = MainnetEvm(MainnetContext(State { db: EvmDB, drain }), ());
    let got = match get_post_block_beneficiaries(&mut evm, b) {
        Ok(g) => g,
        Err(_) => panic!("the credits are computed"),
    };
    let of = |a: &Address| match got.get(a) {
        Some(v) => *v,
        None => 0,
    };
    let r = [of(&address(0)), of(&address(1)), of(&address(2)), of(&Address::new(DAO))];
    std::mem::forget(got);
    r
}
fn same(a: &[u128; 4], b: &[u128; 4]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
}
fn number(low: u64, high: u64) -> u64 {
    let n = nd::u64();
    nd::assume(low <= n && n < high);
    n
}
/// `U` uncles.
fn rewards<const U: usize>(low: u64, high: u64, miner: u8, of: [u8; U]) {
    let n = number(low, high);
    let mut want = [0u128; 4];
    let mut uncles = Vec::with_capacity(4);
    let mut i = 0;
    while i < U {
        let (who, age) = (of[i], nd::u8());
        nd::assume(1 <= age && age <= 7 && age as u64 <= n);
        let mut h = Header::default();
        h.number = n - age as u64;
        h.beneficiary = address(who);
        uncles.push(h);
        want[who as usize] += (8 - age as u128) * (base(n) / 8);
        i += 1;
    }
    want[miner as usize] += base(n) + base(n) / 32 * U as u128;
    let mut header = Header::default();
    header.number = n;
    header.beneficiary = address(miner);
    if n == 1_920_000 {
        want[3] = DRAINED;
    }
    let b = ProcessedBlock { header, uncles: Some(uncles), withdrawals: None, transactions: Vec::new() };
    assert!(same(&credited(&b), &want), "rewards of miner and uncles");
    nd::reach!(true, "reached");
    std::mem::forget(b);
}
fn merged<const W: usize>(miner: u8, of: [u8; W], listed: bool) {
    let n = number(15_537_394, u64::MAX);
    let mut want = [0u128; 4];
    let mut withdrawals = Vec::with_capacity(4);
    let mut i = 0;
    while i < W {
        let who = of[i];
        let amount = if i == 0 { nd::u32() as u64 } else { [64_000_000_000, 0, 1][i - 1] };
        let w = Withdrawal { index: nd::u64(), validator_index: nd::u64(), address: address(who), amount };
        want[who as usize] += w.amount as u128 * 1_000_000_000;
        withdrawals.push(w);
        i += 1;
    }
    let mut header = Header::default();
    header.number = n;
    header.beneficiary = address(miner);
    let uncles = if listed { Some(Vec::new()) } else { None };
    let b = ProcessedBlock { header, uncles, withdrawals: Some(withdrawals), transactions: Vec::new() };
    assert!(same(&credited(&b), &want), "withdrawals and nothing else");
    nd::reach!(want[1] > 0 || W == 0, "something is credited");
    std::mem::forget(b);
}

nd::harnesses! {
    [20] fn rules_of_a_block() { rules() }
    [20] fn rules_advance() { forward() }
    [20] fn activation_of_a_fork() { activation() }
    [34] fn frontier_0() { rewards::<0>(1, 4_370_000, 0, []) }
    [34] fn byzantium_0() { rewards::<0>(4_370_000, 7_280_000, 0, []) }
    [34] fn petersburg_0() { rewards::<0>(7_280_000, 15_537_394, 0, []) }
    [34] fn frontier_1() { rewards::<1>(1, 4_370_000, 0, [1]) }
    [34] fn byzantium_1() { rewards::<1>(4_370_000, 7_280_000, 1, [1]) }
    [34] fn petersburg_1() { rewards::<1>(7_280_000, 15_537_394, 2, [0]) }
    [34] fn frontier_2() { rewards::<2>(1, 4_370_000, 0, [1, 1]) }
    [34] fn byzantium_2() { rewards::<2>(4_370_000, 7_280_000, 0, [1, 2]) }
    [34] fn petersburg_2() { rewards::<2>(7_280_000, 15_537_394, 0, [0, 1]) }
    [34] fn merged_0() { merged::<0>(0, [], true) }
    [34] fn merged_1() { merged::<1>(1, [1], true) }
    [34] fn merged_2() { merged::<2>(0, [1, 2], false) }
    [34] fn merged_3() { merged::<3>(2, [1, 1, 0], true) }
}
