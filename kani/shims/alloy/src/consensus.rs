//! Block headers and constants of the execution layer.
use alloy_primitives::{Address, Bloom, Bytes, B256, B64, U256};
pub mod constants {
    pub const ETH_TO_WEI: u128 = 1_000_000_000_000_000_000;
    pub const GWEI_TO_WEI: u64 = 1_000_000_000;
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Header {
    pub parent_hash: B256,
    pub ommers_hash: B256,
    pub beneficiary: Address,
    pub state_root: B256,
    pub transactions_root: B256,
    pub receipts_root: B256,
    pub logs_bloom: Bloom,
    pub difficulty: U256,
    pub number: u64,
    pub gas_limit: u64,
    pub gas_used: u64,
    pub timestamp: u64,
    pub extra_data: Bytes,
    pub mix_hash: B256,
    pub nonce: B64,
    pub base_fee_per_gas: Option<u64>,
    pub withdrawals_root: Option<B256>,
    pub blob_gas_used: Option<u64>,
    pub excess_blob_gas: Option<u64>,
    pub parent_beacon_block_root: Option<B256>,
    pub requests_hash: Option<B256>,
}
