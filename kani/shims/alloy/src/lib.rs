//! The parts of the `alloy` crate that the checked code uses.
pub use alloy_primitives as primitives;
pub use alloy_primitives::hex;
pub mod consensus;
pub mod eips {
    pub mod eip4895 {
        use alloy_primitives::Address;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Withdrawal {
            pub index: u64,
            pub validator_index: u64,
            pub address: Address,
            pub amount: u64,
        }
    }
}
