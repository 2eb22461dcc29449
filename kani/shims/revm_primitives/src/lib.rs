//! The hard forks of revm, in its order.
pub use alloy_primitives::{address, Address, B256, U256};
pub mod hardfork {
    #[allow(non_camel_case_types)]
    #[repr(u8)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum SpecId {
        FRONTIER = 0,
        FRONTIER_THAWING,
        HOMESTEAD,
        DAO_FORK,
        TANGERINE,
        SPURIOUS_DRAGON,
        BYZANTIUM,
        CONSTANTINOPLE,
        PETERSBURG,
        ISTANBUL,
        MUIR_GLACIER,
        BERLIN,
        LONDON,
        ARROW_GLACIER,
        GRAY_GLACIER,
        MERGE,
        SHANGHAI,
        CANCUN,
        PRAGUE,
        OSAKA,
    }
    impl SpecId {
        pub fn is_enabled_in(self, other: SpecId) -> bool {
            self as u8 >= other as u8
        }
    }
}
