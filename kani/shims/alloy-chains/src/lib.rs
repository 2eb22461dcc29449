//! Chain ids.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Chain(u64);
impl Chain {
    pub const fn mainnet() -> Self {
        Chain(1)
    }
    pub const fn sepolia() -> Self {
        Chain(11155111)
    }
    pub const fn id(self) -> u64 {
        self.0
    }
}
