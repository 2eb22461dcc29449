//! Hard forks of the execution layer with the interface of `alloy-hardforks`.
use alloy_primitives::U256;
macro_rules! forks {
    ($($f:ident)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum EthereumHardfork { $($f),* }
    };
}
forks!(Frontier Homestead Dao Tangerine SpuriousDragon Byzantium Constantinople Petersburg Istanbul MuirGlacier Berlin London ArrowGlacier GrayGlacier Paris Shanghai Cancun Prague Osaka);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum ForkCondition {
    Block(u64),
    TTD { activation_block_number: u64, fork_block: Option<u64>, total_difficulty: U256 },
    Timestamp(u64),
    #[default]
    Never,
}
impl ForkCondition {
    pub const fn active_at_block(&self, n: u64) -> bool {
        match self {
            ForkCondition::Block(b) | ForkCondition::TTD { activation_block_number: b, .. } => n >= *b,
            _ => false,
        }
    }
    pub const fn transitions_at_block(&self, n: u64) -> bool {
        match self {
            ForkCondition::Block(b) => n == *b,
            _ => false,
        }
    }
    pub const fn active_at_timestamp(&self, t: u64) -> bool {
        match self {
            ForkCondition::Timestamp(x) => t >= *x,
            _ => false,
        }
    }
    pub const fn as_timestamp(&self) -> Option<u64> {
        match self {
            ForkCondition::Timestamp(x) => Some(*x),
            _ => None,
        }
    }
    pub const fn active_at_timestamp_or_number(&self, t: u64, n: u64) -> bool {
        self.active_at_timestamp(t) || self.active_at_block(n)
    }
    pub const fn block_number(&self) -> Option<u64> {
        match self {
            ForkCondition::Block(b) => Some(*b),
            _ => None,
        }
    }
}
pub trait EthereumHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition;
    fn is_ethereum_fork_active_at_timestamp(&self, fork: EthereumHardfork, t: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_timestamp(t)
    }
    fn is_ethereum_fork_active_at_block(&self, fork: EthereumHardfork, n: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_block(n)
    }
    fn is_homestead_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Homestead, n) }
    fn is_tangerine_whistle_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Tangerine, n) }
    fn is_spurious_dragon_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::SpuriousDragon, n) }
    fn is_byzantium_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Byzantium, n) }
    fn is_constantinople_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Constantinople, n) }
    fn is_petersburg_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Petersburg, n) }
    fn is_istanbul_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Istanbul, n) }
    fn is_berlin_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Berlin, n) }
    fn is_london_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::London, n) }
    fn is_paris_active_at_block(&self, n: u64) -> bool { self.is_ethereum_fork_active_at_block(EthereumHardfork::Paris, n) }
    fn is_shanghai_active_at_timestamp(&self, t: u64) -> bool { self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Shanghai, t) }
    fn is_cancun_active_at_timestamp(&self, t: u64) -> bool { self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Cancun, t) }
    fn is_prague_active_at_timestamp(&self, t: u64) -> bool { self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Prague, t) }
    fn is_osaka_active_at_timestamp(&self, t: u64) -> bool { self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Osaka, t) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Net {
    Mainnet,
    Sepolia,
}
#[derive(Clone, Debug)]
pub struct EthereumChainHardforks(Net);
impl EthereumChainHardforks {
    pub fn mainnet() -> Self {
        Self(Net::Mainnet)
    }
    pub fn sepolia() -> Self {
        Self(Net::Sepolia)
    }
}
impl EthereumHardforks for EthereumChainHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition {
        use EthereumHardfork::*;
        use ForkCondition::*;
        let main = matches!(self.0, Net::Mainnet);
        let ttd = |n, f, d: u128| TTD { activation_block_number: n, fork_block: f, total_difficulty: U256::from_limbs([d as u64, (d >> 64) as u64, 0, 0]) };
        let block = |n| Block(if main { n } else { 0 });
        match fork {
            Frontier => Block(0),
            Homestead => block(1_150_000),
            Dao => block(1_920_000),
            Tangerine => block(2_463_000),
            SpuriousDragon => block(2_675_000),
            Byzantium => block(4_370_000),
            Constantinople | Petersburg => block(7_280_000),
            Istanbul => block(9_069_000),
            MuirGlacier => block(9_200_000),
            Berlin => block(12_244_000),
            London => block(12_965_000),
            ArrowGlacier => if main { Block(13_773_000) } else { Never },
            GrayGlacier => if main { Block(15_050_000) } else { Never },
            Paris => if main { ttd(15_537_394, None, 58_750_000_000_000_000_000_000) } else { ttd(1_450_409, Some(1_735_371), 17_000_000_000_000_000) },
            Shanghai => Timestamp(if main { 1_681_338_455 } else { 1_677_557_088 }),
            Cancun => Timestamp(if main { 1_710_338_135 } else { 1_706_655_072 }),
            Prague => Timestamp(if main { 1_746_612_311 } else { 1_741_159_776 }),
            Osaka => Never,
        }
    }
}
