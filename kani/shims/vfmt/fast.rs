// `#[macro_use] mod` at the crate root, before any other `mod`
#[cfg(kani)]
macro_rules! format { ($($t:tt)*) => { ::vfmt::vformat!($($t)*) }; }
