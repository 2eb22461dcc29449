// `#[macro_use] mod` at the crate root, before any other `mod`
#[cfg(kani)]
macro_rules! format { ($($t:tt)*) => {{ if false { let _ = ::std::format_args!($($t)*); } ::std::string::String::new() }}; }
