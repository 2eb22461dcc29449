//! Lazily initialised statics (single thread).
pub use once_cell::sync::Lazy;
#[macro_export]
macro_rules! lazy_static {
    ($($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr;)*) => {
        $($(#[$a])* $v static $n: $crate::Lazy<$t> = $crate::Lazy::new(|| $e);)*
    };
}
