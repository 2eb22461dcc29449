//! `tracing` without output.
macro_rules! silent {
    ($d:tt $($m:ident)*) => {$(
        #[macro_export]
        macro_rules! $m { ($d($d t:tt)*) => {{}}; }
    )*};
}
silent!($ trace debug info warn error event);
#[macro_export]
macro_rules! enabled { ($($t:tt)*) => { false }; }
pub struct Level;
impl Level {
    pub const TRACE: Level = Level;
    pub const DEBUG: Level = Level;
    pub const INFO: Level = Level;
    pub const WARN: Level = Level;
    pub const ERROR: Level = Level;
}
