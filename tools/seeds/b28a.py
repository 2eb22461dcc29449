ID="B28a"; PROPERTY="C28"
NEEDS="a range whose end is block 0 and whose start is not"
BREAKS="single:r5-0 is accepted as a range although the end lies before the start"
EDITS=[("bin/portal-bridge/src/types/mode.rs","if start_block > end_block {","if end_block > 0 && start_block > end_block {")]
DEMO='''use portal_bridge::types::mode::BridgeMode;
use std::str::FromStr;
fn main() { assert!(BridgeMode::from_str("single:r5-0").is_err()); assert!(BridgeMode::from_str("single:r0-0").is_ok()); }
'''
