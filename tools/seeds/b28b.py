ID="B28b"; PROPERTY="C28"
NEEDS="a snapshot number with a leading zero, or the number zero"
BREAKS="leading zeros are cut off before parsing, so snapshot:0 is refused"
EDITS=[("bin/portal-bridge/src/types/mode.rs","""let snapshot = val[1..]
""","""let snapshot = val[1..]
                            .trim_start_matches('0')
""")]
DEMO='''use portal_bridge::types::mode::BridgeMode;
use std::str::FromStr;
fn main() { assert_eq!(BridgeMode::from_str("snapshot:0"), Ok(BridgeMode::Snapshot(0))); }
'''
