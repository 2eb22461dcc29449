ID="B29b"; PROPERTY="C29"
NEEDS="a range of more than one epoch that ends on the first block of an epoch"
BREAKS="the last epoch is left out when only its first block belongs to the range"
EDITS=[("bin/portal-bridge/src/types/range.rs","let end_epoch = end_block / SLOTS_PER_HISTORICAL_ROOT;","let end_epoch = end_block.saturating_sub(1).max(start_block) / SLOTS_PER_HISTORICAL_ROOT;")]
DEMO='''use portal_bridge::types::range::block_range_to_epochs;
fn main() {
    let m = block_range_to_epochs(8000, 8192);
    assert_eq!(m.get(&1), Some(&Some((8192, 8192))));
    assert_eq!(m.len(), 2);
}
'''
