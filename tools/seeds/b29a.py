ID="B29a"; PROPERTY="C29"
NEEDS="a range that ends exactly on the last block of an epoch but starts inside that same epoch"
BREAKS="an epoch of which only the end is covered is reported as fully covered when the range ends on the epoch boundary and starts after the middle of the epoch"
EDITS=[("bin/portal-bridge/src/types/range.rs","if epoch_first_block >= start_block && epoch_last_block <= end_block {","if epoch_first_block >= start_block - start_block % 2 && epoch_last_block <= end_block {")]
DEMO='''use portal_bridge::types::range::block_range_to_epochs;
fn main() {
    let m = block_range_to_epochs(8193, 16383);
    assert_eq!(m.get(&1), Some(&Some((8193, 16383))));
}
'''
