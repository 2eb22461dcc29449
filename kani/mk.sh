#!/bin/bash
# mk.sh <id> [dep lines...]: creates the frame of a harness crate
set -e
id=$1; shift
d=$(cd "$(dirname "$0")" && pwd)/props/$id
mkdir -p $d/src
{
cat <<X
[package]
name = "$id"
version = "0.1.0"
edition = "2021"

[features]
thorough = []

[dependencies]
vp-nd = { path = "../../shims/nd" }
vstd = { path = "../../shims/vstd" }
vfmt = { path = "../../shims/vfmt" }
alloy = { path = "../../shims/alloy" }
alloy-rlp = { path = "../../shims/alloy-rlp" }
alloy-chains = { path = "../../shims/alloy-chains" }
alloy-hardforks = { path = "../../shims/alloy-hardforks" }
alloy-primitives = { path = "../../vendor/alloy-primitives", default-features = false, features = ["std"] }
anyhow = { path = "../../shims/anyhow" }
tracing = { path = "../../shims/tracing" }
bimap = { path = "../../shims/bimap" }
bytes = { path = "../../vendor/bytes" }
discv5 = { path = "../../shims/discv5" }
once_cell = { path = "../../shims/once_cell" }
parking_lot = { path = "../../shims/parking_lot" }
ethereum_ssz = { path = "../../shims/ssz" }
ethereum_ssz_derive = { path = "../../shims/ssz_derive" }
ssz_types = { path = "../../shims/ssz_types" }
serde = { version = "1", features = ["derive"] }
thiserror = "1"
X
for l in "$@"; do echo "$l"; done
cat <<X

[lints.rust]
unexpected_cfgs = "allow"
warnings = "allow"
X
} > $d/Cargo.toml
cat > $d/src/main.rs <<X
fn main() {
    #[cfg(not(kani))]
    nd::replay_main($id::TABLE);
}
X
