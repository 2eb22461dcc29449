From fefa743439fcda4ba8d36797f8430aa6847e8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:28 +0000
Subject: [PATCH 1/4] fix: refuse malformed bridge block ranges instead of
 panicking

A range such as "single:r1" or "single:rx-2", or one starting with a
multi-byte character, crashed the argument parser. It is now reported as an
invalid argument like every other malformed mode.
---
 bin/portal-bridge/src/types/mode.rs | 30 +++++++++++++----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/bin/portal-bridge/src/types/mode.rs b/bin/portal-bridge/src/types/mode.rs
index 4c8dc49..30c0567 100644
--- a/bin/portal-bridge/src/types/mode.rs
+++ b/bin/portal-bridge/src/types/mode.rs
@@ -60,23 +60,19 @@ impl FromStr for ModeType {
         if s.is_empty() {
             return Err("Invalid bridge mode arg: empty string".to_string());
         }
-        match &s[..1] {
-            "r" => {
-                let range_vec = s[1..]
-                    .split('-')
-                    .map(|range_input| {
-                        range_input.parse().expect(
-                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)",
-                        )
+        match s.strip_prefix('r') {
+            Some(range) => {
+                let (start_block, end_block) = range
+                    .split_once('-')
+                    .ok_or("Invalid bridge mode arg: expected 2 numbers in range")?;
+                let parse_block = |block: &str| {
+                    block.parse::<u64>().map_err(|_| {
+                        "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)"
+                            .to_string()
                     })
-                    .collect::<Vec<u64>>();
-
-                if range_vec.len() != 2 {
-                    return Err("Invalid bridge mode arg: expected 2 numbers in range".to_string());
-                }
-
-                let start_block = range_vec[0].to_owned();
-                let end_block = range_vec[1].to_owned();
+                };
+                let start_block = parse_block(start_block)?;
+                let end_block = parse_block(end_block)?;
 
                 if start_block > end_block {
                     return Err(
@@ -86,7 +82,7 @@ impl FromStr for ModeType {
 
                 Ok(ModeType::BlockRange(start_block, end_block))
             }
-            _ => Err("Invalid bridge mode arg: type prefix".to_string()),
+            None => Err("Invalid bridge mode arg: type prefix".to_string()),
         }
     }
 }
-- 
2.43.0


From 65b440916e8575e61ef52c8f1215640b89f944e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:28 +0000
Subject: [PATCH 2/4] fix: avoid overflow for the epoch that holds the largest
 block number

The last block of an epoch was computed by adding the epoch length before
subtracting one, which overflowed for the epoch that ends at u64::MAX.
---
 bin/portal-bridge/src/types/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/portal-bridge/src/types/range.rs b/bin/portal-bridge/src/types/range.rs
index bd279d6..9620601 100644
--- a/bin/portal-bridge/src/types/range.rs
+++ b/bin/portal-bridge/src/types/range.rs
@@ -23,7 +23,7 @@ pub fn block_range_to_epochs(start_block: u64, end_block: u64) -> HashMap<u64, O
     for epoch in start_epoch..=end_epoch {
         // Calculate the first and last block of the current epoch
         let epoch_first_block = epoch * SLOTS_PER_HISTORICAL_ROOT;
-        let epoch_last_block = epoch_first_block + SLOTS_PER_HISTORICAL_ROOT - 1;
+        let epoch_last_block = epoch_first_block + (SLOTS_PER_HISTORICAL_ROOT - 1);
 
         // Determine if the epoch is fully or partially covered
         if epoch_first_block >= start_block && epoch_last_block <= end_block {
-- 
2.43.0


From 22c081511ad6436266922144bb3d14c06676fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:19 +0000
Subject: [PATCH 3/4] fix: refuse header proofs whose slot is past the
 historical roots instead of panicking

---
 crates/validation/src/header_validator.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/validation/src/header_validator.rs b/crates/validation/src/header_validator.rs
index c1dc9c9..324f3d6 100644
--- a/crates/validation/src/header_validator.rs
+++ b/crates/validation/src/header_validator.rs
@@ -308,15 +308,21 @@ impl HeaderValidator {
         let block_root_index = slot % SLOTS_PER_HISTORICAL_ROOT;
         let gen_index = 2 * SLOTS_PER_HISTORICAL_ROOT + block_root_index;
         let historical_root_index = slot / SLOTS_PER_HISTORICAL_ROOT;
-        let historical_root =
-            self.historical_roots_acc.historical_roots[historical_root_index as usize];
+        let Some(historical_root) = self
+            .historical_roots_acc
+            .historical_roots
+            .get(historical_root_index as usize)
+        else {
+            error!("Historical root index out of bounds: {historical_root_index}");
+            return false;
+        };
 
         verify_merkle_proof(
             beacon_block_root,
             beacon_block_proof,
             14,
             gen_index as usize,
-            historical_root,
+            *historical_root,
         )
     }
 
-- 
2.43.0


From 184da50d7a0d98434a6585e410fb81f30758d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:44 +0000
Subject: [PATCH 4/4] fix: refuse truncated and oversized e2store entries
 instead of panicking

---
 crates/e2store/src/e2store/memory.rs | 15 +++++++--------
 crates/e2store/src/e2store/types.rs  |  6 +++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/e2store/src/e2store/memory.rs b/crates/e2store/src/e2store/memory.rs
index 5eca438..04842bd 100644
--- a/crates/e2store/src/e2store/memory.rs
+++ b/crates/e2store/src/e2store/memory.rs
@@ -42,13 +42,12 @@ impl E2StoreMemory {
         let mut entries = Vec::new();
         let mut offset = 0;
         while offset < bytes.len() {
-            let entry_length = u32::from_le_bytes([
-                bytes[offset + 2],
-                bytes[offset + 3],
-                bytes[offset + 4],
-                bytes[offset + 5],
-            ]) + Header::SERIALIZED_SIZE as u32;
-            let terminating_entry_index = offset + entry_length as usize;
+            let header = bytes
+                .get(offset..offset + Header::SERIALIZED_SIZE as usize)
+                .ok_or_else(|| anyhow!("truncated entry header at offset {offset}"))?;
+            let entry_length =
+                Header::deserialize(header)?.length as usize + Header::SERIALIZED_SIZE as usize;
+            let terminating_entry_index = offset + entry_length;
             if bytes.len() < terminating_entry_index {
                 return Err(anyhow!(
                     "invalid buf length: {} - expected {}",
@@ -57,7 +56,7 @@ impl E2StoreMemory {
                 ));
             }
             let entry = Entry::deserialize(&bytes[offset..terminating_entry_index])?;
-            offset += entry_length as usize;
+            offset += entry_length;
             entries.push(entry);
         }
         Ok(Self { entries })
diff --git a/crates/e2store/src/e2store/types.rs b/crates/e2store/src/e2store/types.rs
index b41becd..7261e46 100644
--- a/crates/e2store/src/e2store/types.rs
+++ b/crates/e2store/src/e2store/types.rs
@@ -57,7 +57,11 @@ impl Entry {
 
     /// Deserialize from a byte slice.
     pub fn deserialize(bytes: &[u8]) -> anyhow::Result<Self> {
-        let header = Header::deserialize(&bytes[0..8])?;
+        let header = Header::deserialize(
+            bytes
+                .get(..Header::SERIALIZED_SIZE as usize)
+                .ok_or_else(|| anyhow!("entry is too short: {}", bytes.len()))?,
+        )?;
         if header.length as usize + Header::SERIALIZED_SIZE as usize != bytes.len() {
             return Err(anyhow!(
                 "found invalid buf length for entry: {} - expected {}",
-- 
2.43.0

