#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite the file)."""
import json, os
C = "crates/"
B = "bin/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = C + "validation/src/"
E = C + "ethportal-api/src/"
N = C + "portalnet/src/"
S = C + "storage/src/"

p("C01", "A header proof is accepted only if it links the header to the trusted roots",
  "Validating a block header together with its proof succeeds exactly when the proof is of the kind that belongs to the fork the header falls into and its Merkle branches lead from the header's hash, at the positions fixed by the block number or slot, to the trusted accumulator entry for that position. Any other header, branch, slot or proof kind is answered with an error, never with success and never with a crash.",
  ["inputs", "configurations"], "all headers, all proof kinds, all branch contents, all slots including ones past the end of the trusted lists",
  "Tests replay a handful of recorded mainnet headers; wrong generalized indices, off-by-one period arithmetic or out-of-range slots are only seen for inputs nobody recorded.",
  [V+"header_validator.rs", V+"historical_summaries_provider.rs", V+"accumulator.rs"],
  [("fork dispatch", V+"header_validator.rs:HeaderValidator::validate_header_with_proof"),
   ("beacon block and execution block branch checks", V+"header_validator.rs:verify_*_proof"),
   ("summary lookup", V+"historical_summaries_provider.rs:get_historical_summary")],
  ["result of HeaderValidator::validate_header_with_proof"])

p("C02", "Merkle trees, proofs and proof verification agree with each other",
  "For every list of leaves that fits the depth, the tree built from it (at once or leaf by leaf) has the root defined by zero-padded pairwise hashing, and the proof generated for an index verifies for that leaf and index. At an index within the tree, only the leaf at that index together with its genuine siblings verifies against the root, and a branch whose length differs from the depth never verifies. Finalizing leaves never changes the root.",
  ["inputs"], "all leaf lists, depths, indices and tampered branches within the depth bound",
  "Example trees cover a few shapes; acceptance of a forged branch needs a search over all branches and indices.",
  [V+"merkle/proof.rs", V+"merkle/safe_arith.rs"],
  [("tree construction and insertion", V+"merkle/proof.rs:MerkleTree::{create,push_leaf}"),
   ("proof generation", V+"merkle/proof.rs:MerkleTree::generate_proof"),
   ("verification", V+"merkle/proof.rs:{verify_merkle_proof,merkle_root_from_branch}")],
  ["results of verify_merkle_proof, merkle_root_from_branch, MerkleTree::hash"])

p("C03", "History content is stored only if it is what its key names",
  "The legacy history network accepts a header only if its hash or number is the one in the key and its proof is valid, and accepts a block body or receipts only if the roots computed from the content equal the roots in a proven header whose hash is the one in the key. Content that does not decode, or whose header cannot be proven, is refused.",
  ["inputs"], "all keys and content values, all answers of the header lookup",
  "Tests use a few matching and mismatching pairs; a comparison against the wrong field or a skipped check passes them as long as no recorded pair hits it.",
  [C+"subnetworks/legacy-history/src/validation.rs"],
  [("per-kind comparison of content with key and header", C+"subnetworks/legacy-history/src/validation.rs:LegacyHistoryValidator::validate_content")],
  ["result of LegacyHistoryValidator::validate_content"])

p("C04", "State content is accepted only with a complete Merkle-Patricia proof",
  "A state trie node, contract storage node or contract bytecode is accepted as canonical only if the supplied proof leads, hash by hash along the path named by the key, from the trusted state root to exactly the item named by the key. A proof with a missing, extra, reordered or altered node is refused, and malformed nodes give an error rather than a crash.",
  ["inputs"], "all paths, proofs and node shapes within the size bound, with any subset of nodes tampered with",
  "Recorded mainnet proofs exercise only well-formed paths; acceptance of truncated or spliced proofs needs adversarial inputs.",
  [C+"subnetworks/state/src/validation/trie.rs", C+"subnetworks/state/src/validation/validator.rs", E+"types/state_trie/trie_traversal.rs", E+"types/state_trie/nibbles.rs"],
  [("proof walk", C+"subnetworks/state/src/validation/trie.rs:validate_trie_proof"),
   ("node traversal", E+"types/state_trie/trie_traversal.rs"),
   ("hash check", C+"subnetworks/state/src/validation/error.rs:check_node_hash")],
  ["results of validate_node_trie_proof and validate_account_state"])

p("C05", "Light-client updates are adopted only when they pass every sync-protocol rule",
  "An update is verified only if it has at least one participant, its slots are ordered (signature slot not in the future, attested before signature, finalized not after attested), its signature period is one the current store can check, it is relevant, its finality and next-committee branches prove what it claims, and the committee signature holds. An update failing any one of these is rejected.",
  ["inputs", "histories"], "all stores and updates (slots, participation, branch validity, signature validity, optional parts present or absent)",
  "Tests feed recorded mainnet updates and a few single-field corruptions; the rules interact and the corner slots (equal slots, period boundaries) are never reached.",
  [C+"light-client/src/consensus/consensus_client.rs", C+"light-client/src/consensus/utils.rs"],
  [("rule checks", C+"light-client/src/consensus/consensus_client.rs:verify_generic_update")],
  ["result of verifying an update against a store"],
  [("store", "finalized and optimistic header, current and next committee", C+"light-client/src/consensus/types.rs")])

p("C06", "The light-client store only moves forward and only on sufficient signatures",
  "Applying an update never moves the finalized or optimistic header to an older slot, moves the finalized header only with at least two thirds of the committee signing, moves the optimistic header only above the safety threshold, and replaces the current committee only by the previously known next committee at a period change. The set of verifiable periods never skips a committee.",
  ["inputs", "histories"], "all stores and all updates, and short sequences of updates",
  "Recorded histories always have near-full participation and steady periods; thresholds at exactly two thirds and rotation corner cases are not reached.",
  [C+"light-client/src/consensus/consensus_client.rs"],
  [("application rules", C+"light-client/src/consensus/consensus_client.rs:apply_generic_update")],
  ["store before and after applying an update"],
  [("store", "finalized/optimistic header, committees, participation counters", C+"light-client/src/consensus/types.rs")])

p("C07", "Iterative node lookups terminate and return the closest responsive nodes",
  "A node lookup never asks a node twice, never has more requests outstanding than its configured parallelism (or result count once stalled), and finishes once it has no node left to ask or enough results. Its result holds only nodes that answered, closest to the target first, at most the configured number, and no known node closer than the furthest result was left unasked.",
  ["schedules", "inputs", "fault_sequences"], "all orders of responses, failures, timeouts and polls, all peer sets and distances within the bounds",
  "Randomised tests sample orders with live peers; late answers after a timeout, duplicates and ties interact in ways random sampling misses.",
  [N+"find/iterators/findnodes.rs", N+"find/iterators/query.rs"],
  [("lookup state machine", N+"find/iterators/findnodes.rs:FindNodeQuery")],
  ["poll results and into_result of a node lookup"],
  [("peer states", "not contacted, waiting, unresponsive, failed, succeeded", N+"find/iterators/query.rs:QueryPeerState")])

p("C08", "Content lookups return only validated content and never lose it",
  "A content lookup reports content only after that very content was validated as good, from the peer that sent it; content found invalid never becomes the result and does not stop the lookup while other peers remain. The lookup never asks a peer twice, respects its parallelism, and ends when content is validated or nothing is left to ask or validate.",
  ["schedules", "inputs", "fault_sequences"], "all orders of peer answers (content or closer peers), failures, timeouts, validation outcomes and polls within the bounds",
  "Tests drive a few fixed orders; races between validation results, late answers and timeouts need enumeration of schedules.",
  [N+"find/iterators/findcontent.rs", N+"find/iterators/query.rs"],
  [("lookup state machine", N+"find/iterators/findcontent.rs:FindContentQuery")],
  ["poll results, pending validation results and into_result of a content lookup"])

p("C09", "Portal wire messages survive encoding and reject everything malformed",
  "Every protocol message decodes from its own encoding to the same message, its first byte is the message type fixed by the specification, and no byte string makes decoding crash. A byte string that decodes is the canonical encoding of the message it decodes to, and request and response kinds are never confused.",
  ["inputs"], "all messages within the size bound and all byte strings up to the length bound",
  "Tests encode one example per message; offset handling and selector mix-ups on hostile bytes need exhaustive inputs.",
  [E+"types/portal_wire.rs"],
  [("message union codec", E+"types/portal_wire.rs:Message"),
   ("request/response split", E+"types/portal_wire.rs:{Request,Response}")],
  ["Message <-> bytes, Message <-> Request/Response conversions"])

p("C10", "Content keys and their byte encodings correspond one to one",
  "Every content key of the history, legacy history, beacon and state networks encodes to its selector byte followed by its fields, and decoding those bytes gives back the same key. Bytes that are empty, carry an unknown selector, or have missing or surplus bytes are refused without a crash, and two different keys never share an encoding.",
  ["inputs"], "all keys and all byte strings up to the length bound",
  "Tests use one example key per kind; truncation, surplus bytes and selector collisions are not exercised.",
  [E+"types/content_key/legacy_history.rs", E+"types/content_key/history.rs", E+"types/content_key/beacon.rs", E+"types/content_key/state.rs"],
  [("key codecs", E+"types/content_key/*.rs:{to_bytes,try_from_bytes}")],
  ["to_bytes and try_from_bytes of each key type"])

p("C11", "Content ids are a fixed function of the content key",
  "The content id of every key is the SHA-256 of its encoding, except for keys that name a block by number in the history network, whose id is the specified bit arrangement of the number and kind. Those by-number ids are distinct for distinct blocks or kinds, and consecutive blocks in a group are spread evenly over the id space.",
  ["inputs"], "all keys; all 64-bit block numbers and kinds for by-number ids",
  "Tests check a few vectors; bijectivity over all block numbers is a universally quantified statement.",
  [E+"types/content_key/content_id.rs", E+"types/content_key/history.rs", E+"types/content_key/overlay.rs"],
  [("by-number id", E+"types/content_key/content_id.rs:range_content_id"),
   ("hash id", E+"types/content_key/overlay.rs:OverlayContentKey::content_id")],
  ["content_id of a key"])

p("C12", "XOR distance is a metric and its logarithm picks the right bucket",
  "The distance of two ids is their big-endian bitwise exclusive or, so it is symmetric, zero exactly for equal ids, and unidirectional; ordering of distances is ordering of those numbers. The logarithmic distance is the index of the highest differing bit, absent for equal ids, and the byte and 32-bit views are the leading bytes of the number.",
  ["inputs"], "all pairs and triples of 256-bit ids",
  "Tests compare a few ids and quickcheck symmetry; bit positions and byte order over all ids need a universal check.",
  [E+"types/distance.rs"],
  [("metric", E+"types/distance.rs:{XorMetric,Distance}")],
  ["XorMetric::distance, Distance::{log2,big_endian,big_endian_u32}, ordering"])

p("C13", "Offered content items are framed and unframed without loss",
  "Splitting the payload built from a list of content items gives back exactly those items in order, including empty items, and the single-item form accepts a payload only if it holds exactly one item. Any byte string is either split completely or refused: declared lengths beyond the payload or above 32 bits give an error, never a crash or a partial result.",
  ["inputs"], "all item lists and all byte strings within the length bound",
  "Tests frame a few lists; truncated and hostile length prefixes are not covered.",
  [N+"utils/portal_wire.rs"],
  [("framing", N+"utils/portal_wire.rs:encode_content_payload"),
   ("unframing", N+"utils/portal_wire.rs:{decode_content_payload,decode_single_content_payload,read_varint}")],
  ["encode_content_payload, decode_content_payload, decode_single_content_payload"])

p("C14", "Accept codes mean the same on both sides of every protocol version",
  "Accept answers encoded for a protocol version decode under that version to the same per-item answers (for the bit-list version: accepted or not), item positions are preserved, and codes 6 and above are read as unspecified. Answers that are too long or malformed are refused without a crash, and an answer list counts as fully declined only if no item is accepted.",
  ["inputs"], "all code lists up to the length bound, both protocol versions, all byte strings up to the bound",
  "Tests check one list; version mix-ups and bit positions need all lists.",
  [E+"types/accept_code.rs"],
  [("versioned codec", E+"types/accept_code.rs:AcceptCodeList::{encode,decode}"),
   ("code values", E+"types/accept_code.rs:AcceptCode")],
  ["AcceptCodeList::{encode,decode,all_declined}"])

p("C15", "Peers settle on the newest protocol version both support",
  "The protocol version used with a peer is the highest version in both nodes' announced lists (version 0 for a peer that announces none), an announced list survives its encoding, and if the lists share nothing an error results. A list is considered well formed only if strictly increasing and free of unspecified versions.",
  ["inputs"], "all announced version lists up to the length bound",
  "Tests compare a few lists; duplicates, unsorted and unspecified entries are not covered.",
  [E+"types/protocol_versions.rs", E+"types/network_spec.rs"],
  [("negotiation", E+"types/network_spec.rs:NetworkSpec::latest_common_protocol_version"),
   ("list checks", E+"types/protocol_versions.rs:ProtocolVersionList")],
  ["latest_common_protocol_version, is_strictly_sorted_and_specified"])

p("C16", "Ping extension payloads decode to what was sent or are refused",
  "Each ping extension payload decodes, under its own extension type, to the value that was encoded, and decoding it as a payload of that type never crashes. Type numbers map one to one to the supported extensions, payloads of a wrong length are refused, and client information survives only in its specified text form.",
  ["inputs"], "all payload values and byte strings within the bounds, all 65536 type numbers",
  "Tests decode a fixed vector per type.",
  [E+"types/ping_extensions/decode.rs", E+"types/ping_extensions/extension_types.rs", E+"types/ping_extensions/extensions/type_0.rs", E+"types/ping_extensions/extensions/type_1.rs", E+"types/ping_extensions/extensions/type_2.rs", E+"types/ping_extensions/extensions/type_65535.rs"],
  [("dispatch by type", E+"types/ping_extensions/decode.rs:PingExtension"),
   ("type numbers", E+"types/ping_extensions/extension_types.rs")],
  ["PingExtension decode/encode"])

p("C17", "Content in transfer is not accepted twice and a failed transfer is replaced",
  "While some content is being transferred, further offers of it are not accepted, and each other offering peer is remembered as a possible replacement. When the transfer fails, the peer that is tried instead is one that offered that very content meanwhile and not the one that failed. After a failure, a success or a timeout the key is forgotten so that a later offer starts afresh.",
  ["histories", "schedules"], "all sequences of offers, failures and completions over a few peers and keys",
  "Tests walk one sequence; repeated offers by the active peer and interleavings over several keys are not covered.",
  [N+"accept_queue.rs"],
  [("queue", N+"accept_queue.rs:AcceptQueue")],
  ["return values of add_key_to_queue, process_failed_key, remove_key"],
  [("queue", "per key: peers waiting and peers seen", N+"accept_queue.rs:SeenPeers")])

p("C18", "Gossip goes only to peers that want the content, the closest ones first",
  "Neighbourhood gossip of content picks only peers whose advertised radius covers the content, never a peer twice for the same content, and at most the configured number: the closest interested peers, plus a random choice among the remaining interested ones when there are many. If interested peers exist, at least one is picked.",
  ["inputs"], "all peer sets, radii, content ids and random choices within the bounds",
  "Tests use a few peer sets with a real random generator; the selection of far peers is random and its bounds are checked on samples only.",
  [N+"gossip/neighborhood.rs"],
  [("selection", N+"gossip/neighborhood.rs:select_content_recipients")],
  ["recipients returned for a content id"])

p("C19", "Stored usage figures equal what is stored and capacity is enforced",
  "After any sequence of inserts, deletes and pruning, the item count and total size kept by a content store equal the number and summed size of the rows in its table, inserting a key twice does not change them, and every stored value can be read back by id. After an insert has completed, the total size does not exceed the configured capacity by more than the pruning rules allow, and pruning removes the items furthest from the node first.",
  ["histories", "inputs"], "all short histories of insert, delete, lookup and prune over a few keys and value sizes",
  "Tests walk a few histories; duplicated inserts and pruning interleavings drift only on unusual histories.",
  [S+"versioned/id_indexed_v1/store.rs", S+"versioned/usage_stats.rs", S+"versioned/id_indexed_v1/pruning_strategy.rs"],
  [("store", S+"versioned/id_indexed_v1/store.rs:IdIndexedV1Store"),
   ("usage", S+"versioned/usage_stats.rs:UsageStats")],
  ["usage statistics, lookup results and radius of a store"],
  [("usage stats", "entry count and total size", S+"versioned/usage_stats.rs")])

p("C20", "Pruning is triggered, sized and limited by the configured capacity",
  "A store prunes exactly when its usage is above the capacity; the number of items a pruning step may delete is between one and the configured maximum whenever there is something to delete, and the step aims below the capacity without aiming below the target usage. The reaction to slow or fast pruning never takes the limit outside its bounds.",
  ["inputs", "histories"], "all usage figures, capacities and pruning durations",
  "Tests check a few numbers; integer rounding and boundary equality need all values.",
  [S+"versioned/id_indexed_v1/pruning_strategy.rs", S+"versioned/usage_stats.rs"],
  [("strategy", S+"versioned/id_indexed_v1/pruning_strategy.rs:PruningStrategy")],
  ["PruningStrategy::{should_prune,is_usage_above_target_capacity,get_pruning_count,observe_pruning_duration}"])

p("C21", "e2store entries and files read back exactly as written and reject garbage",
  "An entry or file written in the e2store format reads back as the same entries in the same order, and the length and reserved fields are those of the format. Any other bytes, including truncated headers, lengths past the end of the data and lengths near the integer limit, give an error rather than a crash or a wrong entry.",
  ["inputs"], "all entries within the size bound and all byte strings up to the length bound",
  "Tests read well-formed files; truncation at each byte and huge declared lengths are not covered.",
  [C+"e2store/src/e2store/types.rs", C+"e2store/src/e2store/memory.rs"],
  [("entry codec", C+"e2store/src/e2store/types.rs:{Header,Entry}"),
   ("file codec", C+"e2store/src/e2store/memory.rs:E2StoreMemory")],
  ["Entry::{serialize,deserialize}, Header::{read,write}, E2StoreMemory"])

p("C22", "Era file indices locate every block they cover",
  "The block index written for an era file decodes to the same starting number, offsets and count, and a block number is considered contained exactly if it lies in the covered range. Index bytes whose length disagrees with their count, or entries of a wrong type, are refused without a crash.",
  ["inputs"], "all index entries and all entry bytes within the bounds",
  "Tests read one recorded era file.",
  [C+"e2store/src/era1.rs", C+"e2store/src/e2hs.rs", C+"e2store/src/era.rs"],
  [("block indices", C+"e2store/src/era1.rs:BlockIndexEntry"), ("slot indices", C+"e2store/src/era.rs:SlotIndex*")],
  ["conversion between entries and index values"])

p("C23", "Nibble paths survive their packed encoding",
  "Every path of up to 64 nibbles encodes to the specified packed form and decodes back to itself. Values that are not nibbles, paths that are too long, and byte strings with an invalid flag or non-zero padding are refused without a crash, so each path has exactly one encoding.",
  ["inputs"], "all paths and byte strings up to the length bound",
  "Tests cover a few paths of each parity.",
  [E+"types/state_trie/nibbles.rs"],
  [("codec", E+"types/state_trie/nibbles.rs:Nibbles")],
  ["Nibbles encode/decode and construction"])

p("C24", "Trie traversal follows a path to the node, value or end it leads to",
  "Walking one trie node along a path of nibbles ends in the value stored at that path, in the next node with exactly the unconsumed rest of the path, or in an empty result when nothing is stored there, for every node kind and for nodes embedded in it. A malformed node (a leaf key that is empty or lacks its end mark, an empty extension) gives an error, and a short path never causes a crash.",
  ["inputs"], "all node kinds, key fragments and paths within the length bound",
  "Tests cover selected node and path pairs.",
  [E+"types/state_trie/trie_traversal.rs"],
  [("traversal", E+"types/state_trie/trie_traversal.rs:NodeTraversal")],
  ["result of traversing a node along a path"])

p("C25", "Slots, times and the numbers derived from them agree with each other",
  "Slot times are genesis plus twelve seconds per slot and the current slot is the number of whole slots since genesis; a slot from Capella on belongs to the historical summary numbered by whole stretches of 8192 slots since Capella, an earlier one to none, and sync committee periods are whole stretches of 8192 slots.",
  ["inputs", "configurations"], "all slots, genesis times and clock readings",
  "Tests check a few values; truncation of large slots and boundary seconds are not covered.",
  [E+"types/network_spec.rs", E+"types/consensus/historical_summaries.rs", E+"types/consensus/constants.rs", C+"light-client/src/consensus/utils.rs"],
  [("slot arithmetic", E+"types/network_spec.rs:NetworkSpec::{slot_to_timestamp,current_slot}"),
   ("summary index", E+"types/consensus/historical_summaries.rs:historical_summary_index")],
  ["slot_to_timestamp, current_slot, historical_summary_index"])

p("C26", "Every block executes under the rules of its hard fork",
  "For every block before Prague, the rule set chosen for a block is the one mainnet activated at that block number: never an earlier set at or after an activation, never a later set before it, and never going back as blocks advance. The miner rewards, uncle rewards and withdrawals credited for a block, and the DAO balance transfer, are the ones of that fork.",
  ["inputs"], "all block numbers and timestamps, all ommer distances",
  "Tests execute a few recorded blocks; each boundary (last block before, first block at) would need its own recording.",
  [C+"evm/src/spec_id.rs", B+"trin-execution/src/evm/post_block_beneficiaries.rs"],
  [("fork table", C+"evm/src/spec_id.rs:get_spec_id"), ("rewards", B+"trin-execution/src/evm/post_block_beneficiaries.rs")],
  ["rule set and balance increments chosen for a block"])

p("C27", "Storage capacity is split among networks without exceeding the total",
  "With a combined total, history and state share it equally (or get all of it when enabled alone) and the beacon network gets none of it; with per-network settings each network gets what is set for it. Networks that are not enabled are refused, and megabytes are decimal megabytes everywhere.",
  ["configurations", "inputs"], "all totals, all per-network settings and all sets of enabled networks",
  "Tests try a few configurations.",
  [S+"config.rs"],
  [("split", S+"config.rs:StorageCapacityConfig, PortalStorageConfigFactory")],
  ["capacity of the store configuration created for each network"])

p("C28", "A bridge mode argument is parsed exactly or refused with an error",
  "The recognised mode words, a snapshot number and a block range parse to exactly the mode they name, with both range ends kept and in order. Every other argument text, including non-ASCII, malformed, overflowing or reversed numbers, is refused with an error and never crashes the program.",
  ["inputs"], "all argument strings up to the length bound",
  "Tests try one valid and four invalid arguments.",
  [B+"portal-bridge/src/types/mode.rs"],
  [("parser", B+"portal-bridge/src/types/mode.rs:{BridgeMode,ModeType}::from_str")],
  ["result of parsing a mode argument"])

p("C29", "Splitting a block range into epochs covers each block exactly once",
  "The epochs returned for a block range are exactly those that contain a block of the range; an epoch wholly inside the range is marked complete, and any other carries the first and last block of the overlap. This holds for every range of block numbers, up to the largest representable one.",
  ["inputs"], "all start and end blocks whose epoch span is within the bound",
  "Tests try five ranges; boundary equality at both ends and the largest numbers are not covered.",
  [B+"portal-bridge/src/types/range.rs"],
  [("split", B+"portal-bridge/src/types/range.rs:block_range_to_epochs")],
  ["map returned for a block range"])

p("C30", "Hex text and bytes convert without loss and bad hex is refused",
  "Encoding bytes gives 0x followed by two lower-case (or, on request, upper-case) digits per byte, and decoding that text, in either letter case and with prefix 0x or 0X, gives the same bytes back. Text without the prefix, with an odd number of digits or with any other character is refused without a crash; the compact form shows short values in full and otherwise the first and last two bytes.",
  ["inputs"], "all byte strings and all UTF-8 texts up to the length bound",
  "Tests try single examples; multi-byte characters at the prefix boundary and odd lengths are not covered.",
  [E+"utils/bytes.rs"],
  [("codec", E+"utils/bytes.rs:{hex_encode,hex_decode,hex_encode_compact,hex_encode_upper}")],
  ["hex_encode, hex_decode, hex_encode_upper, hex_encode_compact"])

p("C31", "Random ids have exactly the requested number of leading zero bits",
  "A random 32-byte id asked to have a given number of leading zero bits has exactly that many, for every request from 0 to 255 and whatever the random generator returns. Every id with that many leading zero bits can be produced: the bits after the first one bit are unconstrained.",
  ["inputs"], "all 256 requests and all outputs of the random generator",
  "Tests draw samples for a few requests; a range that excludes its ends or fixes a bit passes most samples.",
  [E+"utils/bytes.rs"],
  [("generator", E+"utils/bytes.rs:random_32byte_array")],
  ["random_32byte_array"])

p("C32", "Consensus fork names and digests correspond one to one",
  "Each supported fork has the four-byte digest of mainnet, a digest names at most one fork and unknown digests are refused. Fork names parse in any letter case (with merge meaning Bellatrix), print as their lower-case name, parse back from what they print, and unknown names are refused.",
  ["inputs"], "all 2^32 digests and all name strings up to the length bound",
  "Tests try the four digests and four lower-case names.",
  [E+"types/consensus/fork.rs"],
  [("digest table", E+"types/consensus/fork.rs:ForkName"), ("name table", E+"types/consensus/fork.rs:FromStr")],
  ["ForkName conversions"])

p("C33", "Client names are recognised in any letter case and otherwise kept",
  "The six known client names are recognised in any letter case and print as their own name; nothing else is recognised as one of them. Any other name is kept, lower-cased, as an unknown client and is shown in its printed form.",
  ["inputs"], "all name strings up to the length bound",
  "Tests try no more than a few names.",
  [E+"types/client_type.rs"],
  [("parser", E+"types/client_type.rs:ClientType")],
  ["ClientType from and to text"])

p("C34", "Checked arithmetic never wraps and never crashes",
  "For every integer width, checked addition, subtraction, multiplication, division, remainder and shifts return the exact mathematical result when it is representable and an overflow or division-by-zero error otherwise; shifts fail exactly when the shift amount reaches the width (the remainder of the smallest value by minus one may be refused like the quotient). The assigning forms do the same and leave the operand untouched on error, and a checked sum equals the exact sum or reports overflow.",
  ["inputs"], "all operand values of every supported width; sums of up to four terms",
  "Tests try a few values per operation at one width.",
  [V+"merkle/safe_arith.rs"],
  [("operations", V+"merkle/safe_arith.rs:SafeArith, SafeArithIter")],
  ["safe_* results"])

p("C35", "A duration is recorded exactly when the caller asked for it",
  "A duration timer adds exactly one observation, equal to the elapsed time it returns, when it is stopped with recording, and none when it is stopped with discarding or simply dropped. The returned duration is the elapsed time in seconds and is never negative, even if the clock does not advance.",
  ["schedules", "inputs"], "all clock readings at start and stop, all ways of ending the timer",
  "Tests sleep 100 ms and check a lower bound only.",
  [C+"metrics/src/timer.rs"],
  [("timer", C+"metrics/src/timer.rs:DiscardOnDropHistogramTimer")],
  ["histogram observations and returned durations"])

p("C36", "JSON-RPC parameters keep their kind and values",
  "JSON-RPC parameters given as an array, as an object or left out are read as exactly that, convert to the equivalent JSON value, and write out as the JSON they were read from. Any other JSON in place of parameters is refused.",
  ["inputs"], "all JSON values up to the depth and size bound",
  "Tests read arrays only; objects, null and refused kinds are not covered.",
  [E+"types/jsonrpc/params.rs"],
  [("conversion", E+"types/jsonrpc/params.rs:Params")],
  ["Params to and from JSON"])

p("C37", "Responses with lists of records always fit into one packet",
  "A list of records trimmed for a response is the longest prefix of the original whose encoding fits the size limit, in the original order. A list that already fits is returned unchanged, and trimming always ends.",
  ["inputs"], "all lists and record sizes within the bounds, all limits",
  "Tests use a couple of lists and one limit.",
  [N+"overlay/service/utils.rs"],
  [("trimming", N+"overlay/service/utils.rs:pop_while_ssz_bytes_len_gt")],
  ["list after trimming"])

p("C38", "Query traces record who answered what, and only once",
  "The trace of a lookup lists for each peer what it answered, failures and cancellations under the peer that failed, distances that match the ids, and as the origin of the content the peer whose content was validated. Times are relative to the start of the lookup and never negative.",
  ["histories", "inputs"], "all short sequences of answers, content, failures and validations over a few peers",
  "Tests record one sequence.",
  [E+"types/query_trace.rs"],
  [("trace", E+"types/query_trace.rs:QueryTrace")],
  ["fields of the trace"])

p("C39", "Peers are selected for offers by eligibility, distance and reputation",
  "The bridge offers content only to peers that are known, eligible and whose advertised radius covers the content, never to one peer twice, and never to more than the configured number. A peer's record keeps a bounded history of recent outcomes, and a failed liveness check or offer never improves a peer's standing.",
  ["histories", "inputs"], "all short histories of liveness results and offers, all radii and ids",
  "Tests run a few weighted draws.",
  [B+"portal-bridge/src/census/peer.rs", B+"portal-bridge/src/census/scoring.rs"],
  [("record", B+"portal-bridge/src/census/peer.rs:Peer"), ("weights", B+"portal-bridge/src/census/scoring.rs:AdditiveWeight")],
  ["Peer::{is_eligible,record_*}, PeerSelector::select_peers"])

p("C40", "Beacon content is accepted only if recent, relevant and provable",
  "Beacon network content is accepted only if it decodes under a supported fork, its slots agree with its key, it is recent enough, and where it claims historical summaries their proof leads to the finalized state root. Everything else is refused without a crash.",
  ["inputs"], "all keys, decoded contents and finalized headers",
  "Tests use one recorded item per kind.",
  [C+"subnetworks/beacon/src/validation.rs"],
  [("rules", C+"subnetworks/beacon/src/validation.rs:BeaconValidator")],
  ["result of BeaconValidator::validate_content"])

p("C41", "Concurrent transfers never exceed the transfer limit and permits return",
  "The number of inbound and of outbound content transfers in progress never exceeds its configured limit, and every permit taken for a transfer is returned when the transfer ends, however it ends. A refused transfer leaves no trace.",
  ["schedules", "fault_sequences"], "all interleavings of starting, finishing, failing and cancelled transfers",
  "Tests run transfers one at a time.",
  [N+"utp/controller.rs"],
  [("semaphores", N+"utp/controller.rs:UtpController")],
  ["available permits"])

p("C42", "Overlay service answers every request exactly once under any schedule",
  "Each request made to the overlay service is answered exactly once, with a response that belongs to it or an error, whatever the order of network responses, timeouts and shutdown. Routing table entries follow liveness: a peer that stops answering is eventually removed.",
  ["schedules", "fault_sequences"], "all interleavings of requests, responses, timeouts and shutdown",
  "Integration tests run one schedule on a live runtime.",
  [N+"overlay/service/manager.rs", N+"overlay/protocol.rs"],
  [("event loop", N+"overlay/service/manager.rs")],
  ["responses on request channels"])

p("C43", "A restart after a crash finds a consistent content database",
  "Whatever point a write is interrupted at, after a restart the content database opens, its usage figures agree with its rows, and every row present is complete.",
  ["crash_points", "histories"], "all points at which the process or machine stops",
  "Tests never interrupt a write.",
  [S+"versioned/id_indexed_v1/store.rs", S+"utils.rs"],
  [("transactions and triggers of the SQL engine", S+"versioned/id_indexed_v1/sql.rs")],
  ["database content after reopening"])

p("C44", "Block execution reproduces the state root in every header",
  "Executing the blocks of the chain in order from genesis gives after each block the state root of its header.",
  ["histories"], "all blocks of the chain",
  "Tests execute the first few thousand blocks at most.",
  [B+"trin-execution/src/execution.rs", B+"trin-execution/src/evm/block_executor.rs"],
  [("executor", B+"trin-execution/src/evm/block_executor.rs")],
  ["state root after each block"])

p("C45", "RPC answers agree with the network's own view",
  "Every JSON-RPC endpoint returns the value the overlay produced for it, rejects parameters of a wrong shape with the specified error code, and never returns content that failed validation.",
  ["inputs", "schedules"], "all requests and overlay answers",
  "Peer tests call each endpoint once.",
  [C+"rpc/src/rpc_server.rs", C+"rpc/src/errors.rs"],
  [("server", C+"rpc/src/rpc_server.rs")],
  ["JSON-RPC responses"])

p("C46", "Routing table answers contain only connected peers that fit the request",
  "A request for nodes at given distances is answered with connected nodes at exactly these distances, each once, the own record for distance 0 only, and no more than the limit; requests for the closest nodes give the closest connected ones, closest first. A discovered record replaces a known one only if it is newer, without changing the peer's radius or connection state, and an unknown node enters the table as not connected.",
  ["inputs", "sequences"], "all tables, distances, limits, targets and records within the bounds",
  "Tests use tables filled with random connected nodes; combinations of disconnected nodes, repeated distances, limits and outdated records are not exercised.",
  [C+"portalnet/src/types/kbucket.rs", C+"portalnet/src/types/node.rs"],
  [("queries", C+"portalnet/src/types/kbucket.rs")],
  ["returned records", "table entries", "reported changes"])

with open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))) + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
import os
for x in P:
    for fl in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + fl):
            print("missing", x["id"], fl)
