import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p("C01","Replicas converge once every edit reached every peer",
"Whenever every peer has received every insertion and deletion made by the others (each applied to its buffer exactly where its replica said, including the ones later released by the backlog iterators), all buffers hold the same characters in the same order. This holds for every interleaving of local edits and deliveries, whatever the offsets, lengths and replica ids involved.",
["inputs","schedules","histories"],
"all edit positions and lengths, all interleavings of local edits and deliveries among the peers, all per-pair delivery orders",
"The tests run a few literal two and three replica scenarios and recorded traces with fixed offsets, fixed ids and in-order delivery; the ordering of concurrent insertions and the splitting of runs depend on the relation between all offsets, clocks and ids.",
["src/run_tree.rs","src/replica.rs","src/run_indices.rs"],
[("integration of a remote insertion next to concurrent siblings (lamport descending, id ascending)","src/run_tree.rs: RunTree::merge_insertion, insert_run_after_another; impl Ord for EditRun"),
 ("integration of a remote deletion against the version its author had","src/run_tree.rs: RunTree::merge_deletion")],
[("lamport_clock","orders concurrent insertions","src/replica.rs"),("version_map","how much of each peer's text has been integrated","src/version_map.rs")],
["Replica::integrate_insertion","Replica::integrate_deletion","Replica::backlogged_insertions","Replica::backlogged_deletions"])

p("C02","Offsets and lengths returned always fit the local buffer",
"After every call, the length a replica keeps for its buffer equals the length of the buffer obtained by applying its own edits and the returned offsets and ranges; no sequence of local edits and integrations of peers' edits panics. Every offset returned for a remote insertion is at most the buffer's length at that moment.",
["inputs","schedules","histories"],
"all histories of local and remote edits with all positions and lengths",
"Tests compare the final strings of sampled histories; they do not track the length through every prefix of every history.",
["src/replica.rs","src/run_tree.rs","src/gtree.rs"],
[("cached subtree lengths are updated on every tree mutation","src/gtree.rs: insert_at_offset, delete, delete_range, with_leaf_mut…"),("offset of a leaf","src/gtree.rs: Gtree::offset_of_leaf")],
[("Inode.tree_len","sum of the visible lengths below","src/gtree.rs")],
["Replica::len","Replica::integrate_insertion","Replica::integrate_deletion"])

p("C03","A remote insertion lands between the characters its author saw",
"When an insertion is integrated at another peer, its text ends up after every character that preceded the insertion point at its author and before every character that followed it there, for all such characters still present; characters within one insertion keep their order and are never interleaved with themselves. Text inserted concurrently may fall in between, deleted neighbours never move it past surviving ones.",
["inputs","schedules","histories"],
"all insertion points, lengths, concurrent edits (including deletion of the neighbours) and delivery orders",
"Tests assert final strings for a dozen hand-written cases; the relation must hold for every position relative to every run boundary, and for every set of concurrent edits.",
["src/run_tree.rs","src/run_indices.rs","src/insertion.rs"],
[("the anchor carried by the insertion identifies the character to its left","src/run_tree.rs: RunTree::insert; src/insertion.rs"),("lookup of the run holding the anchor","src/run_indices.rs: RunIndices::idx_at_anchor")],
[],["Replica::inserted","Replica::integrate_insertion"])

p("C04","A remote deletion removes exactly what its author deleted",
"Integrating a deletion removes every character its author removed with it that is still visible here, and never a character that was still visible to the author after deleting or that the author had not yet received. The returned ranges are non-empty, ascending, non-overlapping, within the buffer, and refer to the buffer as it was before any of them is removed.",
["inputs","schedules","histories"],
"all deleted ranges, all concurrent insertions inside, at the edges of and around them, all overlapping concurrent deletions, all delivery orders",
"Tests have about ten literal deletions; splitting of the deleted range by concurrent insertions and overlapping deletions depends on the relation of all offsets.",
["src/run_tree.rs","src/deletion.rs","src/gtree.rs","src/version_map.rs"],
[("deletion carries start/end anchors and the author's version","src/deletion.rs"),("merge_deletion skips runs newer than the author's version","src/run_tree.rs: RunTree::merge_deletion")],
[],["Replica::deleted","Replica::integrate_deletion"])

p("C05","Edits arriving before their context wait and are released once",
"An insertion that reaches a peer before its author's earlier text or the text it was typed next to, or a deletion that arrives before its author's earlier deletions or the text it removes, returns nothing and changes nothing. After the missing edits have arrived, repeatedly draining the backlog iterators yields each waiting edit exactly once (deletions with nothing left to remove silently) and nothing that is not ready. The peer then holds the same text it would hold had everything arrived in order.",
["schedules","inputs","histories"],
"all permutations of the delivery order of all edits of all authors, all moments of draining, all positions and lengths",
"Tests cover a handful of fixed reorderings of concrete edits.",
["src/backlog.rs","src/replica.rs","src/version_map.rs"],
[("readiness of an edit","src/replica.rs: can_merge_insertion, can_merge_deletion, has_anchor"),("waiting edits kept sorted per author","src/backlog.rs: InsertionsBacklog::insert, DeletionsBacklog::insert, Iterator for BackloggedInsertions/BackloggedDeletions")],
[("backlog","edits waiting for their context","src/backlog.rs")],
["Replica::integrate_insertion","Replica::integrate_deletion","Replica::backlogged_insertions","Replica::backlogged_deletions"])

p("C06","Receiving an edit more than once has no further effect",
"Delivering the same insertion or deletion again, or a peer's own edit back to it, at any later moment - after it was integrated, while it waits in the backlog, or after it has become ready but before the backlog was drained - never panics and never changes the document a second time. All peers still converge.",
["schedules","fault_sequences","inputs"],
"all duplications of deliveries at all points of a history, with all positions and lengths",
"The tests never deliver an edit twice except one immediately integrated insertion.",
["src/replica.rs","src/backlog.rs"],
[("already merged edits are recognised by their timestamps","src/replica.rs: has_merged_insertion, has_merged_deletion"),("duplicate entries in the backlog","src/backlog.rs: insert_insertion, insert_deletion")],
[],["Replica::integrate_insertion","Replica::integrate_deletion","Replica::backlogged_insertions","Replica::backlogged_deletions"])

p("C07","Anchors keep pointing at the same place in the text",
"An anchor made with a left (right) bias resolves to the offset just after (before) the character it was attached to for as long as that character is visible; if it was deleted it resolves to the closest still visible position on the anchored side of the surviving neighbours, i.e. between the nearest surviving characters that were before and after it. The start (offset 0, left) and end (offset len, right) anchors always resolve to 0 and to the current length.",
["inputs","histories"],
"all anchor offsets and biases, all later local and remote edits",
"Tests check about ten literal anchors on documents with one to three runs.",
["src/run_tree.rs","src/anchor.rs","src/gtree.rs","src/run_indices.rs"],
[("anchor creation","src/run_tree.rs: RunTree::create_anchor"),("anchor resolution","src/run_tree.rs: RunTree::resolve_anchor")],
[],["Replica::create_anchor","Replica::resolve_anchor"])

p("C08","Anchors can be shared: None iff the text is not here yet",
"An anchor resolved at any peer yields None exactly when that peer has not integrated the insertion containing the anchored character, and a position otherwise; resolving never panics. Peers holding the same edits resolve the same anchor to the same offset.",
["inputs","schedules","histories"],
"all anchors created at any peer and resolved at any peer at any point of any history",
"Only one test resolves an anchor on a replica that lacks the insertion, with one bias and one offset.",
["src/replica.rs","src/run_tree.rs","src/run_indices.rs"],
[("presence test for the anchor's insertion","src/replica.rs: Replica::resolve_anchor, has_anchor")],
[],["Replica::resolve_anchor"])

p("C09","Encoding and decoding a replica preserves everything",
"Decoding an encoded replica (under a fresh id) succeeds and gives a replica that behaves exactly like the original for every later sequence of local edits, integrations, backlog drains and anchor resolutions as seen by any peer. It compares equal to the original as a document and holds the same waiting edits.",
["inputs","histories"],
"all replica states reachable by local and remote edits with all positions and lengths, including split and deleted runs, several authors and non-empty backlogs, and all later edits",
"Integration tests of encode need data that is not available offline; unit tests round-trip single fields with random samples.",
["src/encode.rs","src/encoded_replica.rs","src/run_tree.rs","src/run_indices.rs","src/gtree.rs","src/backlog.rs","src/version_map.rs","src/replica.rs"],
[("per-type Encode/Decode impls","src/*.rs: mod encode"),("variable-length integers","src/encode.rs, src/leb128.rs")],
[],["Replica::encode","Replica::decode","Replica::eq_decoded"])

p("C10","Damaged or foreign replica encodings are refused with an error",
"Decoding bytes that are not exactly what an encoder of the same protocol version produced - truncated, empty, altered in any byte of header, checksum or contents, or written by another protocol version - returns an error and never panics or yields a replica. A different protocol version is reported as such, a content mismatch as an invalid checksum.",
["inputs","fault_sequences"],
"all truncations and all byte modifications of encodings, all protocol numbers, all short byte strings",
"No test decodes damaged bytes.",
["src/encoded_replica.rs","src/encode.rs","src/leb128.rs"],
[("protocol number and checksum precede the contents","src/encoded_replica.rs: EncodedReplica::to_replica / from_bytes, checksum")],
[],["EncodedReplica::from_bytes","Replica::decode"])

p("C11","Forks and clones behave like the original document",
"A fork (under a new id) holds the same text as its parent and from then on behaves as a peer that received exactly the edits its parent had received: it accepts the same pending and future edits, its own edits are accepted by every peer, and editing it never affects the parent. A clone answers every later call exactly as the original would.",
["inputs","histories"],
"all fork and clone points in all histories (with edits in flight and in the backlog), all later edits of parent and child",
"Tests fork only pristine replicas at the beginning.",
["src/replica.rs","src/version_map.rs"],
[("clocks and version maps of a fork","src/replica.rs: Replica::fork; src/version_map.rs: BaseMap::fork")],
[],["Replica::fork","Clone for Replica"])

p("C12","Every inserted character has a unique, contiguous identity",
"The texts reported by the insertions of one replica cover consecutive temporal ranges, each exactly as long as the inserted text, starting where the replica's previous one ended; author and range are the same at every peer, including for edits released from the backlog. So two different insertions never describe the same character.",
["inputs","histories"],
"all sequences of local edits interleaved with remote ones, all lengths, all points of fork, clone or decode under a fresh id",
"Tests look at one or two insertions' texts.",
["src/text.rs","src/replica.rs","src/insertion.rs"],
[("the per-author character clock","src/replica.rs: Replica::inserted; src/version_map.rs")],
[],["Insertion::text","Insertion::inserted_by","Deletion::deleted_by","Text::temporal_range","BackloggedInsertions"])

p("C13","Arguments are checked: bad ones panic, degenerate ones do nothing",
"Local edits and anchors panic exactly when the offset or range lies outside the buffer or is reversed, and creating, forking or decoding panics exactly for the ids documented as forbidden; a rejected call is not a silent success. All range forms denoting the same characters have the same effect, and zero-length insertions and empty deletions change nothing at any peer.",
["inputs"],
"all offsets, lengths, range endpoints and range forms over the whole of usize, all ids",
"Tests check one offset past the end and one reversed range; the argument space is all of usize.",
["src/replica.rs","src/utils.rs","src/insertion.rs","src/deletion.rs"],
[("bounds checks at the API","src/replica.rs: inserted, deleted, create_anchor, new, fork, decode"),("range normalisation","src/utils.rs: range_bounds_to_start_end")],
[],["Replica::inserted","Replica::deleted","Replica::create_anchor","Replica::new","Replica::fork","Replica::decode"])

p("C14","Edits survive the trip over the wire unchanged",
"Serializing an insertion, a deletion or an encoded replica and deserializing it yields an equal value for every value a session can produce, including the largest integers; an edit that went over the wire has exactly the effect the original would have had.",
["inputs","histories"],
"all field values (all 64-bit integers), all shapes of version maps and anchors, all edits made in short histories",
"The serde integration tests need data that is not available offline and sample a few values.",
["src/encode.rs","src/insertion.rs","src/deletion.rs","src/text.rs","src/anchor.rs","src/version_map.rs","src/leb128.rs"],
[("serde glue over the Encode/Decode impls","src/encode.rs: impl_serialize!, impl_deserialize!"),("per-type Encode/Decode","src/insertion.rs, src/deletion.rs, src/text.rs, src/anchor.rs, src/version_map.rs")],
[],["Serialize/Deserialize for Insertion, Deletion, EncodedReplica"])

p("C15","Malformed edits from the network are errors, not panics",
"Deserializing an insertion or deletion from arbitrary bytes either yields a value or an error: it never panics, overflows, reads out of bounds, loops forever or allocates memory out of proportion to its input.",
["inputs"],
"all byte strings up to the bound",
"No test deserializes malformed edits.",
["src/encode.rs","src/insertion.rs","src/deletion.rs","src/text.rs","src/anchor.rs","src/version_map.rs","src/leb128.rs"],
[("each Decode impl checks its input","src/*.rs: mod encode")],
[],["Deserialize for Insertion, Deletion"])

p("C16","The guarantees hold at every document size and tree shape",
"However many runs a document consists of - across every split of leaves, inner nodes and root and for insertions made by one author in arbitrarily many pieces - edits, integrations, deletions and anchor lookups keep giving the offsets that the text itself dictates, and peers converge. The internal consistency checks of a replica succeed after every operation.",
["inputs","histories"],
"edits at every position of documents with tens to hundreds of runs, built by several histories",
"Large documents are only reached by recorded traces, which are a single history each and never exercise most node-boundary positions.",
["src/gtree.rs","src/run_tree.rs","src/run_indices.rs"],
[("node splitting and rebalancing","src/gtree.rs"),("per-run fragment lists switch to a tree when long","src/run_indices.rs: Fragments")],
[("Gtree","arity-32 tree of runs; arity-8 trees of run fragments","src/gtree.rs, src/run_indices.rs")],
["Replica::inserted","Replica::deleted","Replica::integrate_insertion","Replica::integrate_deletion","Replica::resolve_anchor"],
"optional: cfg flag lowering the tree arity so that deep trees are reached with few operations")

p("C17","The unsafe code never causes undefined behaviour",
"No sequence of calls through the safe API makes the library read or write outside a live allocation, use memory after it was freed, execute code it declared unreachable, or read an uninitialised or mistyped node. Dropping replicas and iterators at any point frees everything exactly once.",
["inputs","histories"],
"all histories explored for the other properties, plus dropping iterators half way",
"Tests only notice undefined behaviour that happens to change a result.",
["src/gtree.rs","src/backlog.rs","src/run_tree.rs"],
[("transmuted borrows","src/backlog.rs: BackloggedInsertions/BackloggedDeletions::from_replica"),("node index union and two-node mutable borrows","src/gtree.rs")],
[],["the whole public API"])

p("C18","Bad contents behind a valid checksum are handled without a panic",
"Decoding an encoding whose header and checksum are right but whose contents were not produced by an encoder never panics, overflows, reads out of bounds, loops forever or allocates memory out of proportion to its input. Contents that end early, refer to parts of the document that do not exist or contain malformed numbers or flags are refused with the invalid-data error.",
["inputs"],
"all contents up to the bound, and all single-field changes of contents produced by real encoders",
"No test decodes malformed contents.",
["src/encoded_replica.rs","src/run_tree.rs","src/gtree.rs","src/run_indices.rs","src/version_map.rs","src/backlog.rs"],
[("Decode impls of each part","src/*.rs: mod encode")],
[],["Replica::decode"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
