"""The properties, their checks and anchors: one source for properties.jsonl and MANIFEST.json."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe or [], state=state or [], hook=hook))


TRUST = " Trusts the generators' reach (random exploration, not proof) and the reference written in the check."

# ---------------------------------------------------------------- queries
prop("Q01", "A query item means exactly one set of keys, everywhere",
     "Each kind of query item (a key or one of the nine ranges) selects exactly the keys its bounds describe, in byte order. "
     "Membership, bounds, overlap and union/intersection/difference of items, insertion of items into a query, enumeration of keys, walking an ordered store in either direction, and splitting items at a node all agree with that set.",
     ["inputs"], "all query items of all ten kinds, pairs and lists of them, and keys at and around their bounds (empty, prefix, successor and 0xff-ended keys included)",
     "The set algebra has a hundred bound combinations; the unit tests sample a few pairs of each and compare results structurally, never against the set of keys.",
     ["grovedb-query/src/query_item/mod.rs", "grovedb-query/src/query_item/intersect.rs", "grovedb-query/src/query_item/merge.rs", "grovedb-query/src/insert.rs", "grovedb-query/src/query.rs"],
     [("bounds and membership", "grovedb-query/src/query_item/mod.rs: contains, lower_bound, upper_bound, seek_for_iter, iter_is_valid_for_type"),
      ("set operations", "grovedb-query/src/query_item/intersect.rs"), ("insertion and merging of items", "grovedb-query/src/insert.rs"),
      ("ProofItems splitting", "grovedb-query/src/proof_items.rs")],
     "property-based testing against set membership over a key universe",
     "Random exploration: sets of keys are compared on a universe of 85+ keys around the bounds; iteration runs over an ordered in-memory store." + TRUST,
     ["QueryItem methods", "Query::insert_*", "iteration order of a raw iterator"])
prop("Q02", "Merging queries selects exactly the union of their results",
     "Merging queries, path queries, sized queries or aggregate sum queries yields one that selects exactly the keys (with their subquery results, and paths) selected by at least one of the originals. "
     "Merges that cannot be expressed are refused with an error, never answered with a query selecting something else.",
     ["inputs"], "lists of two to four layered queries with default and conditional subquery branches, and path queries whose paths are equal, nested or diverging",
     "The merge tests compare merged query structures for a handful of hand-written pairs; what the merged query selects is never evaluated.",
     ["grovedb-query/src/merge.rs", "grovedb-query/src/insert.rs", "grovedb/src/query/mod.rs"],
     [("Query::merge_many, merge_with, merge_conditional_boxed_subquery", "grovedb-query/src/merge.rs"), ("PathQuery::merge", "grovedb/src/query/mod.rs"), ("AggregateSumQuery merging", "grovedb-query/src/aggregate_sum_query/")],
     "property-based testing: semantic evaluation of merged and original queries over a model tree",
     "Random exploration of query shapes up to three layers; conditional branches that can never apply are outside the domain." + TRUST,
     ["Query::merge_many", "PathQuery::merge"])
prop("Q03", "Queries and proof operations survive encoding, and bad bytes never harm",
     "Every query, path, proof operation, proof node and node feature that is encoded decodes to an equal value, the encoded length announced is the real one, and the JSON form reads back as well. "
     "Arbitrary or truncated bytes are refused with an error or decode to a value that re-encodes consistently, with bounded nesting and bounded memory, never a panic.",
     ["inputs"], "all queries up to deep nesting, all proof operations and node kinds, and arbitrary or damaged byte strings",
     "Round trips are tested for fixed values; the codecs have ~30 tags with length thresholds (1 or 2 byte lengths, small/large variants) where a fault shows for few inputs.",
     ["grovedb-query/src/query.rs", "grovedb-query/src/query_item/mod.rs", "grovedb-query/src/proofs/encoding.rs", "grovedb-query/src/proofs/mod.rs", "grovedb-query/src/proofs/tree_feature_type.rs"],
     [("bincode implementations with a depth limit", "grovedb-query/src/query.rs"), ("Op Encode/Decode", "grovedb-query/src/proofs/encoding.rs"), ("TreeFeatureType Encode/Decode", "grovedb-query/src/proofs/tree_feature_type.rs")],
     "property-based testing: round trips, a reference wire format, byte mutation, allocation tracking",
     "Random exploration; proof operations are also compared with an independently written encoder, so that a symmetric change of both directions is noticed." + TRUST)
# ---------------------------------------------------------------- costs
prop("C01", "Operation costs add up",
     "Adding two costs or storage removals gives field by field the sum, with every removed byte kept under the owner and epoch it was attributed to, whatever the kinds and order of the operands. "
     "Chaining costed operations accumulates the cost of every step executed, failing steps included, and drops none; the cost comparisons and the size formulas of nodes and root keys agree with their definitions.",
     ["inputs", "programs"], "all pairs of removals (none, basic, by owner and epoch), all pairs of costs, chains of cost combinators with failures, all node size parameters",
     "Unit tests add a few constants; removal attribution has 3x3 kinds with overlapping identifiers and epochs.",
     ["costs/src/lib.rs", "costs/src/storage_cost/mod.rs", "costs/src/storage_cost/removal.rs", "costs/src/context.rs"],
     [("Add/AddAssign of removals", "costs/src/storage_cost/removal.rs"), ("CostsExt, CostContext combinators", "costs/src/context.rs"), ("node and root sizes", "costs/src/storage_cost/key_value_cost.rs, costs/src/lib.rs")],
     "property-based testing against a map-based reference accounting",
     "Random exploration with extreme and small values." + TRUST)
# ---------------------------------------------------------------- paths
prop("P01", "All representations of a subtree path are the same path",
     "A path built from slices, vectors, builders, parents or children behaves as its list of segments: length, root test, iteration in both directions, parent, last segment, conversion, equality, hashing and display agree. "
     "Ordering is a total order consistent with equality, with shorter paths first and equal lengths compared by segments.",
     ["inputs", "programs"], "all chains of derivations (child, parent, from slice/vec/builder) over paths with empty and arbitrary binary segments",
     "Tests build a few fixed paths; nested derivations and empty segments produce representations they never compare.",
     ["path/src/subtree_path.rs", "path/src/subtree_path_builder.rs", "path/src/subtree_path_iter.rs", "path/src/util/"],
     [("SubtreePath variants", "path/src/subtree_path.rs"), ("SubtreePathBuilder", "path/src/subtree_path_builder.rs"), ("compact storage of segments", "path/src/util/compact_bytes.rs")],
     "stateful property-based testing against a list of segments", "Random exploration of derivation chains." + TRUST)
# ---------------------------------------------------------------- elements
prop("E01", "Elements survive storage, and no bytes can crash the reader",
     "Every element that serializes deserializes to an equal element, in the documented byte format, with the size announced; different elements never share bytes. "
     "Arbitrary bytes are refused with an error or read as an element that serializes again, within bounded memory.",
     ["inputs"], "all element kinds with any flags, values and nested references or wrappers, and arbitrary, truncated or extended byte strings",
     "The tests hold a handful of encoded constants; the discriminants, flags and nested kinds multiply.",
     ["grovedb-element/src/element/mod.rs", "grovedb-element/src/element/serialize.rs", "grovedb-element/src/reference_path/mod.rs"],
     [("bincode with a limit and end-of-input check", "grovedb-element/src/element/serialize.rs")],
     "property-based testing: round trips, reference encoder, byte mutation, allocation tracking",
     "Random exploration; a second, independent encoder pins the stored format." + TRUST)
prop("E02", "Every view of an element agrees with its kind and content",
     "The kind tests, type names, flags, sums and counts read from an element, its stored size parameters, its tree kind and its children's feature kind all follow from the kind and content of the element. "
     "Constructors give exactly the element their arguments describe, and reading only the kind of stored bytes gives the kind of the full element.",
     ["inputs"], "all element kinds, with any values and flags, and all constructors",
     "Each helper is a match over 17 kinds; tests check some of the arms.",
     ["grovedb-element/src/element/helpers.rs", "grovedb-element/src/element/constructor.rs", "grovedb-element/src/element_type.rs"],
     [("matches over the kinds", "grovedb-element/src/element/helpers.rs"), ("ElementType", "grovedb-element/src/element_type.rs")],
     "property-based testing against tables of the kinds", "Random exploration of values; every kind is reached." + TRUST)
prop("R01", "Reference paths resolve to the place they describe",
     "A reference of each kind, stored under a path and key, resolves to the absolute path its kind defines, or to an error exactly when the location is too short for it. "
     "Resolving is the same by every entry point, and the inverse of a reference leads from the target back to the origin.",
     ["inputs"], "all seven reference kinds over arbitrary locations, keys and path lengths, including the shortest",
     "Tests use fixed three-segment paths; the limits (heights beyond the path, empty paths) are sampled once per kind.",
     ["grovedb-element/src/reference_path/mod.rs"],
     [("path_from_reference_path_type and path_from_reference_qualified_path_type", "grovedb-element/src/reference_path/mod.rs"), ("ReferencePathType::invert", "grovedb-element/src/reference_path/mod.rs")],
     "property-based testing against a reference resolver", "Random exploration; inversion of references with an empty appended path is outside the domain." + TRUST)
# ---------------------------------------------------------------- flags
prop("F01", "Storage flags survive storage",
     "Epoch-based storage flags that are serialized read back equal, with the announced size, from plain bytes, from element flags and optionally absent ones. "
     "Bytes that are not flags are refused with an error and never crash.",
     ["inputs"], "all four kinds of flags with any epochs, byte counts and owners; arbitrary and damaged bytes",
     "Tests use a few constants; variable-length integers change size at thresholds.",
     ["grovedb-epoch-based-storage-flags/src/lib.rs"],
     [("serialize/deserialize per kind", "grovedb-epoch-based-storage-flags/src/lib.rs")],
     "property-based testing: round trips, reference encoder, byte mutation", "Random exploration." + TRUST)
prop("F02", "Storage flags account for every byte of storage",
     "Splitting a removal over flags takes bytes from the newest epochs first, never more than were recorded, the rest from the base epoch, and attributes all of them to the owner. "
     "Combining flags keeps the owner and base epoch rules, adds or removes exactly the bytes given, and over any history the recorded bytes equal the bytes held.",
     ["inputs", "histories"], "all flags and removal sizes, all legal and illegal combinations, and histories of growing, shrinking and rewriting",
     "Tests follow a few scenarios; correct refunds depend on every sequence of epochs and sizes.",
     ["grovedb-epoch-based-storage-flags/src/lib.rs", "grovedb-epoch-based-storage-flags/src/split_removal_bytes.rs", "grovedb-epoch-based-storage-flags/src/update_element_flags.rs"],
     [("split_storage_removed_bytes", "grovedb-epoch-based-storage-flags/src/split_removal_bytes.rs"), ("combine and merge strategies", "grovedb-epoch-based-storage-flags/src/lib.rs")],
     "stateful property-based testing against a ledger", "Random exploration; removals above u32::MAX - 3 are outside the domain." + TRUST)
# ---------------------------------------------------------------- misc
prop("U01", "Everything can be displayed",
     "Displaying keys, values, elements, queries, proof operations and paths for debugging never panics, whatever bytes they hold. "
     "Byte strings are rendered faithfully: what is shown as text is that text, the rest is shown as hexadecimal of exactly those bytes.",
     ["inputs"], "all byte strings (invalid UTF-8, long, multi-byte characters at cut positions) and all displayable values",
     "Tests display ASCII constants.",
     ["visualize/src/lib.rs", "grovedb-query/src/lib.rs", "grovedb-element/src/element/visualize.rs"],
     [("Drawer and to_hex", "visualize/src/lib.rs"), ("hex_to_ascii", "grovedb-query/src/lib.rs, grovedb-element/src/lib.rs")],
     "property-based testing", "Random exploration." + TRUST)
# ---------------------------------------------------------------- logs
prop("M01", "An append-only log commits to exactly the values appended",
     "After any history of appends, flushes, reopens and dropped uncommitted work, the log's root, size, positions and stored nodes are those of the sequence of values appended, as defined by the mountain-range construction. "
     "A store that fails or misses nodes gives an error, never a wrong root, and a failed flush can be retried.",
     ["histories", "fault_sequences"], "all append/commit/reopen histories, index arithmetic up to 2^62, node records intact and damaged, and store failures at any access",
     "Tests build logs of fixed sizes in one go, with working stores.",
     ["grovedb-merkle-mountain-range/src/mmr.rs", "grovedb-merkle-mountain-range/src/mmr_store.rs", "grovedb-merkle-mountain-range/src/helper.rs", "grovedb-merkle-mountain-range/src/node.rs"],
     [("push, get_root, commit", "grovedb-merkle-mountain-range/src/mmr.rs"), ("staged nodes", "grovedb-merkle-mountain-range/src/mmr_store.rs"), ("index arithmetic", "grovedb-merkle-mountain-range/src/helper.rs")],
     "stateful property-based testing with fault injection against a reference mountain range",
     "Random exploration of histories of up to about a hundred leaves; arithmetic to 2^62." + TRUST)
prop("M02", "Append-only log proofs prove exactly what the log holds",
     "A proof for any set of positions of a log verifies against the log's root and returns exactly the values at those positions, also after encoding. "
     "A proof that was changed or made up is refused or yields another root, unless everything it claims is true of the log; verifying never panics and uses bounded memory. "
     "Growth proofs and roots after one more leaf are those of the longer log, and missing nodes give errors while proving.",
     ["inputs", "histories"], "all logs and subsets of leaves, all mutations of proofs (sizes, indices, values, items, order, bytes), and arbitrary bytes",
     "Tests tamper in a few chosen places; soundness ranges over every changed proof.",
     ["grovedb-merkle-mountain-range/src/proof.rs", "grovedb-merkle-mountain-range/src/mmr.rs"],
     [("MmrTreeProof generate/verify/decode", "grovedb-merkle-mountain-range/src/proof.rs"), ("calculate_peaks_hashes, bagging", "grovedb-merkle-mountain-range/src/proof.rs")],
     "property-based testing: completeness against a reference, structured mutation of proofs for soundness",
     "Random exploration; assumes the hash function is collision resistant." + TRUST)
prop("D01", "A fixed-capacity list commits to exactly the values inserted",
     "After any history of inserts, reads, reopens and refused inserts into a full list, the list's root, count and stored values are those of the sequence of values inserted. "
     "A failing or incomplete store gives an error, never a wrong root or a value at another position.",
     ["histories", "fault_sequences"], "all heights 1-16, all insert/read/reopen/reset histories, and store failures at any access",
     "Tests use small fixed lists and working stores.",
     ["grovedb-dense-fixed-sized-merkle-tree/src/tree.rs", "grovedb-dense-fixed-sized-merkle-tree/src/hash.rs"],
     [("insert and root computation", "grovedb-dense-fixed-sized-merkle-tree/src/tree.rs")],
     "stateful property-based testing with fault injection against a reference tree", "Random exploration of histories." + TRUST)
prop("D02", "Fixed-capacity list proofs prove exactly what the list holds",
     "A proof for any positions or position query of a list verifies against the list's root and count and returns exactly the values selected, also after encoding. "
     "A proof that was changed or made up is refused or yields another root, unless everything it claims is true of the list; verification for a query refuses a proof that leaves out or adds results, and verifying never panics.",
     ["inputs"], "all lists of height 1-16, position sets and position queries, all mutations of proofs, heights and counts, and arbitrary bytes",
     "Tests tamper in a few chosen places; soundness ranges over every changed proof.",
     ["grovedb-dense-fixed-sized-merkle-tree/src/proof/"],
     [("DenseTreeProof generate/verify", "grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs"), ("query positions", "grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs: query_items_to_positions")],
     "property-based testing: completeness against a reference, structured mutation of proofs for soundness",
     "Random exploration; assumes the hash function is collision resistant." + TRUST)
prop("B01", "A chunked log commits to exactly the values appended",
     "After any history of appends, flushes, reopens and reads, the chunked log's state root, counts and values are those of the sequence of values appended, with completed chunks compacted and the rest buffered. "
     "Chunk encodings read back exactly, damaged ones are refused or read as other entries, never a panic, and a failed flush can be retried without loss.",
     ["histories", "fault_sequences"], "all append/flush/reopen histories over chunk heights, chunk blobs of fixed and varying entry sizes intact and damaged, and store failures",
     "Tests append fixed counts with a working store.",
     ["grovedb-bulk-append-tree/src/tree/", "grovedb-bulk-append-tree/src/chunk.rs"],
     [("append, compaction, flush", "grovedb-bulk-append-tree/src/tree/"), ("chunk encoding", "grovedb-bulk-append-tree/src/chunk.rs")],
     "stateful property-based testing with fault injection against a reference chunked log", "Random exploration." + TRUST)
prop("B02", "Chunked log proofs prove exactly what the log holds",
     "A proof for any query of positions of a chunked log verifies against its state root and returns exactly the selected values from completed chunks and buffer, also after encoding. "
     "A proof that was changed or made up is refused or yields another root, unless everything it claims is true of the log; verification for a query refuses a proof that leaves out results, and verifying never panics and uses bounded memory.",
     ["inputs"], "all chunked logs of height 1-4 and position queries, all mutations of proofs, heights and counts, and arbitrary bytes",
     "Tests tamper in a few chosen places; soundness ranges over every changed proof.",
     ["grovedb-bulk-append-tree/src/proof/"],
     [("BulkAppendTreeProof generate/verify", "grovedb-bulk-append-tree/src/proof/mod.rs")],
     "property-based testing: completeness against a reference, structured mutation of proofs for soundness",
     "Random exploration; assumes the hash function is collision resistant." + TRUST)
# ---------------------------------------------------------------- grove proofs
GP = ["grovedb/src/operations/proof/verify.rs", "grovedb/src/operations/proof/generate.rs", "grovedb/src/operations/proof/mod.rs", "grovedb/src/query/mod.rs",
      "merk/src/proofs/query/verify.rs", "merk/src/proofs/query/mod.rs", "merk/src/proofs/query/map.rs", "merk/src/proofs/tree.rs", "merk/src/tree/hash.rs", "grovedb-query/src/proofs/encoding.rs"]
GM = [("V0 and V1 layer verification", "grovedb/src/operations/proof/verify.rs: verify_layer_proof, verify_layer_proof_v1"), ("merk proof execution", "merk/src/proofs/tree.rs: execute"),
      ("query checks on a merk proof", "merk/src/proofs/query/verify.rs: execute_proof"), ("proof generation", "grovedb/src/operations/proof/generate.rs: prove_subqueries, prove_subqueries_v1")]
prop("G01", "The proof of any query verifies and gives exactly the query's results",
     "For every grove and path query the database can prove, the proof verifies against the grove's root hash and returns exactly the elements the query selects, in query order and cut at the limit, with references resolved and empty or queried trees reported as the options say. "
     "This holds for both proof versions, all kinds of trees and elements, nested and conditional subqueries, both directions and every limit.",
     ["inputs", "histories"], "all groves over all tree and element kinds, path queries up to several layers with limits, both proof versions and verification options",
     "Tests prove fixed queries over a few fixed groves; the prover and verifier share intricate limit and boundary rules that must agree for every query.",
     GP, GM, "property-based testing: provers and verifiers against a reference evaluation of the query over a model grove",
     "Random exploration of groves of up to tens of elements and queries up to four layers. The database runs on an in-memory stand-in of RocksDB." + TRUST,
     ["GroveDb::prove_query", "GroveDb::verify_query_with_options"])
prop("G02", "A grove proof that verifies against the real root gives the real results",
     "A proof that was changed, restructured, or made for another query is refused, yields another root hash, or returns exactly what the query selects from the real grove: no key, value, element kind or path can be forged, hidden or added. "
     "Verification never panics, whatever the proof.",
     ["inputs"], "all groves, path queries and mutations of their proofs: forged node kinds, values and hashes, restructured trees, swapped, dropped, added or foreign layers, changed bytes",
     "Tests forge a few chosen places; soundness ranges over everything an attacker can send.",
     GP, GM, "property-based testing: structured forging of proofs, differential against the honest result and a reference evaluation",
     "Random exploration. Values of V0 proofs are by design not bound for hash-only nodes, so for V0 the forged values are left out and structure alone is attacked." + TRUST,
     ["GroveDb::verify_query_with_options"])
prop("G03", "Chunk proofs of count trees reassemble exactly the tree",
     "A trunk chunk proof and the branch chunk proofs of its leaf keys, each verified against the hash the previous one gave, reassemble exactly the elements of the count tree; counts, hashes, traces and ancestors of leaf keys are the real ones and the chunk depths split the real depth. "
     "A changed chunk proof that still verifies against the real root says nothing false; a trunk cut unevenly or deeper than asked for is refused, and so is anything in place of an empty tree.",
     ["inputs"], "all count trees, chunk queries and mutations of their proofs",
     "Tests chunk a few fixed trees; agreement between the prover's cut, the depth arithmetic and the verifier's reconstruction must hold for every shape.",
     ["grovedb/src/operations/proof/verify.rs", "merk/src/proofs/branch/mod.rs", "merk/src/proofs/branch/depth.rs", "merk/src/proofs/chunk/chunk.rs", "grovedb/src/query/grove_trunk_query_result.rs", "grovedb/src/query/grove_branch_query_result.rs"],
     [("trunk and branch chunk verification", "grovedb/src/operations/proof/verify.rs: verify_trunk_chunk_proof, verify_branch_chunk_proof, extract_elements_and_leaf_keys"),
      ("chunk depths", "merk/src/proofs/branch/depth.rs"), ("traces and ancestors", "grovedb/src/query/grove_trunk_query_result.rs")],
     "property-based testing: round trip against a model of the grove, forging of chunk proofs",
     "Random exploration over trees of up to 40 elements. The bytes of tree elements are not bound by chunk proofs (known finding)." + TRUST,
     ["GroveDb::verify_trunk_chunk_proof"])
prop("G04", "Absence, subset, chained, raw and parent views of a proof tell the truth",
     "Read with absence, a proof tells for every single key asked for the element it has, or that there is none. Read as a subset or as a chain of queries, a proof of more gives exactly the results of each query or is refused; a proof of more keys is not refused. "
     "Asked for the parent tree, it gives the type and aggregate of the tree queried, or is refused when there is none. Raw results, decoded proofs and boundaries agree: every boundary key exists and is not a result, and a range after an existing key has it as boundary. Unless it is read as a subset, a proof with a layer that the query needs nothing from is refused.",
     ["inputs"], "all groves, queries of finitely many keys, merged queries and single-layer queries",
     "Tests read a few fixed proofs this way; the enumeration of asked keys, conditional branches and limits interact in ways only generated queries reach.",
     GP + ["grovedb-query/src/query.rs"], GM + [("keys asked for", "grovedb-query/src/query.rs: terminal_keys"), ("boundaries", "merk/src/proofs/query/mod.rs: boundaries_in_proof")],
     "property-based testing: proofs read every way against a reference evaluation over a model grove",
     "Random exploration. Subsets of positions of MMR, bulk and dense trees may be refused." + TRUST,
     ["GroveDb::verify_query_with_absence_proof", "GroveDb::verify_subset_query", "GroveDb::verify_query_with_chained_path_queries", "GroveDb::verify_query_get_parent_tree_info"])
# ---------------------------------------------------------------- merk
prop("K01", "A proof of a merk layer discloses exactly the keys it covers",
     "For a tree with a known root hash, a proof that discloses the nodes a query needs verifies and gives exactly the entries the query selects, in its direction and within its limit, and the remaining limit. "
     "A proof that hides a needed node, leaves out or invents an entry, shows nodes out of order or changes a value is refused, gives another root or says nothing false; maps read from it answer a key or range only where it is covered.",
     ["inputs"], "all binary search trees of a layer, all choices of node kinds disclosed, query items, limits, directions and alterations",
     "Tests verify proofs of fixed trees made by the prover; the verifier meets any node kinds in any order.",
     ["merk/src/proofs/query/verify.rs", "merk/src/proofs/query/map.rs", "merk/src/proofs/query/mod.rs", "merk/src/proofs/tree.rs", "merk/src/tree/hash.rs"],
     [("query proof verification", "merk/src/proofs/query/verify.rs: execute_proof"), ("maps", "merk/src/proofs/query/map.rs: Map, Range"), ("boundaries", "merk/src/proofs/query/mod.rs: boundaries_in_proof")],
     "property-based testing: synthetic proofs of generated trees with an independent hash model, against a reference evaluation of the query",
     "Random exploration over trees of up to 24 nodes." + TRUST,
     ["QueryProofVerify::execute_proof", "QueryProofVerify::verify_proof", "proofs::query::Map"])
prop("K02", "A proof program builds exactly the tree it describes, or is refused",
     "Running any proof program gives the tree that a stack machine over its operations builds, with the hashes the published formulas define and the hash calls of exactly those formulas counted, or refuses it when the stack is short, a child is given twice, keys are out of order or the result is not one tree. "
     "It never panics, whatever the program, and refuses programs beyond its limits.",
     ["inputs"], "all proof programs over every operation and node kind, well-formed, broken and oversized",
     "Tests execute a few short programs; every proof of the system runs through this machine.",
     ["merk/src/proofs/tree.rs", "merk/src/proofs/mod.rs", "merk/src/tree/hash.rs", "grovedb-query/src/proofs/"],
     [("stack machine", "merk/src/proofs/tree.rs: execute"), ("hash of a proof tree", "merk/src/proofs/tree.rs: Tree::hash, aggregate data"), ("hash formulas", "merk/src/tree/hash.rs")],
     "property-based testing: generated programs, differential against a reference stack machine with independent hashing",
     "Random exploration of programs of up to tens of operations, and of the stated limits." + TRUST,
     ["grovedb_merk::proofs::execute", "proofs::tree::Tree"])
prop("K04", "A merk holds exactly what was put, balanced and hashed, after any history",
     "After any history of batches of puts and deletes, commits and reopenings, a merk of any tree type holds exactly the entries a sorted map would, reads them all back, and is a balanced search tree whose root hash, heights and aggregates (sums, counts) are those of its entries. "
     "Batches out of order or with repeated keys are refused and change nothing.",
     ["histories"], "all histories of sorted batches over every tree type, feature types, layered and referenced values, sessions and reopenings",
     "Tests apply a few batches; rotation, deletion and pruning interact over histories.",
     ["merk/src/tree/ops.rs", "merk/src/tree/mod.rs", "merk/src/tree/link.rs", "merk/src/tree/kv.rs", "merk/src/tree/commit.rs", "merk/src/merk/apply.rs", "merk/src/merk/open.rs"],
     [("batch application", "merk/src/tree/ops.rs: apply_sorted, build, recurse, maybe_balance"), ("links and commits", "merk/src/tree/mod.rs, link.rs"), ("open, apply", "merk/src/merk/")],
     "stateful model-based property testing: generated histories against a sorted map, with an independent check of balance, hashes and aggregates",
     "Random exploration. The database runs on an in-memory stand-in of RocksDB." + TRUST,
     ["Merk::apply", "Merk::get", "Merk::open_base"])
prop("K03", "Chunks of a merk restore exactly that merk",
     "The chunks a merk produces, in any order the restorer asks for and in any grouping, restore a merk with the same entries, root hash, heights and aggregates, which goes on working like the source. "
     "Chunk numbers, instructions and heights map one to one to the places of a tree and chunk bytes decode to what was encoded. A restorer fed a changed, foreign or misplaced chunk refuses it, or ends with exactly the source.",
     ["inputs"], "all merks of every tree type, depths, groupings and orders of chunks, and alterations of chunks",
     "Tests restore a few full trees; sparse trees, aggregates and altered chunks need generated ones.",
     ["merk/src/merk/chunks.rs", "merk/src/merk/restore.rs", "merk/src/proofs/chunk/chunk.rs", "merk/src/proofs/chunk/chunk_op.rs", "merk/src/proofs/chunk/util.rs", "merk/src/proofs/chunk/binary_range.rs"],
     [("producing chunks", "merk/src/merk/chunks.rs: ChunkProducer"), ("restoring", "merk/src/merk/restore.rs: Restorer"), ("numbering", "merk/src/proofs/chunk/util.rs")],
     "property-based testing: round trip through chunks, forging of chunks, reference numbering",
     "Random exploration over trees of up to about 70 entries. Values of elements with a combined hash (references, trees) are not bound by a chunk; see REP01. Runs on the in-memory stand-in of RocksDB." + TRUST,
     ["ChunkProducer::chunk", "Restorer::process_chunk", "Restorer::finalize"])
prop("REP01", "A grove synchronised from another is that grove, or the sync fails",
     "State sync from an honest source, in any batch size and order of requests, completes and commits a grove with the same root hash, elements and values, which verifies and goes on like the source. "
     "A session fed changed, swapped, missing or misdirected responses never panics; it fails, or the grove it commits has the expected root hash, verifies (references apart), and once its references verify too is the source.",
     ["inputs", "histories"], "all groves of merk-backed trees, batch sizes, orders of requests and alterations of responses",
     "Tests sync a few fixed groves from honest sources; the target trusts nothing but a root hash.",
     ["grovedb/src/replication.rs", "grovedb/src/replication/state_sync_session.rs", "merk/src/merk/chunks.rs", "merk/src/merk/restore.rs", "grovedb/src/lib.rs"],
     [("fetching", "grovedb/src/replication.rs: fetch_chunk, decode_global_chunk_id"), ("session", "grovedb/src/replication/state_sync_session.rs: apply_chunk, discover_new_subtrees_metadata, commit")],
     "property-based testing: end-to-end sync of generated groves against the model, with fault injection in the responses",
     "Random exploration. Groves with filled MMR, bulk-append, dense or commitment trees cannot be synchronised (known finding). Runs on the in-memory stand-in of RocksDB." + TRUST,
     ["GroveDb::fetch_chunk", "MultiStateSyncSession::apply_chunk", "GroveDb::commit_session", "GroveDb::verify_grovedb"])
# ---------------------------------------------------------------- path queries, results, versions
prop("Q04", "The structure of a path query is read off right at every path",
     "For any path into the grove, a path query says exactly whether that layer is on the way to its results, inside a subquery path, queried (with which items, in which direction) or not concerned at all, and for which of its keys it goes on below; whether the parent tree is added follows the query that applies there. "
     "Its depth and its terminal keys are those of the keys it can select, and refused when over the limit; queries built step by step, encoded and decoded, or read through their helpers are the same queries.",
     ["inputs"], "all path queries of up to four layers with default and conditional branches and subquery paths, asked at paths that follow them, leave them or go beyond; nesting up to 260 layers",
     "Prover, verifier and query execution all navigate by this; the tests assert a few hand-written queries at a few paths.",
     ["grovedb/src/query/mod.rs", "grovedb/src/query/aggregate_sum_path_query.rs", "grovedb/src/query/path_trunk_chunk_query.rs", "grovedb/src/query/path_branch_chunk_query.rs", "grovedb-query/src/query.rs", "grovedb-query/src/subquery_branch.rs", "grovedb-query/src/common_path.rs"],
     [("query_items_at_path, should_add_parent_tree_at_path, SinglePathSubquery", "grovedb/src/query/mod.rs"), ("terminal_keys, max_depth, builders", "grovedb-query/src/query.rs, grovedb-query/src/subquery_branch.rs"), ("AggregateSumPathQuery::merge", "grovedb/src/query/aggregate_sum_path_query.rs")],
     "property-based testing against a recursive reference semantics of path queries",
     "Random exploration; keys with a conditional branch in a query that also has a default one are left open for Query::has_subquery_on_key (existing tests pin a coarser answer)." + TRUST)
prop("Q05", "Query results regroup without loss",
     "Every form in which query results or proved values are handed out (lists of elements, keys, pairs; maps by key, by path, by last or last-but-one path segment; the nested maps by level; elements of proved values) holds exactly the results it is made from, in their order or under their own key. "
     "Only bytes that are no element, and absent values where a value is demanded, are refused.",
     ["inputs"], "all lists of results of the three kinds, mixed or not, with equal, nested and empty paths; proved values, absent ones and bytes that are no element",
     "Callers rebuild state from these maps; the tests convert one proved value and a few fixed lists.",
     ["grovedb/src/query_result_type.rs", "grovedb/src/operations/proof/util.rs"],
     [("QueryResultElements conversions", "grovedb/src/query_result_type.rs"), ("ProvedPathKeyValue conversions", "grovedb/src/operations/proof/util.rs")],
     "property-based testing against maps built directly from the generated rows",
     "Random exploration; a result that is itself above other results is outside the nested form's domain." + TRUST)
prop("V01", "Operations act only under feature versions they know",
     "Every versioned operation (verification, proving, reading, querying, writing, deleting, batches, state sync, element encoding, path query methods) works under the feature versions it knows in every grove version, and refuses any other value of its feature version with an error naming it, before it has any effect. "
     "The grove versions are distinct and ordered, and proofs made under one are verified under all.",
     ["inputs", "configurations"], "56 operations x their feature version set to any 16-bit value x the three grove versions",
     "Nodes of different protocol versions must not silently run logic of another version; the tests never set an unknown version for most of the operations.",
     ["grovedb-version/src/lib.rs", "grovedb-version/src/version/", "grovedb/src/operations/proof/verify.rs", "grovedb/src/query/mod.rs", "grovedb-element/src/element/serialize.rs"],
     [("check_grovedb_v0 and its siblings", "grovedb-version/src/lib.rs"), ("gates of the verifier", "grovedb/src/operations/proof/verify.rs, grovedb/src/query/mod.rs"), ("GROVE_VERSIONS", "grovedb-version/src/version/mod.rs")],
     "property-based testing: generated versions over a table of operations",
     "Random exploration over a fixed small grove; operations absent from the table are not covered." + TRUST)
prop("G05", "Whatever bytes come as a proof, every reader answers or refuses",
     "For any bytes and any query, each of the readers of proofs (the verifiers of queries, subsets, absence, chained, aggregate, trunk and branch chunk queries, the decoder, the printer, the boundary readers) ends with an answer or an error: no panic, no unbounded recursion, no memory beyond the decoder's 256 MiB limit. "
     "A decoded proof is the same after encoding and decoding and verifies as its bytes do; what is reported is shown by the proof and concerns the query; an offset that skips results is refused.",
     ["inputs"], "any bytes, made-up proofs of both versions with any nodes and ops, mutated ones, nesting and breadth beyond the limits of 128, and any path query, with limits and offsets",
     "Verifiers run on bytes of untrusted servers; the tests give a few hand-made malformed proofs to one entry point.",
     ["grovedb/src/operations/proof/verify.rs", "grovedb/src/operations/proof/mod.rs", "grovedb/src/operations/proof/util.rs", "merk/src/proofs/"],
     [("GroveDb::verify_* entry points", "grovedb/src/operations/proof/verify.rs"), ("GroveDBProof decoding, Display, boundaries", "grovedb/src/operations/proof/mod.rs"), ("Decoder, execute", "merk/src/proofs/encoding.rs, merk/src/proofs/tree.rs")],
     "structured and byte-level fuzzing with crash, memory, round-trip and differential oracles",
     "Random exploration; memory is watched as the largest single allocation." + TRUST)
prop("S01", "Subtrees are separate ordered stores, written atomically",
     "Each path has its own prefix, a fixed function of its segments; what is written through one path (or its prefix) in one of the four columns is read back there, in key order by iterators that stay inside the subtree, and nowhere else. "
     "Writes in a batch show when it is applied, all or none, the last put of a key winning; a transaction sees its own writes and others see them after the commit or never. Clearing empties one subtree's data; a checkpoint and a reopened store hold what was committed; costs are the bytes and seeks of these operations.",
     ["inputs", "histories", "faults"], "all histories of writes, batches, merged partial batches, clears, commits, rollbacks, failed writes, checkpoints, reopenings and wipes over subtrees with equal, adjacent or re-cut paths",
     "Every tree shares four key spaces; one leaking prefix or half-applied batch corrupts another subtree. The tests try a few fixed paths and writes.",
     ["storage/src/storage.rs", "storage/src/rocksdb_storage/", "storage/src/worst_case_costs.rs"],
     [("StorageBatch", "storage/src/storage.rs"), ("build_prefix, continue_write_batch, wipe", "storage/src/rocksdb_storage/storage.rs"), ("storage contexts and raw iterator", "storage/src/rocksdb_storage/storage_context/")],
     "stateful model-based testing against ordered maps, with injected write failures",
     "Random exploration on the in-memory stand-in of RocksDB: what RocksDB itself does on a crash is not covered." + TRUST)
prop("W01", "A grove is the nested maps its history of operations makes",
     "After any history of inserts (with every option), conditional inserts, deletes of items, references, trees and filled trees, upward deletes, clears, appends and auxiliary writes, in or out of transactions, each operation gave what nested ordered maps give or was refused and changed nothing; "
     "reads of one element, through references or raw, cached or not, in and out of the transaction, the walk over everything, emptiness, counts and sums agree with the maps, verification finds no issue, and proofs of every subtree verify against the root hash. A rolled back or dropped transaction leaves nothing; before the commit others see nothing.",
     ["histories", "inputs"], "all histories of single operations and transactions on groves of all tree kinds, with missing paths, paths into items and flat trees, long keys, dangling, chained and cyclic references",
     "This is the database's basic promise. The tests follow fixed scripts; the four defects found here needed a deletion or clear of particular trees in a particular order.",
     ["grovedb/src/lib.rs", "grovedb/src/operations/insert/", "grovedb/src/operations/delete/", "grovedb/src/operations/get/", "grovedb/src/operations/auxiliary.rs", "grovedb/src/operations/is_empty_tree.rs", "grovedb/src/util/compat.rs", "merk/src/element/"],
     [("insert and its forms", "grovedb/src/operations/insert/mod.rs"), ("delete, clear_subtree, delete_if_empty_tree", "grovedb/src/operations/delete/mod.rs"), ("delete_up_tree_while_empty", "grovedb/src/operations/delete/delete_up_tree.rs"), ("propagate_changes_with_transaction, verify_grovedb", "grovedb/src/lib.rs"), ("get, follow_reference", "grovedb/src/operations/get/mod.rs")],
     "stateful model-based testing against nested ordered maps",
     "Replacing a non-empty tree with validate_insertion_does_not_override_tree off leaves what it held behind, as the option says, and is not explored; nor are sums beyond 64 bits, and paths with a segment over 255 bytes, on which every call panics." + TRUST)
prop("W02", "A batch does what its operations do, all of it or nothing",
     "A batch of inserts (any, only new, only if missing, replacing, patching), reference refreshes, deletions of elements and trees, and appends, on any places of the grove and on trees it makes itself, in whatever order its operations are listed, either leaves the nested maps that its operations make of the grove, with sums, counts, root hash and proofs to match, or is refused and leaves the grove as it was. "
     "A reference is bound to what it refers to once the batch is done. Whether the batch runs in a transaction, with or without its consistency checks, makes no difference to that.",
     ["inputs", "histories"], "all short histories of batches of up to twelve operations of all kinds over groves of all tree kinds, with references to what the batch inserts, changes or deletes, and with every existence option",
     "Batches are how grovedb is written to in production and run on code of their own, apart from single operations. The tests run fixed batches; the eight defects found here needed two operations of a batch to meet, or an option to meet a kind of element.",
     ["grovedb/src/batch/", "merk/src/tree/just_in_time_value_update.rs", "merk/src/tree/ops.rs", "merk/src/element/insert.rs"],
     [("apply_batch, execute_ops_on_path, propagation to the parents", "grovedb/src/batch/mod.rs"), ("decide_conditional_insertions, follow_reference_get_value_hash", "grovedb/src/batch/mod.rs"), ("update of references", "grovedb/src/batch/just_in_time_reference_update.rs"), ("preprocessing of appends", "grovedb/src/operations/mmr_tree.rs and its siblings")],
     "stateful model-based testing against nested ordered maps",
     "Elements below a flat tree of the same batch are lost, which existing tests pin (known finding). Two appends of equal bytes in one batch and appends to a tree the same batch puts are left out; so are changes between sums and other items under references, which are documented as not supported." + TRUST)
prop("T01", "Tree types, elements and aggregates name the same kinds",
     "Each kind of tree has one number, one element type, one node type, and one answer to whether it sums, counts, or keeps its data outside of a tree of nodes; numbers of no kind are refused. "
     "Every view of an element as a tree gives its own kind, root key, flags and aggregate; in a parent of any kind it counts for what it is (its own sum and count, or one); aggregates give their count and their sum, capped where it is narrower; value hashes and charged sizes are those of the stored bytes and of the kind.",
     ["inputs"], "all elements with boundary sums, counts, flags and root keys, in parents of all eleven kinds; all numbers of types; all features of nodes",
     "Sums, counts and hashes of whole groves are built from these; the tests name each variant once and never cross elements with parents.",
     ["merk/src/tree_type/", "merk/src/element/tree_type.rs", "merk/src/element/costs.rs", "merk/src/tree/tree_feature_type.rs", "grovedb-query/src/proofs/tree_feature_type.rs"],
     [("TreeType", "merk/src/tree_type/mod.rs"), ("ElementTreeTypeExtensions", "merk/src/element/tree_type.rs"), ("AggregateData", "merk/src/tree/tree_feature_type.rs"), ("ElementCostExtensions", "merk/src/element/costs.rs")],
     "property-based testing against a table of the kinds",
     "Random exploration. What a 128-bit sum counts for in a 64-bit parent is taken to be nothing." + TRUST)
prop("W03", "Whatever fails or stops, a grove is as before or as after each operation",
     "When a write of the store fails, the operation, batch or commit it belongs to is refused and the grove, in the same process and after reopening, is as before it; and each operation, batch or commit writes at most once, so that a store stopped between any two writes opens as the grove before or after one of them, never between. "
     "A checkpoint opens as the grove at its time, whatever is written to either afterwards, and a grove reopened is as it was left, verifies without an issue, and goes on working.",
     ["histories", "faults", "crash points"], "all histories of operations, batches and transactions, with the n-th write failing, a stop after any write, checkpoints and reopenings",
     "A node that stops in the middle of a block must come up at a block's boundary with a root hash that matches its data. The tests never fail a write.",
     ["grovedb/src/lib.rs", "grovedb/src/batch/", "grovedb/src/operations/", "grovedb/src/checkpoints.rs", "storage/src/rocksdb_storage/storage.rs"],
     [("commit_transaction, TxRef", "grovedb/src/lib.rs, grovedb/src/util/tx_ref.rs"), ("commit_multi_context_batch", "storage/src/rocksdb_storage/storage.rs"), ("checkpoints", "grovedb/src/checkpoints.rs")],
     "stateful model-based testing with injected write failures and stops between writes",
     "Random exploration on the in-memory stand-in of RocksDB, where a write batch is one write: that RocksDB makes it so is taken for granted." + TRUST)
prop("W04", "Reading a query gives what it selects, in order, within offset and limit",
     "Reading the database by a path query gives exactly the elements that the query selects in the nested maps, in the query's order, after those its offset skips and within its limit, and tells how many were skipped; with references as they are or followed, as paths, keys and elements, as item values, items or sums, sums, or one answer per key asked for, cached or not, in a transaction or not; several queries read as their merge. "
     "Where an element has no place in the reading, or a subtree is missing and that was to be an error, it is refused. Sums up to a limit end where the sums reach it.",
     ["inputs"], "all groves of all tree kinds with references, and all path queries with nested and conditional subqueries, limits and offsets from 0; aggregate sum queries with every option",
     "This is how every application reads. The tests run fixed queries on fixed groves; the two defects found here needed a limit of zero, or an offset that ends at the end of a subtree.",
     ["grovedb/src/operations/get/query.rs", "grovedb/src/element/query.rs", "grovedb/src/element/aggregate_sum_query.rs", "grovedb/src/query_result_type.rs", "grovedb-query/src/"],
     [("query_raw and its siblings", "grovedb/src/operations/get/query.rs"), ("get_query_apply_function, path_query_push", "grovedb/src/element/query.rs"), ("aggregate sum queries", "grovedb/src/element/aggregate_sum_query.rs")],
     "property-based testing against a reference evaluation on nested maps",
     "Random exploration. Where subtrees give nothing they may take from limit and offset, as the options say: there the result is only bounded. Flat trees are left out of what a query goes through." + TRUST)
prop("U02", "Proofs, queries and results are displayed whole",
     "Displaying a proof of either version shows every operation of every layer in order, each with its kind, keys, elements, hashes and counts, the keys of all the layers below, and what the proofs of flat trees hold; an undecodable part shows as an error. "
     "Displaying a query shows its path, every range with its kind and ends, branches, direction, limit and offset, so that queries differing in one of these are displayed differently. Results of queries and of verification show every path, key, value, hash and limit. Displaying never fails.",
     ["inputs"], "all proofs with nested layers of merk and flat trees, with any operations; all nested queries; all forms of results",
     "What is displayed is what people debug proofs by, and it is the only view of a proof's content; the tests display a handful of constants.",
     ["grovedb/src/operations/proof/mod.rs", "grovedb/src/operations/proof/util.rs", "grovedb/src/query_result_type.rs", "grovedb/src/query/mod.rs", "grovedb-query/src/query.rs", "grovedb-query/src/query_item/mod.rs", "merk/src/proofs/query/verify.rs"],
     [("Display of proofs and layers", "grovedb/src/operations/proof/mod.rs"), ("Display of results", "grovedb/src/query_result_type.rs, grovedb/src/operations/proof/util.rs"), ("Display of queries", "grovedb-query/src/query.rs, grovedb/src/query/mod.rs")],
     "property-based testing: ordered containment of independently rendered parts, one-change metamorphic relation",
     "Random exploration. What the limit of items of an aggregate sum query is, is not displayed by the code and not demanded." + TRUST)
prop("W05", "The bytes charged for a grove are those of what it holds",
     "Over any history of insertions, overwrites with elements of the same or another kind, deletions (upwards as well), batches and transactions, the bytes reported as added less those reported as removed are what inserting each element of the grove that results once into an empty grove reports: no way of writing costs or gives back a byte more or less than another. A refused operation is charged no bytes.",
     ["histories"], "all histories of single operations and batches on trees of all kinds with items, sums, references, flags and flat trees, in and out of transactions; trees are deleted when empty, and values appended one at a time",
     "Fees and refunds are computed from these numbers, so whoever finds two ways of different cost to the same state can take out what they did not pay in. The tests pin the costs of single operations; the defect found here needed an item over a tree and a later operation.",
     ["merk/src/tree/", "merk/src/merk/apply.rs", "merk/src/element/costs.rs", "grovedb/src/batch/", "grovedb/src/operations/insert/", "grovedb/src/operations/delete/", "storage/src/rocksdb_storage/storage.rs", "costs/src/"],
     [("TreeNode::just_in_time_tree_node_value_update, storage_cost_for_update", "merk/src/tree/"), ("ElementCostExtensions", "merk/src/element/costs.rs"), ("OperationCost::add_key_value_storage_costs", "costs/src/lib.rs")],
     "stateful metamorphic testing: any history against a direct construction of its result",
     "Random exploration. Values of flat trees are charged by the writes it takes and not given back, so no tree that was appended to is deleted here; a plain batch Delete is for what is no tree." + TRUST)
prop("J01", "The debugger's messages read back from JSON as what was sent",
     "Every message of the GroveDBG protocol - fetch requests, sessions, node updates, path queries, proofs, with all elements, references, feature types, ranges and proof nodes - is written as the JSON that the protocol has for it: bytes as padded base64, variants by name, each member with its own value; that JSON, its members in any order, reads back as exactly the message. What is not base64, or a hash that is not 32 bytes, is refused.",
     ["inputs"], "all messages, with all values of every member, nested queries and layers included",
     "The debugger is another program, in another language: a member lost, swapped or encoded another way shows a wrong tree or a wrong proof. No test covers these types.",
     ["grovedbg-types/src/lib.rs"],
     [("serde derives with Base64", "grovedbg-types/src/lib.rs")],
     "property-based testing: differential against an independent writer, and round trip",
     "Random exploration. The conversions into these types are gated code and not covered; whether malformed base64 padding is refused is left to the base64 library.")
prop("X01", "Errors keep their kind and message across layers, and read differently",
     "Whatever an error says is part of how it reads; two errors of different kinds with the same message read differently. Adding context to a result (GroveDbErrorExt, MerkErrorExt, Error::add_context) changes no cost, no success and no kind of error: an error that carries a message of its own then reads as before followed by a comma, a space and the context, in the order added, and every other error reads as before. An error of a query, an element, a version or a merk passed to the layer above is the same error there: not-found errors and invalid inputs keep their kind, all others are kept whole inside.",
     ["inputs"], "all kinds of errors without a store, any messages, up to three contexts",
     "Callers decide by the kind of error whether something is absent, refused or corrupted; the conversions are long tables of which tests sample a few rows.",
     ["grovedb/src/error.rs", "merk/src/error.rs", "grovedb-element/src/error.rs", "grovedb-query/src/error.rs", "grovedb-version/src/error.rs"],
     [("Error::add_context, From conversions", "grovedb/src/error.rs"), ("Error::add_context, From<grovedb_query::Error>", "merk/src/error.rs")],
     "property-based testing: metamorphic relation on the rendered error, table of kinds",
     "Random exploration. Left out: errors of the store and of chunks, and the two merk errors that are marked to be removed (OldChunking…), which read as the ones they were replaced by.")
