HT = ["xtructure/hashtable/table.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/lookup.py",
      "xtructure/hashtable/hash_utils.py"]

prop("P06", "Every merge backend computes the stable two-way merge",
     "Merging two ascending key arrays, with or without indices or values, returns the ascending stable merge (ties "
     "keep the first array before the second) and every key keeps its own value. All backends give the same result, "
     "for every pair of lengths including empty ones, and merge_sort_split returns the smaller half and the larger "
     "half of that merge.",
     ["inputs"], "any two ascending arrays (ties, infinities and signed zeros included) of the stated lengths",
     "tests compare random arrays of a few sizes; ties, empty sides and block-boundary lengths are where merge-path "
     "kernels fail", ["xtructure/bgpq/_merge.py", "xtructure/bgpq/merge_split"],
     [("merge-path partition search and block merges", "xtructure/bgpq/merge_split"),
      ("merge_sort_split", "xtructure/bgpq/_merge.py")],
     "symbolic execution of the traced merge functions and of the Pallas kernel bodies + z3",
     "All length pairs up to 6+6 (kernel block sizes reduced so block boundaries fall inside), float16/float32/int32 "
     "keys; Pallas kernels are executed through their kernel jaxprs under a stand-in accelerator backend. " + TRUST)

prop("P07", "Hash table: insert and lookup behave as a set",
     "After any sequence of inserts, lookup finds exactly the records inserted so far, at the index where the table "
     "stores an equal record; a record that was never inserted is never found. Inserting reports inserted exactly "
     "when the record was new and was stored, never changes any other stored record, and never stores a record twice.",
     ["inputs", "histories"], "any hash function over the domain (each key carries its own hash pair), any stored "
     "contents and insertion order", "a wrong probe sequence, fingerprint or slot shows only for particular "
     "collisions", HT, [("probe sequence, fingerprint filter and content comparison", "xtructure/hashtable/lookup.py"),
                        ("serial insert", "xtructure/hashtable/insert.py")],
     "symbolic execution of the traced HashTable.insert/lookup + z3, inductive step over arbitrary valid tables",
     "Inductive step over every valid table of up to 4x2, 2x3, 1x4 (and 1x256) buckets x slots and every key set "
     "with any hash values over the domain; histories from build(). " + TRUST)

prop("P08", "Hash table: parallel insert is a batch of set inserts",
     "A batched insert leaves the table as the set union of its contents with the batch's active records, as long as "
     "probing can reach a free slot. Every row gets the index where its record is now stored, inserted and unique "
     "flags are exact, rows that are masked out have no effect, and no stored record is lost, moved or stored twice.",
     ["inputs", "histories"], "any table contents, any batch with any duplicates, masks and hash collisions",
     "slot assignment among colliding rows of one batch depends on the exact collision pattern", HT,
     [("reservation of slots inside a batch", "xtructure/hashtable/insert.py"),
      ("bucket fill levels", "xtructure/hashtable/insert.py")],
     "symbolic execution of the traced HashTable.parallel_insert + z3, inductive step over arbitrary valid tables",
     "Inductive step over tables up to 4x2, 2x3, 1x4, batches up to 4; histories mixing inserts. " + TRUST)

prop("P09", "Hash table: size is exact and indices stay valid",
     "The reported size is always the number of records stored, a record's index never changes once it is inserted, "
     "and reading the table at that index returns that record. Distinct stored records have distinct indices within "
     "the table's storage.",
     ["inputs", "histories"], "any table state and operation", "counters and indices drift only in partially failing "
     "or colliding batches", HT, [("size and bucket_fill_levels updates", "xtructure/hashtable/insert.py"),
                                  ("CurrentInfo/HashIdx", "xtructure/hashtable/table.py")],
     "symbolic execution of traced insert/parallel_insert/__getitem__ + z3",
     "Same domains as P07/P08. " + TRUST)

prop("P10", "Hash table: batched lookup agrees with single lookup",
     "lookup_parallel on a batch returns for every active row exactly what lookup returns for that record alone, and "
     "reports rows masked out as not found. Neither changes the table.",
     ["inputs"], "any table state, any query batch and mask", "two implementations of the same probe loop",
     HT, [("_hashtable_lookup_parallel_internal vs lookup", "xtructure/hashtable/lookup.py")],
     "symbolic execution of both traced lookups + z3, equivalence query over arbitrary valid tables",
     "Tables up to 4x2, 2x3; batches up to 4. " + TRUST)

prop("P11", "Hash table: duplicates inside a batch resolve to the cheapest, then the first",
     "Among equal active records of one batch exactly one is flagged unique: the one with the smallest unique_key, "
     "and among those the first; only it may be inserted, and all its duplicates report its index. Different records "
     "are never treated as duplicates, whatever their hashes, in safe and exact mode.",
     ["inputs"], "any batch of any duplicate pattern, mask, costs and hash collisions, in every dedupe mode and sort "
     "backend", "collisions of hash pairs or of the 128-bit row signature cannot be hit by sampling",
     ["xtructure/hashtable/hash_utils.py", "xtructure/hashtable/insert.py"],
     [("_compute_unique_mask_from_hash_pairs", "xtructure/hashtable/hash_utils.py"),
      ("_compute_unique_mask_from_uint32eds", "xtructure/hashtable/hash_utils.py")],
     "symbolic execution of the traced parallel_insert in every dedupe mode + z3",
     "Batches of 2-4 rows, rows of 3 and 12 words, float and integer costs, every collision pattern of the domain. "
     + TRUST)

prop("P12", "Hash table: accelerator slot reservation is a batch of set inserts under every interleaving",
     "On GPU and TPU, parallel_insert reserves slots with kernels whose programs run concurrently. Whatever the order "
     "in which programs access the occupancy words, every new record that has a reachable free slot gets exactly one "
     "slot, no two records get the same slot, no stored record is overwritten, inserted flags, indices, fill levels "
     "and size are exact, and lookups afterwards find exactly the stored records, custom max_probes included.",
     ["inputs", "interleavings"], "every interleaving of the kernel programs' memory accesses, any table contents and "
     "any batch", "the CPU test suite never runs these kernels and no test controls their interleaving",
     ["xtructure/hashtable/insert_triton.py", "xtructure/hashtable/insert_pallas.py", "xtructure/hashtable/insert.py"],
     [("reserve_slots_kernel: atomic_or claim loop", "xtructure/hashtable/insert_triton.py"),
      ("bucket_owner_kernel and rounds", "xtructure/hashtable/insert_pallas.py")],
     "symbolic execution of the Pallas kernel bodies with symbolic schedules + z3, thread replay",
     "Tables up to 4x1, 2x2, 1x32; up to 3 concurrent programs, sequentially consistent memory. " + TRUST)

DEC = "xtructure/core/xtructure_decorators/"

prop("P13", "Record hashing is consistent and identifies the record",
     "Records that are equal hash equally. All hash entry points (hash, hash_pair, with and without uint32ed), all "
     "streaming settings and batched evaluation return the same values for the same record and seed. Two records of "
     "a class have the same uint32ed and bytes only if they are equal, whatever their fields' dtypes, odd sizes, "
     "padding and nesting, and also in the aggregate-packed mode.",
     ["inputs"], "any field values and seed", "tests compare a few records; a dropped lane or a mode that disagrees "
     "shows only for particular values or layouts", [DEC + "hash.py"],
     [("word conversion per dtype", DEC + "hash.py:_leaf_to_uint32"),
      ("streaming reducers", DEC + "hash.py:_hash_pair_streaming_from_leaves")],
     "symbolic execution of the traced hash functions under every mode + z3",
     "Nine layouts over all dtypes in five streaming modes, four aggregate layouts in packed, raw and auto modes, any "
     "seed. Hash quality (collision rate) is not claimed. " + TRUST)

prop("P14", "Bit packing round-trips every width",
     "For every width from 1 to 32 bits and every array whose values fit that width, from_uint8(to_uint8(x)) "
     "returns x with its shape, the stream has exactly packed_num_bytes bytes, and a value that does not fit never "
     "alters another element. Empty arrays work too.",
     ["inputs"], "any values, widths 1..32", "a wrong shift or mask shows only for values that cross a word or byte "
     "boundary at one width", [DEC + "aggregate_bitpack/bitpack.py", DEC + "aggregate_bitpack/kernels.py",
                               DEC + "aggregate_bitpack/spec.py"],
     [("block packing", DEC + "aggregate_bitpack/bitpack.py:to_uint8"),
      ("block unpacking", DEC + "aggregate_bitpack/bitpack.py:from_uint8")],
     "symbolic execution of the traced to_uint8/from_uint8 + z3",
     "All 32 widths, sizes around one and two packing blocks (thorough: all sizes to 35), 0-3 dimensions. " + TRUST)

prop("P15", "Aggregate packing loses nothing",
     "For a class with declared bit widths, packing a record or batch and unpacking it by any route (unpacked, "
     "unpack, as_original, unpack_field with any index vector or slice, dotted names) returns the original values "
     "in the original shapes and announced dtypes. Equal packed storage means equal records, the Pallas and the XLA "
     "packers agree, and a value too wide for its field alters no other field.",
     ["inputs"], "any field values and layouts", "a field that straddles a word boundary or the tail is wrong only "
     "at one offset", [DEC + "aggregate_bitpack/__init__.py", DEC + "aggregate_bitpack/kernels.py",
                       DEC + "aggregate_bitpack/spec.py", DEC + "aggregate_bitpack/view.py"],
     [("word/tail layout", DEC + "aggregate_bitpack/spec.py:_compute_word_tail_layout"),
      ("field decoding", DEC + "aggregate_bitpack/__init__.py:_decode_field_all"),
      ("Pallas packer", DEC + "aggregate_bitpack/kernels.py")],
     "symbolic execution of the traced pack/unpack and of the Pallas kernel body + z3",
     "All 32 widths with leading offsets, mixed and nested layouts, all word/tail shapes, batches (), (2,), (2,2). " + TRUST)

prop("P16", "packed_tensor fields behave as their logical arrays",
     "A field stored as packed bytes reads back, through <field>_unpacked, exactly the values last written with "
     "from_unpacked or set_unpacked, for every width, shape and batch shape; writing one packed field leaves all "
     "other fields alone, and rows selected or replaced carry their packed values with them.",
     ["inputs"], "any values, widths 1..32", "padding and word-crossing elements differ per width and size",
     [DEC + "bitpack_accessors.py", "xtructure/core/field_descriptors.py"],
     [("pack", DEC + "bitpack_accessors.py:_pack_value"), ("unpack", DEC + "bitpack_accessors.py:_unpack_value"),
      ("stored length", "xtructure/core/field_descriptors.py:_packed_num_bytes")],
     "symbolic execution of the traced accessors + z3",
     "All 32 widths, fields of 1..block+1 values and 2-D shapes, batches (), (2,), (2,2). " + TRUST)

XN = "xtructure/core/xtructure_numpy/"
IO = "xtructure/io/io.py"

prop("P17", "save and load restore the instance exactly",
     "Saving an instance and loading the file gives an instance of the same class in which every field, nested "
     "fields and all dtypes included, has the saved dtype, shape and bits, whether or not the class saves its fields "
     "bit-packed, for any batch shape and any values that fit the declared bit widths. Methods and functions agree, "
     "and loading through the wrong class fails instead of returning wrong data.",
     ["inputs"], "any field contents and batch shape, widths 1..32", "packing on disk loses data only for values and "
     "sizes that cross a packing block or for one dtype", [IO, DEC + "io.py", DEC + "annotate.py"],
     [("flatten/packed save", IO + ":save"), ("rebuild/unpack", IO + ":load")],
     "symbolic execution of traced save and load composed through a model of the .npz container + z3",
     "All 32 widths, bool/int/uint/float/bfloat16 fields, nesting, packed_tensor and aggregate classes, batches up "
     "to (2,2). The zip container is modelled and the model is validated on real files. " + TRUST)

prop("P18", "Structural operations move whole records like numpy moves elements",
     "concat, stack, pad, take, reshape, transpose, swapaxes, moveaxis, roll, rot90, flip, repeat, tile, split, "
     "broadcast and the other structural operations of xnp treat a record as one array element: each result record "
     "is entirely the source record numpy's operation of the same name would put there, in all fields including "
     "tensor and nested ones, with numpy's batch shape and unchanged dtypes. Padding creates default records or the "
     "given fill values.",
     ["inputs"], "any record contents, positions, shifts; negative and zero axes; empty batches", "an axis that "
     "reaches into a tensor field scrambles records only for particular axis/rank combinations",
     [XN + "dataclass_ops/batch_ops.py", XN + "dataclass_ops/shape_ops.py", XN + "dataclass_ops/spatial_ops.py",
      XN + "__init__.py"],
     [("batch-axis bookkeeping", XN + "dataclass_ops/shape_ops.py"), ("pad and concat", XN + "dataclass_ops/batch_ops.py")],
     "symbolic execution of the traced operations + z3, against numpy's operation on record numbers",
     "Batch shapes up to (2,1,3), 4-5 record classes, about 870 operation/shape/axis cases. " + TRUST)

prop("P19", "where and conditional updates act on whole records, first True wins",
     "xnp.where picks each whole record from x where its flag is set and from y elsewhere. A conditional update "
     "(update_on_condition, .at[...].set_as_condition) changes a record only if a flagged update names it, and then "
     "to the value of the first such update, in all fields; unflagged and out-of-range updates change nothing.",
     ["inputs"], "any flags, values and indices, repeated and out-of-range indices included", "conflicting updates "
     "of the same position in one batch have to resolve deterministically", [XN + "array_ops.py",
     XN + "dataclass_ops/logical_ops.py", DEC + "indexing.py"],
     [("first-True-wins resolution", XN + "array_ops.py:_update_array_on_condition"),
      ("flag broadcasting", XN + "dataclass_ops/logical_ops.py:where")],
     "symbolic execution of the traced operations with symbolic indices and flags + z3",
     "Batches up to (2,3) and 257, up to 4 updates, 8/16/32-bit indices. " + TRUST)

prop("P20", "unique_mask keeps exactly the cheapest valid row of every distinct record",
     "unique_mask marks, for every distinct valid record of a batch, exactly one row: the cheapest, the first on "
     "ties. Rows that are not filled are never marked and never influence others. The returned indices are exactly "
     "the marked rows and the inverse maps every valid row to the marked row of its record. Holds for every class, "
     "cost dtype and key function, and when internal hashes collide.",
     ["inputs"], "any rows, costs, filled flags, hash collisions", "sorting plus segment logic fails only for "
     "particular ties, sentinel values or collisions", [XN + "dataclass_ops/unique_ops"],
     [("group detection", XN + "dataclass_ops/unique_ops"), ("cost tie-breaking", XN + "dataclass_ops/unique_ops")],
     "symbolic execution of the traced unique_mask + z3",
     "2-4 rows (thorough 5), records of 1..7 hash columns, aggregate-packed records. " + TRUST)

prop("P21", "Indexing selects whole records and at[].set replaces exactly those",
     "x[i] returns the records at i in every field, nested ones included, with numpy's batch shape for integer, "
     "slice, tuple, mask and array indices. x.at[i].set(v) replaces exactly the records at i, entirely, by v and "
     "changes no other record; out-of-bounds positions are dropped.",
     ["inputs"], "any record contents, values and positions", "a field that is skipped or indexed differently shows "
     "only for classes with nesting or tensor fields", [DEC + "indexing.py"],
     [("getitem and at accessors", DEC + "indexing.py")],
     "symbolic execution of the traced accessors + z3",
     "Batch shapes up to (2,1,2), 5 record classes, about 640 index cases. " + TRUST)

prop("P22", "Comparisons, casts and fills act on every element of every field",
     "a == b is true exactly if every element of every field of the two records is equal, and a != b is its negation. "
     "equal, not_equal, isclose, allclose, astype, full_like, zeros_like and ones_like give for each field what "
     "jax.numpy gives for that field, as functions and as methods. default(shape) fills every field with its declared "
     "default, dtype and shape for any batch shape, nested fields included.",
     ["inputs"], "any field contents, NaN, infinities and signed zeros included", "a field or element that a reduction "
     "skips shows only if the records differ exactly there",
     [DEC + "ops.py", XN + "dataclass_ops/comparison_ops.py", XN + "dataclass_ops/type_ops.py",
      XN + "dataclass_ops/fill_ops.py", DEC + "default.py", "xtructure/core/field_descriptors.py"],
     [("reduced comparison", DEC + "ops.py"), ("default values", DEC + "default.py")],
     "symbolic execution of the traced operations + z3 (float arithmetic uninterpreted on both sides)",
     "Batch shapes up to (3,), (2,2), (0,), six record classes over all dtypes. " + TRUST)

SRC = ("Executes the Python source itself with symbolic integers (symx/pysym.py): every branch on a dimension forks, "
       "each path's concrete instance is compared with the real call.")

prop("P23", "Shape reports describe the instance",
     "shape, batch_shape, structured_type, ndim and len agree with the fields for every combination of field shapes: "
     "an instance has batch shape b exactly if every field, nested ones included, has shape b followed by its declared "
     "shape; it is SINGLE for b = (), BATCHED otherwise, len is b[0] (1 for a single record). If there is no such b "
     "the instance is UNSTRUCTURED with batch -1, and len and ndim raise TypeError.",
     ["inputs"], "any dimensions of any field", "field shapes that coincide or conflict only for particular sizes",
     [DEC + "shape.py"], [("get_shape and its users", DEC + "shape.py")],
     "symbolic execution of the Python source over symbolic dimensions + z3, all paths",
     "Eight record classes, up to 2 batch dimensions per field (thorough 3), unbounded dimensions. " + SRC)

prop("P24", "Storage built for N items holds N items",
     "For every requested size, Stack, Queue, BGPQ and HashTable build storage with room for at least that many "
     "records (whatever bucket size, multiplier or batch size), and probing can reach all of it. Packed byte counts "
     "and the word/tail layout of aggregate packing always have room for all bits, and field descriptors reserve "
     "exactly the bytes the packer writes.",
     ["inputs"], "any requested size", "rounding is off only for sizes at particular remainders",
     ["xtructure/hashtable/table.py", "xtructure/bgpq/bgpq.py", "xtructure/stack/stack.py", "xtructure/queue/queue.py",
      DEC + "aggregate_bitpack/bitpack.py", DEC + "aggregate_bitpack/spec.py", "xtructure/core/field_descriptors.py"],
     [("hash table sizing", "xtructure/hashtable/table.py:_hashtable_build_jit"),
      ("heap sizing", "xtructure/bgpq/bgpq.py:_bgpq_build_jit"),
      ("packed sizes", DEC + "aggregate_bitpack/bitpack.py:packed_num_bytes")],
     "symbolic execution of the Python source over symbolic sizes + z3, all paths",
     "Sizes up to 2**31 (packing: unbounded); bucket sizes 1..64, multipliers 1..4, batch sizes 1..65. " + SRC)

prop("P25", "Validating classes accept exactly well-formed instances",
     "With validate=True, and through check_invariants, construction and replace succeed exactly when every field has "
     "its declared dtype and ends in its declared shape and custom validators accept it; otherwise they raise. The "
     "accepted instance holds exactly the values given, nested instances included.",
     ["inputs"], "any field shapes and dtypes", "a wrong trailing dimension can coincide with a right one",
     [DEC + "validation.py"], [("check_invariants", DEC + "validation.py")],
     "symbolic execution of the Python source over symbolic dimensions + z3, all paths",
     "Five validating classes, up to 2 batch dimensions per field, unbounded dimensions, enumerated dtypes. " + SRC)

prop("P26", "Instances and containers survive JAX transformations unchanged",
     "Passing an instance or a container through jit, vmap, scan, cond, switch, loops, tree operations, replace or "
     "to_tuple/from_tuple keeps every field's values in its own place, the class, and the static fields; replace "
     "changes exactly the named field. Instance methods equal the xnp functions they stand for.",
     ["inputs"], "any contents; instances with the same dtypes in several fields", "a permuted or cached field is "
     "invisible when fields look alike", ["xtructure/core/dataclass.py", DEC + "method_factory.py"],
     [("pytree registration", "xtructure/core/dataclass.py:register_dataclass_type_with_jax_tree_util"),
      ("instance methods", DEC + "method_factory.py")],
     "symbolic execution of the traced programs + z3",
     "Seven record classes, batch shapes (), (3,), (2,3); containers of two sizes. " + TRUST)
