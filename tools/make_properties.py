"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
X = "xtructure/"; D = X + "core/xtructure_decorators/"; N = X + "core/xtructure_numpy/"

p("C01", "Stack is last-in first-out over exact windows",
  "Pushing a single item or a batch of n items places exactly those items, in order, on top of what the stack holds and raises the size by n, leaving every other stored item untouched. Popping or peeking k items yields exactly the k newest in the order they were pushed; pop lowers the size by k, peek and indexing change nothing, and index i reads the i-th item from the bottom. This holds for every field of the stored structure, nested fields included.",
  ["histories", "inputs"], "every reachable size, every batch size and item count that fits, every stored structure type",
  "Tests push and pop a few fixed batches of one or two classes; the guarantee is about every size/batch combination and every field.",
  [X + "stack/stack.py"], [("row window [size, size+n) written by push and [size-n, size) read by pop/peek", X + "stack/stack.py")],
  ["Stack.push", "Stack.pop", "Stack.peek", "Stack.__getitem__"], [("size", "number of live items", X + "stack/stack.py")])
p("C02", "Queue is first-in first-out over exact windows",
  "Enqueuing a single item or a batch of n items appends exactly those items, in order, behind what the queue holds and leaves every other stored item untouched. Dequeuing or peeking k items yields exactly the k oldest in arrival order; dequeue advances past them, peek and indexing change nothing, index i reads the i-th item from the front, the size is what was enqueued minus what was dequeued, and clearing makes it empty and reusable from the start.",
  ["histories", "inputs"], "every reachable head/tail position, every batch size and item count that fits, every stored structure type",
  "Tests exercise a few short histories from an empty queue with one batch size; the window arithmetic must hold at every head/tail position.",
  [X + "queue/queue.py"], [("write window [tail, tail+n), read window [head, head+n)", X + "queue/queue.py")],
  ["Queue.enqueue", "Queue.dequeue", "Queue.peek", "Queue.clear", "Queue.size", "Queue.__getitem__"],
  [("head/tail", "positions of the oldest item and of the next free slot", X + "queue/queue.py")])
p("C03", "Priority queue conserves every key-value pair",
  "As long as capacity is not exceeded, an insertion leaves the queue holding exactly the pairs it held plus the pairs inserted, and a deletion leaves exactly the pairs it held minus the pairs it returned: none is lost or duplicated. A key is never separated from the value it was inserted with, wherever the pair travels.",
  ["histories", "inputs"], "every history of insertions and deletions, every occupancy of the heap and of the overflow buffer, every key order and tie",
  "The heap tests compare a handful of random histories (and the long ones are excluded from the baseline run); whether a block is dropped depends on the path taken through the heap and on buffer occupancy.",
  [X + "bgpq/bgpq.py", X + "bgpq/_insert.py", X + "bgpq/_delete.py", X + "bgpq/_merge.py", X + "bgpq/_utils.py"],
  [("blocks only move through pairwise merge-splits and one scatter of the touched path", X + "bgpq/_insert.py"), ("last heap block or buffer refills the root; sift-down swaps blocks", X + "bgpq/_delete.py")],
  ["BGPQ.insert", "BGPQ.delete_mins"],
  [("key_store/val_store", "one sorted block per heap node", X + "bgpq/bgpq.py"), ("key_buffer/val_buffer", "items that do not yet fill a block", X + "bgpq/bgpq.py")])
p("C04", "Priority queue delivers the smallest keys first",
  "A deletion returns the smallest keys currently held, in ascending order, one block at a time. To make that so, after every insertion and deletion the front block holds the smallest keys, every block is sorted, and no block holds a key larger than one in a block below it in the heap.",
  ["histories", "inputs"], "every history of insertions and deletions and every key order",
  "Tests sample random keys; a merge that sends the wrong half to the wrong node shows only for particular key interleavings deep in the heap.",
  [X + "bgpq/_insert.py", X + "bgpq/_delete.py", X + "bgpq/_merge.py"],
  [("every merge-split gives the lower half to the ancestor", X + "bgpq/_insert.py"), ("sift-down promotes the child with the smaller maximum side", X + "bgpq/_delete.py")],
  ["BGPQ.delete_mins"], [("heap order", "parent block <= child blocks", X + "bgpq/_delete.py")])
p("C05", "Priority queue counts what it holds",
  "The reported size equals the number of real (finite-key) entries held, rows padded with the infinite sentinel are never counted or handed out as real entries, and padding a short block adds only sentinel keys and default values after the given rows. The rounded-up capacity is the requested capacity rounded up to a whole number of blocks.",
  ["histories", "inputs", "configurations"], "every history, every capacity/block-size combination, every number of supplied rows",
  "Tests check the size after a few operations on one configuration.",
  [X + "bgpq/bgpq.py", X + "bgpq/_utils.py", X + "bgpq/_insert.py", X + "bgpq/_delete.py"],
  [("heap_size/buffer_size updates", X + "bgpq/_insert.py"), ("isfinite counting and inf padding", X + "bgpq/bgpq.py")],
  ["BGPQ.size", "BGPQ.build", "BGPQ.make_batched"], [("heap_size, buffer_size", "full blocks below the root and items in the overflow buffer", X + "bgpq/bgpq.py")])
p("C06", "Merging two sorted blocks loses nothing and all strategies agree",
  "Splitting the merge of two sorted blocks returns the lower half and the upper half of all their keys, each sorted, with the first block winning ties, and the values follow their keys. Every available merge strategy and configuration choice gives that same answer.",
  ["inputs", "configurations"], "all pairs of sorted blocks of every length, every strategy selectable by configuration",
  "Only the default strategy runs on the test platform; the alternative ones are kernels the tests never execute.",
  [X + "bgpq/_merge.py", X + "bgpq/merge_split/common.py", X + "bgpq/merge_split/loop.py", X + "bgpq/merge_split/parallel.py", X + "bgpq/merge_split/split.py"],
  [("merge-path partition and stable sort", X + "bgpq/merge_split/common.py")], ["merge_sort_split"])
p("C07", "Hash table looks where it stores",
  "Single and batched lookups and single and batched insertions derive the same fingerprint and visit the same sequence of slots for an item under the same table seed, so an item that was reported inserted is found by every later lookup, through either form. The probe sequence of an item can reach every bucket of the table.",
  ["histories", "inputs", "configurations"], "every item, seed, capacity, bucket size and interleaving of single and batched calls",
  "Tests insert and look up random items with one seed and low load, where the first bucket nearly always answers.",
  [X + "hashtable/hash_utils.py", X + "hashtable/lookup.py", X + "hashtable/insert.py", X + "hashtable/table.py"],
  [("double hashing with an odd step over a power-of-two number of buckets", X + "hashtable/hash_utils.py"), ("shared hash/fingerprint derivation", X + "hashtable/hash_utils.py")],
  ["HashTable.lookup", "HashTable.lookup_parallel", "HashTable.insert", "HashTable.parallel_insert"])
p("C08", "Hash table never overwrites or forgets a stored entry",
  "An insertion writes only to slots that were empty before it, gives each newly stored item a slot of its own, and updates item, fingerprint and fill count of a slot together, so that entries stored earlier keep their position and content for the life of the table. Lookups never modify the table.",
  ["histories", "inputs"], "every table content, every batch (duplicates, colliding hashes, full buckets), every history",
  "Overwriting needs a bucket that fills up or several batch rows competing for one bucket; the tests' load factors make that rare and they do not re-read every earlier entry.",
  [X + "hashtable/insert.py", X + "hashtable/insert_pallas.py", X + "hashtable/insert_triton.py"],
  [("first free slot = fill level; one writer per bucket per round; masked scatter", X + "hashtable/insert.py")],
  ["HashTable.insert", "HashTable.parallel_insert"],
  [("bucket_fill_levels", "number of used slots of each bucket", X + "hashtable/table.py")])
p("C09", "Duplicate rows in one batch collapse to one representative",
  "When several rows of a batch are equal, exactly one of them is treated as the inserter - the first, or when costs are given one with the lowest cost - and every row of the group reports the index under which the representative is stored. Rows that are not equal are never merged.",
  ["inputs"], "every batch, mask and cost vector, including ties and groups with masked rows",
  "Tests use small integer batches with few duplicates and one cost pattern.",
  [X + "hashtable/hash_utils.py", X + "hashtable/insert.py", N + "array_ops.py"],
  [("representative selection and index broadcast to the group", X + "hashtable/hash_utils.py")],
  ["HashTable.parallel_insert"])
p("C10", "Masked-out rows of a batch insertion have no effect",
  "Rows whose mask is false leave the table, its size and every other row's outcome exactly as if they were absent, and are never reported as inserted.",
  ["inputs"], "every mask, row content and table state",
  "Tests use all-true or one fixed mask.",
  [X + "hashtable/insert.py", X + "hashtable/hash_utils.py", X + "hashtable/insert_pallas.py", X + "hashtable/insert_triton.py"],
  [("mask folded into the set of active rows and into every write", X + "hashtable/insert.py")],
  ["HashTable.parallel_insert"])
p("C11", "Hash table size counts exactly the new entries",
  "The table's size grows by exactly the number of items newly stored by a call, equals the number of rows reported as inserted, and agrees with the fill counts of the buckets; a call that stores nothing leaves it unchanged.",
  ["histories", "inputs"], "every history of insertions, duplicate and failing rows included",
  "Tests check the size after inserting distinct items only.",
  [X + "hashtable/insert.py", X + "hashtable/table.py"], [("size and fill levels advanced under the same mask as the item write", X + "hashtable/insert.py")],
  ["HashTable.size", "HashTable.insert", "HashTable.parallel_insert"], [("size", "number of stored items", X + "hashtable/table.py")])
p("C12", "Membership means full equality with a stored item",
  "A lookup reports an item as found only at a slot that is in use and whose stored item equals it in every field; agreement of hashes or fingerprints alone never counts. The index reported for a found or inserted item addresses exactly that item.",
  ["inputs", "histories"], "every pair of items, including fingerprint collisions and stale slot contents",
  "Fingerprint collisions do not occur in the tests' random data, so a missing equality check goes unnoticed.",
  [X + "hashtable/lookup.py", X + "hashtable/insert.py", X + "hashtable/table.py"], [("fingerprint filter followed by full comparison, bounded by the fill level", X + "hashtable/lookup.py")],
  ["HashTable.lookup", "HashTable.lookup_parallel", "HashTable.__getitem__"])
p("C13", "Hashing reads every bit of every field",
  "The hash of an item depends on every bit of every field (floating point, boolean, sub-word and 64-bit fields and nested structures included), on the position of each field and on the seed, and converting an item to bytes or to 32-bit words is lossless and fixed-length. Two items that differ anywhere therefore differ in the word sequence that is hashed.",
  ["inputs", "programs"], "every structure type, every field value",
  "Tests hash a few classes; an ignored byte or field matters only for items that differ just there.",
  [D + "hash.py"], [("leaf-to-word conversion and word-stream mixing", D + "hash.py")], ["hash", "hash_with_uint32ed", "bytes", "uint32ed"])
p("C14", "All hash entry points give the same hash for the same item",
  "For the same item and seed, the plain hash, the hash returned with the word sequence, the paired hash used by the table and the streaming and non-streaming implementations all produce the same value, whichever fields the structure has.",
  ["inputs", "programs", "configurations"], "every structure type, every item, every seed, both implementation modes",
  "Tests compare the variants on one or two classes and a few seeds.",
  [D + "hash.py", X + "hashtable/hash_utils.py"], [("shared mixing step and finaliser", D + "hash.py")], ["hash", "hash_pair", "hash_with_uint32ed"])
p("C15", "Bit packing round-trips every width",
  "Packing an array of values of any width from 1 to 32 bits and unpacking it restores every value exactly, in every position and shape, and uses exactly the advertised number of bytes. No bit of one value leaks into another.",
  ["inputs", "configurations"], "every width 1..32, every element count and value",
  "Tests cover a few widths and lengths; which bits straddle a byte depends on width and position together.",
  [D + "aggregate_bitpack/bitpack.py"], [("LSB-first bit stream", X + "io/bitpack.py")], ["to_uint8", "from_uint8", "packed_num_bytes"])
p("C16", "Packed fields read back what was written",
  "For a field declared packed, the unpacked view of an instance built or updated from given values equals those values, with the declared logical shape and dtype, for every batch shape, and leaves all other fields unchanged. Declared storage shape and dtype agree with what packing produces.",
  ["inputs", "configurations"], "every packed width, logical shape and batch shape",
  "Tests check a few declared fields.",
  [D + "bitpack_accessors.py", X + "core/field_descriptors.py"], [("generated accessors over the packed storage", D + "bitpack_accessors.py")],
  ["set_unpacked", "from_unpacked", "<field>_unpacked"])
p("C17", "Aggregate packing is lossless and fields never overlap",
  "Packing a whole structure into its aggregate words and unpacking it restores every field of every batch element exactly, with its original dtype and shape; each bit of each field occupies a position of its own and no position is shared. Word and tail storage are exactly as long as the declared bits need.",
  ["inputs", "programs"], "every aggregate-packable structure (any mix of widths and nesting), every value and batch shape",
  "Tests cover three layouts; straddling of word boundaries depends on the running offset of all fields together.",
  [D + "aggregate_bitpack/__init__.py", D + "aggregate_bitpack/spec.py", D + "aggregate_bitpack/bitpack.py", D + "aggregate_bitpack/kernels.py"],
  [("static bit layout and per-word contribution tables", D + "aggregate_bitpack/spec.py")], ["packed", "unpacked", "Packed.as_original"])
p("C18", "Reading one field of a packed structure equals unpacking it all",
  "Reading a single field lazily from a packed structure gives exactly what unpacking the whole structure gives for that field, in value, shape and dtype, and the bit schema published for a structure describes where each field's bits really are.",
  ["inputs", "programs"], "every packed structure, field and batch shape",
  "Tests compare one or two fields.",
  [D + "aggregate_bitpack/view.py", D + "aggregate_bitpack/__init__.py"], [("per-field unpack from the same layout table", D + "aggregate_bitpack/bitpack.py")],
  ["unpack_field", "bitpack_schema"])
p("C19", "Default instances have the declared shape, dtype and fill",
  "A default instance of any batch shape has, in every field and recursively in nested structures, exactly batch shape plus declared shape, the declared dtype and the declared fill value at every position; undeclared fills are the dtype's sentinel.",
  ["inputs", "programs"], "every structure type and batch shape", "Tests build a few classes.",
  [D + "default.py", X + "core/field_descriptors.py"], [("per-field broadcast of the fill value", D + "default.py")], ["default"])
p("C20", "Batch shape and structure kind are reported truthfully",
  "An instance is reported single exactly when every field has its declared shape, batched with the common leading axes when every field has the same leading axes in front of its declared shape, and unstructured otherwise; nested structures take part with the same rule, and length and dimension queries agree with it.",
  ["inputs", "programs"], "every structure type and every combination of field shapes", "Tests check a few consistent shapes.",
  [D + "shape.py"], [("leading-axis comparison over all fields", D + "shape.py")], ["shape", "structured_type", "batch_shape", "len"])
p("C21", "Indexing and functional updates touch exactly the addressed elements",
  "Indexing an instance applies the index to the leading axes of every field alike, and a functional update replaces exactly the addressed elements of every field with the given values (broadcast scalars included) while all other elements of all fields stay as they were.",
  ["inputs", "programs"], "every index form, batch shape and structure type", "Tests index one or two classes with small ints and slices.",
  [D + "indexing.py"], [("per-field indexed read/write", D + "indexing.py")], ["__getitem__", "at[].set"])
p("C22", "Conditional updates let the first true entry win",
  "A conditional update writes, for each addressed position, the value of the first entry whose condition is true, ignores entries whose condition is false or whose one-dimensional index is out of range, and changes nothing else, in every field alike.",
  ["inputs"], "every index vector (duplicates included), condition vector and value form", "Scatter order is unspecified by the platform; tests on one backend with few duplicates cannot show that the winner is always the first.",
  [N + "array_ops.py", N + "dataclass_ops/logical_ops.py", D + "indexing.py"], [("winner selection by stable order and dropped losers", N + "array_ops.py")],
  ["at[].set_as_condition", "update_on_condition"])
p("C23", "Batch reshaping operations move whole elements",
  "Reshape, flatten, transpose and axis swap rearrange the batch axes of every field alike and leave each field's own axes alone; axis move, expand, squeeze, repeat, tile, split, take, roll, flip, rotation, rank promotion and broadcast apply the array library's operation, with the same arguments, to every field. Functions and methods agree, and no element is mixed up, dropped or invented.",
  ["inputs", "programs"], "every structure type, batch shape and argument combination", "Tests run each operation on one or two shapes.",
  [N + "dataclass_ops/shape_ops.py", N + "dataclass_ops/batch_ops.py", N + "dataclass_ops/spatial_ops.py", N + "__init__.py"], [("per-field mapping with batch-only axes", N + "dataclass_ops/shape_ops.py")],
  ["xnp.*", "reshape", "flatten"])
p("C24", "Joining and padding keep elements in order and fill with defaults",
  "Concatenating and stacking place the elements of the inputs in argument order along the requested axis in every field, and padding keeps the original elements at the requested offset and fills every new position with the structure's default (or with the requested value or mode).",
  ["inputs", "programs"], "every number of inputs, axis, batch shape, pad width and structure type", "Tests use a few small inputs.",
  [N + "dataclass_ops/batch_ops.py", N + "__init__.py"], [("per-field concatenate/stack/pad", N + "dataclass_ops/batch_ops.py")], ["xnp.concatenate", "xnp.concat", "xnp.stack", "xnp.pad"])
p("C25", "Selection, comparison and fill act elementwise on every field",
  "Conditional selection takes each element of each field from the first structure where the condition holds and from the second elsewhere; comparisons report exactly per-field elementwise (in)equality, the equality operators combine it over all fields, and fill operations give every field the requested constant with its own shape and dtype.",
  ["inputs", "programs"], "every condition, structure type and operand form", "Tests check one or two cases per operation.",
  [N + "dataclass_ops/logical_ops.py", N + "dataclass_ops/comparison_ops.py", N + "dataclass_ops/fill_ops.py", D + "ops.py"], [("per-field mapping", N + "dataclass_ops/logical_ops.py")], ["xnp.where", "xnp.where_no_broadcast", "xnp.equal", "==", "!="])
p("C26", "Uniqueness masks keep one cheapest representative per group",
  "The uniqueness mask selects, from each group of equal valid elements, exactly one element - the first, or one of lowest cost - never selects an invalid (masked or infinitely costly) element, and the returned indices and inverse mapping describe that same selection.",
  ["inputs"], "every batch, mask, cost vector and key width", "Tests use small batches with few groups.",
  [N + "dataclass_ops/unique_ops/optimized_unique_ops.py"], [("stable multi-pass sort and group boundaries", N + "dataclass_ops/unique_ops/optimized_unique_ops.py")], ["xnp.unique_mask"])
p("C27", "Structures are faithful transparent pytrees",
  "Flattening and rebuilding any structure gives back the same fields in the same places with the same static metadata and carries no hidden cached state, both flattening forms list the same leaves in the same declared order, and replacing a field changes that field only. Static fields never become array leaves and take part in tree identity.",
  ["programs", "inputs"], "every structure class, including nested, static-field and packed ones", "Tests check a few classes; a leaf order or cache leak appears only in the transformation that relies on it.",
  [X + "core/dataclass.py", D + "structure_util.py"], [("pytree registration", X + "core/dataclass.py")], ["tree_flatten", "tree_unflatten", "replace"])
p("C28", "Saving and loading restores the same instance",
  "Loading a saved instance yields an instance of the same class with bit-identical fields, dtypes and shapes (nested and packed ones included; values within their declared bit width, classes found under their module and qualified name), saving changes neither the instance nor other files, and loading a file as a different class, or a file with a missing part, raises instead of returning a wrong instance.",
  ["inputs", "programs"], "every structure class and instance", "Tests save a few classes.",
  [X + "io/io.py", D + "io.py"], [("flattened dotted keys plus class metadata", X + "io/io.py")], ["save", "load"])
p("C29", "Field descriptors keep their declared meaning",
  "A descriptor exposes exactly the dtype, shape, fill and packing it was declared with; inconsistent declarations (two fills at once, widths outside 1 to 32 or not integers, missing or conflicting packed shapes, annotations that are not descriptors, conflicting packing modes) are rejected when made, derived descriptors (cloned, reshaped or broadcast) differ from their source only in what was asked for, and a class uses exactly the descriptors of the fields it declares or extends.",
  ["programs", "configurations"], "every declaration and override combination", "Tests check a few declarations.",
  [X + "core/field_descriptors.py", X + "core/field_descriptor_utils.py"], [("constructor validation and clone helpers", X + "core/field_descriptors.py")], ["FieldDescriptor", "clone_field_descriptor", "with_intrinsic_shape", "broadcast_intrinsic_shape"])
p("C30", "Validated structures reject malformed fields",
  "When validation is enabled, constructing an instance with a field of the wrong dtype or trailing shape, of the wrong structure class, or that its declared validator refuses, always raises, and constructing a well-formed one never does.",
  ["inputs", "programs"], "every structure class and field value", "Tests check two malformed fields.",
  [D + "validation.py", D + "__init__.py"], [("post-construction check of every field", D + "validation.py")], ["xtructure_dataclass(validate=True)"])
p("C31", "Array-like functions agree with the array library and are all exported",
  "Called on plain arrays, each array-like function forwards every argument unchanged to its array-library namesake; called on structures it never silently ignores an argument it does not support, and the two public namespaces export the same set of functions.",
  ["inputs", "programs"], "every function and argument", "Tests compare a few signatures and calls.",
  [N + "__init__.py", X + "xtructure_numpy.py", X + "numpy.py"], [("dispatch wrappers", N + "__init__.py")], ["xnp.*"])
p("C32", "Random instances have the declared shape and type and independent fields",
  "A random instance of any batch shape has batch shape plus declared shape and the declared dtype in every field, integer and boolean fields range over the whole declared width, and no two fields are derived from the same random key.",
  ["inputs", "programs"], "every structure type, batch shape and key", "Tests look at one class and shape.",
  [D + "structure_util.py"], [("key splitting per field", D + "structure_util.py")], ["random"])
p("C33", "Hash values spread items evenly",
  "Distinct items collide in bucket choice and fingerprint no more often than random assignment predicts, so that probe sequences stay short.",
  ["inputs"], "the distribution of items met in practice", "A handful of samples cannot establish a distribution.",
  [D + "hash.py", X + "hashtable/hash_utils.py"], [("avalanche finaliser", D + "hash.py")], ["HashTable.lookup_parallel"])
p("C34", "Batched probing always terminates within its probe budget",
  "Every lookup or insertion ends after a number of probes bounded by the configured budget, also on a completely full table, and reports failure rather than looping or returning a wrong slot.",
  ["inputs", "histories"], "every table state, full tables included", "Tests never fill a table.",
  [X + "hashtable/lookup.py", X + "hashtable/insert.py", X + "hashtable/insert_triton.py", X + "hashtable/insert_pallas.py"], [("probe counter in every probing loop condition", X + "hashtable/lookup.py")], ["HashTable.lookup", "HashTable.parallel_insert"])
p("C35", "Printing shows the items a structure holds, in order",
  "The text of a single instance is what its class's own formatter writes (every field once, under its name, in declared order, when the class brings none); the text of a batched instance shows the items at their positions in row-major order - all of them up to the documented size, otherwise the first and the last ones with an ellipsis between, per axis for two-dimensional batches - together with the class name and the batch shape. Formatting options given to `.str` reach every item, an instance whose fields disagree prints as unstructured, and printing leaves the instance as it was.",
  ["inputs", "programs"], "every batch shape, structure type and field content", "Tests print one or two instances and look for a substring.",
  [D + "string_format.py", D + "annotate.py"], [("per-position item formatting and truncation", D + "string_format.py")], ["__str__", "str"])
p("C36", "A decorated class offers the published interface and keeps its own members",
  "Every member the published protocol declares is present on every decorated class, whatever its fields and decoration options, is of the declared kind and accepts the declared arguments; an object counts as a structure exactly when its class was decorated; and decoration keeps the class's own name, documentation, methods, properties, class and static methods, constants, operators and inherited members.",
  ["programs"], "every structure declaration and decoration option", "Tests decorate a few classes and call the members they need; code that relies on the published interface can meet any class.",
  [D + "__init__.py", "xtructure/core/protocol.py", "xtructure/core/type_utils.py", "xtructure/core/dataclass.py"], [("members installed by the decorator", D + "__init__.py"), ("published protocol", "xtructure/core/protocol.py")], ["xtructure_dataclass", "Xtructurable"])
p("C37", "Containers go through loops, mapping and 64-bit mode with the same results",
  "Every operation of Stack, Queue, BGPQ and HashTable returns a container of exactly the type it was given (same leaf shapes and types, same static fields), so that a container can be carried through scan, while, fori and cond; an operation mapped over several containers does to each what it does to that container alone, whatever the other containers hold; and with 64-bit types enabled an operation leaves the same container and the same results as without.",
  ["inputs", "programs"], "every operation, structure, capacity and pair of container states", "Tests call the operations one container at a time, outside loops and in the default 32-bit mode; what a mapped loop does to a container depends on what every other container holds.",
  ["xtructure/stack/stack.py", "xtructure/queue/queue.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/lookup.py"], [("container updates", "xtructure/stack/stack.py"), ("heapify loops", "xtructure/bgpq/_delete.py"), ("probe loops", "xtructure/hashtable/lookup.py")], ["Stack", "Queue", "BGPQ", "HashTable"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P))
