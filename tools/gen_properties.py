#!/usr/bin/env python3
"""Single source of the property texts; writes ../properties.jsonl."""
import json, os
I = "include/fixed_containers/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": x, "where": I + files[0]} for x in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "FixedVector behaves as a bounded std::vector",
  "After any sequence of in-contract operations (construction, assignment, push/emplace/insert/erase at any position, resize, clear, element access, iteration, predicate erasure) a FixedVector holds exactly the elements, in the order, with the size and the return values that a std::vector given the same operations would have, and its capacity never changes. This holds for trivially copyable and for non-trivial element types and for every capacity, including zero and one.",
  ["inputs", "histories"],
  "for all element values, sizes up to the capacity, positions, counts and range kinds, from every reachable contents",
  "tests sample a few fixed sequences of literals; a wrong shift amount or order only shows at particular size/position/count combinations",
  ["fixed_vector.hpp", "algorithm.hpp", "memory.hpp", "optional_storage.hpp"],
  [("insert/erase shift elements in place with separate trivially-copyable and non-trivial paths", "fixed_vector.hpp"),
   ("uninitialized relocate helpers", "algorithm.hpp"), ("unmanaged element slots", "optional_storage.hpp")],
  ["element array", "size"], ["data()/size()/iterators/returned iterators and references"])
p("P02", "FixedDeque behaves as a bounded std::deque wherever its window starts",
  "For any history of pushes, pops, inserts, erases, resizes, assignments and clears at both ends and in the middle, a FixedDeque yields exactly the sequence, size and return values a std::deque would, regardless of where in its ring buffer the live elements currently start or wrap. Element access, iterators and reverse iterators all agree with that sequence.",
  ["inputs", "histories"],
  "for all element values, start offsets (including wrap-around), sizes, positions and counts within the capacity",
  "the wrap point depends on the whole push/pop history; tests only visit a few alignments of the window",
  ["fixed_deque.hpp", "circular_indexing.hpp", "circular_integer_range_iterator.hpp", "random_access_iterator.hpp"],
  [("ring-buffer index arithmetic", "circular_indexing.hpp"), ("front/back/middle mutation", "fixed_deque.hpp")],
  ["start index and length", "element slots"], ["operator[]/at/iterators/returned iterators"])
p("P03", "Circular deque and queue keep exactly the most recent elements",
  "Pushing onto a full FixedCircularDeque or FixedCircularQueue never fails: it silently drops one element at the opposite end and keeps all the others in order, while below capacity nothing is dropped. Every other operation behaves as on an ordinary deque or queue of the surviving elements, at every alignment of the buffer.",
  ["inputs", "histories"],
  "for all interleavings of pushes/pops/inserts/erases at either end, element values, sizes and buffer alignments",
  "eviction combined with wrap-around and middle insertion has a combinatorial number of alignments; tests pick a few",
  ["fixed_circular_deque.hpp", "fixed_circular_queue.hpp", "queue_adapter.hpp", "fixed_deque.hpp"],
  [("evict-then-push on a full buffer", "fixed_circular_deque.hpp")],
  ["start index and length", "element slots"], ["iteration order, front/back, size"])
p("P04", "FixedList behaves as a bounded std::list",
  "After any sequence of in-contract operations a FixedList holds the same sequence, size and return values as a std::list given the same operations, traversed forwards or backwards, including insert/erase at any position, range and count insertion, assign, resize, remove/remove_if and reversal of direction. Slots released by erasure are reusable, so a list that is not full can always accept another element.",
  ["inputs", "histories"],
  "for all element values, positions, counts, and free-slot orders produced by previous insertions and erasures",
  "linking errors and slot-reuse errors depend on the order in which slots were freed earlier",
  ["fixed_list.hpp", "fixed_doubly_linked_list.hpp", "fixed_index_based_storage.hpp", "index_or_value_storage.hpp", "bidirectional_iterator.hpp"],
  [("index-linked chain with sentinel", "fixed_doubly_linked_list.hpp"), ("free-slot chain threaded through unused slots", "fixed_index_based_storage.hpp")],
  ["next/prev index chain", "free-slot chain"], ["forward and backward iteration, front/back, size"])
p("P05", "FixedStack is LIFO and FixedQueue is FIFO",
  "For every history of pushes, emplaces, pops and bulk construction within capacity, a FixedStack exposes the most recently pushed live element at its top and a FixedQueue exposes the oldest live element at its front and the newest at its back. Size, emptiness and fullness always reflect the number of live elements, and nothing is lost, duplicated or reordered.",
  ["inputs", "histories"],
  "for all push/pop histories up to the step bound, element values and capacities",
  "ordering errors that need wrap-around or a drained-then-refilled adapter are outside the sampled histories",
  ["fixed_stack.hpp", "fixed_queue.hpp", "stack_adapter.hpp", "queue_adapter.hpp"],
  [("adapters over vector/deque", "queue_adapter.hpp")], ["underlying sequence"], ["top/front/back/pop/size"])
p("P06", "FixedString edits match std::string and stay null-terminated",
  "After any sequence of in-contract edits (construction, assign, append, insert, erase, push/pop, resize, clear) a FixedString holds exactly the characters a std::string would, with the same size and returned positions. The character just past the end is always the terminating null, so the C-string view is the full content for strings without embedded nulls, also when the string is exactly full.",
  ["inputs", "histories"],
  "for all character contents, lengths up to capacity, positions, counts and source kinds",
  "terminator and off-by-one errors only show for particular length/position/count combinations such as exactly-full strings or shrinking edits",
  ["fixed_string.hpp", "fixed_vector.hpp"],
  [("vector-backed characters with one extra slot for the terminator", "fixed_string.hpp")],
  ["characters, terminator"], ["data()/c_str()/size()/view conversion/returned iterators"])
p("P07", "FixedString queries match std::string",
  "For every string content and every argument, element access, comparison and ordering operators, three-way compare, prefix and suffix tests, containment, substring extraction and copying conversions of a FixedString return what the same query on a std::string with that content would return, without modifying the string.",
  ["inputs"], "for all contents of both operands up to the bound, all positions and counts",
  "query results depend on relations between two strings (equal prefixes, differing lengths, embedded nulls) that a few literals do not span",
  ["fixed_string.hpp"], [("queries over the character view", "fixed_string.hpp")], ["characters"], ["return values"])
p("P08", "FixedMap behaves as a bounded std::map",
  "For every history of insertions, assignments, emplacements, subscripting and erasures (by key, position, range or predicate) a FixedMap contains the same key/value pairs, iterates them in strictly ascending comparator order in both directions, and returns the same lookup, lower/upper-bound and insertion results as a std::map, including heterogeneous lookup with a transparent comparator. This holds in whatever order keys arrive and leave, and for every supported node layout and comparator.",
  ["inputs", "histories"],
  "for all key orders (including equal keys), values, and insertion/erasure sequences up to the node bound",
  "tree rebalancing takes different branches for each arrival/removal order; the number of orders is factorial",
  ["fixed_map.hpp", "fixed_red_black_tree.hpp", "fixed_red_black_tree_ops.hpp", "fixed_red_black_tree_nodes.hpp", "fixed_red_black_tree_storage.hpp"],
  [("index-linked red-black tree search/insert/erase", "fixed_red_black_tree.hpp"), ("pool of nodes", "fixed_red_black_tree_storage.hpp")],
  ["tree links and colours", "node pool"], ["iteration, find/at/bounds/contains, returned iterators"])
p("P09", "FixedSet behaves as a bounded std::set",
  "For every history of insertions, emplacements and erasures (by key, position, range or predicate) a FixedSet contains the same keys as a std::set, iterates them in strictly ascending comparator order in both directions, and returns the same lookup, bound, count and insertion results, including heterogeneous lookup with a transparent comparator.",
  ["inputs", "histories"],
  "for all key orders including duplicates and all insertion/erasure sequences up to the node bound",
  "rebalancing and bound queries depend on the arrival/removal order and the relation of the probe to all keys",
  ["fixed_set.hpp", "fixed_red_black_tree.hpp", "fixed_red_black_tree_ops.hpp"],
  [("value-less red-black tree", "fixed_red_black_tree.hpp")], ["tree links and colours"], ["iteration, find/bounds/count, returned iterators"])
p("P10", "Ordered containers stay balanced",
  "After any sequence of insertions and erasures the search tree behind the ordered map and set is a valid red-black tree: parent and child links agree, keys are ordered, no red node has a red child and every root-to-leaf path has the same number of black nodes. Consequently lookups never take more than twice the logarithm of the element count in steps.",
  ["inputs", "histories"],
  "for all insertion and erasure orders up to the node bound, for both node colour layouts and both slot-pool layouts",
  "an unbalanced or mis-coloured tree still returns correct lookups, so behavioural tests pass while the complexity guarantee is gone",
  ["fixed_red_black_tree.hpp", "fixed_red_black_tree_ops.hpp", "fixed_red_black_tree_nodes.hpp", "fixed_red_black_tree_storage.hpp"],
  [("fix-after-insertion / fix-after-deletion", "fixed_red_black_tree.hpp"), ("rotations and swaps", "fixed_red_black_tree_ops.hpp")],
  ["parent/left/right indices and colours"], ["tree structure through the tree's own node accessors"])
p("P11", "FixedUnorderedMap is a correct map for every hash function",
  "For any hash function (including one where all keys collide) and any history of insertions, assignments, emplacements, subscripting and erasures, a FixedUnorderedMap contains exactly the key/value pairs a std::unordered_map would, every present key is found and no absent key is. Iteration visits each entry exactly once, in insertion order.",
  ["inputs", "histories"],
  "for all keys, all hash assignments (the hash is an arbitrary function), values and operation histories up to the bound",
  "probe-chain and backward-shift errors need specific collision patterns that a fixed good hash on a few integers never produces",
  ["fixed_unordered_map.hpp", "fixed_map_adapter.hpp", "fixed_robinhood_hashtable.hpp", "fixed_doubly_linked_list.hpp"],
  [("robin-hood buckets with distance+fingerprint and backward-shift deletion", "fixed_robinhood_hashtable.hpp")],
  ["bucket array", "entry list"], ["find/contains/at/iteration/returned iterators"])
p("P12", "FixedUnorderedSet is a correct set for every hash function",
  "For any hash function and any history of insertions, emplacements and erasures, a FixedUnorderedSet contains exactly the keys a std::unordered_set would: every present key is found, no absent key is, duplicates are rejected, and iteration visits each key exactly once in insertion order.",
  ["inputs", "histories"],
  "for all keys, all hash assignments and operation histories up to the bound",
  "probe-chain errors need specific collision patterns that a fixed good hash never produces",
  ["fixed_unordered_set.hpp", "fixed_set_adapter.hpp", "fixed_robinhood_hashtable.hpp"],
  [("robin-hood buckets", "fixed_robinhood_hashtable.hpp")], ["bucket array", "entry list"], ["find/contains/iteration"])
p("P13", "Enum-keyed map, set and array behave as total lookup tables",
  "For every history of insertions, assignments, subscripting and erasures, an EnumMap or EnumSet contains exactly the keys (and values) inserted and not erased, iterates them in the enum's canonical order (the order of its listed values) in both directions, and answers lookups, counts, complements and comparisons accordingly. An EnumArray associates each enum constant with its own independent value, for plain enums (including sparse or negative constants) and rich enums alike.",
  ["inputs", "histories"],
  "for all subsets of enum constants, all keys and values, and all operation histories up to the bound",
  "the subset lattice and its iteration gaps (leading, trailing, adjacent holes) are exponential; tests use a handful of subsets",
  ["enum_map.hpp", "enum_set.hpp", "enum_array.hpp", "filtered_integer_range_iterator.hpp"],
  [("presence flags indexed by ordinal", "enum_map.hpp"), ("skipping iteration", "filtered_integer_range_iterator.hpp")],
  ["presence flags, values, size"], ["iteration, find/at/contains, equality"])
p("P14", "Rich enum conversions are exact inverses",
  "For every integer, backing value or name, converting to a rich enum succeeds exactly when a constant with that integer, backing value or name exists, and then yields that constant; ordinals are the zero-based positions in the list of values and converting back returns the original. A valueless rich enum is distinguishable from every constant.",
  ["inputs"], "for all underlying integers, all names up to the bound and all constants",
  "tests look up a few existing constants; wrong answers for other integers or near-miss names go unnoticed",
  ["enum_utils.hpp"], [("value_of with fast path and linear search", "enum_utils.hpp")], [], ["returned optionals, ordinals, names"])
p("P15", "Sequence misuse is reported before anything is damaged",
  "Every operation on a sequence container that would exceed the capacity, access a position outside the contents, or read from or pop an empty container is reported to the container's customizable checking policy, with the right category, the requested size or index and the capacity or size, before the container's elements change and without touching memory outside it (assigning or single-pass inserting a whole range may already have replaced or appended elements when the excess shows). Operations that are within limits are never reported.",
  ["inputs", "histories"], "for all requested sizes, counts, indices (full machine range) and contents",
  "tests check one over-limit literal per operation; off-by-one limits and huge values that overflow the size computation are not sampled",
  ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_circular_deque.hpp", "sequence_container_checking.hpp", "preconditions.hpp"],
  [("checking policy callbacks", "sequence_container_checking.hpp"), ("check_target_size / check_not_full / check_not_empty", "fixed_vector.hpp")],
  ["contents and size at the time of the report"], ["checking policy calls"])
p("P16", "Map and set misuse is reported before anything is damaged",
  "Inserting a new key into a full map or set, or looking up an absent key through a checked accessor, is reported to the customizable checking policy with the offending key or size, and the stored entries are unchanged at that moment. Re-inserting a present key into a full container, and every other in-limit operation, is never reported.",
  ["inputs", "histories"], "for all keys, contents and fill levels up to the bound",
  "the distinction between full-with-key-present and full-with-key-absent and the reported arguments are sampled once per operation at best",
  ["fixed_map.hpp", "fixed_set.hpp", "fixed_map_adapter.hpp", "fixed_set_adapter.hpp", "enum_map.hpp", "map_checking.hpp", "set_checking.hpp"],
  [("checking policy callbacks", "map_checking.hpp")], ["entries at the time of the report"], ["checking policy calls"])
p("P17", "Sequence containers construct and destroy each element exactly once",
  "For element types with non-trivial copy, move or destruction, every element a sequence container creates is destroyed exactly once, no element is read, assigned, moved from or destroyed while it is not alive, and when the container is destroyed, cleared, assigned over or moved nothing leaks. Elements removed by an operation are destroyed by that operation.",
  ["inputs", "histories"], "for all operation histories, sizes, positions and counts up to the bound",
  "double-destroy and assign-to-raw-memory defects corrupt nothing observable for simple test types and appear only on particular shift paths",
  ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_circular_deque.hpp", "fixed_list.hpp", "algorithm.hpp", "memory.hpp", "optional_storage.hpp"],
  [("construct_at/destroy_at on unmanaged slots", "memory.hpp"), ("relocation helpers", "algorithm.hpp")],
  ["set of live element objects"], ["element special-member calls"])
p("P18", "Map and set containers construct and destroy each element exactly once",
  "For key and value types with non-trivial copy, move or destruction, every entry a map or set creates (ordered, unordered or enum-keyed) is destroyed exactly once, no dead entry is read, assigned or destroyed, and erasing, clearing, assigning, moving or destroying the container leaks nothing. A failed insertion of a duplicate key leaves no entry behind.",
  ["inputs", "histories"], "for all key orders, collision patterns and operation histories up to the bound",
  "slot reuse and node swapping hide lifetime errors from value-based tests",
  ["fixed_red_black_tree.hpp", "fixed_red_black_tree_nodes.hpp", "fixed_index_based_storage.hpp", "index_or_value_storage.hpp", "fixed_robinhood_hashtable.hpp", "enum_map.hpp", "optional_storage.hpp"],
  [("pool slots that hold either a value or a free-chain index", "index_or_value_storage.hpp")],
  ["set of live entry objects"], ["element special-member calls"])
p("P19", "Copies are equal and independent; moves and swaps transfer the contents",
  "Copy construction and copy assignment (including self-assignment and assignment over any previous contents) produce a container equal to the source and fully independent of it, leaving the source unchanged; move construction, move assignment and swapping deliver exactly the source's former contents to the destination. The result remains fully usable for further operations, also when the source is destroyed.",
  ["inputs", "histories"], "for all contents of source and destination and all follow-up operations up to the bound",
  "tests copy one literal container; mismatched sizes, stale bookkeeping in the destination and follow-up mutations are not sampled",
  ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_red_black_tree.hpp", "fixed_robinhood_hashtable.hpp", "fixed_doubly_linked_list.hpp", "enum_map.hpp"],
  [("special members of every container", "fixed_vector.hpp")], ["both containers"], ["contents of both containers after the operation and after follow-up operations"])
p("P20", "Equality and ordering compare logical contents only",
  "Two containers compare equal exactly when their logical contents are equal (as sequences, or as key sets for unordered containers), independent of capacity, insertion history, internal offsets or leftover bytes in unused slots, and ordering comparisons are the lexicographic order of the contents. The relations are consistent with each other: equal means neither less nor greater, and exactly one of less, equal, greater holds.",
  ["inputs", "histories"], "for all pairs of contents reached by different histories and with different capacities",
  "stale bytes or internal offsets influence the answer only for histories tests never build",
  ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_map_adapter.hpp", "fixed_set_adapter.hpp", "enum_map.hpp", "enum_set.hpp", "enum_array.hpp", "comparison_chain.hpp"],
  [("operator== and operator<=> of every container", "fixed_vector.hpp")], ["both containers"], ["comparison results"])
p("P21", "Containers live entirely inside their own bytes",
  "Containers never allocate memory, never read or write outside their own object (whatever garbage the object's memory held before construction), and store no pointers: the bytes of a container of trivially copyable elements can be copied to another address, the original discarded, and the copy behaves identically. This holds after every in-contract operation history.",
  ["inputs", "histories"], "for all operation histories and contents up to the bound and arbitrary prior memory contents",
  "a stray write past an array inside the same object, or a self-pointer, is invisible to value tests at the original address",
  ["fixed_vector.hpp", "fixed_deque.hpp", "fixed_circular_deque.hpp", "fixed_list.hpp", "fixed_string.hpp", "fixed_map.hpp", "fixed_set.hpp", "fixed_unordered_map.hpp", "fixed_unordered_set.hpp", "enum_map.hpp", "enum_set.hpp"],
  [("indices instead of pointers", "fixed_index_based_storage.hpp")], ["raw bytes of the object"], ["behaviour of the byte copy; every memory access"])
p("P22", "Iterators obey the random-access and bidirectional laws",
  "For every container contents and every pair of valid positions, stepping, jumping, subtracting, comparing, dereferencing and subscripting iterators agree with the corresponding index arithmetic; increments and decrements are inverse; reverse iteration is the exact reversal of forward iteration. Converting a mutable iterator (forward or reverse) to its const counterpart yields an iterator to the same element that compares equal to it.",
  ["inputs"], "for all contents, positions and offsets within range, for every container's iterator, reverse and const variants",
  "algebraic laws relate pairs of positions and offsets; tests evaluate a few constants",
  ["random_access_iterator.hpp", "random_access_iterator_transformer.hpp", "bidirectional_iterator.hpp", "forward_iterator.hpp", "circular_integer_range_iterator.hpp", "integer_range_iterator.hpp", "filtered_integer_range_iterator.hpp"],
  [("generic iterator over entry providers", "random_access_iterator.hpp"), ("generic bidirectional iterator", "bidirectional_iterator.hpp")],
  ["iterator position"], ["dereferenced elements, comparison and distance results"])
p("P23", "References and iterators to surviving elements stay valid",
  "In node-based containers (list, ordered and unordered maps and sets, enum maps) references and iterators to an element keep denoting that same element with its value across any insertions and erasures of other elements; in vectors and strings, references before the point of a modification do. Iterators returned by insertions and erasures denote the element std specifies.",
  ["inputs", "histories"], "for all elements held, all other elements inserted or erased and all orders up to the bound",
  "node relocation during rebalancing or backward-shift only happens for some orders; tests do not hold references across them",
  ["fixed_red_black_tree.hpp", "fixed_red_black_tree_ops.hpp", "fixed_robinhood_hashtable.hpp", "fixed_doubly_linked_list.hpp", "fixed_list.hpp", "enum_map.hpp", "fixed_vector.hpp"],
  [("swap of node positions instead of contents on deletion", "fixed_red_black_tree.hpp")], ["address and identity of each element"], ["held references and iterators"])
p("P24", "Index and integer arithmetic is exact over the full machine range",
  "The circular-index helpers return the mathematically exact position for every start, offset and range size; the integer-range helpers decide membership and iterate exactly the half-open interval; the safe integer helpers return the mathematical sum, difference, quotient or sign for all operands whose result is representable, without overflow or undefined behaviour; and alignment rounding returns the least aligned value.",
  ["inputs"], "for all 64-bit (and narrower) operands meeting the stated preconditions",
  "arithmetic corner cases (wrap-around, sign boundaries, exact multiples) are measure-zero among sampled operands",
  ["circular_indexing.hpp", "int_math.hpp", "integer_range.hpp", "integer_range_iterator.hpp", "circular_integer_range_iterator.hpp", "fixed_red_black_tree_view.hpp"],
  [("increment/decrement/between with wrap-around", "circular_indexing.hpp"), ("safe_add/safe_subtract", "int_math.hpp")], [], ["return values"])
p("P25", "Type-erased raw views show exactly the container's contents",
  "A raw view created over the bytes of a deque, linked list, ordered map/set or unordered map/set, given only element sizes, alignments and capacity, reports the container's size and visits the addresses of exactly the live elements (keys and values) in the container's own iteration order. This holds for every supported element size and alignment and after any operation history.",
  ["inputs", "histories"], "for all histories up to the bound and a set of key/value sizes and alignments, including sizes that need padding",
  "layout assumptions break only for particular sizes/alignments or after histories that permute slots",
  ["fixed_deque_raw_view.hpp", "fixed_doubly_linked_list_raw_view.hpp", "fixed_map_raw_view.hpp", "fixed_unordered_map_raw_view.hpp", "fixed_unordered_set_raw_view.hpp", "fixed_red_black_tree_view.hpp", "map_entry_raw_view.hpp"],
  [("offset computation from sizes and alignments", "fixed_red_black_tree_view.hpp"), ("ring index recomputation", "fixed_deque_raw_view.hpp")],
  ["container bytes"], ["addresses yielded by the view"])
p("P26", "Reference wrappers and small value helpers are faithful",
  "An optional reference or pair view always denotes exactly the objects it was last bound to: reads and writes go through to them, rebinding or resetting never modifies the referents, comparisons compare the referents with empty ordered below any value, and accessing an empty optional reference is reported. The comparison chain yields the lexicographic order of the compared pairs.",
  ["inputs", "histories"], "for all referent values, bind/rebind/reset histories and operand tuples",
  "tests compare a few literals; confusion between rebinding and assigning-through appears only for particular states",
  ["optional_reference.hpp", "pair_view.hpp", "comparison_chain.hpp", "in_out.hpp", "out.hpp"],
  [("pointer-backed reference", "optional_reference.hpp"), ("pair of pointers", "pair_view.hpp")], ["bound addresses"], ["return values, referent values"])
p("P27", "Hashing depends only on the key's value",
  "Equal keys always hash equally: the string hash depends only on the characters and the length, reads exactly those bytes, and gives the same result at every address and alignment, and integer, enum and pointer hashes depend only on the value. Keys that compare equal are therefore always found in unordered containers using the default hash.",
  ["inputs"], "for all keys up to the length bound covering every length class of the hash, and all integers",
  "an over-read or length-class error only changes the result for particular lengths and neighbouring bytes",
  ["wyhash.hpp"], [("length-class dispatch reading 1-3/4-16/17-48/49+ bytes", "wyhash.hpp")], [], ["hash values, bytes read"])
p("P28", "Slot pools never lose or hand out a slot twice",
  "For every interleaving of allocations and releases, a slot pool reports full exactly when every slot is in use, hands out only indices that are in range and not currently in use, keeps the contents of every other live slot unchanged, and can always reuse every released slot.",
  ["inputs", "histories"], "for all interleavings of allocate/release up to the step bound and all stored values",
  "the free chain depends on the release order; double hand-out appears only after particular release orders",
  ["fixed_index_based_storage.hpp", "index_or_value_storage.hpp", "fixed_doubly_linked_list.hpp"],
  [("free chain threaded through released slots", "fixed_index_based_storage.hpp"), ("swap-with-last contiguous pool", "fixed_index_based_storage.hpp")],
  ["free chain", "live slots"], ["returned indices and slot contents"])
p("P29", "Struct reflection reaches every field and nothing else",
  "Reflecting over a struct visits every field exactly once, in declaration order, with its own name and a reference to that very field; recursive reflection yields exactly the paths of all nested leaves, path strings and path chains convert back and forth without loss, and a struct view maps each path to the offset, stride and extents at which that data actually lies, so reading and writing through the view touches exactly that field.",
  ["inputs"], "for all field values, and for a fixed set of struct shapes (nested structs, arrays, containers, optionals)",
  "tests compare names and a few values; a wrong offset or stride shows only for particular shapes and indices",
  ["reflection.hpp", "recursive_reflection.hpp", "struct_view.hpp", "struct_decomposition.hpp", "variadic_templates.hpp", "tuples.hpp"],
  [("structured-binding decomposition", "struct_decomposition.hpp"), ("path to offset/stride map", "struct_view.hpp")], [], ["visited names and addresses"])
p("P30", "Containers keep the compile-time traits of their elements",
  "A container of trivially copyable, copyable, movable or standard-layout elements is itself trivially copyable, copyable, movable or standard-layout, containers are usable in constant expressions and as template parameters where their elements are, and unsupported uses are rejected at compile time.",
  ["inputs"], "for all element types",
  "the set of element types is open-ended",
  ["fixed_vector.hpp", "concepts.hpp", "optional_storage.hpp"], [("constrained defaulted special members", "fixed_vector.hpp")], [], ["type traits at compile time"])
p("P31", "Stream extraction and insertion of strings are lossless within capacity",
  "Writing a FixedString to a stream emits exactly its characters. Reading one from a stream skips leading whitespace and stores exactly the next whitespace-delimited token, leaving the rest of the stream to be read, when the token fits the capacity, and is reported to the checking policy when it does not. As with std::string, the stream fails exactly when there was no token to read and is at its end exactly when the token was the last thing in it.",
  ["inputs"], "for all stream contents and string contents",
  "token lengths around the capacity and stream states are sampled once",
  ["fixed_string.hpp"], [("stream operators", "fixed_string.hpp")], [], ["stream state and string contents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
