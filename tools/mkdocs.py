#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe=None, note=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=["tommyds/" + f for f in files], mech=mech,
                observe=observe or [], note=note, state=state or [])

TESTS = "check.c runs one fixed insert/search/remove script per container, single-threaded, with an infallible malloc; "
PROPS = [
P("C01", "Fixed-size hashtable is a multimap for every history",
  "After any sequence of insertions, removals by key, removals of a given element, lookups and re-initialisations, the fixed-size hashtable contains exactly the elements inserted and not yet removed, its count says so, and a search for a key returns an element with that key if and only if one is stored. Every element with the searched hash is reachable by walking the bucket of that hash, whatever bucket count was requested and however the hash values collide.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all operation histories, requested bucket counts, hash distributions, interleavings of locked callers, heap contents",
  TESTS + "distinct hash values and one bucket count, no collisions mixed with removals from the middle of a chain.",
  ["tommyhashtbl.c", "tommyhashtbl.h", "tommychain.h", "tommylist.h"], [("power-of-two sizing and mask addressing", "tommy_hashtable_init, tommy_hashtable_bucket"), ("chains of equal buckets", "tommy_list_insert_*, tommy_list_remove_existing")],
  ["search/remove results", "count", "bucket walk", "foreach"]),
P("C02", "Dynamic hashtable is a multimap across every resize",
  "After any sequence of insertions, removals, lookups and re-initialisations, the resizing hashtable contains exactly the elements inserted and not yet removed; count, search, bucket walk and iteration all agree on that set. Growing and shrinking at any moment neither loses, duplicates nor makes unreachable any element.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories, in particular those crossing grow and shrink thresholds repeatedly with colliding hashes",
  TESTS + "grows once from empty and shrinks once to empty, so reversals around thresholds and collisions during a rehash are not reached.",
  ["tommyhashdyn.c", "tommyhashdyn.h", "tommychain.h"], [("rehash merging two half chains or splitting one", "tommy_hashdyn_resize"), ("resize thresholds", "hashdyn_grow_step, hashdyn_shrink_step")],
  ["search/remove results", "count", "bucket walk", "foreach"]),
P("C03", "Linear hashtable is a multimap at every point of incremental resizing",
  "At every moment, including in the middle of an incremental growth or shrink and after the direction is reversed at any intermediate point, the linear hashtable contains exactly the elements inserted and not yet removed. Count, search, bucket walk and iteration all agree on that set, for any hash values.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories that stop, reverse or restart a growth or a shrink at any split position, with any hash distribution",
  TESTS + "it grows monotonically and then shrinks monotonically, hence almost no lookup happens in a reversed, half-way state.",
  ["tommyhashlin.c", "tommyhashlin.h", "tommylist.h"], [("two-mask addressing around the split position", "tommy_hashlin_bucket_ref"), ("incremental split and merge, and reversal", "hashlin_grow_step, hashlin_shrink_step")],
  ["search/remove results", "count", "bucket walk", "foreach"], state=[("split/low_max/state", "position and direction of the running reallocation", "tommy_hashlin_struct")]),
P("C04", "Trie maps all 32-bit keys correctly, also sharing its allocator",
  "After any sequence of insertions, removals by key, removals of a given element and lookups with any 32-bit keys, the trie contains exactly the elements inserted and not yet removed, and a search for a key succeeds if and only if an element with exactly that key is stored. Several tries may share one block allocator without affecting each other.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories over 32-bit keys, including keys differing only in the lowest or highest bits, with tries sharing an allocator and with failing allocations in between",
  TESTS + "it inserts consecutive keys into one trie with its own allocator; expansion to the last level and reduction with siblings of mixed kind are not combined.",
  ["tommytrie.c", "tommytrie.h", "tommyalloc.c"], [("expansion of a leaf to inner nodes", "trie_bucket_insert"), ("reduction of single-child inner nodes", "trie_bucket_remove_existing")],
  ["search/remove results", "count", "bucket walk"]),
P("C05", "In-place trie maps all 32-bit keys correctly",
  "After any sequence of insertions, removals by key, removals of a given element and lookups with any 32-bit keys, the in-place trie contains exactly the elements inserted and not yet removed, including several elements with the same key. A search for a key succeeds if and only if an element with exactly that key is stored.",
  ["histories", "inputs", "schedules"], "all histories over 32-bit keys, removal of inner and leaf elements and of any of several equal-key elements",
  TESTS + "consecutive keys, removed in a fixed order; replacing a removed inner element by a deep leaf or by its equal-key successor depends on key bits the script never produces.",
  ["tommytrieinp.c", "tommytrieinp.h"], [("replacement of a removed inner node", "trie_inplace_bucket_remove"), ("descending by key bits", "trie_inplace_bucket_insert, tommy_trie_inplace_bucket")],
  ["search/remove results", "count", "bucket walk"]),
P("C06", "Tree is an ordered set for every history",
  "After any sequence of insertions, removals and lookups, the tree contains exactly the elements inserted and not yet removed, visits them in strictly ascending order, and rejects an element comparing equal to a stored one by returning the stored one and changing nothing. This also holds when the very element already stored is inserted again and for any compare function that is a consistent order.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories and key orders, re-insertion of stored elements, extreme compare results, coarser search orders",
  TESTS + "it inserts in one order and removes in one order, and never re-inserts an element that is already in the tree.",
  ["tommytree.c", "tommytree.h"], [("balanced insertion and removal", "tommy_tree_insert_node, tommy_tree_remove_node"), ("duplicate detection", "tommy_tree_insert")],
  ["insert/search/remove results", "count", "foreach order"]),
P("C07", "List is exactly the sequence its history describes",
  "After any sequence of head and tail insertions, removals of given elements, concatenations and sorts, walking the list forward and backward gives exactly the sequence the operations describe, and first, last, emptiness and count agree with it. Concatenating with an empty list on either side behaves as sequence concatenation.",
  ["histories", "inputs", "schedules"], "all operation histories on one or two lists, removals at head, tail and middle",
  TESTS + "the list is only filled, sorted and emptied; removals from the middle followed by concatenation and insertion are not checked link by link.",
  ["tommylist.h", "tommylist.c"], [("zero-terminated forward and circular backward links", "tommy_list_insert_*, tommy_list_remove_existing, tommy_list_concat")], ["head/tail/count/empty", "forward and backward walk", "foreach"]),
P("C08", "List sort is a stable permutation within the n log n bound",
  "Sorting any list with any consistent compare function leaves a valid list holding exactly the same elements, ordered, with elements comparing equal kept in their previous relative order. It needs no more than on the order of n log n comparisons and no heap memory.",
  ["inputs", "histories", "schedules"], "all lists (sizes, key multiplicities, pre-sorted runs) reached by any history, compare callbacks interrupted by other tasks at any point",
  TESTS + "sorting is tried on a few shapes with order checked, but stability and the number of comparisons are not observed.",
  ["tommylist.c", "tommychain.h"], [("bit-counter mergesort on chains", "tommy_chain_mergesort, tommy_chain_merge"), ("relinking of the previous pointers", "tommy_list_sort")], ["list walk after sort", "compare callback invocations"]),
P("C09", "Pointer arrays keep every value and never move a slot",
  "Every value stored in a growable array of pointers is read back unchanged from the same index until overwritten, new slots read as null, and the size is the largest one requested. Growing never changes the address of an existing slot.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories of grow, set, append and re-initialise, at every size around segment boundaries, with dirty heap memory and failing allocations",
  TESTS + "arrays grow by one up to a fixed size with fresh zeroed memory, so non-monotonic jumps over several segments and dirty memory are not reached.",
  ["tommyarray.c", "tommyarray.h", "tommyarrayblk.c", "tommyarrayblk.h"], [("segments of doubling size addressed by the highest bit", "tommy_array_grow, tommy_array_ref"), ("fixed blocks", "tommy_arrayblk_grow")], ["get/ref results", "size"]),
P("C10", "Arrays of any element size keep contents and addresses",
  "For every element size, each element of a growable array of objects is a distinct, non-overlapping region of that size, new elements are zero-filled, contents persist until overwritten, and the size is the largest one requested. Growing never changes the address of an existing element.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all element sizes and histories of grow and write, with dirty heap memory and failing allocations",
  TESTS + "one element size, grown one by one.",
  ["tommyarrayof.c", "tommyarrayof.h", "tommyarrayblkof.c", "tommyarrayblkof.h"], [("segments of doubling size scaled by the element size", "tommy_arrayof_grow, tommy_arrayof_ref"), ("fixed blocks", "tommy_arrayblkof_grow, tommy_arrayblkof_ref")], ["ref addresses and contents", "size"]),
P("C11", "Block allocator hands out valid, aligned, disjoint blocks",
  "Every block obtained from the block allocator lies wholly inside memory the allocator owns, is aligned as requested, has at least the requested size, and does not overlap any other block in use. Freed blocks become available again, and a block keeps its contents until it is freed.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all block sizes, alignments and allocate/free histories, any heap placement, failing allocations",
  TESTS + "one block size and alignment is used, with whatever addresses malloc returns.",
  ["tommyalloc.c", "tommyalloc.h"], [("segment carving with alignment", "tommy_allocator_alloc"), ("free list in the blocks", "tommy_allocator_free")], ["block addresses", "contents of the blocks"]),
P("C12", "Elements with equal keys keep their insertion order",
  "In every container that admits equal keys, a search returns the oldest stored element with the key, removal by key takes that element, and walking the bucket or iterating visits elements with equal keys in insertion order. Resizes, removals of other elements and re-insertions do not disturb that order.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories with few distinct keys and many equal elements, crossing resizes in both directions",
  TESTS + "duplicates are inserted but their relative order after a resize is not compared.",
  ["tommylist.h", "tommychain.h", "tommyhashdyn.c", "tommyhashlin.c", "tommyhashtbl.c", "tommytrie.c", "tommytrieinp.c"], [("tail insertion in the chains", "tommy_list_insert_tail*"), ("order-keeping split and merge", "tommy_hashdyn_resize, hashlin_grow_step, hashlin_shrink_step, tommy_list_concat")], ["search/remove results", "bucket walk", "foreach"]),
P("C13", "Heap memory is released exactly once and elements stay the caller's",
  "Every container gives back all memory it took when destroyed, never frees twice or touches memory it released, and never reads or writes an element after it was removed or outside the storage the caller provided. Destroying a non-empty container leaves its elements untouched.",
  ["histories", "schedules", "fault_sequences", "inputs"], "all histories, heap placement and reuse policies, failing allocations, elements freed right after removal",
  TESTS + "it runs on an ordinary heap where stale reads give plausible values; released memory is not reused or overwritten adversarially.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommytree.c", "tommylist.h", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c"],
  [("release of segments", "*_done, hashlin_shrink_step"), ("offset segment pointers", "tommy_array_grow, hashlin_grow_step")], ["heap calls", "red zones", "bytes of removed and remaining elements"]),
P("C14", "Only the documented operations use the heap",
  "Lookups and iteration never call the heap; trees, lists and in-place tries never call it at all; a fixed-size hashtable only calls it when created and destroyed. Growing arrays, linear hashtables and the allocator only allocates, never frees or moves what exists, removing from a trie or an allocator never calls it, and removing from a linear hashtable never allocates.",
  ["histories", "inputs", "fault_sequences"], "all histories, including growth and shrink in any order and failing allocations",
  TESTS + "heap calls are not observed at all.",
  ["tommyhashtbl.c", "tommyhashlin.c", "tommyhashdyn.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.h", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c", "tommytypes.h"],
  [("heap seam", "tommy_malloc, tommy_calloc, tommy_realloc, tommy_free")], ["heap calls per API call"]),
P("C15", "Separate containers are independent under any interleaving",
  "Callers using different containers at the same time, interleaved at any point, each observe exactly what they would observe running alone. Results do not depend on memory addresses, on earlier contents of memory or on what other containers did before.",
  ["schedules", "histories", "inputs"], "all interleavings of tasks that own different containers, heap placements, garbage in fresh memory and stack",
  TESTS + "everything runs sequentially in one thread, so hidden shared state is never exercised.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.c", "tommyarray.c", "tommyalloc.c", "tommyhash.c"], [("no global or static state", "all sources"), ("complete initialisation", "*_init")], ["full transcript of results per task"]),
P("C16", "Lookups change nothing and may run concurrently or be abandoned",
  "Search, bucket access, iteration, count and size queries write nothing to the container or its elements, so any number of readers may run at the same time, interleaved at any point, and each gets the correct answer. A reader stopped for good in the middle of a lookup leaves the container fully usable.",
  ["schedules", "crash_points", "histories"], "all interleavings of concurrent readers and all points at which a reader can be cancelled",
  TESTS + "no lookup ever runs while another one is in progress.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommyhashlin.h", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.h", "tommyarray.h"], [("read-only lookups", "*_search, *_bucket, *_foreach, *_ref, *_count, *_memory_usage")], ["write faults on protected memory", "lookup results"]),
P("C17", "Iteration visits every element exactly once, even when it frees them",
  "Iterating over a container calls the callback exactly once for each stored element and for nothing else, passing the caller's argument unchanged. This holds in any state of the container and also when the callback frees the element it is given.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all container states, including the middle of an incremental resize, with callbacks that free and overwrite the element",
  TESTS + "iteration runs on full containers in stable states and freed memory keeps its old contents.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytree.c", "tommylist.h"], [("saving the next link before the callback", "tommy_*_foreach, tommy_*_foreach_arg"), ("range of buckets in use", "tommy_hashlin_foreach")], ["callback invocations"]),
P("C18", "Elements indexed in several containers at once stay consistent",
  "An element may be kept in several containers at the same time through separate nodes; every operation on one of them leaves the others unchanged. Removing the element from all of them in any order always succeeds and returns that element.",
  ["histories", "schedules", "fault_sequences"], "all histories over objects stored simultaneously in a hashtable, a trie, a tree and a list, with failing allocations in between",
  TESTS + "each container is tested alone with one node per element.",
  ["tommytypes.h", "tommyhashlin.c", "tommyhashdyn.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.h"], [("intrusive nodes", "tommy_node_struct"), ("removal without search", "*_remove_existing")], ["contents of every index after each operation"]),
P("C19", "Each linear hashtable update does a bounded amount of work",
  "With well-spread hash values, every single insertion or removal in the linear hashtable performs a small bounded amount of work and heap activity, independent of how many elements are stored. This holds at any point of any history, including when growth and shrinking alternate.",
  ["histories", "inputs"], "all histories of insertions and removals with well-spread hashes, including reversals of the resize direction at any position",
  TESTS + "only results are checked, and the work of a single operation is not measured.",
  ["tommyhashlin.c", "tommyhashlin.h"], [("incremental split and merge targets", "hashlin_grow_step, hashlin_shrink_step")], ["library steps executed and heap calls per operation"]),
P("C20", "Table memory follows the number of elements both ways",
  "The memory held by a resizing hashtable and by a growable array stays within a constant factor of what its current content needs, plus a small constant, at every point of every history. In particular tables shrink again when elements are removed, and a repeated pattern of insertions and removals never makes memory accumulate.",
  ["histories", "inputs"], "all fill, drain and oscillation histories, up to 140000 elements",
  TESTS + "memory use is never compared with the number of elements.",
  ["tommyhashdyn.c", "tommyhashlin.c", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c"], [("grow and shrink thresholds", "hashdyn_grow_step, hashdyn_shrink_step, hashlin_grow_step, hashlin_shrink_step")], ["heap bytes held", "bucket chain lengths"]),
P("C21", "A failing allocation never corrupts a container",
  "When the heap fails during any operation and the failure is reported out of the allocation function, the container still holds all elements it held before, the element being inserted is either fully stored or not stored at all, and no memory leaks. The operation can be retried and the container used and destroyed as usual.",
  ["fault_sequences", "histories", "schedules"], "all histories with any allocation inside any operation failing, repeatedly, followed by arbitrary further use",
  TESTS + "allocations never fail.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c", "tommytypes.h"], [("allocate before changing state", "tommy_hashdyn_resize, hashlin_grow_step, trie_bucket_insert, tommy_array_grow, tommy_allocator_alloc")], ["contents after the failure", "heap blocks held"]),
P("C22", "Reported memory use equals the memory actually held",
  "The memory use a container reports equals the heap memory it holds (for a trie, the allocator blocks it holds) plus one node per stored element, at every moment of every history. For the block allocator it equals the number of blocks in use times the block size.",
  ["histories", "inputs", "fault_sequences"], "all histories, including states in the middle of an incremental resize and after failing allocations",
  TESTS + "memory_usage() is called but its value is not compared with anything.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c"], [("usage computed from the structure", "tommy_*_memory_usage")], ["memory_usage results", "heap bytes held"]),
P("C23", "Tree operations stay logarithmic for every history",
  "Every insertion, removal and search in a tree of n elements makes a number of comparisons proportional to the logarithm of n, whatever order elements were inserted and removed in.",
  ["histories", "inputs"], "all insertion and removal orders: ascending, descending, bit-reversed, random, oscillating, partial drains",
  TESTS + "results are checked, and the number of comparisons is not observed.",
  ["tommytree.c"], [("height rebalancing after insertion and removal", "tommy_tree_balance, tommy_tree_move_right")], ["compare callback invocations per call"]),
P("C24", "Hash functions read only the key and depend on nothing else",
  "A hash function reads exactly the bytes of the key it is given (for strings, up to and including the terminator), writes nothing, and its result depends only on those bytes, the length and the initial value. Address alignment, neighbouring memory being changed meanwhile and other hash computations in progress make no difference.",
  ["schedules", "inputs", "configurations"], "all key lengths and placements, including keys ending at an inaccessible page, with neighbouring bytes rewritten by other tasks in the middle of the computation",
  TESTS + "keys are static arrays with accessible memory after them and nothing else runs.",
  ["tommyhash.c", "tommyhash.h"], [("tail handling by length", "tommy_hash_u32, tommy_hash_u64"), ("word-wise string scan", "tommy_strhash_u32")], ["hash results", "memory faults"]),
P("C25", "Leaving a callback early leaves the container as it was",
  "If a compare or iteration callback never returns normally (a non-local jump or an exception) during a search, a removal by key, an insertion into a tree or an iteration, the container is exactly as it was before the call. It remains fully usable afterwards.",
  ["fault_sequences", "crash_points", "histories", "schedules"], "every callback invocation of every such call as the escape point, in any container state",
  TESTS + "callbacks always return.",
  ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytree.c", "tommylist.h"], [("compare before modifying", "tommy_*_remove, tommy_tree_insert, tommy_tree_remove"), ("iteration without state", "tommy_*_foreach")], ["contents and results after the escape"]),
P("C26", "Every build behaves the same",
  "Compiled as C or as C++, for 32 or 64 bits, with or without assertions, and with the built-in bit scans of the compiler or the portable ones, the library gives the same results for the same sequence of operations and the same faults, and no assertion ever fires in legal use.",
  ["configurations", "histories", "schedules", "fault_sequences"], "the same simulated runs in five builds: clang C with assertions and address sanitizer, gcc C optimised without assertions, g++ as C++, gcc 32-bit, gcc without compiler builtins (portable code paths)",
  "The suite runs in one build configuration per invocation and never compares two.",
  ["tommytypes.h", "tommy.c", "tommyhashlin.c", "tommyarray.h", "tommytrie.c", "tommyhash.c"], [("portable casts, bit scans and size types", "tommytypes.h"), ("assertions without side effects", "assert uses in all sources")], ["full transcript of results per task and build"]),
P("C27", "Every operation keeps its cost class at any size",
  "Whatever was done before and with well-spread hash values, every insertion, removal and lookup in a list, trie, in-place trie, block allocator, fixed-size hashtable of adequate size or linear hashtable, every list concatenation, every lookup in the resizing hashtable and every array access takes a bounded number of steps, however many elements are stored; tree operations are logarithmic, list sorting is n log n, iteration is linear. Resizing costs the dynamic hashtable and the growable arrays a constant per update on average in every stretch of a history: inserting and removing in turn around any size does not resize again and again.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all histories, including long alternations of a few insertions and removals around every size, and after failing allocations",
  TESTS + "speed is printed and never judged, and no history alternates around a threshold.",
  ["tommylist.h", "tommylist.c", "tommyhashdyn.c", "tommyhashtbl.c", "tommyhashlin.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommyalloc.c", "tommyarray.c", "tommyarray.h", "tommyarrayblk.c"],
  [("circular prev link gives the tail", "tommy_list_tail, tommy_list_concat, tommy_list_insert_tail"), ("distance between the grow and the shrink threshold", "hashdyn_grow_step, hashdyn_shrink_step"), ("doubling segments", "tommy_array_grow, tommy_arrayof_grow"), ("bounded depth", "trie_bucket_insert, trie_inplace_bucket_insert")], ["simulated time (basic blocks of library code, bulk work by size) of each call"]),
P("C28", "Callbacks get what the caller is told, and may use the library",
  "A search or removal by key in a hashtable calls the compare function only with the argument of the caller first and a stored element having the searched hash second, at most once for each element and not again after it accepted one, and the result is the oldest such element it accepts, whatever it tests. Compare functions of trees and of sorts get only values given by the caller and stored elements. While a callback runs it may itself look up the same container (other than the list being sorted), and change other containers, also of the same kind, without disturbing the call in progress.",
  ["histories", "schedules", "inputs"], "any accepting function (one element, some, all, none), any hash collisions, and any library use nested in any callback invocation, in any container state",
  TESTS + "compare functions test equality of one key, hash values of distinct keys in a bucket do not matter to them, and no callback ever calls the library.",
  ["tommyhashtbl.h", "tommyhashtbl.c", "tommyhashdyn.h", "tommyhashdyn.c", "tommyhashlin.h", "tommyhashlin.c", "tommytree.c", "tommylist.h", "tommychain.h"],
  [("hash compared before the callback is called", "tommy_*_search, tommy_*_remove"), ("no state outside of the container and the stack", "tommy_tree_*, tommy_chain_mergesort, tommy_*_foreach")], ["arguments and sequence of callback invocations", "results of the nested and of the outer call"]),
P("N01", "Integer hash functions are reversible",
  "The integer hash functions map distinct inputs to distinct outputs, and the inverse functions give back the original value.",
  ["inputs"], "all 32-bit and 64-bit values", TESTS + "a handful of values are tried.",
  ["tommyhash.h"], [("invertible mixing steps", "tommy_inthash_u32, tommy_inthash_u64")], ["function results"]),
P("N02", "Hash functions return the published values on every platform",
  "The generic hash functions return the values of the algorithms they implement, on little and big endian machines alike.",
  ["inputs", "configurations"], "all keys, lengths and initial values", TESTS + "a table of test vectors is compared.",
  ["tommyhash.c"], [("mixing steps", "tommy_hash_u32, tommy_hash_u64")], ["function results"]),
P("N03", "Bit helpers compute exact results for every value",
  "The helpers finding the lowest and highest set bit, rounding up to a power of two and testing for one return the exact result for every argument in their domain.",
  ["inputs"], "all arguments", TESTS + "every power of two and its neighbours are tried.",
  ["tommytypes.h"], [("bit scans", "tommy_ilog2_u32, tommy_ctz_u32, tommy_roundup_pow2_u32 and the 64-bit versions")], ["function results"]),
]
NA = {
"N01": "A pure function of one integer: no schedule, clock, fault, interleaving or history can influence it, so seeded simulation would only be input generation under another name (a proof or exhaustive enumeration decides it).",
"N02": "A pure function of its bytes: comparing with published values is a test-vector or equivalence question without any nondeterminism to simulate; C24 covers the part that depends on memory and interleaving.",
"N03": "Pure functions of one integer without state or nondeterminism; wrong values that matter to a container show up in the containers' own properties.",
}
LEVEL_NOTE = ("Seeded search over simulated runs of the unmodified library in five builds; sampled, so a clean batch is evidence and not proof. Trusts the simulator's "
  "model, its heap, scheduler and locks (which stand in for the caller's), and that basic blocks (build A: memory accesses) are fine enough as points of preemption.")
EXTRA = {
"C19": " Work is counted in executed basic blocks, with a limit ten times above the observed maximum.",
"C27": " Work is counted in executed basic blocks and bytes of bulk work, with limits far above the observed constants and far below what a walk over the elements takes.",
"C26": " Compares complete result transcripts of the five builds run by run.",
"C15": " Compares each task's transcript with a serial re-run alone, with other addresses and garbage.",
"C16": " Memory is write-protected during lookups, so a single write is seen.",
}

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            j = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"],
                                  hook_needed=None))
            if p["state"]:
                j["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            f.write(json.dumps(j) + "\n")
    m = dict(version=1, setup_cmd="python3 build.py",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"], technique="deterministic simulation with fault injection (seeded search)", level="exploration",
                     level_note=LEVEL_NOTE + EXTRA.get(p["id"], "")) for p in PROPS if p["id"][0] == "C"],
        not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
        notes="No hooks in /repo: the heap seam (tommy_malloc and friends) and callbacks exist already; preemption uses the compiler's coverage callbacks. "
              "known-findings lists the repaired defects. 'python3 check.py --selftest' demonstrates determinism, 'python3 check.py --replay FILE' replays.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
