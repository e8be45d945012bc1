#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements have one source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or ["public trait Slice1Ext on ArrayBase<S, Ix1>"],
                          "hook_needed": None}})
QC = "The existing tests are quickcheck samples of random short u32/item vectors (about 100 draws, length < 100) plus doc examples; "

prop("C01", "Stable sequential sorts return the stable order",
 "After sort, sort_by or sort_by_key with a comparator that is a total preorder, the array holds the same elements in non-descending order and elements that compare equal keep their original relative order. This holds for every length, every input order and every comparator consistent with a total preorder.",
 ["inputs"], "all input arrays (length, order pattern, ties) and all total preorders",
 QC + "they do not reach specific run structures, run-stack shapes, merge directions with ties, or long arrays.",
 ["src/lib.rs", "src/stable_sort.rs", "src/merge_sort.rs", "src/insertion_sort.rs"],
 [("merge of runs, prefers left on ties", "src/merge_sort.rs merge"), ("run detection and minimum-run extension", "src/merge_sort.rs merge_sort/provide_sorted_batch/find_streak"),
  ("run stack collapse invariants", "src/merge_sort.rs collapse"), ("insertion of head/tail", "src/insertion_sort.rs")],
 [("run stack", "pending sorted runs still to merge", "src/merge_sort.rs RunVec")])
prop("C02", "Unstable sequential sorts return an ordered permutation",
 "After sort_unstable, sort_unstable_by or sort_unstable_by_key with a comparator that is a total preorder, the array is in non-descending order and holds exactly the elements it held before, each once. This holds for every length and every input, including inputs built to defeat pivot selection.",
 ["inputs"], "all input arrays and all total preorders, including adversarially built ones",
 QC + "they do not reach the heap sort fallback, pattern breaking, block partition edge lengths or equal-element partitioning systematically.",
 ["src/lib.rs", "src/quick_sort.rs", "src/heap_sort.rs", "src/partition.rs", "src/insertion_sort.rs"],
 [("quick sort loop with limit and predecessor", "src/quick_sort.rs recurse"), ("block partition", "src/partition.rs partition_in_blocks"),
  ("heap sort fallback", "src/heap_sort.rs heap_sort"), ("pivot choice and pattern breaking", "src/partition.rs choose_pivot/break_patterns")])
prop("C03", "Cached-key sorts are stable and call the key function at most once each",
 "After sort_by_cached_key or par_sort_by_cached_key, the array holds the same elements in non-descending key order with ties in original order, and the key function was called at most once per element. This holds for every length, every key type and, for the parallel form, every schedule and pool size.",
 ["inputs", "schedules"], "all inputs, all key types (size and alignment), lengths on both sides of each internal index width, all schedules of the parallel form",
 QC + "cached-key sorting is only exercised by doc examples; no test reaches an index-width boundary (255/256, 65535/65536) or checks key call counts.",
 ["src/lib.rs"],
 [("index width selection", "src/lib.rs sort_by_cached_key, par_sort_by_cached_key"), ("in-place permutation by cycle following", "src/lib.rs sort_by_key! macros")])
prop("C04", "Selection puts the index-th element in place and returns true views",
 "select_nth_unstable, _by and _by_key leave at position index an element that a full sort could leave there, with no greater element before it and no smaller element after it, all elements still present exactly once. The returned triple denotes exactly positions ..index, index and index+1.. of the array, and the call panics if and only if index is not below the length.",
 ["inputs"], "all arrays, all indices, all total preorders, including adversarial inputs that force the linear-time fallback",
 QC + "median-of-ninthers fallback is never reached by random inputs.",
 ["src/lib.rs", "src/partition.rs", "src/insertion_sort.rs"],
 [("quickselect loop with limit", "src/partition.rs partition_at_index_loop"), ("fallback", "src/partition.rs median_of_medians, median_of_ninthers, ninther"),
  ("min/max shortcut for first/last index", "src/partition.rs partition_at_index")])
prop("C05", "Bulk selection equals selecting each index, in the order of the indices",
 "select_many_nth_unstable and its _by/_by_key forms place an element in final sorted position at every given index, with every segment between the indices holding only elements between its neighbours, and extend the collection with (index, reference to that position) once per index in ascending order, leaving prior contents alone. They panic if and only if the indices are not strictly increasing or some index is not below the length; an empty index list selects nothing.",
 ["inputs"], "all arrays, all index lists (any layout), any Extend target",
 QC + "index lists are a single sample per draw; out-of-range, duplicate and unsorted lists and strided index arrays are not enumerated.",
 ["src/lib.rs", "src/partition.rs"],
 [("recursive bulk selection with offset", "src/partition.rs partition_at_indices"), ("single selection", "src/partition.rs partition_at_index")])
prop("C06", "Parallel stable sorts give the stable order on every schedule",
 "par_sort, par_sort_by and par_sort_by_key leave the array in the unique stable order (same elements, non-descending, ties in original order), for every input, every pool size and every way the scheduler distributes and interleaves the work.",
 ["inputs", "schedules", "configurations"], "all inputs, pool sizes, work-stealing decisions and interleavings",
 "Tests run quickcheck vectors of fewer than 100 elements, which never leave the sequential path (thresholds 2000 and 5000), on one uncontrolled schedule.",
 ["src/lib.rs", "src/par/merge_sort.rs"],
 [("chunked sort via par_bridge", "src/par/merge_sort.rs par_merge_sort"), ("joining of intact chunks", "src/par/merge_sort.rs par_merge_sort"),
  ("recursive merge between array and buffer", "src/par/merge_sort.rs recurse"), ("split and parallel merge", "src/par/merge_sort.rs split_for_merge/par_merge")],
 [("chunks", "per-chunk sort results written by worker tasks", "src/par/merge_sort.rs par_merge_sort")])
prop("C07", "Parallel unstable sorts give an ordered permutation on every schedule",
 "par_sort_unstable, _by and _by_key leave the array in non-descending order holding exactly the elements it held before, for every input, every pool size and every schedule.",
 ["inputs", "schedules", "configurations"], "all inputs, pool sizes and schedules",
 "Tests use short random vectors that never fork (threshold 2000).",
 ["src/lib.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/heap_sort.rs", "src/par/insertion_sort.rs"],
 [("forking quick sort", "src/par/quick_sort.rs recurse"), ("parallel-side partition code", "src/par/partition.rs"), ("heap sort fallback", "src/par/heap_sort.rs")])
prop("C08", "Parallel bulk selection is correct on every schedule",
 "par_select_many_nth_unstable and its _by/_by_key forms place final elements at every given index and append to the vector exactly one reference per index, in index order and each pointing at that position of the array, after the vector's previous contents, for every input, pool size and schedule. They panic if and only if the indices are not strictly increasing or some index is not below the length, and then the vector keeps its previous contents and length.",
 ["inputs", "schedules", "configurations"], "all arrays, index lists, prior vector contents, pool sizes, schedules",
 "Tests use short random vectors that never fork (threshold 2000) and always start from an empty vector.",
 ["src/lib.rs", "src/par/partition.rs"],
 [("forking bulk selection writing into spare capacity", "src/par/partition.rs par_partition_at_indices"), ("set_len after success", "src/lib.rs par_select_many_nth_unstable*")])
prop("C09", "A panic in a sequential callback loses and duplicates no element",
 "If a user callback (comparator, key function, Ord/PartialEq impl, predicate, Extend::extend) panics at any of its invocations during a sequential operation, the panic reaches the caller, the array still holds each of its original elements exactly once, and no element was dropped. The array stays usable: a following sort of it succeeds.",
 ["crash_points", "fault_sequences", "inputs"], "every invocation index of every callback, for every operation and input",
 QC + "no test panics inside a callback.",
 ["src/lib.rs", "src/merge_sort.rs", "src/insertion_sort.rs", "src/partition.rs", "src/heap_sort.rs", "src/quick_sort.rs", "src/partition_dedup.rs", "src/stable_sort.rs"],
 [("hole guards restoring a moved-out element on unwind", "src/insertion_sort.rs InsertionHole; src/merge_sort.rs MergeHole; src/partition.rs pivot guards"),
  ("cyclic permutation only between callbacks", "src/partition.rs partition_in_blocks")])
prop("C10", "A panic in a parallel callback loses and duplicates no element",
 "If a callback panics at any of its invocations in any task of a parallel operation, under any schedule, the panic reaches the caller after all other tasks have ended, the array holds each original element exactly once, nothing was dropped, and a vector passed to a parallel bulk selection keeps its previous contents. Later operations work normally.",
 ["crash_points", "fault_sequences", "schedules"], "every callback invocation in every task, one or two panics, all schedules",
 "No test panics inside a callback or leaves the sequential path.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/insertion_sort.rs", "src/par/heap_sort.rs", "src/lib.rs"],
 [("CopyOnDrop / State / MergeHole guards", "src/par/merge_sort.rs"), ("insertion holes and pivot guards", "src/par/insertion_sort.rs, src/par/partition.rs")])
prop("C11", "Inconsistent comparators never break memory safety or termination",
 "With a comparator that is not a total order (random, constant, non-transitive, contradicting itself between calls), every sorting and selection operation still terminates after a bounded number of comparisons and leaves the array holding each original element exactly once. Binary search, partition_point and bulk selection still return in-range positions.",
 ["inputs", "fault_sequences"], "all answer sequences a comparator can give",
 "No test uses an inconsistent comparator.",
 ["src/lib.rs", "src/merge_sort.rs", "src/quick_sort.rs", "src/partition.rs", "src/heap_sort.rs", "src/insertion_sort.rs", "src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs"],
 [("index bounds that do not rely on comparator answers", "all partition/insert/merge loops using unchecked access")])
prop("C12", "Operations act on exactly the view: any stride, offset, direction, storage",
 "Run on a view with any stride (including negative), offset and parent array, every operation gives the same result on the view's elements as on a contiguous array, changes no element of the parent outside the view and touches no memory beyond it. On shared storage (ArcArray, CowArray) a mutating operation leaves all other holders' data unchanged.",
 ["inputs", "configurations"], "all 1-d layouts: stride, sign, offset, parent dimension; owned, borrowed and shared storage",
 QC + "every property test runs on a contiguous array; only a doc example uses a column view.",
 ["src/lib.rs", "src/merge_sort.rs", "src/insertion_sort.rs", "src/partition.rs", "src/heap_sort.rs", "src/partition_dedup.rs", "src/par/merge_sort.rs", "src/par/partition.rs", "src/par/insertion_sort.rs"],
 [("element access through ndarray indexing rather than raw slices", "all files"), ("view_mut of the storage makes it unique first", "src/lib.rs")])
prop("C13", "Changes a callback makes inside elements survive the operation",
 "When a comparator or key function changes interior-mutable data of the elements it is shown, every such change is present exactly once in the array afterwards, whether the operation returns or unwinds. No update goes to a temporary copy that is then discarded.",
 ["inputs", "fault_sequences"], "all inputs, all operations whose callbacks see references, all callback positions (return and unwind)",
 "No test uses elements with interior mutability.",
 ["src/insertion_sort.rs", "src/merge_sort.rs", "src/partition.rs", "src/heap_sort.rs", "src/par/insertion_sort.rs", "src/par/merge_sort.rs", "src/par/partition.rs"],
 [("temporary read is written back, not the stale original", "src/insertion_sort.rs InsertionHole; src/partition.rs pivot guard; src/merge_sort.rs MergeHole")])
prop("C14", "Searches return a correct position for every partitioned array and target",
 "On an array partitioned by the comparator, binary_search, _by and _by_key return Ok(i) with a matching element at i if one exists and otherwise Err(i) with i the unique insertion point, partition_point returns the number of leading elements satisfying the predicate, and contains is true if and only if some element equals the target. The searches probe only existing positions and at most logarithmically many.",
 ["inputs"], "all lengths, all boundary positions, all widths of the matching range, all layouts",
 "Only doc examples with one array each.",
 ["src/lib.rs"],
 [("bisection with left/right/size", "src/lib.rs binary_search_by"), ("partition_point via binary_search_by", "src/lib.rs partition_point"), ("linear scan", "src/lib.rs contains")])
prop("C15", "is_sorted tells the truth, including for incomparable values",
 "is_sorted, is_sorted_by and is_sorted_by_key return true if and only if every adjacent pair satisfies the ordering (a <= b, or the given predicate), in particular false whenever an adjacent pair is incomparable and true for fewer than two elements. The predicate is consulted only on adjacent pairs in array order.",
 ["inputs"], "all lengths, all positions of violations, incomparable values",
 "Only doc examples.",
 ["src/lib.rs", "src/partition.rs"],
 [("adjacent pair scan", "src/partition.rs is_sorted")])
prop("C16", "partition_dedup splits the first of each run from its repeats",
 "partition_dedup, _by and _by_key return two adjacent views covering the array: the first holds, in original order, the first element of every run of consecutive elements judged equal, the second holds all the others. The equality callback gets the later element first and the last kept element second, once per element after the first, and changes it makes to elements are kept.",
 ["inputs"], "all lengths and all equality patterns, including non-transitive callbacks",
 "Only doc examples.",
 ["src/lib.rs", "src/partition_dedup.rs"],
 [("read/write index pair with swaps", "src/partition_dedup.rs partition_dedup")])
prop("C17", "reverse exactly reverses",
 "After reverse, position i holds the element that was at position len-1-i, for every length, layout and element type; reversing twice restores the array.",
 ["inputs"], "all lengths and layouts",
 "Only a doc example with three elements.",
 ["src/lib.rs", "src/partition.rs"],
 [("swap of mirrored halves", "src/partition.rs reverse")])
prop("C18", "Worst-case comparison counts stay within the documented complexity",
 "For every input of length n, sorting (stable and unstable, sequential and parallel) takes O(n log n) comparisons, selecting one index takes O(n), and selecting m indices takes O(n log m). In particular no input, however adversarial, makes them quadratic.",
 ["inputs"], "all inputs, including those built adaptively against the implementation",
 "No test counts comparisons or builds adversarial input.",
 ["src/quick_sort.rs", "src/heap_sort.rs", "src/partition.rs", "src/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/merge_sort.rs", "src/lib.rs"],
 [("limit on imbalanced partitions, heap sort fallback", "src/quick_sort.rs recurse"), ("limit 16 and median of medians fallback", "src/partition.rs partition_at_index_loop"),
  ("halving of the index list", "src/partition.rs partition_at_indices"), ("run stack invariants", "src/merge_sort.rs collapse")],
 [("limit", "remaining allowed imbalanced partitions", "src/quick_sort.rs, src/partition.rs")])
prop("C19", "Ordered inputs are handled in linear time",
 "On input that is already sorted, reversed or all equal, the sorts take a number of comparisons linear in n, as documented for the best case; sorting a sorted array again moves nothing out of order. The stable sequential sort does likewise on a constant number of ordered runs.",
 ["inputs"], "all lengths, each ordered shape",
 "No test counts comparisons.",
 ["src/quick_sort.rs", "src/partition.rs", "src/insertion_sort.rs", "src/merge_sort.rs", "src/par/quick_sort.rs", "src/par/merge_sort.rs"],
 [("likely-sorted detection and partial insertion sort", "src/quick_sort.rs, src/insertion_sort.rs"), ("natural run detection", "src/merge_sort.rs"),
  ("equal partition by predecessor", "src/partition.rs partition_equal")])
prop("C20", "Memory: in-place operations allocate nothing and every buffer is released",
 "Unstable sorts, single selection, searches, dedup, reverse and is_sorted make no heap allocation on shallow stacks; stable sort allocates at most about half the array plus small bookkeeping. Whatever an operation allocates is released with its allocation layout before it returns or unwinds, also when a callback panics or an allocation fails, and no write leaves the bounds of a buffer.",
 ["inputs", "fault_sequences", "crash_points"], "all inputs; every callback panic position; every failing allocation",
 "No test observes the allocator.",
 ["src/stable_sort.rs", "src/merge_sort.rs", "src/lib.rs", "src/par/merge_sort.rs", "src/quick_sort.rs", "src/partition.rs"],
 [("BufGuard and RunVec own their buffers", "src/merge_sort.rs"), ("alloc/dealloc closures with array layouts", "src/stable_sort.rs"), ("zero-length Vec as scratch", "src/par/merge_sort.rs")],
 [("RunVec capacity", "layout with which the run buffer is released", "src/merge_sort.rs RunVec")])
prop("C21", "Results are deterministic",
 "The final arrangement and returned positions of every operation are a function of the input order and comparator answers alone: repeating a call on an equal array, with another memory address, layout or storage, another pool size or another schedule, gives the identical arrangement, also for the unstable operations.",
 ["inputs", "schedules", "configurations"], "all inputs, layouts, pool sizes, schedules",
 "No test compares two runs of an unstable operation.",
 ["src/partition.rs", "src/quick_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/merge_sort.rs", "src/lib.rs"],
 [("fixed-seed pseudo-random pattern breaking", "src/partition.rs break_patterns"), ("chunk results stored by chunk position", "src/par/merge_sort.rs par_merge_sort")])
prop("C22", "Every feature and build profile combination behaves the same",
 "The crate builds with each documented feature set (none, alloc, std, stacker, rayon), and every operation available in two of them leaves identical arrangements, return values and panics in both, with or without debug assertions. Enabling a feature only adds operations.",
 ["configurations", "inputs"], "all documented feature sets, both build profiles, all inputs",
 "The test suite is run in one feature set and profile at a time and never compares them.",
 ["Cargo.toml", "src/lib.rs", "src/stable_sort.rs", "src/merge_sort.rs"],
 [("cfg gates", "src/lib.rs, src/stable_sort.rs, src/merge_sort.rs"), ("maybe_grow with or without stacker", "src/lib.rs maybe_grow")])
prop("C23", "Degenerate inputs: empty, single, zero-sized elements",
 "Every operation accepts empty and one-element arrays and arrays of zero-sized elements of any length without touching memory it should not: sorts and selections of zero-sized elements keep the length and the number of live elements, selections still check their indices, and no comparator is needed for fewer than two elements of a sort. Returned views have the lengths the general rule prescribes.",
 ["inputs"], "all operations at lengths 0, 1, 2 and zero-sized element types at all lengths including ones above every threshold",
 "No test uses zero-sized elements; empty arrays appear only by chance.",
 ["src/lib.rs", "src/stable_sort.rs", "src/quick_sort.rs", "src/partition.rs", "src/partition_dedup.rs", "src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs"],
 [("zero-sized early returns", "src/stable_sort.rs, src/quick_sort.rs, src/partition.rs, src/par/*"), ("length guards", "all entry points")])
prop("C24", "Concurrent tasks never look at the same element",
 "In every parallel operation, any two callback invocations that may run at the same time are shown disjoint sets of elements, so that elements need only be Send, not Sync. (For the cached-key form, whose elements must be Sync, each element is shown to the key function at most once.)",
 ["schedules", "inputs"], "all inputs, all pairs of logically concurrent tasks, hence all schedules",
 "No test leaves the sequential path or observes which task sees which element.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/lib.rs"],
 [("disjoint splits before each fork", "src/par/*.rs split_at before rayon::join"), ("predecessor handed to one side only", "src/par/quick_sort.rs recurse")])
prop("C25", "Operations have no hidden state: any history acts like its reference",
 "For every sequence of operations applied to one array, the contents and results after each step satisfy that operation's contract relative to the contents before the step, whatever came before, and read-only operations change nothing. Nor do operations on other arrays make a difference, whether they came before, ran to their end or were ended by a callback's panic, run inside the callbacks of an operation, or run at the same time on another thread: each operation leaves and returns what it does on its own.",
 ["histories", "schedules"], "all operation sequences from all small arrays; all pairs of operations nested, interrupted, in turn, and at once",
 "Tests apply one or two operations to a fresh array, one after the other, on one thread.",
 ["src/lib.rs", "src/partition.rs", "src/merge_sort.rs", "src/quick_sort.rs", "src/partition_dedup.rs"],
 [("no statics or thread locals; all state on the stack", "all files")])
prop("C26", "Stack use is logarithmic and stops growing when little stack is left",
 "For every input of length n, every operation uses stack within a constant times log n, so that no input, however long or adversarial, overflows an ordinary thread stack. With the `stacker` feature (default), when little stack is left, the recursion of unstable sorts, selections and bulk selections, sequential and parallel, goes on in memory of its own: what it uses of the original stack does not grow with the length, and the operation completes as usual.",
 ["inputs", "configurations"], "all inputs, including adversarial ones; every amount of stack left from which an operation can start",
 "No test measures the stack or starts near its end.",
 ["src/lib.rs", "src/quick_sort.rs", "src/partition.rs", "src/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/merge_sort.rs"],
 [("maybe_grow around each recursion", "src/lib.rs maybe_grow; src/quick_sort.rs recurse; src/partition.rs partition_at_indices; src/par/*"),
  ("recursion into the shorter side, loop over the longer", "src/quick_sort.rs recurse"), ("halving of the index list", "src/partition.rs partition_at_indices")])
prop("C27", "Running time, moves included, stays within the documented complexity",
 "Counting all work, moves and bookkeeping as well as comparisons, and for every input of length n, sorting takes O(n log n) steps, selecting one index O(n), m indices O(n log m), dedup, reverse, is_sorted and contains O(n), and searches O(log n), sequentially and in parallel, for elements of any size and arrays of any stride. Sorting an ordered array takes O(n) steps.",
 ["inputs"], "all inputs, including those built adaptively against the implementation",
 "No test measures work; at the lengths tested a quadratic number of cheap steps goes unnoticed.",
 ["src/lib.rs", "src/quick_sort.rs", "src/heap_sort.rs", "src/partition.rs", "src/merge_sort.rs", "src/partition_dedup.rs", "src/insertion_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/merge_sort.rs"],
 [("permutation along cycles with indices updated", "src/lib.rs sort_by_cached_key"), ("single pass with swaps", "src/partition_dedup.rs"), ("merging through the shorter run", "src/merge_sort.rs merge"),
  ("insertion sorts only below fixed lengths or for a fixed number of steps", "src/insertion_sort.rs, src/quick_sort.rs")])
prop("C28", "Parallel operations share their work among the pool's workers",
 "With p workers, and for every input, layout and form, par_sort and its forms return after the time of an equal share of the comparisons, 1/p of them, plus a part that grows with the length only by a small fraction of n. The unstable and cached sorts and par_select_many_nth_unstable return after an equal share plus O(n) comparisons on inputs that do not defeat the choice of pivots. Slow workers delay the rest by no more than their own pieces.",
 ["inputs", "schedules"], "all inputs, numbers of workers and speeds of workers",
 "A parallel operation that works in one thread returns the same arrays; tests compare arrays only.",
 ["src/par/merge_sort.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/lib.rs"],
 [("chunks sorted and merged in parallel, merges split in halves", "src/par/merge_sort.rs par_merge_sort, recurse, par_merge, split_for_merge"), ("both sides in parallel", "src/par/quick_sort.rs recurse"),
  ("both halves of the index list in parallel", "src/par/partition.rs par_partition_at_indices"), ("keys computed in parallel", "src/lib.rs par_sort_by_cached_key")])
prop("C29", "Each key a key function returns is dropped exactly once",
 "Whatever operation by keys calls a key function, sequential, parallel or cached, each value it returns is compared only while it is live and dropped exactly once before the operation returns or unwinds. That holds for keys that own memory and keys without size, and when a call of the key function, a comparison of keys or the drop of a key panics; the array then still holds each of its elements once.",
 ["inputs", "fault_sequences", "schedules"], "all inputs; a panic at every call of the key function, comparison and drop; all schedules",
 "Tests use keys without destructors and never panic in one.",
 ["src/lib.rs", "src/par/quick_sort.rs", "src/partition_dedup.rs"],
 [("cached keys live in one vector beside their indices", "src/lib.rs sort_by_cached_key, par_sort_by_cached_key"), ("keys are temporaries of one comparison", "src/lib.rs sort_by_key and the other forms by key")])
prop("C30", "No operation has undefined behaviour, whatever safe callbacks do",
 "Called with safe Rust, no operation has undefined behaviour: it reads only initialised memory that is live and its own, frees each allocation once and with its layout, keeps to the aliasing rules for references it holds and returns, and its tasks have no data races. That holds for every input and view, for elements that own memory, have padding, are large or without size, and for callbacks that panic, contradict themselves or write to interior-mutable elements.",
 ["inputs", "fault_sequences", "schedules"], "all inputs, element types and answers of callbacks",
 "Tests run compiled code, where most undefined behaviour goes unnoticed, and the crate did not build under Miri with current toolchains.",
 ["src/merge_sort.rs", "src/insertion_sort.rs", "src/partition.rs", "src/par/merge_sort.rs", "src/par/partition.rs", "src/stable_sort.rs", "src/lib.rs"],
 [("holes and guards move elements by raw copies", "src/insertion_sort.rs, src/merge_sort.rs"), ("blocks of offsets are left uninitialised until traced", "src/partition.rs partition_in_blocks"), ("pivot copied out and written back by a guard", "src/partition.rs"), ("references are written to spare capacity", "src/lib.rs par_select_many_nth_unstable"), ("views of array and buffer shared between tasks", "src/par/merge_sort.rs par_merge_recurse")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
