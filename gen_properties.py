#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
H = "include/boost/segmented_tree/seq.hpp"
P = []
def prop(id, title, statement, over, text, why, mech, files=(H,), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

HOOK = "verify_shape (BOOST_SEGMENTED_TREE_VERIFY) recognises tree shapes already explored; without it the check falls back to block lengths and height from the public interface and node addresses found in memory"
prop("C01", "Single-element edits behave like an ideal sequence",
 "Inserting, emplacing or pushing one element at any valid position, and erasing or popping one at any valid position, changes a seq exactly as it would change an ideal list: the element appears (or disappears) at that position, every other element keeps its value and relative order, and size() changes by one. This holds from every state that earlier edits can reach, for any element type and any node sizes.",
 ["histories", "inputs", "configurations"], "every edit history, every position, element types with and without trivial copying, every segment/node capacity",
 "The tests apply fixed-seed random edits to one trivially copyable type at two segment sizes and one node size, and compare only the final contents; merges, borrows and splits of non-trivial elements, small fan-outs and every position of every tree shape are not reached.",
 [("insert_single_segment/leaf/branch", "splits and root growth"), ("erase_single_segment/leaf/branch", "borrows, merges, root collapse"), ("update_sizes", "recursive counts")],
 observe=["size()", "iteration", "operator[]"], hook=HOOK)
prop("C02", "Bulk edits and constructors behave like an ideal sequence",
 "Inserting n copies, an iterator range or an initializer list at any position, erasing any range, assign, resize, clear, and every constructor produce exactly the contents and size that the same operation has on an ideal list. This includes empty ranges, zero counts and operations on empty sequences, from every reachable state.",
 ["histories", "inputs", "configurations"], "every reachable state, position, count and range within the bound",
 "Each bulk operation is tested on one or two literal inputs of at most ten elements, mostly in one small tree.",
 [("emplace_count, emplace_range, erase_range", "loops of single edits that thread an iterator through"), ("assign_count, assign_range, resize_count", "overwrite, then grow or shrink")],
 observe=["size()", "iteration"], hook=HOOK)
prop("C03", "Iterators returned by edits are exact and usable at once",
 "Every insert, emplace and erase returns an iterator to the first inserted element, or to the element after the last erased one (a copy of the given position when nothing was inserted or erased). That iterator is indistinguishable from one freshly obtained for the same index: index, element, segment, distance, stepping in both directions, and use as the position of a further edit all agree.",
 ["histories", "inputs", "configurations"], "every reachable state, every edit that returns an iterator, every continuation by one step or one edit",
 "No test uses the iterator that an edit returns.",
 [("iterator_entry updates in insert_single_*/erase_single_*", "cached segment, leaf and index are patched by hand on every split, borrow and merge"), ("erase_single", "moves to the next segment when the erased element was last")],
 observe=["return values of insert/emplace/erase"], hook=HOOK)
prop("C04", "Iterator arithmetic agrees with integer positions",
 "For any two positions i and j of a sequence, moving an iterator from i by j-i (in one jump with +, -, +=, -= or [], or in steps with ++ and --) yields the iterator for j, including the end position. Distances and all six comparisons agree with those of the integers i and j, for mutable, const and reverse iterators.",
 ["inputs", "histories", "configurations"], "every pair of positions in every reachable tree",
 "The tests sum elements at five fixed strides from one end; jumps from interior positions, jumps that land exactly on segment or node borders, [], comparisons and reverse iterators are barely touched.",
 [("move_next_*_count, move_prev_*_count", "climb and descend by subtree counts"), ("move_next_*, move_prev_*", "single steps across segments and nodes")],
 observe=["iterator operators"], hook=HOOK)
prop("C05", "Segment views and segment jumps are consistent",
 "For an iterator to an element, [begin(), end()) is the contiguous block of elements that holds it and current() points at the element; the blocks met along the sequence partition it in order. move_after_segment and after_segment lead to the first element of the next block and then count further, move_before_segment and before_segment to the last element of the previous block and then count further back, with correct index and element, for every count that stays in the sequence (the end position included). A jump back from the end position leads to one position in every respect.",
 ["inputs", "histories", "configurations"], "every element of every reachable tree, every in-range count",
 "None of these functions is called by any test.",
 [("move_after_segment(_count), move_before_segment(_count)", "segment jumps"), ("first_element, last_element, current_element", "segment view")],
 observe=["iterator_t::begin/end/current/…_segment"], hook=HOOK)
prop("C06", "All ways of reaching an element agree, and bounds are respected",
 "operator[], at, nth, front, back, begin, end, penultimate, the reverse and const variants and index_of all identify the same elements by position, and index_of inverts nth. at throws std::out_of_range exactly when the position is not below size() (whatever the value) and otherwise never; nth of such a position is end().",
 ["inputs", "histories", "configurations"], "every position, in range and beyond, of every reachable tree",
 "The tests look at one- and two-element sequences.",
 [("find_index_*, find_first_*, find_last_*, find_end_*", "descents by subtree counts"), ("at, nth", "bound checks")],
 observe=["accessors"], hook=HOOK)
prop("C07", "The tree stays balanced: height is logarithmic in size",
 "height() is 0 exactly for an empty sequence, 1 exactly while all elements share one block, and otherwise never exceeds the height of a B+tree with the same number of elements whose blocks and index nodes are at least half full (root excepted). This holds after every history of edits, whichever order they came in.",
 ["histories", "configurations"], "every edit history, every segment/node capacity",
 "height() is tested for zero and one element.",
 [("segment_min, base_min", "minimum occupancy kept by borrow/merge"), ("erase_single_leaf/branch", "root collapse")],
 observe=["height()", "allocator calls"], hook=HOOK)
prop("C08", "Memory stays proportional to contents and honours the targets",
 "The memory a sequence holds is at most what half-full blocks and index nodes need for its size, an empty sequence (new, cleared, moved from, or erased to nothing) holds none, and destruction returns everything. Each block is at most segment_target bytes (or one element if that is larger) and each index node at most base_target bytes (or the size of a three-way node).",
 ["histories", "configurations"], "every edit history, every combination of targets and element size",
 "No test observes allocations.",
 [("segment_max, base_max", "capacities from targets"), ("merge in erase_single_*", "frees siblings"), ("purge", "release")],
 observe=["allocator calls"], hook=HOOK)
prop("C09", "One edit costs a bounded number of moves and allocations",
 "Inserting one element constructs or moves only a number of elements bounded by the block capacity and allocates at most one block and one index node per level, however large the sequence is; erasing one element moves at most about two blocks' worth and allocates nothing. Range erases and inserts cost at most that much per element.",
 ["histories", "inputs", "configurations"], "every reachable tree and position",
 "Tests compare results, not work; an edit that rebuilt the tree would pass.",
 [("insert_single_*", "one split per level"), ("erase_single_*", "one borrow or merge per level")],
 observe=["element constructors and assignments", "allocator calls"], hook=HOOK)
prop("C10", "Lookup is logarithmic and traversal amortized constant",
 "Finding an element by position, begin(), end() and jumping an iterator by a distance d inspect a number of index entries bounded by node capacity times height (for a jump, the height needed to span d), not by the size or d. Stepping an iterator through a whole sequence in either direction costs a constant number of index-entry inspections per element on average; comparing or subtracting iterators, size() and swap inspect none.",
 ["inputs", "histories", "configurations"], "every position and jump in every reachable tree",
 "Results are the same however slowly they are computed; the tests do not measure work.",
 [("find_index_branch", "descent"), ("move_next_branch_count, move_prev_branch_count", "climb no higher than needed")],
 observe=["dereferences of the allocator's pointer type"], hook=HOOK)
prop("C11", "Elements are constructed and destroyed exactly once",
 "Every element object a sequence creates is constructed in properly allocated, unoccupied storage, is never read, assigned or destroyed outside its lifetime, is relocated only by its own move operations (never bytewise unless trivially copyable), and is destroyed exactly once. After any operation, one that failed included, the number of live elements equals the sizes of the sequences, and destruction leaves none.",
 ["histories", "inputs", "configurations"], "every operation from every reachable tree, for element types with identity",
 "The tests' only non-trivial type is a short std::string in tiny sequences, and they run without sanitizers; leaks, double destruction and assignment to raw storage go unnoticed.",
 [("construct_range_segment, assign_forward_segment, assign_backward_segment, move_segment", "which slots are live at each step"), ("purge_segment, destroy_segment", "destruction")],
 observe=["special member functions of the element type"], hook=HOOK)
prop("C12", "Every allocation is returned once, to the right allocator, same size",
 "Every storage block a sequence obtains from an allocator is returned exactly once to an equal allocator, with the pointer and count it was obtained with, and nothing else is ever passed to deallocate (in particular no null pointer). Nothing is read or written beyond the storage that was obtained or after it was returned. All this holds after operations that failed, too.",
 ["histories", "inputs", "configurations"], "every operation from every reachable tree, stateful allocators included",
 "The tests' allocators forward to malloc and free and check nothing.",
 [("allocate_segment/node, deallocate_segment/node", "pairing"), ("purge_root", "release of the whole tree"), ("alloc_nodes_single", "spare nodes for a split")],
 observe=["allocator calls", "storage contents"], hook=HOOK)
prop("C13", "A custom allocator sees every element construct and destroy",
 "When the allocator supplies construct or destroy, every element that comes to live in the sequence's storage (including by relocation) is constructed through the allocator's construct and every element that leaves it is destroyed through its destroy, also for trivial element types. The two calls therefore match one to one over the life of the sequence, operations that failed included.",
 ["histories", "inputs", "configurations"], "every operation from every reachable tree; allocators with construct, destroy, both; trivial and non-trivial elements",
 "One test allocator has construct but counts nothing; none has destroy.",
 [("construct_segment, construct_range_segment", "dispatch between bytewise and allocator relocation"), ("is_alloc_move_construct_default", "detection"), ("purge_segment", "destroy skipped for trivial types")],
 observe=["allocator construct/destroy calls"], hook=HOOK)
prop("C14", "A failed single-element insertion has no effect",
 "If inserting, emplacing or pushing a single element fails because any of the memory requests it makes, or the construction of the new element or its move into place, throws, then the exception propagates and the sequence is exactly as before: same elements, size, height and memory, and iterators obtained earlier still work. A later retry succeeds normally. (Moving an existing element is assumed not to throw.)",
 ["fault_sequences", "histories", "configurations"], "every reachable tree, every position, every failing step of the insertion",
 "One test retries randomly failing insertions at the end and compares only contents after success; leaks, half-built index nodes and state between failures are not examined.",
 [("alloc_nodes_single", "all memory is obtained before anything changes"), ("emplace_single", "value built first")],
 observe=["contents, memory, iterators after a thrown insertion"], hook=HOOK)
prop("C15", "A failed bulk operation leaves a valid sequence and leaks nothing",
 "If a range or count insertion, assign, resize, copy, splice, merge, sort, remove or constructor fails part-way because memory, element construction or copying, a comparison or a source iterator throws, the exception propagates, every sequence involved remains a usable sequence of live elements, and no element or memory is leaked. Elements outside the affected range keep values and order when inserting, a failed resize(n) leaves the sequence as it was, and a failed constructor leaves nothing behind.",
 ["fault_sequences", "histories", "configurations"], "every reachable tree, every operation, every failing step",
 "No test lets a bulk operation fail.",
 [("emplace_count, emplace_range", "each step leaves a valid tree"), ("resize_count", "roll-back"), ("delegating constructors", "destructor runs after a failed body")],
 observe=["contents, memory, liveness after a thrown operation"], hook=HOOK)
prop("C16", "Removal, clearing, swapping and moving never fail or allocate",
 "Erasing, popping, clear, swap, move construction, move assignment between equal (or propagating) allocators, destruction, lookups and iterator movement never request memory and never throw, provided moving an element does not throw, so they work when memory is exhausted.",
 ["fault_sequences", "histories", "configurations"], "every reachable tree, every such operation, with every memory request set to fail",
 "The tests never run with memory exhausted.",
 [("erase_single_*", "merge into an existing sibling"), ("noexcept specifications", "swap, move, clear")],
 observe=["allocator calls", "exceptions"], hook=HOOK)
prop("C17", "Copies are equal and independent",
 "Copy construction (with or without an allocator) and copy assignment give a sequence equal to the source, leave the source unchanged, and share nothing with it: any later edit or destruction of either leaves the other untouched. Self-assignment changes nothing; assignment over any existing contents, longer or shorter, gives exactly the source's contents: the same values, also where == does not tell values apart (a negative zero, a NaN), and so do moves, ranges, splices and swaps.",
 ["histories", "inputs", "configurations"], "every pair of reachable trees within the bound, followed by any single edit",
 "Copies are tested on five-element literals and never edited afterwards.",
 [("seq(seq const&), operator=, assign_range", "element-wise rebuild")],
 observe=["contents of source and copy"], hook=HOOK)
prop("C18", "Moves and swaps transfer ownership in constant time",
 "Move construction, move assignment and swap (member and free) hand over the whole contents without touching any element and without allocating when allocators are equal or propagate; the moved-from sequence is empty and fully reusable, and iterators to elements stay valid and follow them to their new owner. Self-move and self-swap leave a usable sequence (self-swap an unchanged one).",
 ["histories", "inputs", "configurations"], "every pair of reachable trees within the bound",
 "Moves are tested on five-element literals; iterators, costs, reuse and self-moves are not.",
 [("steal, swap", "exchange root, size, height"), ("move_assign", "release old contents first")],
 observe=["contents, iterators, element and allocator calls"], hook=HOOK)
prop("C19", "Allocators propagate as their traits say",
 "The allocator a sequence uses after construction, copy, move, assignment and swap is the one prescribed by allocator_traits (select_on_container_copy_construction and the three propagate_on_… traits) or given explicitly, get_allocator and get_stored_allocator report it, and all blocks and index nodes come from it. When a move must not or cannot transfer storage because allocators differ, elements are moved one by one and every block returns to its own allocator.",
 ["configurations", "histories", "inputs"], "all eight trait combinations, equal and unequal allocators, every pair of reachable trees within the bound",
 "The tests' only stateful allocator compares always equal, propagates nothing and is used with constructors only.",
 [("copy_assign_alloc, move_assign_alloc, swap_allocator", "trait dispatch"), ("size_pair, height_pair", "two rebound copies that must agree")],
 observe=["allocator identity on allocate/deallocate", "get_allocator()"], hook=HOOK)
prop("C20", "splice transfers exactly the designated elements",
 "Each form of splice (whole sequence, one element, range; lvalue and rvalue source) removes exactly the designated elements from the source and inserts them, in order and by moving them, before the given position of the destination; all other elements of both sequences keep value and order. This holds for every pair of sequences, every position and every range, including empty ones.",
 ["histories", "inputs", "configurations"], "every pair of reachable trees within the bound, every position, element and range",
 "Each overload is tested once, on two five-element sequences.",
 [("splice overloads", "insert by move iterator, then erase")],
 observe=["contents of both sequences"], hook=HOOK)
prop("C21", "sort and merge are stable and permute exactly",
 "sort rearranges the elements into non-descending order under the given (or default) order and keeps equivalent elements in their original order; merge combines two sorted sequences into one sorted sequence in which equivalent elements keep their order with those of the destination first, and leaves the source empty. No element is lost, duplicated or copied, also when no temporary memory is available.",
 ["inputs", "histories", "configurations"], "every assignment of a small set of keys to every reachable tree; temporary memory granted or refused",
 "The tests sort five distinct numbers and merge two fixed sequences, so stability is not observable.",
 [("sort, merge", "std::stable_sort and std::inplace_merge over seq iterators"), ("iterator arithmetic", "random access across segments")],
 observe=["contents"], hook=HOOK)
prop("C22", "remove, remove_if, unique and reverse do exactly what they say",
 "remove and remove_if delete exactly the elements that match (also when the value is a reference to an element of the sequence itself), unique deletes exactly the elements that equal the retained element before them under the given predicate, reverse reverses; survivors keep their relative order. An operation that matches nothing changes nothing.",
 ["inputs", "histories", "configurations"], "every subset of matching positions of every reachable tree",
 "One literal input each.",
 [("remove, remove_if, unique, reverse", "standard algorithms over seq iterators, then range erase")],
 observe=["contents"], hook=HOOK)
prop("C23", "Comparison operators implement lexicographic order",
 "==, !=, <, <=, > and >= on two sequences give the same answers as comparing the element lists lexicographically, whatever tree shapes hold the elements. Equal contents built along different histories compare equal. Only the elements' own == and < count: a sequence holding a value that is not equal to itself is not equal to itself.",
 ["inputs", "histories", "configurations"], "all pairs of small contents, in all pairs of tree shapes within the bound",
 "The comparison operators are not tested.",
 [("operator==, operator<", "std::equal, std::lexicographical_compare")],
 observe=["comparison results"], hook=HOOK)
prop("C24", "Arguments may refer to the sequence's own elements",
 "Passing a reference to an element of the sequence itself to insert, emplace, push, count insertion, resize or remove behaves as if the value had been taken before the operation began, wherever the referenced element lies and however the edit moves it.",
 ["inputs", "histories", "configurations"], "every reachable tree, every position, every referenced element",
 "No test passes an element of the container to the container.",
 [("emplace_single", "builds the value first"), ("insert(count), resize, remove", "value must be saved")],
 observe=["contents"], hook=HOOK)
prop("C25", "Element types need only what an operation uses; moves never copy",
 "A sequence works with move-only elements, with elements that are only copyable, and with elements that lack a default constructor, comparison operators or conventional & and comma operators, as long as the operations used do not themselves need them. Relocating, moving in, splicing, sorting or merging never copies an element that can be moved, and inserting one lvalue copies it exactly once. An emplaced element is initialised from the given arguments as by T(args...).",
 ["configurations", "inputs", "histories"], "minimal element types, every reachable tree and position",
 "The tests use integers and std::string only, and an accidental copy is invisible.",
 [("value_type by value + std::move", "insertion"), ("make_move_iterator", "splice, allocator-extended move"), ("std::addressof", "raw storage")],
 observe=["element copy/move counts", "compilation for minimal types"], hook=HOOK)
prop("C26", "Const access writes nothing; separate sequences share nothing",
 "Every const member function and every use of iterators for reading leaves the sequence, its storage and all other state of the program unwritten, so any number of threads may read one sequence at once. An operation on one sequence neither reads nor writes another or any hidden shared state, so different threads may edit different sequences in every interleaving.",
 ["schedules", "histories", "inputs"], "every reachable tree, every const operation, every edit with a second sequence alongside; all schedules, because operations with disjoint write sets commute",
 "The tests are single-threaded and cannot see a benign-looking write.",
 [("const members", "no mutable or static state"), ("find_*", "read-only descents")],
 observe=["memory writes (page protection)", "static storage"], hook=HOOK)
prop("C27", "Behaviour does not depend on sizes, targets or pointer types",
 "The same history of operations yields the same visible results for every element size, every segment_target and base_target (including zero, defaults, values smaller than an element and values large enough to exceed 16-bit child counts) and every conforming allocator, including allocators whose pointer is a class type.",
 ["configurations", "histories", "inputs"], "a matrix of element sizes, targets and allocator pointer types; edits at every structural boundary",
 "Two segment targets, one node target, one element type and raw pointers are exercised.",
 [("segment_max, base_max", "capacity arithmetic"), ("node::length_, parent_index_", "16-bit fields")],
 observe=["contents"], hook=None)
prop("C28", "Range operations read each source element once, in order",
 "Constructing, inserting and assigning from an iterator range works with single-pass input iterators: each position of the source is read exactly once, in order, never after the iterator has been advanced past it, and the end position is neither read nor advanced. The elements arrive in source order, and a move iterator or a generated range is consumed element by element.",
 ["inputs", "histories", "configurations"], "every reachable tree, position and source length within the bound",
 "The tests pass pointers only.",
 [("emplace_range, assign_range", "single pass loops")],
 observe=["calls on the source iterator"], hook=HOOK)
prop("C29", "A throwing element move leaves a destructible, leak-free sequence",
 "If moving or copying an existing element throws while an edit is shifting or redistributing elements, the exception propagates and the sequence remains a valid sequence of live elements (values may be lost), can be used and destroyed, and leaks neither elements nor memory.",
 ["fault_sequences", "histories", "configurations"], "every reachable tree and position, every failing move of the edit",
 "The tests' throwing allocator deliberately never throws when relocating.",
 [("insert_single_segment, erase_single_segment", "order of bookkeeping and element moves")],
 observe=["liveness, memory, contents after a thrown move"], hook=HOOK)
prop("C30", "Workload helpers generate valid positions and check what they claim",
 "For every outcome of the random engine, the benchmark and test workloads use only positions that are valid when they are used, bounded random numbers are below their bound and equally likely, inserting a workload and erasing it in reverse leaves exactly its first element, and the traversal sums visit exactly the elements at the stated stride. The checksum of a result is the CRC-64 of all its elements' bytes, and verify() raises an error exactly when the two values differ.",
 ["inputs", "configurations"], "all position lists of bounded length; all engine outputs for small engines; all strides",
 "The helpers are the test infrastructure itself and are exercised with a handful of seeds.",
 [("bounded_rand", "rejection threshold"), ("insert_range, erase_range, insert_single, erase_single", "workload drivers"), ("accumulate_*", "strided sums"), ("verify", "checksum comparison")],
 files=("common/common.hpp", "common/single.hpp", "common/range.hpp", "common/iterator.hpp", "bench/common.hpp"),
 observe=["return values and container contents"])
prop("C31", "The same program gives the same results in every build",
 "Any history of valid operations has the same visible results whichever conforming compiler, language standard (C++11 and later), optimisation level and NDEBUG setting built it, because no operation relies on undefined or unspecified behaviour: no value is used before it was given one, no null or dangling pointer is followed, no member of a dead object or object outside its lifetime is used, no arithmetic overflows, and nothing that matters happens inside an assertion.",
 ["configurations", "histories", "inputs"], "twenty builds (two compilers, five standards, seven optimisation levels, three sanitizers, debug library); every edit of every reachable tree in each",
 "The tests are built once, by one compiler, in one standard, at one optimisation level, with assertions on and no sanitizer.",
 [("iterator_entry, iterator_data", "trivial aggregates filled field by field"), ("construct, destroy, alloc_traits", "lifetimes of elements and nodes"), ("node::length_, parent_index_", "16-bit arithmetic")],
 observe=["contents, positions, heights and requests", "sanitizer reports"], hook=HOOK)
prop("C32", "A position serves equally well however it was reached",
 "An iterator for a position can be obtained in many ways: by index, as begin(), end() or penultimate(), by steps or jumps from elsewhere, from a reverse iterator, by jumping from block to block, by assignment, swap or conversion. All of them are equal and interchangeable: every insertion, erasure and splice at such an iterator, or with it as a bound, has the result and returns the position that it would with an iterator freshly found by index.",
 ["histories", "inputs", "configurations"], "every position of every reachable tree, 27 ways of reaching it, nine kinds of edit at each",
 "The tests edit only at iterators fresh from nth(), begin() or end().",
 [("find_first, find_last, find_end, find_index", "four descents that fill the same cached fields"), ("move_next_*, move_prev_*", "moves that patch the cached segment, leaf and index"), ("insert_single, erase_single", "edits that trust the cached fields")],
 observe=["contents after the edit", "returned iterators"], hook=HOOK)
prop("C33", "Every operation keeps its documented complexity",
 "The work an operation does is bounded as its interface promises, whatever the tree's shape: a single insertion or erasure, lookup by index and splitting or splicing touch a number of elements, nodes and memory blocks that does not grow with the sequence beyond its height; construction, assignment, clearing, comparison, reversal, removal and merging are linear in the elements involved; sorting needs O(n log n) comparisons, or O(n log^2 n) without temporary memory; predicates and comparisons are called no more often than the standard allows.",
 ["histories", "inputs", "configurations"], "every size, position and range of the operation within the bound, at several segment sizes and with and without temporary memory",
 "The tests look at results only; an operation that degrades from logarithmic to linear, or from linear to quadratic, passes all of them.",
 [("insert_single, erase_single, insert_range, erase_range", "edits bounded by segment size and height"), ("merge, inplace_merge, sort, stable_sort", "comparison bounds"), ("remove_if, unique", "one pass")],
 observe=["element constructions, assignments and moves", "comparator and predicate calls", "node accesses through the allocator's pointers", "memory requests"], hook=HOOK)
prop("C34", "Standard algorithms work on any subrange as on an array",
 "Any algorithm of the standard library, run over any subrange [i, j) of a sequence through its iterators, const iterators, reverse iterators, gives the same result, leaves the same contents and returns the same position as over an array with the same contents, and touches nothing outside the subrange; this holds for trivial, move-tracking and move-only elements.",
 ["inputs", "configurations"], "every subrange of every size within the bound, for about sixty algorithms",
 "The tests run a few algorithms over whole sequences of integers.",
 [("basic_iterator / iterator operators", "random access over segments"), ("reverse iterators", "through std::reverse_iterator"), ("move_next_count, move_prev_count", "jumps inside an algorithm")],
 observe=["contents", "returned positions", "element identity"], hook=HOOK)
prop("C35", "Sequences nest: a sequence of sequences is a list of lists",
 "Sequences are regular values and may be elements of sequences. Edits of the outer sequence, edits of an inner one, and operations that involve two inner ones of the same outer sequence (copy and move assignment, swap, splice, merge, assigning or inserting a range of one into another), in any order, do what they would to a list of lists; elements that are moved out and back keep their contents. The same holds for a type with a sequence of itself as a member: a tree may be edited at any node; a node may be inserted, copied or compared as a value anywhere, also below itself, moved to any place that is not below it, and swapped, spliced or assigned with any node that is neither above nor below. Nothing is leaked, freed twice or shared.",
 ["histories", "configurations"], "every history of edits of both levels up to the bound",
 "No test has an element that is itself a container with a tree of its own, whose value depends on every relocation being a proper move.",
 [("seq(seq&&), operator=, swap", "ownership of an inner tree while the outer one relocates it"), ("insert_single, erase_single, split and merge of blocks", "relocate inner sequences"), ("splice, merge, assign", "between two elements of one sequence")],
 observe=["contents", "returned iterators", "memory held after destruction"], hook=HOOK)
prop("C36", "Iterators stay valid where they are promised to",
 "sort (also when its comparison throws) and reverse leave every iterator, pointer and reference valid: position k stays position k and its element stays in its place in memory, only the values change. No observer, lookup, iteration or comparison invalidates anything, nor does being copied, read as the source of a copy, or a failed at(). Iterators kept over any of these are indistinguishable from freshly found ones and good for any later edit.",
 ["histories", "configurations"], "every state up to the bound, every kept position, every operation documented to leave iterators valid",
 "The tests never hold an iterator over a whole-sequence operation.",
 [("sort, reverse", "documented: iterators are not invalidated, but reflect the change in ordering"), ("at, operator[], front, back, begin, end, nth, index_of, size, height, comparisons", "documented: iterators are not invalidated"), ("basic_iterator", "carries its block, index and leaf")],
 observe=["element addresses", "iterator behaviour", "contents"], hook=HOOK)
prop("C37", "Code written for std::vector or std::deque works on a sequence",
 "The interface that std::vector and std::deque share in C++11 (all of it except what the documentation excludes) is there and means the same. A sequence can be initialised and passed as {} or {...}; mutable and const iterators, and reverse ones, can be mixed in every comparison and difference; the member types and iterator traits are those of the container requirements; std::stack, std::queue, std::priority_queue, inserters, allocator adaptors and vocabulary types can be built on it, and C++20 concepts, ranges and views accept it; the header compiles alone, in every standard from C++11. A program using only that interface observes the same on a sequence as on a vector.",
 ["histories", "inputs", "configurations"], "every history of a program's edits up to the bound, every subrange, both compilers, five standards",
 "The tests use the sequence through a fixed set of calls in one standard with one compiler, never through an adaptor, a view, a mixed comparison or next to a real vector.",
 [("seq's constructors, assign, insert, emplace, erase, resize", "overload sets of the container requirements"), ("basic_iterator's comparisons and difference", "mixed const and mutable operands"), ("member types", "container requirements")],
 observe=["contents", "returned iterators and values", "what compiles"], hook=HOOK)
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
