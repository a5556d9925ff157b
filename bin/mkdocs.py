#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, the checks in plan.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from plan import PROPS

P = []
def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=None, technique='', note='', na=None):
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        d['anchors']['observe_at'] = [observe]
    assert len(title) <= 80, title
    P.append((d, technique, note, na))

T_MODEL = 'runtime monitoring: random operation histories against an executable model, under ASan+UBSan and at -O2'
N_MODEL = ('Held on the histories run (seeded, counted in the evidence); every container is compared with an independent model after every '
           'operation. Trusts the model, the generator\'s reach and the compiler. ')

prop('C01', 'vector behaves as a growable array under every history',
     'After any sequence of valid calls a vector holds exactly the elements, in exactly the order, that the calls describe; size, emptiness, '
     'capacity (never below size, never reduced by reserve), indexed access, front/back, comparisons and the iterators returned by insert and '
     'erase all agree with those contents. This holds for every element type, position, range length (including empty ranges) and growth step.',
     ['histories', 'inputs'], 'every finite sequence of valid member calls, argument values, positions, source ranges and element types',
     'test_vector calls each member a few times with small int vectors; it never crosses most growth boundaries and never uses tracked element types.',
     ['ttl/vector.hpp'], [('growth and insertion', 'ttl/vector.hpp insert/reserve/resize/push_back'), ('removal', 'ttl/vector.hpp erase/pop_back/clear')],
     [('storage bounds', 'first element, end of elements, end of storage')], 'return values, iterators and element reads of the public interface', T_MODEL, N_MODEL)
prop('C02', 'fixed_vector behaves as a bounded array under every history',
     'After any sequence of valid calls a fixed_vector holds exactly the elements, in order, that the calls describe, never more than its fixed '
     'capacity, and uses no storage outside itself. Insertion beyond the capacity is handled the way the interface promises, without touching '
     'memory outside the object, and every other observer (size, full/empty, capacity, indexing, iteration, comparison, swap) agrees with the contents.',
     ['histories', 'inputs'], 'every finite sequence of valid member calls, for every capacity and element type, including sequences that fill the container',
     'test_fixed_vector exercises a handful of int sequences of one or two capacities, rarely at the capacity limit.',
     ['ttl/fixed_vector.hpp'], [('in-place storage', 'ttl/fixed_vector.hpp storage, begin/end'), ('insertion and overflow', 'ttl/fixed_vector.hpp insert/push_back/resize/swap')],
     [('element count', 'number of constructed elements in the in-place storage')], 'public interface and guard bytes around the object', T_MODEL, N_MODEL)
prop('C03', 'list is a doubly linked sequence under every history',
     'After any sequence of valid calls (insert, erase, splice, merge, remove, unique, reverse, swap, resize, assign, ...) every list involved holds '
     'exactly the expected elements in the expected order, read forwards and backwards alike. Size and emptiness, returned iterators, equality and '
     'stability of merges agree with those contents, and empty lists and empty ranges are handled like any other.',
     ['histories', 'inputs'], 'every finite sequence of valid member calls over any number of lists, positions and sub-ranges',
     'test_list checks fixed scenarios of a few ints and has no backward traversal after most operations; broken back links or empty-list cases stay invisible.',
     ['ttl/list.hpp'], [('linking', 'ttl/list.hpp node insertion/unlinking'), ('multi-list operations', 'ttl/list.hpp splice/merge/swap'), ('bulk removal', 'ttl/list.hpp remove/unique/erase/clear/resize')],
     [('node links', 'next and previous pointers around the sentinel')], 'forward and backward iteration after every call', T_MODEL,
     N_MODEL + 'erase(first,last) of a non-empty range is a recorded finding (the test suite pins the deviation).')
prop('C04', 'forward_list is a singly linked sequence under every history',
     'After any sequence of valid calls (push/pop front, insert_after, erase_after, splice_after, swap, reverse, assign, comparison, ...) every forward_list '
     'involved holds exactly the expected elements in the expected order. Positions returned by the calls denote the elements they promise, and operations '
     'on the position before the first element, on empty lists and on empty ranges behave like any other.',
     ['histories', 'inputs'], 'every finite sequence of valid member calls over any number of lists, positions and sub-ranges',
     'test_forward_list runs a few fixed ints scenarios; ranges, splices inside one list and empty operands are not varied.',
     ['ttl/forward_list.hpp', 'ttl/slist_node.hpp'], [('linking', 'ttl/slist_node.hpp'), ('after-position operations', 'ttl/forward_list.hpp')],
     [('node links', 'next pointers starting at the list head')], 'iteration after every call', T_MODEL, N_MODEL)
prop('C05', 'backward_list keeps both ends right under every history',
     'After any sequence of valid calls a backward_list holds exactly the expected elements in order, its last element is the one back() yields and '
     'the one after which push_back appends, and an emptied list can be used again. Insertion and removal after any position, including the last and the one '
     'before the first, swap and reverse keep this true.',
     ['histories', 'inputs'], 'every finite sequence of valid member calls over any number of lists, positions and sub-ranges',
     'test_backward_list runs one short scenario per member; the tail pointer is seldom checked after removal or range insertion at the end.',
     ['ttl/backward_list.hpp', 'ttl/slist_node.hpp'], [('tail tracking', 'ttl/backward_list.hpp')],
     [('tail', 'position after which the next element is appended')], 'back(), push_back and iteration after every call', T_MODEL, N_MODEL)
prop('C06', 'lazy_queue is FIFO and recycles storage invisibly',
     'A lazy_queue delivers elements in exactly the order they were appended, whatever mix of appending, removal, clearing, swapping and pool cleanup '
     'preceded. Storage kept for reuse is never observable as contents: size, iteration, front/back and comparison reflect only live elements, and reuse or release '
     'of that storage never changes them.',
     ['histories', 'inputs'], 'every finite sequence of valid member calls, including interleavings of removal, cleanup and reuse',
     'test_lazy_queue pushes and pops a few ints; reuse after cleanup, swap with an empty queue and copies with pooled nodes are not reached.',
     ['ttl/lazy_queue.hpp', 'ttl/slist_node.hpp'], [('node recycling', 'ttl/lazy_queue.hpp')], [('free nodes', 'nodes kept after removal for reuse')],
     'public interface after every call', T_MODEL, N_MODEL)
prop('C07', 'map is an ordered unique-key dictionary under every history',
     'After any sequence of valid calls a map holds exactly one entry per key inserted and not erased, with the mapped value the calls imply (insertion never overwrites, '
     'indexing does), and iterates in strictly increasing key order forwards and backwards. Lookups (find, count, lower/upper bound, equal range), emptiness, the '
     'results of insert and erase, and comparisons agree with those entries for present and absent keys and any ordering.',
     ['histories', 'inputs'], 'every sequence of valid member calls, key sequences, key types and comparison objects, copies and moves of contents included',
     'test_map* insert and erase a fixed set of keys; rebalancing on deletion depends on tree shape, and bounds of missing keys are not sampled.',
     ['ttl/map.hpp', 'ttl/rbtree.hpp'], [('ordered search', 'ttl/map.hpp find/lower_bound/upper_bound'), ('balancing', 'ttl/rbtree.hpp')],
     [('tree', 'left-leaning red-black tree of entries')], 'public interface after every call', T_MODEL, N_MODEL)
prop('C08', 'set is an ordered collection of unique keys under every history',
     'After any sequence of valid calls a set holds exactly the keys inserted and not erased, once each, in strictly increasing order forwards and backwards. Insert reports whether '
     'it added the key and where it is, erase reports whether it removed one, and find, count, bounds, equal ranges, emptiness and comparisons agree with the contents for present '
     'and absent keys and any ordering.',
     ['histories', 'inputs'], 'every sequence of valid member calls, key sequences, key types and comparison objects',
     'test_set covers a fixed set of int keys; tree shapes and missing-key bounds are not varied.',
     ['ttl/set.hpp', 'ttl/rbtree.hpp'], [('ordered search', 'ttl/set.hpp'), ('balancing', 'ttl/rbtree.hpp')], [('tree', 'left-leaning red-black tree of keys')],
     'public interface after every call', T_MODEL, N_MODEL)
prop('C09', 'rbtree keeps every node, in order and balanced, across any history',
     'For any sequence of insertions and removals of caller-owned nodes, the tree contains exactly the nodes inserted and not removed (also when keys repeat), in-order traversal is sorted in both '
     'directions, and lookups and counts find what is there and nothing else. Its height stays logarithmic in the number of nodes, and clearing, swapping or assigning trees '
     'neither loses nor duplicates nodes.',
     ['histories', 'inputs'], 'every sequence of insert/remove/clear/assign/swap on trees of any size, every key order, duplicates included',
     'test_rbtree inserts fixed and a few generated sequences; deletion cases of a left-leaning red-black tree depend on colour patterns few sequences produce.',
     ['ttl/rbtree.hpp'], [('balancing', 'ttl/rbtree.hpp insert/remove fix-up'), ('traversal', 'ttl/rbtree.hpp next/prev')],
     [('node colour and links', 'left, right, parent and colour of every node')], 'traversals, lookups and depth after every call', T_MODEL, N_MODEL)
prop('C10', 'vector_map finds the first entry of a key and keeps insertion order',
     'After any sequence of valid calls a vector_map iterates over its entries in the order they were appended, with exactly the values the calls imply, and lookup, count and '
     'indexing find the first entry with an equal key or report that there is none. Indexing an absent key appends one entry with a default value and touches no other.',
     ['histories', 'inputs'], 'every sequence of valid member calls, key and mapped types and equality objects, duplicate keys included',
     'test_vector_map uses a few distinct int keys once.',
     ['ttl/vector_map.hpp', 'ttl/vector.hpp'], [('linear lookup', 'ttl/vector_map.hpp')], (), 'public interface after every call', T_MODEL, N_MODEL)
prop('C11', 'sorted_vector_map is an ordered unique-key dictionary',
     'After any sequence of valid calls a sorted_vector_map holds exactly one entry per inserted key, with the value the calls imply, stored contiguously in strictly increasing '
     'key order for any ordering object. Lookups, bounds, counts, capacity and size, insertion results and iteration agree with those entries for present and absent keys at every size and growth step.',
     ['histories', 'inputs'], 'every sequence of valid member calls, key orders (ascending, descending, random), key/mapped types and comparison objects',
     'test_sorted_vector_map inserts a few keys; growth steps, insertion in the middle and missing-key bounds are sampled once or not at all.',
     ['ttl/sorted_vector_map.hpp'], [('sorted insertion', 'ttl/sorted_vector_map.hpp insert/operator[]'), ('growth', 'ttl/sorted_vector_map.hpp reserve')],
     [('storage bounds', 'entries and end of storage')], 'public interface after every call', T_MODEL, N_MODEL)
prop('C12', 'bitset equals an array of N bits for every N and operation',
     'For every width, value and sequence of operations (set, reset, flip, test, references, logical operators, shifts, conversions from numbers, strings and other widths, and '
     'to numbers) a bitset equals the array of bits those operations describe. Bits beyond the width are never observable: not in count, any/none/all, comparison, conversion, '
     'or after complement and shift; a write to a bit that does not exist changes nothing.',
     ['inputs', 'histories'], 'every width, bit position, shift distance (also at and beyond the width), string and number, and every sequence of operations',
     'test_bitset samples a few widths and values; word boundaries and dirty unused bits need particular widths and preceding operations.',
     ['ttl/bitset.hpp'], [('word arithmetic', 'ttl/bitset.hpp')], [('words', 'bits packed into machine words, the last one partly unused')],
     'every bit read three ways after every operation', T_MODEL, N_MODEL + 'Exhaustive for widths up to 5 (all values, pairs and shifts); 28 widths up to 1000 sampled.')
prop('C13', 'array, pair, function objects and numeric helpers mean what they say',
     'For all values, arrays and pairs store, copy, convert, assign, swap, fill, index, iterate and compare for equality exactly as their elements dictate; comparison function objects and selectors, element swaps, '
     'iterator advance/distance, element counts and the iota/accumulate helpers yield the defined result, with operands combined in the defined order. This includes zero-sized arrays, pairs of references and of mixed types, and extreme values.',
     ['inputs', 'histories'], 'all values, sizes and sequences of operations on the vocabulary types and helpers',
     'test_array, test_pair, test_countof and test_ttl check a couple of constants each.',
     ['ttl/array.hpp', 'ttl/utility.hpp', 'ttl/functional.hpp', 'ttl/numeric.hpp', 'ttl/ttl.hpp'],
     [('vocabulary types', 'ttl/array.hpp, ttl/utility.hpp'), ('helpers', 'ttl/functional.hpp, ttl/numeric.hpp, ttl/ttl.hpp')], (), 'return values and element reads', T_MODEL, N_MODEL)
T_ALGO = 'runtime monitoring: generated and small-scope exhaustive calls judged by a naive reference, under ASan+UBSan and at -O2'
N_ALGO = 'Complete for ranges up to length 5 over a 3-letter alphabet (a third of the cases), sampled beyond; checked with pointer, forward, bidirectional, random-access and single-pass iterators. Trusts the naive references.'
prop('C14', 'query algorithms answer correctly for every range and predicate',
     'find, search, count, compare, test and locate algorithms return, for every input range (empty ones included), predicate and value, exactly the first or last position, number or truth value their '
     'definition names, and change nothing. Both the plain and the predicate form agree, on every category of iterator they accept.',
     ['inputs'], 'all ranges, values, predicates and iterator categories', 'test_algo runs each algorithm on one or two fixed arrays.',
     ['ttl/algorithm.hpp'], [('query algorithms', 'ttl/algorithm.hpp')], (), 'return values; ranges compared before and after', T_ALGO, N_ALGO)
prop('C15', 'modifying algorithms produce exactly the defined output',
     'Copying, filling, generating, transforming, replacing, removing, reversing and swapping algorithms leave every range with exactly the defined contents, return the defined end position, write nothing beyond it '
     'and keep the relative order of what they keep. Input, output and new values may be of different types: what is written is exactly what the language makes of the element or value written. Overlapping ranges allowed by their definition, empty ranges and zero counts included.',
     ['inputs'], 'all ranges, values, predicates, counts, permitted overlaps and iterator categories', 'test_algo runs each algorithm on one or two fixed arrays and does not look past the result.',
     ['ttl/algorithm.hpp'], [('modifying algorithms', 'ttl/algorithm.hpp')], (), 'all elements in and around the output range', T_ALGO, N_ALGO)
prop('C16', 'sorted-range and minimum/maximum algorithms are exact and stable',
     'For every sorted range and ordering (also one that compares elements with values of another type), lower and upper bound, equal range and binary search give exactly the defined positions, and merge yields the sorted union of its inputs, '
     'stably. Sortedness tests name the first violation, and minimum, maximum and both together (of values and of ranges) give the defined one among equivalent elements. Ranges of any size are handled, whatever their distance type.',
     ['inputs'], 'all sorted ranges with duplicates, all orderings, all sizes including those beyond 32 bits', 'test_algo and test_algo_set use a few fixed arrays without telling equivalent elements apart.',
     ['ttl/algorithm.hpp'], [('binary search', 'ttl/algorithm.hpp lower_bound/upper_bound/equal_range'), ('merging', 'ttl/algorithm.hpp'), ('min/max', 'ttl/algorithm.hpp')],
     (), 'return values and outputs with tagged elements', T_ALGO, N_ALGO)
prop('C17', 'every element is constructed once and destroyed once',
     'Over any history of valid calls every element a container or algorithm creates is constructed exactly once in the place it occupies, used only while alive, and destroyed exactly once, before its storage is released or reused. '
     'Elements are never copied bitwise, assigned to before construction, or left undestroyed when removed, cleared or when their container ends; exactly as many elements are alive as the containers hold.',
     ['histories', 'inputs'], 'every sequence of valid calls on any container or algorithm with element types that have non-trivial lifetimes',
     'The tests mostly store ints, for which a missing or double construction or destruction is invisible.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/vector_map.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/algorithm.hpp'],
     [('construction in raw storage', 'placement new in ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/sorted_vector_map.hpp'), ('node life cycle', 'node creation and release in the list and tree containers')],
     (), 'constructors, destructors, assignments and comparisons of tracked elements', 'runtime monitoring: online registry of live elements fed by instrumented element types over random histories',
     'Held on the histories run; the registry sees every construction, destruction, assignment, copy and comparison of tracked elements and every release of storage.')
prop('C18', 'no history of valid calls touches memory it must not or is undefined',
     'Whatever valid calls are made, the library reads and writes only inside live objects and its own live storage, suitably aligned, and executes no undefined arithmetic, pointer or shift operation. This holds for empty containers and ranges, '
     'zero counts, full containers and counts far beyond the capacity.',
     ['histories', 'inputs'], 'every sequence of valid calls on every container and algorithm', 'The tests run without sanitizers on a few sequences; a stray access rarely changes their results.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/bitset.hpp', 'ttl/rbtree.hpp', 'ttl/algorithm.hpp'],
     [('raw storage arithmetic', 'ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/sorted_vector_map.hpp, ttl/bitset.hpp'), ('node relinking', 'ttl/list.hpp, ttl/forward_list.hpp, ttl/backward_list.hpp, ttl/lazy_queue.hpp, ttl/rbtree.hpp')],
     (), 'sanitizer instrumentation, guard bytes around objects, junk-filled storage', 'sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer over random histories of every component',
     'Held on the histories run. Red zones and guard bytes miss non-adjacent stray accesses that land in live memory.')
prop('C19', 'library storage is released exactly once, rightly sized, and never leaked',
     'Every block of memory the library allocates is released exactly once, with the matching form and size, no later than the destruction of the container that owns it; it releases nothing it did not allocate. '
     'In-place containers, bitsets and algorithms allocate nothing at all, and capacity once reserved is used before more is allocated.',
     ['histories', 'inputs'], 'every sequence of valid calls on every container and algorithm', 'Leaks, mismatched releases and superfluous allocations do not change the values the tests compare.',
     ['ttl/vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/fixed_vector.hpp', 'ttl/bitset.hpp', 'ttl/algorithm.hpp'],
     [('storage ownership', 'allocation and release in the containers')], (), 'global allocation functions', 'runtime monitoring: replaced global allocator attributing every block to the operation that made it, audited over random histories',
     'Held on the histories run; every block allocated inside a library call is tracked to its release.')
prop('C20', 'elements stay where they are: references and iterators remain valid',
     'In the linked and tree containers an element never moves or is copied while it stays in a container: pointers and iterators to it keep denoting it, and lead to its current successor, across insertions, removals of others, splices, merges, swaps and reversals, also into another list. '
     'In a vector or in-place container, elements before the point of change stay in place as long as the capacity is not exceeded.',
     ['histories'], 'every sequence of valid calls, with references and iterators held across any number of them', 'The tests re-read containers from the start after each call and hold no references.',
     ['ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/vector.hpp', 'ttl/fixed_vector.hpp'],
     [('relinking instead of copying', 'ttl/list.hpp splice/merge/reverse/swap, ttl/rbtree.hpp removal'), ('reserved capacity', 'ttl/vector.hpp reserve/insert')],
     [('element addresses', 'recorded for every element and compared after every call')], 'addresses of elements and iterators held across calls',
     'runtime monitoring: recorded element addresses and held iterators checked after every operation of random histories',
     'Held on the histories run; up to six iterators per case are held across operations, all element addresses are compared after each.')
prop('C21', 'operations on aliased operands behave as if the operands were distinct',
     'Passing a container to its own operation (assignment, swap, merge, comparison) or an element of a container to an operation on that container (insert, push, remove, lookup, fill) has the same effect as passing an independent copy '
     'of the argument, unless that use is defined to be invalid. No lifetime, memory or allocation rule is broken by it.',
     ['inputs', 'histories'], 'every operation taking a container, element or value by reference, with arguments that alias the target, at every size and capacity', 'The tests do not pass a container or its elements to itself.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/vector_map.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/bitset.hpp', 'ttl/array.hpp'],
     [('self assignment', 'operator= of the containers'), ('own element as argument', 'insert/push/remove of the containers')], (), 'contents, lifetimes, memory and allocations of aliased calls',
     'runtime monitoring: histories biased to aliased arguments, judged by model, lifetime and allocator monitors and ASan+UBSan', N_MODEL)
prop('C22', 'copies are equal and independent, swaps exchange, assignments replace',
     'A container copied, assigned or swapped has afterwards exactly the contents the operation implies, and from then on no operation on one of the containers involved is observable in another. Any target, empty, smaller, larger or '
     'previously emptied, ends in the same observable state, and equality and ordering comparisons agree with the contents.',
     ['histories', 'inputs'], 'every pair of containers in any state, followed by any operations on either', 'The tests copy or swap one small container and do not modify the other side afterwards.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/sorted_vector_map.hpp'],
     [('copying, assignment and swap', 'copy constructors, operator= and swap of the containers'), ('comparison operators', 'end of each container header')], (), 'all containers of a case after every call',
     'runtime monitoring: histories biased to copies, assignments, swaps and comparisons, all operands compared with models after each', N_MODEL)
prop('C23', 'no hidden shared state: threads on distinct containers do not interfere',
     'Threads that work on distinct containers, or only read shared ones through constant access, never race with one another through state inside the library and each see the results of their own sequential history; '
     'so do element functions and predicates that use other containers while the library is calling them. Constant operations on a shared container modify nothing.',
     ['schedules', 'histories'], 'every schedule of any number of threads using distinct containers or constant operations of shared ones', 'The test suite is single threaded.',
     ['ttl/list.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/lazy_queue.hpp', 'ttl/vector.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/bitset.hpp', 'ttl/algorithm.hpp'],
     [('const members', 'const member functions of all containers'), ('absence of static state', 'all headers')], (), 'ThreadSanitizer reports; per-thread models',
     'race detector: ThreadSanitizer over randomly scheduled threads, with per-thread models as oracle', 'No race reported in the interleavings run; happens-before detection finds a race whenever both accesses occur unordered, so few schedules suffice per pair of operations.')
prop('C24', 'algorithms keep to the iterator, predicate and range rules of their inputs',
     'Algorithms dereference only positions inside the ranges they are given, at most once per pass for single-pass inputs, write only through output positions in order, and leave constant inputs untouched. They apply predicates and functions only to elements, '
     'as often and in the order their definition allows and not beyond the element that settles the answer, and their results are complete when single-pass inputs are consumed once.',
     ['inputs'], 'all ranges, predicates and functions, with iterators of the weakest category each algorithm accepts', 'The tests use plain pointers, which hide reads past the end, double reads and superfluous predicate calls.',
     ['ttl/algorithm.hpp', 'ttl/numeric.hpp', 'ttl/utility.hpp'], [('algorithm loops', 'ttl/algorithm.hpp')], (), 'instrumented iterators, elements and predicates',
     'runtime monitoring: instrumented iterators and predicates checking an access protocol online', 'Held on the calls run. Bounds on predicate calls are those of the definitions (linear counts, logarithmic searches).')
prop('C25', 'iteration visits each element once, and iterators compare and convert coherently',
     'From any position of any container, moving forwards and (where offered) backwards, in prefix or postfix form, visits exactly the neighbouring elements, and n steps from begin to end visit each of n elements once. '
     'Iterators to the same position are equal however obtained, constant and non-constant ones convert and compare coherently, and dereference and arrow agree.',
     ['histories', 'inputs'], 'every container state, start position and walk', 'The tests iterate forwards from begin to end; backward, postfix and mixed-constness use is rare.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/vector_map.hpp', 'ttl/sorted_vector_map.hpp'],
     [('iterators', 'iterator classes of the containers'), ('tree traversal', 'ttl/rbtree.hpp next/prev')], (), 'random walks of iterator pairs against an index',
     'runtime monitoring: random iterator walks checked step by step against an index into the model', N_MODEL)
prop('C26', 'type queries agree with the language for every type',
     'Every type query and transformation offered (constness, volatility, pointer and array kind, void, integral, floating, arithmetic, fundamental and scalar classification, signedness, sameness, removal of qualifiers and references) '
     'yields for every type what the language defines, in every language mode and with either signedness of char.',
     ['programs', 'configurations'], 'all types, language modes and character signedness', 'test_types checks a few dozen combinations in one mode.',
     ['ttl/type_traits.hpp', 'ttl/types.hpp'], [('type traits', 'ttl/type_traits.hpp')], (), 'value and type members compared with the compiler\'s own traits',
     'runtime monitoring: table of several hundred generated types compared with the compiler\'s traits at run time, in several configurations',
     'Held on the table of types; documented deviations (queries defined more narrowly than the standard\'s) are not judged.')
prop('C27', 'containers of containers keep all guarantees',
     'When the elements of a container are themselves containers of this library, contents, independence of copies, element lifetimes, storage accounting and memory safety hold on every level exactly as for simple elements. '
     'This includes elements that own storage being moved about by growth, insertion, erasure, swap and assignment of the outer container, element types that contain containers of their own type '
     '(trees), and a container being appended or prepended a copy of an object that contains this very container.',
     ['histories', 'inputs'], 'every combination of outer and inner container, every shape of tree and every sequence of operations on all levels', 'No test nests containers.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/vector_map.hpp', 'ttl/sorted_vector_map.hpp'],
     [('element copying', 'construction and assignment of elements in all containers')], (), 'contents of both levels, lifetimes, allocations', T_MODEL, N_MODEL + '63 combinations of outer and inner container, and trees made of eight kinds of container.')
prop('C28', 'results never depend on uninitialised memory',
     'No result, decision or output of the library is computed from memory that was never written: freshly allocated storage, the unused part of in-place storage, new nodes and default-constructed containers are initialised before they are used. '
     'Elements created by resizing without a value are value-initialised.',
     ['histories', 'inputs'], 'every sequence of valid calls on every container and algorithm', 'Uninitialised memory is often zero in a short test process, so the tests pass by luck.',
     ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/rbtree.hpp', 'ttl/bitset.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/lazy_queue.hpp', 'ttl/sorted_vector_map.hpp'],
     [('initialisation of members and nodes', 'constructors of the containers and nodes')], (), 'MemorySanitizer shadow state',
     'sanitizer: MemorySanitizer over random histories, with fresh storage poisoned', 'Held on the histories run, all code instrumented (no C++ library code on the judged paths).')
T_UNITS = ('runtime monitoring: generated programs of many units (one per header first, random selections and orders) whose units work on each '
           'other\'s objects, every operation by a randomly chosen unit and judged by a model')
prop('C29', 'headers combine in any order, in any number of units',
     'Every header can be included on its own, first, repeatedly or together with any others in any order, in any language mode (C++98 and later), and in any number of units of one '
     'program, also where units are compiled by different compilers, in different language modes or with different options: all units agree on what every type is and does, so an object made by one unit can be changed, examined, compared, swapped and destroyed by any other with the '
     'same meaning. A feature of another header that an operation needs may be included before or after. This includes programs that keep the tree functions out of line in one unit, and classes instantiated explicitly as a whole in some units and declared extern in others.',
     ['programs', 'configurations', 'histories'], 'all subsets and orders of headers, numbers of units, language modes and sequences of operations across units',
     'Every test is a program of one unit that includes a few headers in one order in the compiler\'s default language mode.',
     ['ttl'], [('includes, guards and forward declarations', 'top of each header'), ('entities with linkage', 'inline functions and static members of all headers'),
               ('out of line tree functions', 'ttl/rbtree.hpp RBTREE_INLINEABLE')], (),
     'results of operations performed by different units, element lifetimes, storage, object sizes; a program that does not build is a violation',
     T_UNITS, 'Held on the generated programs (the orders follow the seed) and the histories run on them. In two of the programs every unit is compiled differently.')
prop('C30', 'the library needs nothing of the C++ standard library',
     'Programs using any part of the library work where there are no exceptions, no run-time type information and no C++ standard library at all: what the library needs is the C headers, placement new, '
     'the program\'s own operator new and delete and the plain memory functions every compiler relies on. All containers and algorithms keep their meaning there, at every optimisation level.',
     ['programs', 'configurations', 'histories'], 'all uses of the library without a C++ library', 'All tests are linked with the full C++ library.',
     ['ttl'], [('includes', 'top of each header'), ('allocation', 'new and delete expressions of all containers')], (),
     'results of operations, element lifetimes and storage requests of units that have no C++ library; a program that does not build is a violation',
     T_UNITS + ', built and linked without a C++ library', 'Held on the generated programs, with g++ and clang++; the monitored driver outside the units does use a C++ library.')
prop('C31', 'algorithms and containers work together',
     'Every algorithm accepts the iterators of every container whose iterators are of the category it needs - constant and mutable, two ranges of different kinds included - and means there what it '
     'means anywhere: results, elements changed, elements left alone. Containers built, assigned or extended from a range of any other container (vectors: of one with random access) hold exactly its elements, and the idioms made of '
     'several calls (remove then erase, search then insert, merge then copy) leave every container involved consistent, with no element or storage lost.',
     ['histories', 'inputs'], 'all combinations of algorithm, kinds of containers, sub-ranges and contents, in any sequence',
     'The tests apply algorithms to plain arrays, and fill containers from plain arrays; a call that mixes two kinds of containers is never even compiled.',
     ['ttl'], [('iterator types', 'all containers'), ('algorithms', 'ttl/algorithm.hpp, ttl/numeric.hpp'),
               ('range members', 'constructors, assign and insert taking two iterators')], (),
     'results of the algorithms, forward and backward iteration of every container involved, element and storage accounting',
     T_MODEL, N_MODEL)
prop('C32', 'operations ask of elements and functions only what they need',
     'An operation works for every element type that has what the operation is specified to use: elements that cannot be assigned where nothing is assigned, that have no default constructor where none is created, '
     'that have only the one comparison the operation is defined by (or that one comparison with a value of another type, or yielding something other than bool), outputs and sums that take only what is written to them, and that declare an operator new of their own. '
     'Keys are identified by the order of the map or set alone. Predicates, comparators, generators and operations may be of any type that can be copied and called, including ones that change when called.',
     ['inputs', 'histories'], 'all element and function types that meet an operation\'s stated requirements, and all histories of operations on them',
     'The tests use int and other types that have every operation.',
     ['ttl'], [('element construction', 'constructors, insert, resize, push of all containers'), ('key comparison', 'ttl/rbtree.hpp, ttl/sorted_vector_map.hpp'),
               ('function parameters', 'ttl/algorithm.hpp')], (),
     'contents, results, element lifetimes and storage with minimal types; an operation that does not compile is a violation', T_MODEL,
     N_MODEL + 'What an operation may need is taken from the C++ standard\'s requirements for the operation of that name, so needing less is not judged.')
prop('C33', 'works beside the C++ standard library and any user\'s namespace',
     'Where a C++ standard library is there, too, the algorithms work on its iterators (containers, streams, inserters) with its results, the containers hold its elements and are held by its containers, each library\'s '
     'comparators serve the other, a map can be filled with what a standard map holds, and standard algorithms work on iterators that are pointers. Functions in the namespaces of elements and iterators that happen to have the names of the library\'s are '
     'never called in their place.',
     ['inputs', 'histories'], 'all standard iterators, element types and user namespaces, and all histories of operations', 'The tests use int elements, and their own array as the only range.',
     ['ttl'], [('calls between algorithms', 'ttl/algorithm.hpp'), ('range members', 'constructors, assign and insert taking two iterators')], (),
     'the standard library\'s own results on equal input; reference counts, storage; calls of a user\'s functions; a call that does not compile is a violation',
     'runtime monitoring: differential execution against the C++ standard library, with counted elements and a monitored heap', N_MODEL + 'swap() is left out: it is the one function users replace, and is ambiguous for containers of standard elements.')
prop('C34', 'operations can be entered again from what they call',
     'While an operation is running, the functions it was given and the constructors, assignments, comparisons and destructors of the elements it handles may use the library themselves, on other objects, of '
     'the same types too, to any depth. The interrupted operation and the inner ones each do exactly what they do alone.',
     ['histories', 'inputs'], 'all histories of operations, interrupted by all histories on other objects in every one of their callbacks', 'No callback of a test uses the library.',
     ['ttl'], [('element operations in containers', 'insert, erase, copy, clear and resize of all containers'), ('comparators and predicates', 'ttl/rbtree.hpp, ttl/sorted_vector_map.hpp, ttl/list.hpp, ttl/algorithm.hpp')], (),
     'contents, results, element lifetimes, storage and addresses of both the outer and the inner histories',
     'runtime monitoring: model-compared histories run from within the callbacks of others, under sanitizers', N_MODEL)

prop('C35', 'the stack an operation needs does not grow with the number of elements',
     'Containers of any length are constructed, copied, assigned, changed, searched, compared, cleared and destroyed, and algorithms run over ranges of any length, on a small stack: no operation calls itself '
     'once per element or keeps a copy of the elements there. (The height of a balanced tree, and what a bitset of N bits returned by value takes, are the exceptions.)',
     ['inputs', 'histories'], 'all lengths and histories', 'No test has more than a few hundred elements, and the stack of a test is 8 MB.',
     ['ttl'], [('recursion, buffers', 'ttl/list.hpp, ttl/forward_list.hpp, ttl/backward_list.hpp, ttl/rbtree.hpp, ttl/map.hpp, ttl/set.hpp, ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/algorithm.hpp, ttl/numeric.hpp')], (),
     'the stack pointer: a case that leaves its 48 KB of stack faults in the guard pages below',
     'runtime monitoring: large containers and ranges on a small guarded stack, high-water mark recorded', N_MODEL)

prop('C36', 'a constant object is read only, and constant access gives no way to change it',
     'Looking at, searching, iterating, comparing, copying or assigning from a constant container, bitset, array or pair does not write to it or to its elements, not even temporarily, so it may be in read-only '
     'memory. Constant containers and const_iterators give constant references, pointers and iterators only; what changes a container is not available for a constant one; iterators convert to const_iterators '
     'and not back; keys of a map cannot be assigned through iterators.',
     ['inputs', 'histories'], 'all contents and operations; all containers, algorithms and element types', 'No test has constant data in memory that cannot be written, and what must not compile cannot be in a test that compiles.',
     ['ttl'], [('const members, const_iterator', 'ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/list.hpp, ttl/forward_list.hpp, ttl/backward_list.hpp, ttl/lazy_queue.hpp, ttl/map.hpp, ttl/set.hpp, ttl/vector_map.hpp, '
               'ttl/sorted_vector_map.hpp, ttl/bitset.hpp, ttl/array.hpp, ttl/utility.hpp, ttl/algorithm.hpp')], (),
     'the page protection: a store to the objects is a fault, and the answers are those of before and after; for types, the compiler\'s answer whether an expression is valid and what its type is',
     'runtime monitoring: constant object graphs in write-protected pages; table of valid expressions and types', N_MODEL)

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d, t, n, na in P:
        f.write(json.dumps(d) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 bin/check.py --list',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3 bin/check.py %s quick' % d['id'],
                 'thorough_cmd': 'python3 bin/check.py %s thorough' % d['id'],
                 'evidence_file': 'evidence/%s.json' % d['id'],
                 'technique': t, 'level': 'exploration', 'level_note': n}
                for d, t, n, na in P if not na],
     'not_applicable': [{'property': d['id'], 'reason': na} for d, t, n, na in P if na],
     'notes': 'No hooks in /repo: the library is header-only templates, observed through instrumented element types, iterators, predicates, '
              'the replaced global allocator and sanitizers. bin/plan.py lists what each check runs; known-findings.txt the recorded and repaired defects.'}
assert {c['property'] for c in M['checks']} == set(PROPS), set(PROPS) ^ {c['property'] for c in M['checks']}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
