#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so every line stays schema-valid)."""
import json, os, sys
P = []
I = "include/dice/template-library/"
def prop(id, title, statement, over, text, why, files, state=(), mech=()):
    a = {"files": [I + f for f in files]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    if mech: a["mechanism"] = [{"name": n, "where": I + w} for n, w in mech]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ concurrency
prop("C01", "A channel behaves as one atomic bounded FIFO queue",
 "However producers, consumers and closers interleave, every complete history of channel operations (blocking and non-blocking sends, blocking and non-blocking receives, close, closed-query, iteration) is linearizable to a FIFO queue of the given capacity: no element is lost, duplicated, reordered, corrupted or handed to two receivers, and a send never exceeds the capacity. "
 "Once closed, every later send reports failure and stores nothing, while elements already accepted are still delivered in order before receivers see end-of-stream. "
 "A non-blocking send fails only when the queue is full or closed and a non-blocking receive fails only when it is empty; an exception thrown by the element type during a send, a receive or iteration reaches the caller and leaves the channel usable.",
 ["schedules", "histories"], "all thread schedules of small producer/consumer/closer programs, all capacities, element types and operation mixes; all operation sequences of a single thread",
 "Unit tests run whichever schedule the OS picks; a lost or reordered element needs one particular interleaving of sends, receives and close.",
 ["channel.hpp"], [("queue_", "accepted, not yet received elements", "channel.hpp"), ("closed_", "whether the stream has ended", "channel.hpp")],
 [("emplace/try_emplace", "channel.hpp"), ("pop/try_pop", "channel.hpp"), ("close", "channel.hpp")])
prop("C02", "No channel user is left blocked when it could make progress",
 "A blocked receiver is released whenever an element is available to it or the channel is closed, and a blocked sender is released whenever there is free capacity or the channel is closed; no schedule, spurious wakeup or choice of which waiter is woken leaves a thread asleep forever while its condition holds. "
 "This includes schedules in which another thread's send or receive exits with an exception thrown by the element type. "
 "Closing releases all blocked threads, and iterating a closed channel terminates.",
 ["schedules", "fault_sequences"], "all thread schedules, all wakeup choices and bounded spurious wakeups, for programs that must terminate under a fair scheduler; all points at which an element operation may throw",
 "A lost wakeup shows as a rare hang under one notify/wait ordering; a test that happens to pass says nothing about the others.",
 ["channel.hpp"], [("queue_not_empty_/queue_not_full_", "who is waiting for elements / capacity", "channel.hpp")],
 [("close", "channel.hpp"), ("emplace", "channel.hpp"), ("pop", "channel.hpp"), ("iterator", "channel.hpp")])
prop("C03", "Handing data through channels and locks is free of data races",
 "No schedule of concurrent calls to the channels' and the value-holding mutexes' public operations contains a data race, neither on the internals nor on the values passed through them: everything a sender did before sending is visible to the receiver of that element, everything done under a lock is visible to the next holder, and everything done before closing a channel is visible to a thread that observes it closed.",
 ["schedules"], "all thread schedules of programs sharing one channel, exchange channel, mutex or shared mutex",
 "A race is benign in almost every run on strongly ordered hardware; tests assert values, not happens-before.",
 ["channel.hpp", "exchange_channel.hpp", "mutex.hpp", "shared_mutex.hpp"], [("closed_", "closed flag read without the lock", "channel.hpp"), ("closed_", "closed flag read without the lock", "exchange_channel.hpp")],
 [("closed", "channel.hpp"), ("close", "exchange_channel.hpp"), ("lock", "mutex.hpp"), ("lock_shared", "shared_mutex.hpp")])
prop("C04", "An exchange channel is an atomic newest-value mailbox",
 "However threads interleave, every complete history of exchange-channel operations is linearizable to a single-slot mailbox: a successful send replaces the current value, a receive takes the newest value exactly once and empties the slot, and no older or already taken value is ever delivered again. "
 "After close every send reports failure and changes nothing, a value still present is still delivered once, and then receivers see end-of-stream; a non-blocking receive fails only when the slot is empty; an exception thrown by the element type during a send, a receive or iteration reaches the caller and leaves the channel usable.",
 ["schedules", "histories"], "all thread schedules of small sender/receiver/closer programs, and all single-threaded operation sequences",
 "Duplicated or stale delivery needs a send, a receive and a close to overlap in one specific way.",
 ["exchange_channel.hpp"], [("value_", "the pending newest value, if any", "exchange_channel.hpp")], [("emplace", "exchange_channel.hpp"), ("pop/try_pop", "exchange_channel.hpp")])
prop("C05", "No exchange-channel receiver is left blocked when it could proceed",
 "A receiver blocked on an exchange channel is released whenever a value is present or the channel is closed, under every schedule, every choice of woken waiter and spurious wakeup, including when another thread's send or receive exits with an exception thrown by the element type. "
 "Senders never block, closing releases all blocked receivers, and iterating a closed channel terminates.",
 ["schedules", "fault_sequences"], "all thread schedules, wakeup choices, bounded spurious wakeups and element-operation exceptions",
 "A lost wakeup is a rare hang that depends on one notify/wait ordering.",
 ["exchange_channel.hpp"], [("has_value_", "receivers waiting for a value", "exchange_channel.hpp")], [("close", "exchange_channel.hpp"), ("pop", "exchange_channel.hpp"), ("iterator", "exchange_channel.hpp")])
prop("C06", "A mutex-held value is reachable by one guard at a time",
 "At most one guard of a value-holding mutex exists that grants access to the value at any time, whatever the schedule and whatever sequence of locking, try-locking, guard moves, move-assignments and guard destruction is used; the lock is held exactly as long as the guard that owns it lives, so it is always eventually released and never released early or twice. "
 "Try-lock never blocks and, when no guard exists, succeeds. This holds for any underlying lock type given as parameter.",
 ["schedules", "histories"], "all thread schedules of small locking programs and all single-threaded sequences of guard operations",
 "Mutual exclusion and release-on-scope-exit must hold for every interleaving and every guard move pattern; tests show one.",
 ["mutex.hpp"], [("mutex_", "whether a guard exists", "mutex.hpp")], [("mutex::lock/try_lock", "mutex.hpp"), ("mutex_guard", "mutex.hpp")])
prop("C07", "A shared-mutex value has one writer or many readers, never both",
 "For a value-holding reader/writer mutex, at any time either one exclusive guard exists, or any number of shared guards, or none, under every schedule and every sequence of exclusive/shared locking, try-locking, guard moves, move-assignments and destruction; shared guards do not exclude each other and grant read-only access. "
 "Each guard holds the lock in its own mode for exactly its lifetime, so every lock is released exactly once. Try-operations never block and succeed whenever no conflicting guard exists.",
 ["schedules", "histories"], "all thread schedules of small reader/writer programs and all single-threaded sequences of guard operations",
 "Reader/writer exclusion violations need an overlap of two critical sections that tests do not force.",
 ["shared_mutex.hpp"], [("mutex_", "who holds the lock, in which mode", "shared_mutex.hpp")], [("lock/try_lock", "shared_mutex.hpp"), ("lock_shared/try_lock_shared", "shared_mutex.hpp")])
prop("C08", "A limiting allocator never hands out more than its budget",
 "In every history of allocations, deallocations, copies, moves, rebinds, assignments and swaps, the bytes outstanding through all allocators sharing one budget never exceed the limit, an allocation within the remaining budget is never refused by the limiter, and one beyond it fails with an allocation error and changes nothing. "
 "Deallocation, and an allocation that fails in the underlying allocator, give back exactly the bytes they had taken. "
 "Copies, moved-from originals and rebound versions stay usable, compare equal to and share the budget of their source.",
 ["histories", "fault_sequences"], "all operation histories up to a depth over several limits, element sizes, both synchronization policies and several underlying allocators; every allocation failure point",
 "Accounting drift appears only after particular fail/rebind/free sequences.",
 ["limit_allocator.hpp"], [("bytes_left", "remaining budget", "limit_allocator.hpp")], [("allocate/deallocate", "limit_allocator.hpp"), ("converting constructor", "limit_allocator.hpp")])
prop("C09", "A synchronized allocation budget stays exact under concurrency",
 "When threads allocate and deallocate concurrently through copies of one synchronized limiting allocator, under no schedule do outstanding bytes exceed the limit, and no update of the budget is lost: after all memory is returned the full limit is available again, no more and no less. "
 "An allocation is only refused if granting it could have exceeded the limit given the operations that overlapped it, and concurrent use contains no data race.",
 ["schedules", "fault_sequences"], "all thread schedules (including failed compare-and-swap attempts and stale reads) of small allocate/free programs, with and without failing underlying allocators",
 "Over-commit or lost budget requires two threads inside the check-then-update window.",
 ["limit_allocator.hpp"], [("bytes_left", "remaining budget", "limit_allocator.hpp")], [("limit_allocator_control_block<sync>", "limit_allocator.hpp")])
prop("C10", "Pool memory is disjoint, large enough and reusable",
 "Across every history of allocations and deallocations through a pool or its allocators, each block handed out is non-null, at least as large as requested, aligned for every object of fundamental alignment that fits into it, disjoint from all live blocks, and keeps its contents until freed; freed blocks are reused so that repeating allocate/free does not grow memory, and all memory is returned when the pool dies. "
 "A request whose byte size cannot be represented, or for which no memory is available, fails with an allocation error and leaves the pool usable. "
 "Copies, rebinds and moved-from pool allocators share one pool, compare equal, and can free each other's memory.",
 ["histories", "inputs", "fault_sequences"], "all allocate/free histories up to a depth over sizes around every bucket boundary, several bucket configurations and element types, all allocation-failure points",
 "Overlap or misrouting between size classes depends on the exact mix and order of sizes allocated and freed.",
 ["pool_allocator.hpp"], [("pools_", "one arena per size class", "pool_allocator.hpp")], [("allocate_impl/deallocate_impl", "pool_allocator.hpp"), ("pool_allocator", "pool_allocator.hpp")])
prop("C11", "A polymorphic allocator always acts on the allocator it wraps",
 "A polymorphic allocator, and every copy, rebind, container-copy and swap of it, forwards each allocation and deallocation, with the right type and count, to the one allocator it was given, so memory always goes back to where it came from; two compare equal exactly if memory from one can be freed through the other. "
 "Which allocator a container uses after copy, move and swap follows the allocator's propagation policy (with several alternatives, it propagates only if all of them do), so containers using it behave like containers of the wrapped allocator and neither leak nor free through a foreign allocator. "
 "The adaptor for allocators with non-raw pointers forwards likewise.",
 ["histories", "configurations"], "all histories up to a depth of container and allocator operations over combinations of wrapped allocators, propagation policies and wrapping forms",
 "Freeing through the wrong allocator needs a particular combination of propagation policy and operation sequence.",
 ["polymorphic_allocator.hpp"], [("alloc_", "the currently wrapped allocator", "polymorphic_allocator.hpp")], [("polymorphic_allocator", "polymorphic_allocator.hpp"), ("offset_ptr_stl_allocator", "polymorphic_allocator.hpp")])
# ------------------------------------------------------------------ value types
prop("C12", "A static string is an independent, exact copy of its source text",
 "After any history of construction from text, copying, moving, assignment, swapping and self-assignment, each static string holds exactly the text assigned to it, for every character type, length (including empty) and allocator; size, indexing, iteration, conversion, comparison with strings and text, and printing all agree with that text. "
 "Copies are independent and writing through one never affects another. "
 "All memory is released exactly once to the allocator it came from, and a failed allocation leaks nothing and leaves all strings valid.",
 ["histories", "inputs", "fault_sequences"], "all histories up to a depth over several objects, texts, character types, allocator propagation policies, and every allocation-failure point",
 "Needs every combination of assignment direction, emptiness, allocator inequality and failure point.",
 ["static_string.hpp"], [("data_, size_", "the owned text", "static_string.hpp")], [("copy/move assignment", "static_string.hpp"), ("swap", "static_string.hpp")])
prop("C13", "A flexible array behaves as a sequence bounded by its mode",
 "In every mode (fixed size, bounded size, unbounded) a flexible array behaves as the element sequence produced by the operations applied to it: construction from lists, ranges and iterators, copy, move, assignment, swap, resize and conversion between modes preserve exactly the elements in order, and size, capacity limits, iteration in both directions, indexing, front/back and comparison agree with that sequence. "
 "Lists, ranges, sizes and conversions that exceed a bound, and lists and conversions that do not match a fixed size, are rejected with the length error and change nothing; elements gained by growing have no specified value.",
 ["histories", "inputs"], "all operation sequences up to a depth over all modes, small bounds and element values",
 "Boundary sizes in each mode and each conversion direction form a product space far larger than the tested points.",
 ["flex_array.hpp"], [("inner_", "the stored elements", "flex_array.hpp")], [("flex_array constructors", "flex_array.hpp"), ("operator<=>", "flex_array.hpp")])
prop("C14", "A two-alternative variant always holds exactly one intact value",
 "After any history of construction, emplacement, value/copy/move/converting assignment, swap and self-assignment, the variant holds exactly the alternative and value that the same history gives a standard variant; access, visitation, index queries, equality, ordering and hashing agree with it, and asking for the inactive alternative fails with the standard error. "
 "Every contained object is constructed once and destroyed exactly once.",
 ["histories", "programs"], "all operation histories up to a depth over pairs of alternatives with all mixes of trivial, non-trivial, throwing and move-only types",
 "The state product of source alternative, target alternative, operation and triviality is too large for examples.",
 ["variant2.hpp"], [("discriminant_", "which alternative is active", "variant2.hpp")], [("variant2 assignment operators", "variant2.hpp"), ("emplace", "variant2.hpp"), ("visit", "variant2.hpp")])
prop("C15", "Exceptions never corrupt a two-alternative variant",
 "If a constructor or assignment of an alternative throws at any point of any variant operation, the exception reaches the caller, every object that was constructed is destroyed exactly once, and the variant afterwards either still holds its previous alternative or reports being valueless, never a half-built or destroyed object. "
 "A valueless variant reports so consistently, compares, copies, moves and swaps as such, rejects access and visitation with the standard error, and becomes fully usable again by assigning or emplacing a value.",
 ["fault_sequences", "histories"], "every throwing point of every operation in all operation histories up to a depth",
 "Requires injecting a failure at every possible special-member call, in every prior state.",
 ["variant2.hpp"], [("discriminant_", "active alternative or valueless", "variant2.hpp")], [("DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY", "variant2.hpp")])
prop("C16", "An in-place polymorphic value owns exactly one derived object",
 "After any history of construction, emplacement, copy, move, copy/move assignment and failure, an in-place polymorphic object either holds exactly one live object of one of its listed derived types, to which calls dispatch, or reports being valueless; the held object equals what the history of operations produces, copies are independent, and every derived object is destroyed exactly once. "
 "If a constructor throws, the exception reaches the caller and the object reports valueless and can be assigned or emplaced again. "
 "This holds for trivially and non-trivially destructible derived types that place the base first.",
 ["histories", "fault_sequences"], "all operation histories up to a depth over several derived types, with a failure at each construction point",
 "Leak, double destruction or stale state appears only for specific old-type/new-type/failure combinations.",
 ["inplace_polymorphic.hpp"], [("valueless_", "whether a derived object is alive", "inplace_polymorphic.hpp")], [("emplace", "inplace_polymorphic.hpp"), ("copy_from/move_from/drop", "inplace_polymorphic.hpp")])
prop("C17", "Next-style iterators become exact standard ranges",
 "For every iterator defined by a 'produce the next element or end' operation, the range, view and iterator adaptors yield exactly the elements it produces, once each and in order, via every traversal style: range-for, explicit increment, peeking, skipping, reading the n-th element, remaining-count queries, sentinel comparison, and consuming from both ends for double-ended iterators, where front and back consumption never overlap or skip an element. "
 "Peeking, querying the remaining count and comparing never change what a traversal yields, and copies of an iterator continue independently from the same position.",
 ["histories", "inputs"], "all interleavings of front/back/peek/skip operations up to a depth on all sequences up to a length",
 "Meeting of front and back, skipping past the end and peeking before stepping are combinatorial.",
 ["next_to_range.hpp"], [("peeked / cur", "the element already fetched", "next_to_range.hpp")], [("next_to_iter_impl", "next_to_range.hpp"), ("next_to_range", "next_to_range.hpp"), ("next_to_view", "next_to_range.hpp")])
prop("C18", "Generated number ranges contain exactly the stepped values",
 "A generated range of integers from start towards stop with a given non-zero step contains exactly start, start+step, start+2·step, … strictly before stop (after stop for negative steps), and nothing if the direction does not match; its size, emptiness, first, last and n-th element, forward iteration, reversed iteration and any mixture of consumption from both ends agree with that list. "
 "Iteration always terminates without arithmetic overflow for every representable start, stop and step, including those at the limits of the value type; ranges of other value types yield the same values when traversed forwards.",
 ["inputs", "histories"], "all (start, stop, step) triples of 8-bit signed and unsigned types and boundary triples of wider types, all front/back consumption orders",
 "Off-by-one and wrap-around only show for steps that do not divide the distance or bounds near the type's limits.",
 ["ranges.hpp"], [("current_, stop_, step_", "the values still to be produced", "ranges.hpp")], [("range_iterator::next/next_back/nth/remaining", "ranges.hpp")])
prop("C19", "Range algorithms and adaptors compute their definition",
 "For every input sequence and every predicate, comparison or projection, the range algorithms return what their definition says: all/any/none, all-equal, all-distinct, sorted-and-unique, three-way lexicographic comparison, and element removal agree with a naive evaluation; the pipeable forms agree with the direct forms; the lazy de-duplicating and filtering views yield exactly the defined elements in order. "
 "Early termination never changes the result, all-distinct agrees for every predicate that is consistent with the hash it is used with, and inputs are left unmodified unless modification is the algorithm's purpose.",
 ["inputs"], "all sequences up to a length over a small alphabet, all range categories, predicates and projections of a small family",
 "Tests use a handful of lists; errors appear for particular duplicates, prefixes or empty inputs.",
 ["ranges.hpp"], (), [("all_equal, all_distinct, is_sorted_unique", "ranges.hpp"), ("lexicographical_compare_three_way", "ranges.hpp"), ("remove_element", "ranges.hpp"), ("unique", "ranges.hpp")])
prop("C20", "Optional minimum and maximum ignore absent values only",
 "The optional-aware minimum, maximum and min-max of any list of values, some wrapped in optionals and some absent, equal the minimum and maximum of the present values under the given comparison, are absent (or not, for non-optional results) exactly if no value is present, do not depend on position or number of absent values, and resolve ties like the standard minimum and maximum (the first of equivalent values; the maximum of a min-max may be any of them).",
 ["inputs"], "all argument lists up to a length over present/absent values with ties, value categories, and comparisons",
 "The number of absent/present/tied patterns grows exponentially with the argument count.",
 ["opt_minmax.hpp"], (), [("opt_min/opt_max/opt_minmax", "opt_minmax.hpp")])
prop("C21", "Integer power is exact whenever it is representable",
 "For every integer type, base and non-negative exponent whose mathematical power is representable in the type, the integer power function returns exactly that value, without undefined behaviour, at compile time and at run time. A power that is not representable, signed or unsigned, is reported as an overflow or underflow error and never as a wrong value; negative exponents give the mathematical power truncated toward zero, and zero for base zero.",
 ["inputs"], "all (base, exponent) pairs of 8- and 16-bit types, and all pairs with a representable result for wider types up to stated bounds",
 "The boundary of representability differs for each base and type; tests sample few of them.",
 ["ipow.hpp"], (), [("ipow", "ipow.hpp")])
prop("C22", "A pointer-tag pair returns the pointer and tag it was given",
 "For every pointer value with the pair's alignment and every tag that fits the free bits, in every history of construction, copying, assignment, swap, conversion from pointers to derived types and round trip through the raw representation, the pair returns exactly the pointer and tag it was given: neither ever disturbs the other, null and const pointers included. "
 "Equality and decomposition agree with the stored pair, and the available tag bits equal what the pointee's alignment provides.",
 ["histories", "inputs"], "all tags × boundary pointers × operation histories up to a depth over several alignments and pointee types",
 "Every bit pattern of the tag must survive every update; tests use one or two.",
 ["pointer_tag_pair.hpp"], [("tagged pointer word", "pointer bits and tag bits", "pointer_tag_pair.hpp")], [("pointer_tag_pair", "pointer_tag_pair.hpp")])
# ------------------------------------------------------------------ control flow
prop("C23", "Deferred actions run exactly once, on exactly the right exits",
 "A deferred action runs exactly once when its scope is left, in reverse order of registration: unconditional ones on every exit, on-success ones only if the scope is left without an exception, on-failure ones only if it is left by an exception that began inside it; this holds for nested scopes, early return, loops, exceptions thrown while another exception is being handled or unwound, and for scopes entered during unwinding. "
 "Actions see the variables' values at scope exit, and an action allowed to throw propagates its exception.",
 ["programs"], "all programs up to a size built from nested scopes, the three guard kinds, throws, catches, returns and destructors running during unwinding",
 "Distinguishing success from failure depends on nested exception state, an exponential program space.",
 ["defer.hpp"], [("uncaught exception count at registration", "baseline to tell success from failure", "defer.hpp")], [("DICE_DEFER*", "defer.hpp")])
prop("C24", "Run-time to compile-time dispatch runs exactly the matching case",
 "Switch-case dispatch over a compile-time interval calls the function exactly once, with the constant equal to the run-time value if it lies in the interval, otherwise only the default action, and returns its result; compile-time for-loops over ranges, value lists and type lists call the body exactly once per element, in order, with exactly the listed constants or types, ascending or descending, including empty and negative ranges. An exception thrown by the function reaches the caller.",
 ["inputs", "configurations"], "all intervals within small bounds × all run-time values inside and around them × result kinds; all loop bounds within small limits",
 "Boundary values and descending or negative intervals of every width cannot be sampled meaningfully by hand.",
 ["switch_cases.hpp", "for.hpp"], (), [("switch_cases", "switch_cases.hpp"), ("for_range/for_values/for_types", "for.hpp")])
prop("C25", "Generated integer sequences contain exactly the requested integers",
 "Compile-time integer and index sequences generated between two bounds, in either direction, contain exactly the integers from the first bound towards the second, in order and with the right value type, for all bounds including negative, equal and reversed ones; the type-level loops and helpers built on them see the same integers.",
 ["configurations"], "all pairs of bounds within limits, over signed and unsigned types and both directions",
 "Off-by-one in a direction or at a bound changes generated code for one configuration only.",
 ["integral_sequence.hpp", "for.hpp"], (), [("make_integer_sequence/make_index_sequence", "integral_sequence.hpp")])
prop("C26", "Tuple members are distinct, addressable and keep their values",
 "For every range of indices or list of member types, each member of an integer-indexed template tuple or standard-layout tuple is found under exactly its own index or type, distinct members never share storage, writing one leaves all others unchanged, and construction, copying, assignment, comparison, iteration and application to a function preserve member order and values. "
 "Viewing a contiguous part as a sub-tuple gives access to the same members in place, under the matching indices, wherever that part has the layout of a tuple of its own, and is rejected elsewhere.",
 ["configurations", "histories"], "all index intervals (ascending and descending, negative included) and member type lists within bounds, all single-member writes, all sub-tuple windows",
 "Recursive layout errors show for one depth, direction or alignment mix only.",
 ["integral_template_tuple.hpp", "standard_layout_tuple.hpp"], (), [("integral_template_tuple::get/subtuple", "integral_template_tuple.hpp"), ("standard_layout_tuple", "standard_layout_tuple.hpp")])
prop("C27", "An integer-indexed variant holds the value under its own index",
 "An integer-indexed template variant, for every index interval and every history of construction, emplacement, copying, moving, and assignment, holds exactly the last stored member at exactly its index: index query, access by index, failing access to other indices, visitation and equality agree with it, and contained objects are destroyed exactly once. If a constructor throws, the exception reaches the caller and the variant stays assignable; the index of a valueless variant is not specified.",
 ["histories", "configurations", "fault_sequences"], "all operation histories up to a depth over several index intervals in both directions, with a failure at each throwing point",
 "Index translation between the interval and storage must be right for every element of every interval.",
 ["integral_template_variant.hpp"], [("repr_", "the stored alternative", "integral_template_variant.hpp")], [("integral_template_variant::emplace/get/visit", "integral_template_variant.hpp")])
prop("C28", "Tuple algorithms visit every element once, in order",
 "Tuple for-each, fold and type-folding algorithms apply the function exactly once per element, left to right, with the element itself, in its own type and with the constness of the tuple, and return the exact left-fold result by value for every tuple shape including the empty one, at compile time and at run time; exceptions of the function reach the caller. Overloaded matching invokes exactly the best-matching handler for the active alternative of a variant once and returns its result.",
 ["inputs", "configurations"], "all tuples up to a length over a small set of element types, value categories, and non-commutative functions; all active alternatives",
 "An order or element-count error only shows with non-commutative functions at each position.",
 ["tuple_algorithm.hpp", "overloaded.hpp"], (), [("tuple_for_each/tuple_fold/tuple_type_fold", "tuple_algorithm.hpp"), ("match/overloaded", "overloaded.hpp")])
prop("C29", "Type-list operations equal ordinary list operations",
 "For every list of types, each type-list operation (size, indexing, first/last, concatenation, take and drop of at most all elements, filter, transform, fold, contains/find/position, all/any/none/count, all-same, all-distinct, unique, flattening, generation and conversion to and from packs) yields exactly what the same operation yields on an ordinary list with the types as elements, in the same order. "
 "Operations that can fail report failure exactly when the ordinary operation has no result.",
 ["configurations", "programs"], "all type lists up to a length over a small alphabet of types, all parameters of each operation, all short compositions",
 "A template specialization error affects one list shape (empty, single, duplicates, last position).",
 ["type_list.hpp"], (), [("type_list operations", "type_list.hpp")])
prop("C30", "Compile-time selection and type traits give the defined type",
 "Lazy conditional and switch selection instantiate and yield exactly the branch chosen by the first true condition, or the default, and never instantiate a branch not chosen; the type traits about const/volatile/reference copying, forwarding like another type, strict callability, zero size and conditional moves yield the defined result for every combination of const, volatile and reference.",
 ["configurations"], "all condition vectors up to a length, with unchosen branches ill-formed if instantiated; all cv/ref combinations of source and target types",
 "Each trait is a table over cv/ref combinations; tests check few cells.",
 ["lazy_conditional.hpp", "type_traits.hpp"], (), [("lazy_conditional/lazy_switch", "lazy_conditional.hpp"), ("copy_const, is_instance_of, …", "type_traits.hpp")])
prop("C31", "Joining and streaming print every element exactly once",
 "Formatting a joined range prints all elements in order, with the separator exactly between neighbours, each element formatted with the given element specification, for ranges of every length and category including empty, nested and single-pass ones, and for every separator (characters, strings, views and ranges, narrow and wide); types made streamable through their formatter print exactly their formatted text whatever width or fill the stream has, write nothing to a failed stream, and leave the stream failed exactly if text was lost.",
 ["inputs"], "all ranges up to a length over a small element alphabet, separators, format specifications and range kinds",
 "Separator placement depends on length and range category.",
 ["fmt_join.hpp", "format_to_ostream.hpp"], (), [("fmt_join", "fmt_join.hpp"), ("operator<<", "format_to_ostream.hpp")])
prop("C32", "Function adaptors forward every argument unchanged",
 "Bound functions, member-function wrappers and the debug-print macro call or evaluate the target exactly once with the bound arguments first and the call arguments after, preserving value, order, constness, reference identity and value category, and return exactly what the target returns (same type and reference identity), whatever the constness or value category of the wrapper itself; exceptions pass through. The debug-print macro evaluates its expression once and yields that value or reference, valid to the end of the full expression.",
 ["configurations", "inputs"], "all bound/call argument counts up to a limit × value categories × wrapper categories × result kinds",
 "A lost reference or extra copy only shows for one combination of categories.",
 ["functional.hpp", "memfn.hpp", "dbg.hpp"], (), [("bind_front", "functional.hpp"), ("DICE_MEMFN", "memfn.hpp"), ("DICE_DBG", "dbg.hpp")])
prop("C33", "Sandboxed execution reports how the code ended and isolates it",
 "Running a function in a sandbox reports exactly how it ended (normal return, success or failure exit status from 0 to 255, each terminating signal, an uncaught exception) whatever signal handling the caller set up, passes its output through once and in order, and no change the function makes to memory is visible to the caller. "
 "The caller itself survives every ending, leaves no zombie process or open descriptor behind, and reports failures of the environment (process creation or waiting failing) as errors rather than as an ending, and waits on when interrupted.",
 ["inputs", "fault_sequences"], "all exit statuses 0–255, all terminating signals, exception kinds, output sizes around pipe capacity, and every single system-call failure or interruption",
 "Each ending and each failing system call is its own case; tests exercise three.",
 ["sandbox.hpp"], (), [("sandbox", "sandbox.hpp")])
prop("C34", "Standard containers work over nested allocators",
 "Standard containers over any nesting of the limiting, polymorphic, pooling and offset-pointer allocators behave as over the default allocator: after every history of insertions, removals, copies, moves, assignments, swaps, allocator-extended copies and failed allocations, each container holds the expected elements and the allocator its propagation rules imply, nested containers use their parent's allocator, every block returns to the allocator it came from with its element type and size, nothing leaks, and a failed allocation changes nothing it should not. "
 "A budget anywhere in the nesting grants a container's request exactly if it fits what is left, and is whole again when all containers are gone.",
 ["histories", "fault_sequences", "configurations"], "nestings of allocators × container types × operation histories up to a depth × every failing allocation or a tight budget",
 "The allocators' propagation, comparison, conversion and rebinding rules only matter when a container combines several of them across two different sources.",
 ["limit_allocator.hpp", "polymorphic_allocator.hpp", "pool_allocator.hpp"], (), [("limit_allocator", "limit_allocator.hpp"), ("polymorphic_allocator", "polymorphic_allocator.hpp"), ("offset_ptr_stl_allocator", "polymorphic_allocator.hpp"), ("pool_allocator", "pool_allocator.hpp")])
prop("C35", "Programs of threads over channels and locks finish with the right result",
 "In programs that connect threads by channels, exchange channels and locks (producers and collectors, pipelines of several stages and workers, request/reply, distribution of a newest value, results collected under a lock), every element accepted by the first stage passes every stage exactly once and in its producer's order, readers of a newest value see values in order and end with the last one, every request gets its own reply, and no update under a lock is lost. "
 "Every thread terminates and nothing leaks, including when a stage stops early or ends by an exception and its channel is closed by a deferred close.",
 ["interleavings", "programs", "fault_sequences"], "all schedules (up to a preemption bound for the largest programs) of small multi-threaded programs, with spurious wakeups, stale loads and an exception at every stage",
 "Termination and exactly-once delivery through several primitives depend on the schedule around full, empty and closing channels; tests see few schedules.",
 ["channel.hpp", "exchange_channel.hpp", "mutex.hpp", "shared_mutex.hpp", "defer.hpp"], (), [("channel", "channel.hpp"), ("exchange_channel", "exchange_channel.hpp"), ("mutex", "mutex.hpp"), ("shared_mutex", "shared_mutex.hpp"), ("DICE_DEFER", "defer.hpp")])
prop("C36", "Integer literals and utility macros mean what they name",
 "An integer literal with one of the suffixes (_u8 ... _i64, _usize, _isize, _uptr, _iptr) has exactly the type the suffix names, is usable in constant expressions and has the value written (larger values are reduced as by a conversion to that type). "
 "DICE_IDENT_CONCAT joins its macro-expanded arguments into one identifier, DICE_COMPILER_HAS_BUILTIN answers for the builtins of this compiler, DICE_FILENAME names the file that uses it; ignore_leak (and its deprecated macro) passes its argument, evaluated once, to the leak checker if one is linked and otherwise does nothing.",
 ["inputs", "programs"], "all values of 16 bits and all values around every power of two and bit pattern through every suffix; all sequences of leak-ignoring calls with and without a leak checker; every kind of argument of the macros",
 "Tests sample one literal per suffix and never a value near a limit, nor which pointer reaches the leak checker.",
 ["stdint.hpp", "macro_util.hpp"], (), [("operator\"\"_u8", "stdint.hpp"), ("operator\"\"_isize", "stdint.hpp"), ("DICE_IDENT_CONCAT", "macro_util.hpp"), ("ignore_leak", "macro_util.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
