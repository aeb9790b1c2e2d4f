"""What decides each property: harnesses, headers, bounds and texts for the evidence."""
import os
from conc import scripts as S
MC_CONC = "stateless model checking of the real code under a controlled scheduler (all interleavings, happens-before state pruning, linearizability oracle)"
CONC_NOTE = ("Every interleaving of the listed client programs is executed on the compiled headers; assumes the runtime's model of pthread mutex/condvar/rwlock and C++ atomics "
             "(stale loads bounded per program) and the stated program sizes.")
CONC_ASSUME = ["sequentially consistent interleavings plus a bounded number of stale atomic loads; weaker reorderings are covered only through data-race detection by vector clocks",
               "pthread mutexes, condition variables and rwlocks behave as POSIX says (they are modelled by the scheduler)", "clients of at most 5 threads and the listed operations"]
CHECKS, NOT_APPLICABLE = {}, []

def conc(prop, harnesses, headers, bounds_q, bounds_t, tq=60, tt=600, note=CONC_NOTE, assume=CONC_ASSUME, technique=MC_CONC):
    CHECKS[prop] = {"harnesses": harnesses, "headers": headers, "bounds": {"quick": bounds_q, "thorough": bounds_t}, "technique": technique, "note": note, "assumptions": assume, "time": {"quick": tq, "thorough": tt}}

def chan_iter(name, exchange, assign): return {"name": name, "kind": "A", "src": "conc/chan.cpp", "defs": ["-DEXCHANGE=%d" % exchange, "-DTHROWING=%d" % assign], "scripts": S.chan_iter if not exchange else S.xch_iter}
def chan(name, scripts, exchange=0, throwing=0):
    return {"name": name, "kind": "A", "src": "conc/chan.cpp", "defs": ["-DEXCHANGE=%d" % exchange, "-DTHROWING=%d" % throwing], "scripts": scripts}

conc("C01", [chan("chan", S.chan_c01), chan("chan_throw", S.chan_throw, throwing=1)] + [chan_iter("chan_iter%d" % k, 0, k) for k in (0, 1, 2, 3)], ["channel.hpp"],
     "all 2-thread programs of <=2 operations each over {push,try_push,pop,try_pop,close} at capacity 1 (0 or 1 preloaded) and 2, plus selected programs of 3-4 threads, capacities 0..3, throwing elements with <=1 throw, iteration with copied/moved/assigned iterators over elements that throw in no, all, only assignment or only construction operations",
     "additionally all 3-thread programs of <=2 operations each (total <=5), 2-thread programs of <=3 operations, 4-thread programs, <=2 throws")
conc("C02", [chan("chan", S.chan_c02), chan("chan_throw", S.chan_throw, throwing=1)], ["channel.hpp"],
     "all programs of 3 and 4 single-operation threads and of 2 threads with <=2 operations over {push,pop,close} (4 threads also try_*), capacity 1 with 0/1 preloaded, 3-4 threads with up to 4 operations in total over {push,try_push,pop,try_pop} at capacity 2 with 0/2 preloaded, <=1 spurious wakeup or <=1 throw",
     "additionally all 3-thread programs with <=2 operations each and a spurious wakeup, 5 single-operation threads, <=2 throws")
conc("C04", [chan("xch", S.xch_c04, 1), chan("xch_throw", S.xch_throw, 1, 1)] + [chan_iter("xch_iter%d" % k, 1, k) for k in (0, 1, 2, 3)], ["exchange_channel.hpp"],
     "all 2-thread programs of <=2 operations over {push,pop,try_pop,close} (empty or preloaded), all 3-thread programs of <=2 operations each (total <=4), all programs of 4 single-operation threads (preloaded), <=1 throw, iteration with copied/moved/assigned iterators over throwing elements",
     "additionally all 3-thread programs of <=2 operations each (total <=5), 2-thread programs of <=3 operations, 4 threads, <=2 throws")
conc("C05", [chan("xch", S.xch_c05, 1), chan("xch_throw", S.xch_throw, 1, 1)], ["exchange_channel.hpp"],
     "all programs of 3 and 4 single-operation threads and 2 threads of <=3 operations (total <=5) and 3 threads of <=2 (total <=4) over {push,pop,close}, <=1 spurious wakeup or throw",
     "additionally all 3-thread programs of <=2 operations each with a spurious wakeup, 5 single-operation threads, <=2 throws")
def mtx(name, scripts, shared, lockt): return {"name": name, "kind": "A", "src": "conc/mtx.cpp", "defs": ["-DSHARED=%d" % shared, "-DLOCKT=%d" % lockt], "scripts": scripts}
conc("C06", [mtx("mtx", S.mtx_c06, 0, 0), mtx("mtx_user", S.mtx_user, 0, 1), mtx("mtx_timed", S.mtx_user, 0, 2), mtx("mtx_rec", S.mtx_rec, 0, 3)] + [mtx("mtx_hold%d" % k, S.mtx_hold, 0, k) for k in range(3)], ["mutex.hpp"],
     "every guard life cycle (lock, try-lock, move, move-assign, swap, access, release over 2 guards) of <=4 operations against 4 opposing threads; two mutexes with move-assign/swap up to 5 operations; all 3-thread programs of <=3 operations each (total <=6); one thread keeping its guards until all others, which try-lock, are done; std::mutex, a user-defined lock, std::timed_mutex, a recursive lock with two guards in one thread",
     "life cycles of <=6 operations, two-mutex life cycles of <=6 operations, all 3-thread programs of <=3 operations each")
conc("C07", [mtx("shm", S.shm_c07, 1, 0), mtx("shm_user", S.shm_user, 1, 1), mtx("shm_timed", S.shm_user, 1, 2), mtx("shm_rec", S.shm_rec, 1, 3)] + [mtx("shm_hold%d" % k, S.shm_hold, 1, k) for k in range(3)], ["shared_mutex.hpp"],
     "every guard life cycle (exclusive and shared lock, try-lock, move, move-assign, swap, access, release) of <=3 operations against 4 opposing threads; two mutexes up to 4 operations; all 3-thread programs of <=2 operations each; one thread keeping its guards until all others, which try-lock, are done; std::shared_mutex, a user-defined lock, std::shared_timed_mutex, a recursive lock with two guards in one thread",
     "additionally all 3-thread programs of <=3 operations each (total <=6), life cycles of 4 operations, two-mutex life cycles of 5 operations")
def mtx_c03(tier): return S.mtx_user(tier) + [S.Q(t) for t in ("lock00 inc0 | lock00 inc0 | lock00 inc0", "try00 inc0 rel0 | lock00 inc0 | try00 inc0")]
conc("C03", [chan("chan", S.chan_c03), chan("xch", S.xch_c03, 1), mtx("mtx", mtx_c03, 0, 0), mtx("shm", S.shm_user, 1, 0)],
     ["channel.hpp", "exchange_channel.hpp", "mutex.hpp", "shared_mutex.hpp"],
     "all 2-thread programs of <=2 operations (total <=3) over {push,pop,try_push,try_pop,close,closed+read} and selected programs of 2-3 threads, publishing plain data through send/receive, close/closed and lock/unlock, <=1 stale atomic load; race detection by vector clocks on every byte accessed in every interleaving",
     "all 2-thread programs of <=2 operations over {push,pop,try_push,try_pop,close,closed+read} with <=2 stale loads, 3-thread programs up to 5 operations")
conc("C09", [{"name": "limit", "kind": "A", "src": "conc/limit.cpp", "scripts": S.lim}], ["limit_allocator.hpp"],
     "all 2-thread programs of <=3 operations and 3-thread programs of <=2 operations over {allocate 1/2, deallocate, allocate through a rebound copy} with a budget of 2-3 units; <=1 spurious CAS failure, stale load or failing upstream allocation",
     "all 3-thread programs of <=3 operations, 4-thread programs of <=2, combinations of spurious CAS failure, stale load and <=2 upstream failures")

# ---------------------------------------------------------------- sequences of operations (engine B)
MC_SEQ = "bounded explicit enumeration of all operation sequences with all fault points on the real code, compared with a reference model after every step"
SEQ_NOTE = "Every sequence of the listed operations and arguments up to the stated depth runs on the compiled headers under AddressSanitizer/UBSan and is compared step by step with a reference model; nothing is claimed beyond the depth and the listed arguments."
SEQ_ASSUME = ["small-scope hypothesis: defects show up within the stated depth, sizes and types", "undefined behaviour is recognised as far as AddressSanitizer and UBSan recognise it"]
def seq(prop, harnesses, headers, bounds_q, bounds_t, tq=100, tt=2400, note=SEQ_NOTE, assume=SEQ_ASSUME, technique=MC_SEQ):
    hs = [h if isinstance(h, dict) else {"name": os.path.basename(h).split(".")[0], "kind": "B", "src": "seq/" + h} for h in harnesses]
    CHECKS[prop] = {"harnesses": hs, "headers": headers, "bounds": {"quick": bounds_q, "thorough": bounds_t}, "technique": technique, "note": note, "assumptions": assume, "time": {"quick": tq, "thorough": tt}}
seq("C08", [{"name": "limit", "kind": "U", "src": "seq/limit.cpp"}], ["limit_allocator.hpp"],
    "all sequences of 3 operations (14 operation kinds, all arguments; about 60 choices per step) over 3 allocators and 2 budgets, sync and unsync, <=1 failing upstream allocation at any point, followed by a probe of both limits",
    "all sequences of 4 operations")
seq("C10", [{"name": "pool", "kind": "U", "src": "seq/pool.cpp"}], ["pool_allocator.hpp"],
    "pools <8,24,64>, <24>, <8,16>, <1,100>: all sequences of 4 operations (allocate each of 4-10 sizes, bulk fill past the first arena, free any live block, allocate/free cycles), <=2 failing allocations; allocators: all sequences of 3 operations of 11 kinds over 3 allocators on 2 pools",
    "5 pool operations, 4 allocator operations")
seq("C11", [{"name": "poly", "kind": "U", "src": "seq/poly.cpp"}], ["polymorphic_allocator.hpp"],
    "1, 2 and 3 wrapped allocator templates and the offset-pointer adaptor, 4 propagation policies: all sequences of 3 allocator operations of 10 kinds over 3 allocators (<=1 failing allocation) and all sequences of 3 container operations of 7 kinds over 3 vectors/lists",
    "all sequences of 4 operations")
seq("C12", [{"name": "sstr", "kind": "U", "src": "seq/static_string.cpp"}], ["static_string.hpp"],
    "5 character types, 8 allocator policies (propagation on copy/move, always-equal, offset pointers): all sequences of 3 operations (2 for part of the combinations) of 8 kinds over 3 strings, 5 texts (empty, embedded NUL, prefixes, 21 characters) and 2 allocators, <=1 failing allocation",
    "all sequences of 4 operations (3 for part of the combinations), <=2 failing allocations")
STUBS = "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
seq("C13", [{"name": "flex", "kind": "U", "src": "seq/flex.cpp", "flags": [STUBS, "-D_GLIBCXX_ASSERTIONS"]}, {"name": "flex_asan", "kind": "B", "src": "seq/flex.cpp", "flags": [STUBS, "-DDEPTH=2-THOROUGH"]}], ["flex_array.hpp"],
    "fixed sizes 0-3, bounds 0-3, unbounded and small-buffer (with a stand-in for the absent ankerl::svector), int and memory-owning elements: all sequences of 3 operations (2 for five of the shapes) of 9 kinds over 3 arrays, lists of 0-5 elements through 6 construction forms; comparisons of all pairs of sequences of <=3 elements (int; double with NaN)",
    "all sequences of 4 operations (3 for five of the shapes), comparisons of <=4 elements")
seq("C14", [{"name": "var2", "kind": "U", "src": "seq/variant2.cpp"}, {"name": "var2_asan", "kind": "B", "src": "seq/variant2.cpp", "flags": ["-DDEPTH=2-THOROUGH"]}, {"name": "var2_valueless", "kind": "U", "src": "seq/variant2.cpp", "flags": ["-DFAULTS=1", "-DMASK=31"]}], ["variant2.hpp"],
    "15 pairs of alternatives (trivial, tracked, trivially assignable with tracked destruction, move-only, throwing move, initializer-list constructible, aggregates): all sequences of 3 operations (2 for most of the pairs) of 9 kinds (16 forms of construction, emplacement and converting assignment) over 3 variants, in lock step with std::variant",
    "one operation more")
seq("C15", [{"name": "var2f", "kind": "U", "src": "seq/variant2.cpp", "flags": ["-DFAULTS=1"]}] + [{"name": "var2f_m%d" % k, "kind": "U", "src": "seq/variant2.cpp", "flags": ["-DFAULTS=1", "-DMASK=%d" % k]} for k in range(32)], ["variant2.hpp"],
    "all 32 combinations of throwing copy/move/value construction and copy/move assignment: sequences of 2 operations; 7 pairs of alternatives with throwing copies and/or moves: all sequences of 3 operations (2 for five of the pairs) of 7 kinds over 3 variants, every throwing point, <=1 exception",
    "one operation more, <=2 exceptions")
seq("C16", [{"name": "inpl", "kind": "U", "src": "seq/inplace.cpp", "flags": ["-DDEPTH=0"]}, {"name": "inpl_asan", "kind": "B", "src": "seq/inplace.cpp", "flags": ["-DDEPTH=-1"]}], ["inplace_polymorphic.hpp"],
    "8 base classes (copyable, movable, both, neither, non-throwing, trivially destructible) with 3 derived classes of different size and alignment: all sequences of 3 operations of 7 kinds over 3 objects, every construction/copy/move that may fail failing, <=2 exceptions",
    "all sequences of 4 operations, <=3 exceptions")
seq("C17", [{"name": "next", "kind": "U", "src": "seq/next_to.cpp", "flags": ["-DDEPTH=0"]}, {"name": "next_asan", "kind": "B", "src": "seq/next_to.cpp", "flags": ["-DDEPTH=-2"]}], ["next_to_range.hpp"],
    "11 kinds of underlying iterator (copyable or not, with and without nth, next_back, nth_back, remaining; int and owning elements): sequences of 0-5 elements, all sequences of 5 traversal operations of 9 kinds in both directions followed by full consumption; all ranges and views of 0-8 elements",
    "sequences of 0-6 elements, 6 operations")
seq("C18", [{"name": "numrange", "kind": "U", "src": "seq/numrange.cpp", "flags": ["-O2"]}], ["ranges.hpp", "next_to_range.hpp"],
    "all 65536 (start, stop) pairs of 8-bit types (5 combinations of value and step type, signed and unsigned) with every step (-300..300 for int steps); all triples of about 20 boundary values of 16/32/64-bit types; all orders of 3 consumptions of 9 kinds from both ends over boundary triples; forward traversal of non-integer value types; pipelines",
    "orders of 4 consumptions")
seq("C19", [{"name": "ranges%d" % k, "kind": "U", "src": "seq/ranges.cpp", "flags": ["-DDEPTH=0", "-DPART=%d" % k]} for k in range(6)] + [{"name": "ranges%d_asan" % k, "kind": "B", "src": "seq/ranges.cpp", "flags": ["-DDEPTH=-1", "-DPART=%d" % k]} for k in (1, 4)], ["ranges.hpp"],
    "all sequences of <=5 elements over 3 values (6 element types: ordered, hashable only, comparable only, nested ranges) in 20 kinds of range (random access to single-pass, move-only iterators, proxies, rvalues, next_to_view); all pairs of sequences of <=4 elements for the three-way comparison (int, string, double with NaN)",
    "sequences of <=6 elements, pairs of <=5 elements")
seq("C20", [{"name": "opt", "kind": "U", "src": "seq/opt.cpp"}, {"name": "opt_asan", "kind": "B", "src": "seq/opt.cpp"}], ["opt_minmax.hpp", "ranges.hpp"],
    "all lists of <=5 entries over {absent, 3 keys} with distinguishable ties: 12 call forms in 7 kinds of range, initializer lists, two-argument and nullopt forms, 4 comparisons; default comparison for int, unsigned, string, double, bool",
    "lists of <=6 entries")
seq("C21", [{"name": "ipow", "kind": "U", "src": "seq/ipow.cpp"}], ["ipow.hpp"],
    "all (base, exponent) pairs of 8-bit types in 5 combinations, all 16-bit bases with 22 exponents, about 300 boundary bases per wider type (including the integer roots of the limits) with exponents -5..140 and boundary exponents, against 128-bit arithmetic", "same")
seq("C22", [{"name": "ptrtag", "kind": "U", "src": "seq/ptrtag.cpp"}], ["pointer_tag_pair.hpp"],
    "13 combinations of pointee (const, volatile, void, incomplete, over-aligned), tag type (unsigned, enums) and 0-12 bits: all sequences of 3 operations (2 for the larger ones) of 6 kinds over 3 pairs, 4 pointers and up to 20 tags; 12 pointer conversions (multiple, virtual and over-aligned bases, void, cv) with all tags",
    "one operation more")
seq("C23", [{"name": "defer", "kind": "U", "src": "seq/defer.cpp"}], ["defer.hpp"],
    "all programs of <=5 statements of 20 kinds (guards of every policy in up to 3 forms, guards kept in longer-lived slots and dropped or replaced there, throwing guards, guards and destructors that run further scopes, throw, rethrow, handlers, loops with break and continue, calls with early return), against an interpreter", "programs of <=6 statements")
seq("C24", [{"name": "dispatch%d" % k, "kind": "U", "src": "seq/dispatch.cpp", "flags": ["-DPART=%d" % k, "-fno-var-tracking", "-O0"]} for k in range(10)], ["switch_cases.hpp", "for.hpp"],
    "all pairs of 7-10 bounds (around zero and at the limits) of 13 integral types x all values of 8-bit types and boundary values of wider ones x 4 call forms x 7 result kinds; all for_range bounds; all lists of <=3 constants (6 values of different types) and of <=3 types (6 types); functions whose 4 call operators are noexcept or throw in all 16 combinations x 4 value categories x 8 forms", "lists of <=4 constants and types")
seq("C26", [{"name": "tuples%d" % k, "kind": "U", "src": "seq/tuples.cpp", "flags": ["-DPART=%d" % k]} for k in range(12)] + [{"name": "tuples4_%d" % k, "kind": "U", "src": "seq/tuples.cpp", "flags": ["-DPART=%d" % (20 + k)], "tiers": ("thorough",)} for k in range(8)], ["standard_layout_tuple.hpp", "integral_template_tuple.hpp", "tuple_algorithm.hpp"],
    "standard_layout_tuple: all 585 lists of <=3 member types over 8 (four integer sizes, empty, 3-byte, lifetime-tracked, move-only); integral_template_tuple: all intervals of <=6 members over 4-8 bounds in both directions, 4 member templates, int, size_t, int8 and uint8 indices at their limits; per shape every single-member write of 3 values, every pair of differing members in comparisons, every layout-compatible window; uniform construction from 0-2 arguments in every value category; members that are references or cv-qualified",
    "additionally all 256 lists of 4 member types over {char, int32, int64, empty}")
seq("C25", [{"name": "intseq%d" % k, "kind": "U", "src": "seq/intseq.cpp", "flags": ["-DPART=%d" % k]} for k in range(5)], ["integral_sequence.hpp", "for.hpp"],
    "all pairs of bounds in -8..8 (int) and 0..13 (size_t), all pairs of 10-16 bounds at and around the limits of 8, 16, 32 and 64-bit signed and unsigned types, bool and character types (spans up to 260), through all four generators", "same")
seq("C27", [{"name": "itvariant%d" % k, "kind": "U", "src": "seq/itvariant.cpp", "flags": ["-DPART=%d" % k]} for k in range(4)] + [{"name": "itvariant%d_asan" % k, "kind": "B", "src": "seq/itvariant.cpp", "flags": ["-DDEPTH=-1-THOROUGH", "-DPART=%d" % k]} for k in (1, 3)], ["integral_template_variant.hpp"],
    "12 combinations of index interval (ascending, descending, negative, one element, at the limits of int8 and uint8, size_t) and alternatives (plain, lifetime-tracked, throwing copies, throwing moves, move-only): all sequences of 3-4 operations of 10 kinds over 3 variants with every throwing point (<=1-2 exceptions); arguments and visitors in every value category", "one operation more, <=2 exceptions")
seq("C28", [{"name": "tuplealg%d" % k, "kind": "B", "src": "seq/tuplealg.cpp", "flags": ["-DPART=%d" % k]} for k in range(6)] + [{"name": "tuplealg4_%d" % k, "kind": "B", "src": "seq/tuplealg.cpp", "flags": ["-DPART=%d" % (10 + k)], "tiers": ("thorough",)} for k in range(16)], ["tuple_algorithm.hpp", "overloaded.hpp"],
    "all 156 std::tuple shapes of <=3 elements over {int, lifetime-tracked, move-only, int&, const tracked} and 8 other tuple-like types x const/non-const/temporary tuples x 3 ways to pass the function x every throwing call and accumulator assignment; match: 12 handler sets x 3 alternatives x value categories x throwing", "additionally all 625 shapes of 4 elements")
seq("C29", [{"name": "typelist%d" % k, "kind": "U", "src": "seq/typelist.cpp", "flags": ["-DPART=%d" % k, "-O0", "-fno-var-tracking"]} for k in range(6)] + [{"name": "typelist%d_portable" % k, "kind": "U", "src": "seq/typelist.cpp", "flags": ["-DPART=%d" % k, "-O0", "-DNO_BUILTIN"]} for k in (0, 10)] + [{"name": "typelist%d_related" % k, "kind": "U", "src": "seq/typelist.cpp", "flags": ["-DPART=%d" % k, "-O0", "-DRELATED"]} for k in (0, 1, 2)] + [{"name": "typelist%d" % k, "kind": "U", "src": "seq/typelist.cpp", "flags": ["-DPART=%d" % k, "-O0", "-fno-var-tracking"]} for k in range(10, 14)] + [{"name": "typelist%d" % k, "kind": "U", "src": "seq/typelist.cpp", "flags": ["-DPART=%d" % k, "-O0", "-fno-var-tracking"], "tiers": ("thorough",)} for k in range(20, 28)], ["type_list.hpp"],
    "all 341 lists of <=4 types over {int, void, incomplete const, a nested list}, lists of <=3 over {int, int const, int &, int const &}, and lists of 5-8 and 12 types with every position and duplicate, x every operation and index; all 85 lists of <=3 x 16 predicates; all pairs of lists of <=2; all compositions of 2 of 8 list operations on lists of <=3; both implementations of indexing", "all predicates on lists of 4, compositions of 3 operations")
seq("C30", [{"name": "traits%d" % k, "kind": "U", "src": "seq/traits.cpp", "flags": ["-DPART=%d" % k, "-O0", "-fno-var-tracking"]} for k in range(8)], ["lazy_conditional.hpp", "type_traits.hpp"],
    "all condition vectors of <=5 cases x 4 result forms x 3 kinds of ill-formed unchosen providers; all 144 cv/ref combinations of source and target for 6 pairs of base types; forward_like for all 24; strict callability for 6 results x 9 parameters x 13 callables x 9 arguments x 6 expected results, member pointers and overload sets; 25 classes of types for zero size; 7 kinds of expressions for the conditional move", "condition vectors of <=7 cases")
seq("C31", [{"name": "fmtjoin%d" % k, "kind": "B", "src": "seq/fmtjoin.cpp", "flags": ["-DPART=%d" % k]} for k in range(3)], ["fmt_join.hpp", "format_to_ostream.hpp"],
    "all ranges of <=3 elements over 3 values x 17 kinds of ranges (contiguous to single-pass, owning, only iterable when non-const, nested) x 11 kinds of separators x 4 texts x 4 specifications x 5 targets, narrow and wide, every throwing element; all texts of <=3 characters over 7 x stream flags x every capacity of the buffer, stream states, throwing points, narrow, wide and custom traits", "ranges of <=4, texts of <=4")
seq("C32", [{"name": "adaptors%d" % k, "kind": "U", "src": "seq/adaptors.cpp", "flags": ["-DPART=%d" % k, "-O0", "-fno-var-tracking"]} for k in range(8)], ["functional.hpp", "memfn.hpp", "dbg.hpp"],
    "bind_front: 7 result kinds x 4 wrapper categories x all lists of <=2 bound and <=2 call arguments in 4 value categories, with and without an exception, called repeatedly and through copies; DICE_MEMFN: 7 results x <=2 bound x all <=2 call arguments; DICE_DBG: 11 kinds of expressions x 4 values", "same")
seq("C33", [{"name": "sandbox%d" % k, "kind": "N", "src": "seq/sandbox.cpp", "flags": ["-DPART=%d" % k]} for k in range(4)] + [{"name": "sandbox_nosync", "kind": "N", "src": "seq/sandbox.cpp", "flags": ["-DPART=3", "-DNOSYNC"]}], ["sandbox.hpp"],
    "exit statuses -1..255 in 3 ways; 32 signals x 5 ways the caller handles them x 2 ways to send; 14 other endings (exceptions, crashes, stack overflow), alone and nested; 4 endings x every failing fork x 0-3 interrupted waits x every failing wait; really interrupted waits, other children, ignored SIGCHLD; 8 kinds of changes x 4 endings; 10 output sizes x 4-5 streams x 4 endings x pending output, with and without sync_with_stdio; all sequences of 2 sandboxes of 8 endings (one a failing fork), each with one of 7 endings nested inside", "sequences of 3 sandboxes")
seq("C34", [{"name": "stacks%d" % k, "kind": "U", "src": "seq/stacks.cpp", "flags": ["-DPART=%d" % k]} for k in range(14)], ["limit_allocator.hpp", "polymorphic_allocator.hpp", "pool_allocator.hpp"],
    "17 nestings of the four allocators (up to three deep, propagating on copy, move and swap, on one of them, or never) under vector, vector of vectors, list, forward_list, deque, map, unordered_map and string: all sequences of 3 (vector) or 2 operations of 10 kinds over three containers of two sources, with every single failing allocation or with a budget that only just suffices", "one operation more")
seq("C36", [{"name": "literals%d" % k, "kind": "U", "src": "seq/literals.cpp", "flags": ["-DPART=%d" % k]} for k in range(2)], ["stdint.hpp", "macro_util.hpp"],
    "all 12 suffixes x all values below 2^16, all values within 300 of a power of two and all combinations of two set or cleared bits; literals written in every base, at the limits, as template arguments; identifier concatenation of names, macros, macros of macros, __LINE__, __COUNTER__ and numbers; all sequences of <=4 calls of the 2 leak-ignoring forms with 5 pointers, with and without a leak checker in the program", "all values below 2^24, sequences of <=5 calls")
conc("C35", [{"name": "pipe", "kind": "A", "src": "conc/pipe.cpp", "scripts": S.pipes}], ["channel.hpp", "exchange_channel.hpp", "mutex.hpp", "shared_mutex.hpp", "defer.hpp"],
     "all schedules (of the largest programs: those with <=2 preemptions) of about 80 programs of 2-4 threads: producers with collectors (popping, iterating, stopping early), two-stage pipelines (one or two workers, a stage that throws), request/reply servers, newest-value distribution, results under a mutex and totals under a shared mutex read meanwhile; 1-4 elements, capacities 1 and 2, <=1 spurious wakeup, stale load or exception",
     "additionally capacity 3, 5 threads, 2 exceptions, more workers per stage")
