#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so ids stay in step)."""
import json, os
D = "include/boost/poly_collection/"
PC, SEG, SPL, PCK = D+"detail/poly_collection.hpp", D+"detail/segment.hpp", D+"detail/split_segment.hpp", D+"detail/packed_segment.hpp"
MAP, VH, AA, ALG = D+"detail/type_info_map.hpp", D+"detail/value_holder.hpp", D+"detail/allocator_adaptor.hpp", D+"algorithm.hpp"
IT, TR, FN = D+"detail/iterator_impl.hpp", D+"detail/type_restitution.hpp", D+"detail/functional.hpp"
SS, BM, FM, AM = D+"detail/segment_split.hpp", D+"detail/base_model.hpp", D+"detail/function_model.hpp", D+"detail/any_model.hpp"
CW, SI, CWI, AI = D+"detail/callable_wrapper.hpp", D+"detail/stride_iterator.hpp", D+"detail/callable_wrapper_iterator.hpp", D+"detail/any_iterator.hpp"
EX = D+"exception.hpp"

def m(*a): return [{"name": n, "where": w} for n, w in a]

P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": mech}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": g, "where": w} for n, g, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

add("C01", "Modifiers refine per-type sequences over every history",
    "A collection behaves as a map from concrete type to a sequence of elements: every emplace, insert (single, range, hinted, positioned, through the interface, or of a copy of one of its own elements), erase and clear changes exactly the documented positions of exactly the documented segments, and returns an iterator to the documented position. This holds after any earlier history, including operations that failed part-way, collections that were copied, moved, assigned or swapped, and any placement of memory blocks.",
    ["histories", "inputs", "fault_sequences", "configurations"],
    "All sequences of public operations over several collections of any kind (base, function, any), all element-type mixes, argument sources (external, another collection, own elements), hint/position kinds, reallocation points and earlier injected failures.",
    "Tests run a few fixed operation sequences on fresh collections without failures; they do not interleave operations over several collections, insert an own element at a reallocation, or continue after a failure.",
    [PC, SEG, SPL, PCK, IT],
    m(("emplace/insert/erase/clear families", PC), ("vector-backed segments", PCK+", "+SPL), ("hint/position routing", PC)),
    [("segment map", "type to segment", MAP), ("store/index", "elements and their interface views", SPL)],
    ["return values", "full traversal of every view after each operation"])
add("C02", "All views of a collection agree at every moment",
    "Global traversal (const and non-const), segment traversal, per-type traversal through base and typed local iterators, segment descriptors, sizes and emptiness all describe the same elements in the same order, with each segment contiguous and visited once. This holds after every operation, including operations that ended in an exception at any point, and the order of segments only changes when a segment is created.",
    ["histories", "fault_sequences", "configurations"],
    "All operation histories with a failing allocation, construction, copy, move, assignment or input iterator at any point of any operation.",
    "Tests compare views on healthy collections; the views rest on cached end positions and a separate index which only get out of step after a failure or unusual sequence.",
    [PC, SEG, SPL, PCK, IT],
    m(("cached segment sentinel", SEG), ("index kept parallel to the store", SPL), ("segment skipping global iterator", IT)),
    [("snt", "cached end of segment used by global iterators", SEG), ("i", "index of interface views", SPL)],
    ["begin()/end()", "segment_traversal()", "begin<T>()/begin(info)", "size/empty"])
add("C03", "Failed single insertion or capacity change has no effect",
    "If inserting or emplacing one element at the end of a segment, or anywhere for types whose moves cannot throw, or reserving, shrinking or registering, ends in an exception of any origin (allocator, constructor, copy), then every collection holds exactly the elements it held before, in the same order, and stays fully usable; at most the element's type has become registered with an empty segment. Iterators and references stay valid when no capacity growth was involved; after a failed insertion or emplacement at the end without a position, also when growth was, and the capacity is what it was.",
    ["fault_sequences", "histories", "inputs"],
    "Every position of a failing allocation, construction or element copy inside every single-element insertion/emplacement form, reserve, shrink_to_fit and register_types, from every reachable state.",
    "Only one throwing type is used in one test, always from the same state; no test makes allocations fail.",
    [PC, SEG, SPL, PCK, MAP],
    m(("reserve-before-construct in split segments", SPL), ("vector strong guarantee", PCK), ("segment creation before insertion", PC+" get_map_iterator_for")),
    observe=["element sequences before/after", "held iterators"])
add("C04", "Any failure leaves every collection valid and confined",
    "Whatever operation fails, at whatever point and for whatever reason, every collection remains valid: it can be traversed, queried, modified, assigned, swapped and destroyed, holds only live elements drawn from the operation's inputs, and behaves normally once faults stop. Segments and collections that the failed operation does not target keep their elements, order and addresses; a failed insertion of interface references or of another collection's range at the end of its segments leaves the old elements followed by a prefix of the new ones.",
    ["fault_sequences", "histories", "configurations"],
    "Every fault kind (one-shot or persistent) at every point in every operation, including types with throwing moves and assignments, range insertion with failing iterators, erasure, copy, move and assignment between unequal allocators, followed by further operations.",
    "No test injects failures into moves, assignments, iterators or allocations, nor uses a collection again after one.",
    [PC, SEG, SPL, PCK, MAP, VH],
    m(("catch-and-repair in range insertion and shrink", SPL), ("clear-on-failure assignment", MAP)),
    observe=["all views", "element liveness", "recovery workload"])
add("C05", "Elements and memory are conserved",
    "Over any history every element constructed is destroyed exactly once, no element is constructed over a live one or used after destruction, and every memory block obtained is returned exactly once, with its original size, to an equal allocator; destroying all collections leaves nothing behind. This includes histories in which any operation failed part-way.",
    ["histories", "fault_sequences", "configurations"],
    "All histories and all fault points, for all allocator propagation settings and heap reuse policies.",
    "Tests neither count element lifetimes nor blocks, and never fail an operation half-way.",
    [SPL, PCK, SEG, MAP, VH, AA],
    m(("allocate/construct with rollback", PCK+" new_/delete_, "+SPL+" new_/delete_"), ("emulated assignment", VH)),
    observe=["element lifetime registry", "simulated heap block table"])
add("C06", "All memory and elements go through the right allocator",
    "A collection obtains memory only from its allocator (never from the global heap), constructs and destroys elements, and nothing but elements, through that allocator, and after copy construction, move, assignment and swap its allocator and the allocator of all its elements and blocks are those mandated by the allocator's propagation traits and copy-construction hook. This holds also when such an operation fails.",
    ["configurations", "histories", "fault_sequences"],
    "All eight combinations of propagation traits, equal and unequal stateful allocators, copy-construction hooks returning another allocator, all operation histories and fault points.",
    "Tests use two propagation settings, on fresh collections, without failures and without a copy-construction hook.",
    [AA, MAP, SEG, PC, SPL, PCK, VH],
    m(("allocator adaptor", AA), ("allocator-extended construction of segments", SEG), ("cache/map allocator handling", MAP)),
    observe=["simulated heap block table", "allocator construct/destroy calls", "get_allocator()"])
add("C07", "Copy, move, assignment and swap have value semantics",
    "Copying yields an independent equal collection and never changes the source; moving and swapping transfer contents without copying any element, keep element addresses whenever the allocators allow it, and leave both operands valid; self-assignment changes nothing. If copying fails the source is unchanged, and if moving or assigning fails both operands remain valid and usable.",
    ["histories", "fault_sequences", "configurations"],
    "All pairs of source/target states, all propagation settings and allocator (in)equality, all fault points, followed by further use of both operands.",
    "Tests copy and move a handful of fixed collections with no failure and do not use moved-from or failed operands afterwards in mixed histories.",
    [PC, MAP, SEG, SPL, PCK],
    m(("type map copy/move", MAP), ("segment copy/move", SEG), ("lookup cache rebuilt on copy and move", MAP)),
    observe=["element sequences and addresses of both operands", "element copy/move counters"])
add("C08", "Iterators and references survive as documented",
    "Outstanding global and local iterators and references stay valid and keep denoting the same element across insertions and erasures elsewhere: only those at or after the point of change in the affected segment are invalidated, or those of the whole segment if its capacity is exceeded; segment creation invalidates none, swap keeps them all, and the global end iterator is always valid. A valid global iterator still traverses the rest of the collection to end().",
    ["histories", "schedules", "fault_sequences"],
    "All interleavings of several clients that hold positions and modify the collections, including failing modifications.",
    "Tests re-obtain iterators after each modification; none holds positions across histories.",
    [PC, IT, SEG, SPL, PCK, MAP],
    m(("node-based segment map", MAP), ("in-place insertion within capacity", SPL+", "+PCK), ("iterator representation", IT)),
    observe=["held iterators dereferenced and compared after every operation"])
add("C09", "Capacity promises hold even when memory is exhausted",
    "After reserving n for a type its capacity is at least n, and insertions up to the capacity never reallocate and succeed even if no further memory can be obtained; erase, clear, swap and queries never need memory; elements never move except on growth, shrink or at the point of change. Requests beyond max_size, or growth past it, throw std::length_error and change nothing.",
    ["fault_sequences", "histories", "configurations"],
    "All reserve/insert/erase/shrink histories with memory exhausted at any moment, and allocators with arbitrarily small maximum sizes.",
    "Tests never exhaust memory or bound the allocator's max_size.",
    [SPL, PCK, SEG, PC, MAP],
    m(("store and index reserved together", SPL), ("vector capacity", PCK), ("lookup without allocation", MAP)),
    observe=["capacity()", "allocation attempts", "element addresses"])
add("C10", "Type registration and identity are exact",
    "A type is registered from the first operation that creates its segment until the collection is moved from, assigned or swapped, and each type has exactly one segment however it is named: two std::type_info objects describing the same type (as happens across dynamic modules) always reach the same segment, in any order of first use, also after copies, moves, failed operations and segment creation. Operations on unregistered types throw unregistered_type naming the type and change nothing.",
    ["histories", "configurations", "fault_sequences"],
    "All histories in which several modules with their own type_info instances use the same collections, with lookups and registrations in any order and failing at any point.",
    "Tests run in one module, where each type has a single type_info object, and without failures.",
    [MAP, PC, EX],
    m(("name-based map plus pointer cache", MAP), ("registration on first use", PC)),
    [("cache", "type_info address to segment", MAP)],
    ["is_registered", "size/begin by type and by type_info", "exception contents"])
add("C11", "Type-capability errors are raised exactly when documented",
    "not_copy_constructible is thrown exactly when an operation must copy an element of a non-copyable type and not_equality_comparable exactly when two same-sized non-empty segments of a non-comparable type are compared; they name the type, a comparison, construction or single insertion that throws them has no effect on its operands, and nothing else about an acceptable type makes an operation throw: growth, erasure, moves and swaps of non-copyable, non-assignable or non-comparable elements never do.",
    ["histories", "inputs", "fault_sequences"],
    "All histories mixing element types with and without copy, assignment and equality, at all reallocation points.",
    "Tests exercise each error once on a fresh collection.",
    [VH, SPL, PCK, PC, EX],
    m(("value holder capability dispatch", VH)),
    observe=["exception type and pinfo", "collections after the error"])
add("C12", "Equality compares segments, whatever the histories",
    "Two collections compare equal iff for every type with elements in either, both hold equal elements in the same order; empty or missing segments, registration, insertion order across types, capacity and allocators are irrelevant, and != is the negation. Comparison is symmetric, modifies nothing, and an exception thrown by an element comparison propagates leaving both operands unchanged.",
    ["histories", "inputs", "fault_sequences"],
    "All pairs of collections reachable by different histories, with element comparisons failing at any point.",
    "Tests compare a few fixed pairs and never let an element comparison throw.",
    [PC, SEG, SPL, PCK, VH],
    m(("operator==", PC), ("segment equality", SEG)),
    observe=["results of == and != in both directions"])
add("C13", "Algorithms equal their std counterparts",
    "Every algorithm, on any range of global iterators, with or without type arguments, returns the result and performs the writes that the std algorithm of the same name would on the flat sequence of elements, applying the user's function to the same elements within the std complexity bound. This is independent of how memory blocks are placed and of which segments are empty, and an exception from a user function, iterator or generator propagates leaving the collection unchanged.",
    ["inputs", "histories", "configurations", "fault_sequences"],
    "All ranges, segment layouts including empty segments, memory placements, type lists and failing call points, for all listed algorithms and three collection kinds.",
    "Tests run each algorithm over one fixed collection per kind and full or few ranges, with ordinary heap placement and callables that never throw.",
    [ALG, SS, FN, TR],
    m(("segmented iteration", SS), ("per-algorithm segmented implementations", ALG)),
    observe=["return values", "output sequences", "sequence of callable invocations"])
add("C14", "Type restitution hands over the concrete object",
    "When an algorithm is given type arguments, each element whose type is listed reaches the user's callable (in each argument position) or output iterator as a reference to its concrete type denoting the stored object itself, and every other element as an interface reference denoting it. This holds for every range, at segment boundaries, for const and non-const iterators, and whichever order segments are in.",
    ["inputs", "histories", "configurations"],
    "All ranges, type lists and segment layouts, for every algorithm that takes a callable, with all-segment-boundary positions and failing calls.",
    "Tests check results only, not how each element arrives at the callable.",
    [TR, ALG, FN],
    m(("restitute_range/restitute_iterator", TR), ("boundary handling in adjacent algorithms", ALG)),
    observe=["static type and address seen by the callable at each call"])
add("C15", "Concurrent const access to a collection is race-free",
    "Any number of threads may run const operations (lookup, traversal by every view, size, equality, copying from, algorithms on const iterators) on the same collection at the same time: no two of them conflict on any memory, and each returns what it returns when run alone.",
    ["schedules", "histories"],
    "All interleavings of memory accesses of 2-3 reader threads performing arbitrary const operations, on collections with any history.",
    "Tests are single-threaded.",
    [MAP, PC, SEG, IT, SPL, PCK, CW],
    m(("const lookup does not touch the lookup cache", MAP), ("static dispatch tables", CW)),
    observe=["memory accesses of simulated threads", "results"], hook=None)
add("C16", "Threads on different collections or elements do not interfere",
    "Threads that modify different collections (even if one was copied from, moved from or swapped with the other before), or that modify different elements of one collection while others only read other elements, never conflict on any memory not owned by their own collection or element, and each obtains the result of running alone.",
    ["schedules", "histories"],
    "All interleavings of memory accesses of 2-3 threads, each running an arbitrary workload on its own collections or elements, with allocation failures.",
    "Tests are single-threaded.",
    [MAP, PC, SEG, SPL, PCK, CW, VH],
    m(("no shared mutable state between collections", PC), ("per-type static tables", CW)),
    observe=["memory accesses of simulated threads", "results"])
add("C17", "Interface references denote the stored elements",
    "At every moment each element reached through the interface (base reference, callable wrapper or type-erased reference) denotes exactly the concrete element stored at that position: same address and type as the typed local iterator yields, calls reach that object, and changes through either are visible through both. This holds across reallocation, insertion, erasure, shrink, copies, moves and failures, and for types with base subobjects at an offset or extended alignment.",
    ["histories", "fault_sequences", "configurations"],
    "All histories and fault points, for element types of different size, alignment and inheritance layout in each kind of collection.",
    "Tests look at interface calls on healthy collections with simple types; a stale or shifted view only arises after particular growth, erase or failure sequences.",
    [SPL, PCK, SEG, BM, FM, AM, CW, SI, CWI, AI],
    m(("stride iterator", SI), ("index rebuild after reallocation", SPL), ("interface view construction", FM+", "+AM)),
    observe=["address, type and call result via every view"])
add("C18", "Acceptable types and signatures compile as documented",
    "Every type meeting the documented requirements is accepted by every operation at compile time, types that do not are rejected with the documented diagnostics, and algorithms accept every argument form their std counterpart accepts.",
    ["programs"], "All user programs.",
    "Compile-time conformance is sampled by the existing tests.",
    [D+"detail/is_acceptable.hpp", PC, ALG],
    m(("is_acceptable", D+"detail/is_acceptable.hpp")))
add("C19", "Element work stays within the documented complexity",
    "Inserting elements one by one at the end of a segment takes amortised constant element work and a number of allocations that grows only logarithmically, in every single-element insertion form; a single insertion or erasure elsewhere constructs, moves or assigns a number of elements linear in those after the point of change (all of the segment's on growth) and none of other segments; copying, assigning and moving between unequal allocators are linear in the elements involved, transfers between compatible allocators and swaps touch no element, growth, shrinking, insertion and erasure move and never copy the elements in place when their moves cannot throw, and equality compares each element a bounded number of times. This holds from every reachable state, also after failures, shrinking, transfers and comparisons.",
    ["histories", "inputs", "fault_sequences", "configurations"],
    "All histories and insertion forms, element types with and without copy and assignment, from any capacity state.",
    "Tests check results on a handful of elements; an insertion that reallocates every time, or an erasure that shifts the whole segment, gives the same results.",
    [PC, SPL, PCK, SEG, VH],
    m(("geometric growth of store and index", SPL), ("vector growth", PCK), ("transfer of segments", MAP)),
    observe=["element constructions, moves, assignments and comparisons per call", "allocations per batch of insertions"])
add("C20", "Running time depends only on what the documentation says",
    "The running time of a lookup, a query about a segment or the whole collection, an iterator step or jump, a transfer between compatible allocators, a swap, and an insertion or erasure near the end of a segment without growth does not depend on how many elements the collection holds; that of clear, copying, comparison, growth, shrink_to_fit, a full traversal or algorithm, and of filling or emptying a segment one element at a time at its end is at most linear in the elements involved. This holds in every reachable state, also after failures, shrinking and transfers, for every element type.",
    ["histories", "inputs", "fault_sequences", "configurations"],
    "All histories, sizes, element types, operation forms and fault points.",
    "Tests look at results on a handful of elements; an operation that rescans or rebuilds a whole segment each time gives the same results.",
    [PC, MAP, SPL, PCK, SEG, IT, SS, ALG],
    m(("index kept up to date incrementally", SPL), ("cached segment lookup", MAP), ("segment-wise iteration", IT)),
    observe=["executed edges per operation on twin collections of different scale"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True)+"\n")
print(len(P))
