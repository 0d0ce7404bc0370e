#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the catalogue can be edited as text."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": ["include/cetl/" + f for f in files],
         "mechanism": [{"name": n, "where": "include/cetl/" + w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "include/cetl/" + w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

VLA = "variable_length_array.hpp"
UV = "unbounded_variant.hpp"
MR = "pf17/memory_resource.hpp"
SYS = "pf17/sys/memory_resource.hpp"
OPT = "pf17/optional.hpp"
VAR = "pf17/variant.hpp"
SV = "pf17/string_view.hpp"
SPAN = "pf20/span.hpp"

prop("C01", "Variable-length array behaves as a plain sequence",
     "After any sequence of constructions, appends, removals, resizes, assigns, reservations, shrinks, clears, copies, moves and element writes, a variable-length array presents exactly the elements, size, order, iteration range, front/back, checked access and equality of an ordinary sequence given the same operations. Arguments that refer to an element of the same array are honoured with the value they had at the call. Copies are independent of their source, a moved-from array is empty and reusable, and neither reservation nor shrinking changes the elements.",
     ["histories", "inputs", "configurations"],
     "all operation histories, argument values and element types; every element kind (trivial, non-trivial, self-referential, over-aligned, move-only) and allocator kind (with and without in-place reallocation)",
     "The unit tests run a few fixed histories per method, starting from an empty array; combinations such as shrink then move then assign, or appending an element of the array while it grows, are never run.",
     [VLA],
     [("in-place copy/move assignment and the fallback of discarding storage", VLA + ": copy_assign_from, move_assign_from"),
      ("growth", VLA + ": reserve, grow, resize, shrink_to_fit"), ("comparison", VLA + ": operator==")],
     [("data_/size_/capacity_", "storage block, number of live elements, block length", VLA)],
     ["size()", "operator[]", "at()", "begin()/end()", "front()/back()", "operator=="])
prop("C02", "Variable-length array never exceeds its limits",
     "A variable-length array's size never exceeds its capacity, and neither exceeds its maximum size, which is the smaller of the limit given at construction (or taken over from the source of a copy or move) and the allocator's limit. A request to grow or reserve beyond the limit is refused with a length error and leaves elements and size as they were, while every request within the limit is granted when memory is available. A successful reservation makes the capacity at least the requested amount and shrinking makes the capacity equal to what the size needs.",
     ["histories", "inputs", "configurations"],
     "all histories over arrays with small limits on either side of assignments, including limits of zero and limits imposed by the allocator, for ordinary and bit-packed arrays",
     "Limit tests fill one array up to one limit; they never assign between arrays with different limits or walk over every size around a limit.",
     [VLA],
     [("limit check", VLA + ": reserve, resize, ensure_size_plus_one"), ("limit transfer", VLA + ": copy_assign_from, move_assign_from, constructors"),
      ("limit computation", VLA + ": max_size")],
     [("max_size_max_", "limit given by the user", VLA)],
     ["size()", "capacity()", "max_size()", "std::length_error"])
prop("C03", "Variable-length array owns its memory and elements exactly once",
     "Every block a variable-length array obtains is given back exactly once, to an allocator equal to the one that produced it and with the same element count, and never while elements in it are alive. Every element is constructed exactly once in raw storage and destroyed exactly once, so that at any moment the number of live elements equals the sum of the sizes of the live arrays. No operation reads or writes outside live elements.",
     ["histories", "inputs", "configurations"],
     "all histories of operations over one and two arrays, for element types that record their lifetimes and allocators that record their blocks",
     "Mock-based tests check allocate/deallocate pairs for single calls; nothing counts elements and blocks over histories.",
     [VLA],
     [("storage release", VLA + ": fast_deallocate, fast_destroy"), ("take-over of storage", VLA + ": move constructors, move_assign_from"),
      ("in-place reallocation", VLA + ": reallocate")],
     [("capacity_", "count that must be passed back on deallocation", VLA)],
     ["allocator allocate/reallocate/deallocate calls", "element constructor/destructor calls"])
prop("C04", "Variable-length array survives a failure at any point",
     "If an allocation or an element's constructor or assignment throws at any point inside an operation on a variable-length array, the exception reaches the caller, nothing leaks, no element is destroyed twice, and every array involved remains a valid sequence of live elements that can be inspected, assigned to and destroyed. A failed append, growing resize or reservation leaves size and elements unchanged unless the element type can only be moved by a throwing move. A constructor that fails leaves nothing behind.",
     ["fault_sequences", "histories", "inputs"],
     "every single allocation and every single element operation inside every operation of a history is made to fail in turn",
     "Tests use one failing allocator in a handful of places; element operations that throw midway are not exercised.",
     [VLA],
     [("growth into new storage", VLA + ": reserve, shrink_to_fit"), ("bulk construction", VLA + ": fast_copy_construct, fast_forward_construct"),
      ("size update order", VLA + ": resize, push_back, emplace_back")],
     None, ["exceptions at the caller", "block and lifetime registry", "size() and elements after the failure"])
prop("C05", "Allocators travel with arrays only as their traits say",
     "When a variable-length array is copied, moved or assigned, the destination afterwards uses the allocator that the allocator-propagation traits (copy assignment, move assignment, always-equal, selection on copy construction) or an explicitly supplied allocator dictate. The destination holds the source's elements, storage is taken over only if the destination's resulting allocator equals the source's and otherwise elements are transferred one by one, and every block is returned to an allocator equal to its origin. Explicitly supplied allocators are used as given.",
     ["configurations", "histories"],
     "all eight combinations of propagation traits, equal and unequal allocators, all four kinds of transfer plus allocator-extended construction, all pairs of source and destination sizes and capacities",
     "The allocation tests cover a few trait combinations with arrays of one size; allocator-extended moves between unequal allocators are not run.",
     [VLA],
     [("allocator propagation", VLA + ": move_assign_alloc, copy_assign_alloc"), ("allocator-extended construction", VLA + ": constructors taking an allocator")],
     [("alloc_", "allocator in use", VLA)], ["get_allocator()", "allocator call log"])
prop("C06", "Bit-packed bool array behaves as a plain sequence of bools",
     "After any sequence of operations the array of bool presents exactly the values, size, iteration order, checked access, first/last element and equality of an ordinary sequence of bools, for every length relative to byte boundaries. Writing, flipping or assigning through an element proxy or iterator changes that element and no other. Equality depends only on the visible elements, and iterators obey random-access arithmetic and ordering.",
     ["histories", "inputs", "configurations"],
     "all histories of appends, removals, resizes, assigns, copies, moves and proxy writes starting from every length 0..25 with distinguishing bit patterns, and all pairs of sequences up to a bounded length for equality",
     "Tests check a few lengths and patterns; equality is only compared for arrays that differ in a small number of places.",
     [VLA],
     [("packing", VLA + ": test, set, emplace_back_impl, resize, pop_back"), ("comparison", VLA + ": operator== of the bool specialization"),
      ("proxies and iterators", VLA + ": reference, IteratorImpl")],
     [("last_byte_bit_fill_", "index of the last used bit in the last byte", VLA)],
     ["size()", "operator[]", "iterators", "operator=="])
prop("C07", "Arrays stay defined when memory or limits run out without exceptions",
     "With exceptions disabled, an operation on a variable-length array (ordinary or bit-packed) that cannot get memory or would pass the limit returns normally, never touches memory it does not own, and leaves a valid array whose elements are a prefix-preserving result: an append or a reservation that fails leaves size and elements unchanged, and a resize keeps the existing elements and grows at most up to the request. The caller can always tell success by comparing sizes. The array stays usable: once memory is available again the same request succeeds.",
     ["fault_sequences", "histories", "configurations"],
     "every allocation inside every operation of a history fails in turn, in a build without exceptions, for ordinary and bit-packed arrays",
     "The test-suite is built with exceptions on; the no-exceptions paths are compiled in only one small test.",
     [VLA],
     [("no-exceptions branches", VLA + ": reserve, resize, push_back, emplace_back, assign, copy_assign_from")],
     None, ["size(), capacity() and elements", "sanitizers"])
prop("C08", "Unbounded variant holds exactly the last value stored",
     "An unbounded variant that had a value stored into it holds exactly that value with its type identity and size until it is reset, overwritten, moved from or swapped; access as the stored type or one of its registered bases yields the stored object, and access as any other type yields null or a bad-access error. Copies are equal and independent, moves transfer the value and leave the source without a value, and swap exchanges the two contents. Each stored value is constructed once per store, copy or move and destroyed exactly once.",
     ["histories", "inputs", "configurations"],
     "all histories over two variants and values of different sizes and types, for every combination of copyable/movable and in-place/allocated storage",
     "Tests exercise each method in isolation with fixed values; histories that mix in-place and allocated contents with swap, reset and reassignment are not covered.",
     [UV, "rtti.hpp"],
     [("type-erased handlers", UV + ": make_handlers, copy_handlers_from, move_handlers_from, reset"), ("swap", UV + ": swapVariants"),
      ("access", UV + ": get_ptr, get_if, get")],
     [("value_size_ and handler pointers", "encode empty / holding / failed", UV)],
     ["has_value()", "type_id()", "type_size()", "get/get_if"])
prop("C09", "Unbounded variant uses its memory resource correctly",
     "A value that fits the in-place footprint is stored inside the variant without allocation and any larger value is stored in exactly one block from the variant's current memory resource, suitably aligned. Every block is returned exactly once, with the same size and alignment, to the resource it came from, through any history of copies, moves, swaps, resets and changes of resource. When memory runs out the operation reports it (an error with exceptions, null without), the variant is marked as having lost its value, and reset or reassignment makes it fully usable again.",
     ["histories", "fault_sequences", "configurations"],
     "all histories over two variants on two memory resources with every allocation failing in turn, with and without in-place space, with and without exceptions",
     "Mocked resources check single calls in tests; exchanges between resources combined with out-of-memory are not enumerated.",
     [UV],
     [("storage policies", UV + ": base_storage"), ("resource exchange", UV + ": swapVariants, reset(Pmr*), set_memory_resource")],
     [("allocated_buffer_, mem_res_", "owned block and its resource", UV)],
     ["memory resource call log", "valueless_by_exception()", "get_memory_resource()"])
prop("C10", "Unbounded variant contains failures of the values it stores",
     "If a value's constructor throws while it is being stored, copied or constructed in place, the exception reaches the caller, no memory or object leaks and the source is unaffected; an existing destination reports that it lost its value, holds nothing, and may be reset, reassigned, copied from, moved from, swapped or destroyed. A variant whose construction failed leaves nothing behind.",
     ["fault_sequences", "histories", "configurations"],
     "every constructor call inside every operation throws in turn, followed by every possible next operation, for all storage kinds",
     "Tests throw in a few places and then only look at the variant; they do not continue using it in every way.",
     [UV],
     [("failed state", UV + ": valueless_by_exception, create, copy_from, move_from")],
     [("size set, handlers null", "value lost by failure", UV)],
     ["valueless_by_exception()", "has_value()", "memory and lifetime registry"])
prop("C11", "Function wrapper calls exactly the callable it holds",
     "A polymorphic function wrapper invokes exactly the last callable assigned to it, with the arguments given and its own copy of the callable's state, and returns its result; an empty wrapper converts to false and fails with a bad-call error. Copies own independent callables, moved-from wrappers are empty, swap exchanges callables (and resources), and failed assignments leave the wrapper either unchanged or empty and reported as such. Callables and memory are released exactly once and to the resource they came from.",
     ["histories", "fault_sequences", "configurations"],
     "all histories over two wrappers and callables of several sizes, with allocations and copies failing in turn, for in-place only, allocated only and mixed storage",
     "Tests cover each operation once; state after failing assignments and mixed-size swaps is not enumerated.",
     ["pmr/function.hpp", UV],
     [("dispatch through cached handler pointer", "pmr/function.hpp: handler_ptr_, operator()"), ("storage", "pmr/function.hpp: any_handler_")],
     [("handler_ptr_", "cached pointer into the stored callable", "pmr/function.hpp")],
     ["operator()", "operator bool", "valueless_by_exception()", "callable lifetime registry"])
prop("C12", "Smart pointers from the factories release what they own exactly once",
     "An object made by a factory for an allocator or behind an interface is constructed once with the given arguments and, however the pointer is moved, assigned, swapped or reset, destroyed once as its concrete type and its memory returned once to its resource with the size and alignment it was allocated with. If allocation or construction fails, the memory is returned, no destructor runs for the object that never existed, and the caller sees the exception or, without exceptions, a null pointer. Memory-only deleters return the block they were made for exactly once.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of making, moving, swapping, releasing and destroying pointers over two resources, with each allocation or construction failing in turn",
     "Tests construct and destroy single pointers; failing constructors and move chains between deleters are not enumerated.",
     ["pmr/memory.hpp", "pmr/interface_ptr.hpp"],
     [("deleters", "pmr/memory.hpp: MemoryResourceDeleter, PolymorphicDeleter"), ("factories", "pmr/memory.hpp: Factory; pmr/interface_ptr.hpp: InterfaceFactory, PmrInterfaceDeleter")],
     None, ["memory resource call log", "object lifetime registry"])
prop("C13", "Run-time type queries agree with the class hierarchy",
     "For every object of a class hierarchy using the library's run-time type support, a cast to a type succeeds exactly if the object is of that type or derives from it through registered bases, and then yields the same sub-object that a static conversion yields; otherwise it yields null. Instance tests and type identity agree with the casts, const-ness is preserved, null stays null, and identifiers compare equal exactly if their bytes are equal after zero extension.",
     ["programs", "inputs"],
     "all hierarchies of single, multiple and diamond-free inheritance up to a bounded number of classes, all source and target types",
     "Tests use one fixed hierarchy.",
     ["rtti.hpp"],
     [("search through bases", "rtti.hpp: rtti_helper::_cast_, search"), ("queries", "rtti.hpp: rtti_cast, is_instance_of, type_id_value")],
     None, ["rtti_cast", "is_instance_of", "type_id_value"])
prop("C14", "Buffer and array memory resources never hand out bad or shared memory",
     "A single-buffer memory resource hands out only memory that is aligned as requested and either lies completely inside its buffer or comes from the upstream resource; the buffer is never handed out a second time while its block is live, and becomes available again after it is returned. Requests that do not fit go upstream if within the upstream limit and otherwise fail with a bad-alloc error (null without exceptions). Reallocation either returns a block that holds the old contents, or fails and leaves the old block valid, and every upstream block goes back upstream exactly once.",
     ["histories", "inputs", "configurations"],
     "all histories of allocate, reallocate and deallocate with sizes and alignments around the buffer size, all buffer offsets from an aligned address, with and without upstream, with and without exceptions",
     "Tests make a few calls with fixed sizes, and never reallocate unsuccessfully and then continue.",
     ["pmr/buffer_memory_resource_delegate.hpp", "pf17/buffer_memory_resource.hpp", "pf17/array_memory_resource.hpp"],
     [("single block hand-out", "pmr/buffer_memory_resource_delegate.hpp: allocate, allocate_internal_buffer, reallocate_internal, deallocate"),
      ("limit", "pmr/buffer_memory_resource_delegate.hpp: calculate_max_size_bytes")],
     [("in_use_", "live block inside the buffer", "pmr/buffer_memory_resource_delegate.hpp")],
     ["returned pointers", "upstream call log", "max_size()"])
prop("C15", "Monotonic buffer resource hands out disjoint memory and gives all of it back",
     "Between releases, every block handed out by a monotonic buffer resource is aligned as requested, at least as large as requested, disjoint from all other blocks handed out, and lies in the initial buffer or in a block obtained from the upstream resource. Deallocation has no effect; release (or destruction) returns each upstream block exactly once with its original size and alignment, after which the initial buffer is used again. If the upstream fails, the request fails in the same way, earlier blocks stay valid, and later requests may succeed.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "all histories of allocate, deallocate and release over sizes and alignments (including alignments below and above that of the bookkeeping data and sizes near the numeric limit), initial buffer sizes and upstream failures",
     "Tests run short fixed histories with default alignment and never check disjointness or misaligned bookkeeping.",
     [MR, SYS],
     [("bump allocation and chaining", MR + ": basic_monotonic_buffer_resource::do_allocate, do_allocate_from_current_buffer"), ("release", MR + ": release")],
     [("buffer chain", "list of upstream blocks with remaining size", MR)],
     ["returned pointers", "upstream call log"])
prop("C16", "Polymorphic allocator constructs objects by the uses-allocator rules",
     "Constructing an object through a polymorphic allocator passes the allocator exactly to those types (including either side of a pair) that accept one, in the leading or trailing position they declare, forwards every argument with its value category, and constructs exactly one object per call. Allocation requests the exact byte count and alignment for the element type and refuses counts that overflow; deallocation passes the same values back. Two allocators compare equal exactly if their resources are equal, and copies, rebinds and container copies keep the resource.",
     ["inputs", "configurations", "programs"],
     "all combinations of element kinds (no allocator, leading, trailing) on either side of a pair, all pair-construction forms, all argument value categories, and all counts around the overflow limit",
     "Tests construct one object of each kind, and pairs only from lvalues.",
     [MR],
     [("construction dispatch", MR + ": construct, construct_not_pair_impl, make_pair_member_args"), ("allocation", MR + ": allocate, deallocate, reallocate, max_size")],
     None, ["constructor call log", "resource call log"])
prop("C17", "Process-wide memory resource registers are linearizable",
     "Setting the default resource or the new/delete resource returns the previously installed resource and takes effect at once; reading returns the most recently installed one. The new/delete resource is initially the built-in one, and setting it to null reinstalls that; the default resource starts as the new/delete resource current at some moment up to its first use, and setting it to null installs the new/delete resource current at some moment of the call. For concurrent callers every outcome is one that some sequential order of these steps would give: no update is lost, no torn or uninitialised value is ever seen, and what a caller wrote to a resource before installing it is visible to whoever reads it back.",
     ["schedules", "histories"],
     "all histories of set and get calls over a bounded set of resources, and all interleavings of two and three threads' calls at the granularity of their atomic accesses, including first use",
     "Tests call setters in one thread once.",
     [SYS],
     [("atomic exchange", SYS + ": set_default_resource, set_new_delete_resource, get_default_resource, new_delete_resource")],
     [("atomic singletons", "currently installed resources", SYS)],
     ["return values of getters and setters"])
prop("C18", "Built-in memory resources keep the memory-resource contract",
     "The null resource fails every request, accepts any return and equals only itself; the new/delete resource returns distinct, suitably aligned blocks of the requested size, refuses alignments it cannot honour, reports exhaustion as a bad-alloc error (null without exceptions), and equals only itself. Reallocation keeps the leading bytes up to the smaller size or fails leaving the block valid. A resource's reported maximum size and equality are consistent, and resource equality is reflexive, symmetric and implied by identity.",
     ["histories", "inputs", "configurations"],
     "all histories of allocate, reallocate and deallocate over sizes and alignments including huge sizes and over-alignment, with and without exceptions",
     "Tests allocate a few small blocks.",
     [MR, SYS],
     [("built-in resources", MR + ": null_memory_resource; " + SYS + ": MaxAlignNewDeleteResource"), ("traits", MR + ": memory_resource_traits")],
     None, ["returned pointers", "block contents"])
prop("C19", "Optional behaves as an empty-or-value state machine",
     "After any sequence of constructions, assignments (from values, other optionals, convertible optionals, none), emplacements, resets, swaps, copies and moves, an optional is engaged with exactly the expected value or empty. Value access, defaulted access and checked access agree with that state for every value category, checked access of an empty optional fails with a bad-access error, copies are independent, and a moved-from optional stays engaged with a moved-from value. Contained objects are constructed and destroyed exactly once each.",
     ["histories", "inputs", "configurations"],
     "all histories over two optionals and a convertible third, for trivial, non-trivial, move-only, const-member and over-aligned value types",
     "Tests check single transitions for a few types; the full cross product of states and operations is not covered.",
     [OPT],
     [("state machine", OPT + ": base_copy_assignment, base_move_assignment, assign, emplace, swap, reset"), ("special member policies", OPT + ", _helper_enable_copy_move.hpp")],
     None, ["has_value()", "value()", "operator*", "value_or()", "lifetime registry"])
prop("C20", "Optional survives a throwing value operation",
     "If a constructor, assignment or swap of the contained type throws during any operation on an optional, the exception reaches the caller, nothing leaks or is destroyed twice, and each optional involved is engaged or empty exactly as the standard prescribes: construction failures leave a previously empty destination empty, assignment failures leave engagement unchanged, and a failed emplacement leaves it empty. Every optional remains usable.",
     ["fault_sequences", "histories"],
     "every operation of the contained type throws in turn in every operation and every starting state, followed by every next operation",
     "Tests have no throwing value types for most operations.",
     [OPT],
     [("engagement flag ordering", OPT + ": construct, reset, assign"), ("exception specification of the special members", OPT)],
     None, ["exceptions at the caller", "has_value()", "lifetime registry"])
prop("C21", "Optional comparisons follow the contained type's operators",
     "Each of the six comparisons between two optionals, an optional and none, and an optional and a value gives the result the standard defines: it uses the corresponding operator of the contained type when both sides have a value, and otherwise orders empty before any value. This holds for mixed types, for partially ordered values, and for types whose operators are mutually inconsistent or partly missing.",
     ["inputs", "configurations"],
     "all pairs of states and values over small domains including unordered floating-point values and symbolic types recording which operator ran, in every language standard",
     "Tests compare ordered integers only.",
     [OPT],
     [("comparison operators", OPT + ": operator==, !=, <, <=, >, >=")], None, ["comparison results"])
prop("C22", "Variant always holds exactly one expected alternative",
     "After any sequence of constructions, conversions, assignments, emplacements by type or index, copies, moves and swaps, a variant's active index and value are those the standard prescribes; access by that index or type yields the value and access by any other yields null or a bad-access error; emplacement passes its arguments on as given and is available for exactly the alternatives that can be made of them and, by type, occur once; copies are independent and a moved-from variant keeps its alternative. Alternatives are constructed and destroyed exactly once each, and assignment between equal alternatives assigns while between different ones it replaces.",
     ["histories", "inputs", "configurations"],
     "all histories over two variants with alternatives of every special-member profile, including duplicate alternative types addressed by index",
     "Tests cover many type profiles but only single transitions with fixed values.",
     [VAR],
     [("special member policies and assignment", VAR), ("index bookkeeping", VAR + ": m_index, construct, destroy")],
     None, ["index()", "get/get_if", "holds_alternative", "lifetime registry"])
prop("C23", "Variant survives a throwing alternative and reports value loss",
     "If an alternative's constructor or assignment throws during an operation on a variant, the exception reaches the caller and nothing leaks or is destroyed twice; the destination either keeps its previous alternative or reports having no value, exactly in the cases the standard prescribes, and the source keeps its alternative. A variant without a value compares, visits (with a bad-access error), copies, moves, assigns and is destroyed as the standard prescribes.",
     ["fault_sequences", "histories"],
     "every constructor, assignment and conversion throws in turn in every operation and state, followed by every next operation, compared with the standard variant",
     "Tests throw in a few single operations and check only the index afterwards.",
     [VAR],
     [("valueless state", VAR + ": valueless_by_exception, emplace, assignment")], None,
     ["valueless_by_exception()", "index()", "lifetime registry"])
prop("C24", "Visitation calls the right overload once with the right alternatives",
     "Visiting any number of variants calls the visitor exactly once with references to precisely the active alternatives, in order, with the const-ness and value category of the variants, and returns the visitor's result; if any variant has no value it throws a bad-access error without calling the visitor. Visitors composed from several callables and indexed dispatch pick the overload that ordinary overload resolution picks.",
     ["inputs", "configurations", "programs"],
     "all index combinations of up to four variants with up to five alternatives, all value categories, with and without value-less members",
     "Tests visit one to three variants with single index combinations.",
     [VAR, "visit_helpers.hpp"],
     [("dispatch table", VAR + ": visit, visit_impl"), ("overload set", "visit_helpers.hpp: overloaded, make_overloaded")], None,
     ["visitor call log"])
prop("C25", "Converting construction picks the alternative the standard picks",
     "Constructing or assigning a variant from a value of another type selects exactly the alternative that the standard's rule selects (the best overload among alternatives that can be made of the value in braces, that is without narrowing, inside of their constructors as well), and is unavailable exactly when that rule finds no unique best alternative.",
     ["programs", "inputs"],
     "all alternative lists up to length three drawn from arithmetic, string, pointer and class types, against all argument types in that pool and all value categories, compared with the standard variant",
     "Tests check some dozens of hand-picked combinations.",
     [VAR, "type_traits_ext.hpp"],
     [("best conversion index", "type_traits_ext.hpp: best_conversion_index_v; " + VAR)], None,
     ["index() after construction and assignment", "is_constructible / is_assignable"])
prop("C26", "Variant comparison orders by index, then by value",
     "Each of the six comparisons between two variants gives the result the standard defines: value-less variants are equal and below all others, different alternatives order by index, and equal alternatives compare by the corresponding operator of the contained type, including for partially ordered values. Monostate values are always equal.",
     ["inputs", "configurations"],
     "all pairs of states over small domains including value-less variants, unordered floating-point values and types recording which operator ran",
     "Tests compare a few pairs of ordered values.",
     [VAR], [("comparison operators", VAR + ": operator==, !=, <, <=, >, >=")], None, ["comparison results"])
prop("C27", "String view agrees with the standard string view",
     "For every text, sub-range, search argument, position and count, a string view gives the same result as the standard string view for all element access, substring, copy, trimming, comparison, search and prefix operations, including empty views, positions at and beyond the end, embedded zeros and values above 127, and raises an out-of-range error in exactly the same cases. Comparison and search honour the character traits, and stream output applies width, fill and adjustment as the standard does. Views never read outside the text they refer to.",
     ["inputs", "configurations"],
     "all texts up to a bounded length over a small alphabet with all positions, counts and needles; narrow and wide characters and custom traits; all stream format states",
     "Tests check hand-picked strings; boundary positions with empty needles and format states are missing.",
     [SV],
     [("search and comparison", SV + ": find, compare, substr"), ("stream output", SV + ": operator<<")], None,
     ["return values", "std::out_of_range", "stream contents"])
prop("C28", "Span agrees with the standard span and never leaves its range",
     "For every array, length, offset and count, static or dynamic extents, a span and its sub-spans have exactly the data, size, extent, iterators and elements the standard span has. Precondition violations such as an out-of-range sub-span or a mismatched static extent are caught by the debug assertion when enabled, and no valid use ever triggers an assertion or accesses elements outside the viewed range. Conversions between spans and from arrays and containers exist exactly where the standard allows them for the supported forms.",
     ["inputs", "configurations", "programs"],
     "all lengths, offsets and counts up to a bound for all static/dynamic extent combinations, element types and const-ness, with assertions on and off",
     "Tests use fixed arrays and few offsets.",
     [SPAN],
     [("extent arithmetic", SPAN + ": first, last, subspan"), ("construction", SPAN + ": constructors")], None,
     ["data()", "size()", "extent", "assertion outcome"])
prop("C29", "Type traits agree with the language",
     "Every type trait, index list and type-list helper the library provides gives, for every type in its domain, the same answer as the corresponding standard trait or as direct evaluation of the expression it describes, in every supported language standard.",
     ["programs", "configurations"],
     "all traits over a catalogue of all profiles of special members (deleted, trivial, non-trivial, throwing), cv/ref qualifiers and convertible pairs; all short type lists for list helpers",
     "Tests assert selected cases in one standard.",
     ["type_traits_ext.hpp", "pf17/type_traits.hpp", "pf17/utility.hpp"],
     [("trait implementations", "type_traits_ext.hpp, pf17/type_traits.hpp")], None, ["trait values"])
prop("C30", "Optional and variant have exactly the special members their types allow",
     "For every combination of deleted, trivial, non-trivial and throwing special members of the contained types, the optional and the variant provide, omit, make trivial and make non-throwing each of their own special members and their swap exactly as the standard prescribes.",
     ["programs", "configurations"],
     "all combinations of the state of copy construction, move construction, copy assignment, move assignment and destruction of one alternative, and pairs of representative alternatives",
     "Tests cover a list of hand-written profiles for the variant and a few for the optional, mostly ignoring noexcept.",
     [OPT, VAR, "_helper_enable_copy_move.hpp"],
     [("enable copy/move policies", OPT + ", " + VAR + ", _helper_enable_copy_move.hpp")], None, ["type traits of the wrapper types"])
prop("C31", "Observable behaviour does not depend on build options",
     "For every valid history, the observable results of the containers, variants, views and resources are the same in every supported language standard, with debug assertions on or off, with or without compiler run-time type information, and, when nothing fails, with or without exceptions. No debug assertion fires in valid use, and the library's standard-version aliases select types with the same behaviour.",
     ["configurations", "histories"],
     "all bounded histories of a mixed scenario replayed in every combination of build options, comparing complete result traces",
     "The suite builds few configurations and never compares their results with each other.",
     ["cetl.hpp", "pf17/cetlpf.hpp", "pf20/cetlpf.hpp", VLA, UV, OPT, VAR],
     [("configuration macros", "cetl.hpp: CETL_DEBUG_ASSERT, __cpp_exceptions branches"), ("aliases", "pf17/cetlpf.hpp, pf20/cetlpf.hpp")], None, ["result traces"])
prop("C32", "O(1)-heap memory resource passes requests through faithfully",
     "The O(1)-heap resource forwards each request to the heap it was built on with the requested size, returns exactly what the heap returns, reports a heap refusal as a bad-alloc error (null without exceptions), gives every block back to the same heap exactly once, and reports as maximum size the size of the storage it was given. Storage helpers provide storage of the stated size at the heap's required alignment.",
     ["histories", "fault_sequences", "configurations"],
     "all bounded histories of allocate and deallocate with every heap refusal, with and without exceptions",
     "The test is not built because the heap library is not available.",
     ["pmr/o1heap_memory_resource_delegate.hpp"],
     [("forwarding", "pmr/o1heap_memory_resource_delegate.hpp: allocate, deallocate, max_size")], None, ["heap call log"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
repo = os.environ.get("REPO", "/repo")
for p in P:
    for fl in p["anchors"]["files"]:
        assert os.path.exists(os.path.join(repo, fl)), fl
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
