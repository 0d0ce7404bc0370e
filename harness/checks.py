"""What each check builds and runs."""

CONFIGS = {
    "g14": {"flags": ["-std=c++14", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "g17": {"flags": ["-std=c++17", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "g20": {"flags": ["-std=c++20", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "g14rel": {"flags": ["-std=c++14"]},
    "g17rel": {"flags": ["-std=c++17"]},
    "g20rel": {"flags": ["-std=c++20"]},
    "n14": {"flags": ["-std=c++14", "-fno-exceptions", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "n17": {"flags": ["-std=c++17", "-fno-exceptions", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "n20": {"flags": ["-std=c++20", "-fno-exceptions", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "n14rel": {"flags": ["-std=c++14", "-fno-exceptions"]},
    # no sanitizers: the instrumentation of an extra object is served by sched.hpp
    "t14": {"flags": ["-std=c++14", "-DCETL_ENABLE_DEBUG_ASSERT=1", "-fno-threadsafe-statics"], "san": False},
    "t20": {"flags": ["-std=c++20", "-DCETL_ENABLE_DEBUG_ASSERT=1", "-fno-threadsafe-statics"], "san": False},
    # for questions to the compiler
    "q14": {"flags": ["-std=c++14", "-O0", "-g0", "-DCETL_ENABLE_DEBUG_ASSERT=1"], "san": False},
    "q17": {"flags": ["-std=c++17", "-O0", "-g0", "-DCETL_ENABLE_DEBUG_ASSERT=1"], "san": False},
    "q20": {"flags": ["-std=c++20", "-O0", "-g0", "-DCETL_ENABLE_DEBUG_ASSERT=1"], "san": False},
    "r17": {"flags": ["-std=c++17", "-fno-rtti", "-fno-sanitize=vptr", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "r14": {"flags": ["-std=c++14", "-fno-rtti", "-fno-sanitize=vptr", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
}

VLA_ASSUME = [
    "element values 0..2; deep histories up to about 8 elements, single operations on all sizes up to about 20..70 and on chosen sizes up to 1025",
    "after an allocation has failed, a moving reallocate of the same operation fails too",
]

UV_ASSUME = [
    "in histories value types of 4, 16, 48 and about 64 bytes, alignments up to 64, values 1..2; in single transfers (C08, C09) "
    "45 sizes from 1 to 70000 bytes; other types behave like these",
]

CHECKS = {
    "C01": {
        "level": "model_checking",
        "units": [{"src": "c01.cpp", "parts": [0, 1, 2, 3, 4, 5], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "all histories up to the listed depth over two arrays, 21 operation kinds, counts 0..5, values 1..2, "
                  "from all listed initial sizes and spare capacities, 10 element kinds",
        "assumptions": VLA_ASSUME,
    },
    "C02": {
        "level": "model_checking",
        "units": [{"src": "c02.cpp", "parts": [0, 1, 2, 3, 4, 5, 6], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "as C01 with every limit 0..4 on either array (0..18 for bits) and with limits imposed by the allocator; "
                  "25 magnitudes up to the largest number for limit, limit of the allocator and request",
        "assumptions": VLA_ASSUME,
    },
    "C03": {
        "level": "model_checking",
        "units": [{"src": "c03.cpp", "parts": [0, 1, 2], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "as C01 with recording elements and allocators of several propagation kinds",
        "assumptions": VLA_ASSUME,
    },
    "C04": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing points (each allocation and each element operation of each "
                "operation fails in turn, up to the listed number of faults per history); distinct by resulting state",
        "units": [{"src": "c04.cpp", "parts": [0, 1, 2, 3, 4], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "histories up to the listed depth, the listed number of faults, counts 0..4",
        "assumptions": VLA_ASSUME,
    },
    "C05": {
        "level": "model_checking",
        "units": [{"src": "c05.cpp", "parts": [0, 1, 2, 3, 4, 5, 6, 7], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "all 8 propagation trait combinations x {unequal, equal, always equal} allocators x 4 element kinds, all shapes up to 3 elements",
        "assumptions": VLA_ASSUME,
    },
    "C06": {
        "level": "model_checking",
        "units": [{"src": "c06.cpp", "parts": [0], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "histories from every length 0..17; all pairs of bit patterns up to the listed length; all iterator position pairs up to length 18",
        "assumptions": VLA_ASSUME,
    },
    "C07": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing allocations in a build without exceptions; distinct by resulting state",
        "units": [{"src": "c07.cpp", "parts": [0, 1, 2], "configs": ["n14"], "configs_thorough": ["n14", "n20", "n14rel"]}],
        "bounds": "histories up to the listed depth, the listed number of faults, counts 0..4 (0..10 for bits)",
        "assumptions": VLA_ASSUME,
    },
    "C08": {
        "level": "model_checking",
        "units": [{"src": "c08.cpp", "parts": [0, 1, 2, 3, 4, 5, 6, 7, 8], "configs": ["g14"], "configs_thorough": ["g14", "g20", "r14"]}],
        "bounds": "all histories up to the listed depth over two variants, 12 operation kinds, 4 value types (one with base classes), "
                  "4 copy/move profiles x {in place, memory resource only, mixed}",
        "assumptions": UV_ASSUME,
    },
    "C09": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing allocations; distinct by resulting state",
        "units": [{"src": "c09.cpp", "parts": [0, 1, 2, 3, 4, 5], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g20", "n14", "n17", "n14rel"]}],
        "bounds": "histories up to the listed depth over two variants and three resources, footprints on both sides of each value size; "
                  "every pair of 45 value sizes up to 70000 bytes in 7 kinds of transfer",
        "assumptions": UV_ASSUME,
    },
    "C10": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing constructors and allocations; distinct by resulting state",
        "units": [{"src": "c10.cpp", "parts": [0, 1, 2, 3, 4, 5], "configs": ["g14"], "configs_thorough": ["g14", "g20"]}],
        "bounds": "histories up to the listed depth, the listed number of faults",
        "assumptions": UV_ASSUME + ["moving a variant is noexcept by declaration, so value moves made by variant moves do not fail"],
    },
    "C11": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing allocations and callable constructors; distinct by resulting state",
        "units": [{"src": "c11.cpp", "parts": [0, 1, 2, 3, 4], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g20", "n14", "r14"]}],
        "bounds": "histories up to the listed depth over two function wrappers, callables of 4 sizes (in place and allocated), three resources; "
                  "single transfers between callables of 23 sizes up to 70000 bytes",
        "assumptions": ["callables that move without throwing, as the wrapper requires"],
    },
    "C12": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing allocations and constructors; distinct by resulting state",
        "units": [{"src": "c12.cpp", "parts": [0, 1, 2], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g20", "n14"]}],
        "bounds": "histories up to the listed depth over two owning pointers, objects with one and several base classes; deleters for 1..9 objects, "
                  "objects of up to 70000 bytes, descriptions of all small sizes and alignments, types built with the allocator first or last",
        "assumptions": ["a deleter that was moved from is not used again"],
    },
    "C13": {
        "level": "exploration",
        "rule": "one evaluation per source class, target class, cv-qualification and object; distinct by result",
        "units": [{"src": "c13.cpp", "parts": [0, 1, 2], "configs": ["g14"], "configs_thorough": ["g14", "g20"]},
                  {"src": "c13.cpp", "parts": [0], "configs": ["r14"]},
                  {"src": "c13.cpp", "parts": [3, 4, 5, 6, 7, 8], "configs": ["g14"], "tiers": ["thorough"]}],
        "bounds": "every ordered inheritance tree of up to 6 classes (7 in the thorough tier), every pair of classes",
        "assumptions": ["classes declared to the library with the bases they really have"],
    },
    "C14": {
        "level": "model_checking",
        "units": [{"src": "c14.cpp", "parts": [0, 1], "configs": ["g14", "n14"], "configs_thorough": ["g14", "n14", "g14rel", "n14rel"]}],
        "bounds": "all histories up to the listed depth of allocate/reallocate/deallocate, up to 3 live blocks, sizes around the buffer sizes "
                  "0..24, alignments 1..32, buffer offsets 0..16, 4 upstream limits, with and without upstream, failing upstream; "
                  "array resources of 300, 5000 and 65536 bytes with sizes around theirs; equality of every pair of 10 resources",
        "assumptions": ["a resource that was moved from is not used again"],
    },
    "C15": {
        "level": "model_checking",
        "units": [{"src": "c15.cpp", "parts": [0, 1], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g20", "n14", "g14rel"]}],
        "bounds": "all histories up to the listed depth of allocate/deallocate/release, sizes 0..40 and close to the largest number, "
                  "alignments 1..64, initial buffers of 0..40 bytes at 9 offsets, limited and failing upstreams; sizes up to 70000 at alignments up to 256",
        "assumptions": ["upstream blocks are aligned as requested and to no more than that"],
    },
    "C16": {
        "level": "exploration",
        "rule": "one evaluation per constructed object (kind of element x form x value categories x allocator) or per requested count; "
                "distinct by how the object was constructed",
        "units": [{"src": "c16.cpp", "parts": [0, 1, 2], "configs": ["g14"], "configs_thorough": ["g14", "g17", "g20", "n14"]},
                  {"src": "c16.cpp", "parts": [0], "configs": ["n14"], "tiers": ["quick"]}],
        "bounds": "5 kinds of elements alone and on either side of a pair, 9 forms of construction, all value categories; 15 counts around "
                  "the overflow limit for 7 element sizes, failing allocations",
        "assumptions": ["pairs inside pairs are left alone, as before C++20"],
    },
    "C17": {
        "level": "model_checking",
        "units": [{"src": "c17.cpp", "parts": [0], "configs": ["t14"], "configs_thorough": ["t14", "t20"],
                   "extra": [{"src": "c17_api.cpp", "flags": ["-fsanitize=thread", "-fthreadsafe-statics"]}]}],
        "bounds": "all sequential histories up to the listed depth; all interleavings at the granularity of single memory accesses of 2 threads x 2 "
                  "calls and 3 threads x 1 call from first use, and of 2 x 3 and 3 x 1 after it (thorough: 2 x 3, 3 x 2), 6 kinds of calls",
        "assumptions": ["sequentially consistent interleavings; weaker memory orders are covered by a happens-before race check"],
    },
    "C18": {
        "level": "model_checking",
        "units": [{"src": "c18.cpp", "parts": [0], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g20", "n14"]}],
        "bounds": "all histories up to the listed depth, up to 3 live blocks, sizes 0..100 and unsatisfiable ones, alignments 1..4096; all pairs of "
                  "10 resources for equality",
        "assumptions": ["zero-size reallocations are left out, their meaning is implementation-defined"],
    },
    "C19": {
        "level": "model_checking",
        "units": [{"src": "c19.cpp", "parts": [0, 1, 2], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g17", "g20", "n14", "g14rel"]},
                  {"src": "c19.cpp", "parts": [3], "configs": ["g17"], "configs_thorough": ["g17", "g20"]}],
        "bounds": "all histories up to the listed depth over two optionals and a third one of a convertible type, values 1..2, 10 value types; "
                  "the conversions between all pairs of 22 value types and optionals of them",
        "assumptions": ["optional<bool> made of another optional is left out: the standard changed its meaning"],
    },
    "C20": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing operations of the value type; distinct by resulting state",
        "units": [{"src": "c20.cpp", "parts": [0, 1], "configs": ["g14"], "configs_thorough": ["g14", "g17", "g20"]}],
        "bounds": "histories up to the listed depth over two optionals and a convertible third, the listed number of faults, 8 value types",
        "assumptions": ["throwing operations of a value leave its operands as they were"],
    },
    "C21": {
        "level": "exploration",
        "rule": "one evaluation per operator, form of comparison, states of both sides and answer of the value operator; distinct by state and result",
        "units": [{"src": "c21.cpp", "parts": [0], "configs": ["g14", "g17", "g20"], "configs_thorough": ["g14", "g17", "g20", "n14"]}],
        "bounds": "6 operators x 5 forms x all states, symbolic values with arbitrary answers, numbers including unordered ones",
        "assumptions": ["operators that the value type does not have are not required of the optional"],
    },
    "C22": {
        "level": "model_checking",
        "units": [{"src": "c22.cpp", "parts": [0, 1, 2, 3, 4, 5], "configs": ["g14", "n14"], "configs_thorough": ["g14", "g17", "g20", "n14", "g14rel"]}],
        "bounds": "all histories up to the listed depth over two variants, values 1..2, 14 lists of alternatives; all pairs of 20 alternatives in single operations",
        "assumptions": ["alternatives of the listed profiles; other types behave like these"],
    },
    "C23": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of failing operations of the alternatives; distinct by resulting state",
        "units": [{"src": "c23.cpp", "parts": [0, 1, 2, 3], "configs": ["g14"], "configs_thorough": ["g14", "g17", "g20"]}],
        "bounds": "histories up to the listed depth over two variants, the listed number of faults, 11 lists of alternatives",
        "assumptions": ["throwing operations of a value leave its operands as they were", "after a failed swap each variant may have lost its value"],
    },
    "C24": {
        "level": "exploration",
        "rule": "one evaluation per combination of alternatives, value categories and visitor; distinct by that combination",
        "units": [{"src": "c24.cpp", "parts": [0, 1, 2, 3, 5], "configs": ["g14"], "configs_thorough": ["g14", "g17", "g20"]},
                  {"src": "c24.cpp", "parts": [4], "configs": ["g17"], "configs_thorough": ["g17", "g20"]},
                  {"src": "c24.cpp", "parts": [0, 1], "configs": ["g17", "n14"], "configs_thorough": ["n14"]}],
        "bounds": "0 to 4 variants, up to 5 alternatives and no value, 4 value categories (2 for some of four variants); all sets of up to 3 of 10 "
                  "callables with 14 argument types",
        "assumptions": ["the visitor returns the same type for all alternatives, as the standard demands"],
    },
    "C25": {
        "level": "exploration",
        "rule": "one evaluation per list of alternatives, argument type and value category: construction, assignment, implicit conversion "
                "and noexcept, compared with the rule spelt out in the harness and with the standard variant; distinct by list, argument and result",
        "units": [{"src": "c25.cpp", "parts": list(range(17)), "configs": ["q14", "q17"], "configs_thorough": ["q14", "q17", "q20"]}],
        "bounds": "all lists of 1 and 2 out of 22 types against 30 argument types (6 of them in all value categories), all lists of 3 out of 8 types "
                  "against these 8; 72 lists of 18",
        "assumptions": ["conversions that narrow inside of a constructor of the alternative do not count, as the library documents; the standard variant is "
                        "the reference where this makes no difference"],
    },
    "C26": {
        "level": "exploration",
        "rule": "one evaluation per operator, pair of states and answer of the value operator; distinct by state and result",
        "units": [{"src": "c26.cpp", "parts": [0], "configs": ["g14", "g17", "g20"], "configs_thorough": ["g14", "g17", "g20", "n14"]}],
        "bounds": "6 operators x all pairs of states of variants of 3 to 5 alternatives and of no value",
        "assumptions": ["operators that an alternative does not have are not required of the variant"],
    },
    "C27": {
        "level": "exploration",
        "rule": "one evaluation per text (and second text, or stream state) with all positions and counts, compared with the standard string view and the "
                "output of standard strings; distinct by texts and results",
        "units": [{"src": "c27.cpp", "parts": [0, 1, 2, 3], "configs": ["g14", "g17", "n14"], "configs_thorough": ["g14", "g17", "g20", "n14", "n20", "g14rel"]}],
        "bounds": "all texts up to 6 (second texts up to 5) characters of 3, all positions and counts up to the length + 1 and at the upper end; streams: "
                  "texts up to 3, widths up to 5, all adjustments and states, each number of characters the buffer takes before it refuses or throws; "
                  "pairs of texts of 20 lengths up to 70000 that differ at one place",
        "assumptions": ["the width kept by a stream whose buffer throws is left open"],
    },
    "C28": {
        "level": "exploration",
        "rule": "one evaluation per length and way to make the span with all sub-spans, per extent and length, and per pair of span types and extents; "
                "distinct by these",
        "units": [{"src": "c28.cpp", "parts": [0, 1], "configs": ["g14", "g20", "g14rel"], "configs_thorough": ["g14", "g17", "g20", "g14rel", "g20rel", "n14"]},
                  {"src": "c28.cpp", "parts": [3], "configs": ["g14rel"], "configs_thorough": ["g14rel", "g14", "g20"]},
                  {"src": "c28.cpp", "parts": [2], "configs": ["q14", "q20"], "configs_thorough": ["q14", "q17", "q20"]}],
        "bounds": "lengths up to 5, all offsets and counts up to the length + 1 and at the upper end, extents 0..3, 5 and dynamic, 9 element types against each "
                  "other; histories of 6 sub-span operations on 6 elements; lengths up to 70000 with static and dynamic extents",
        "assumptions": ["pointers to derived objects are accepted where the standard does not accept them"],
    },
    "C29": {
        "level": "exploration",
        "rule": "one evaluation per type, list of types or pair of types: the trait compared with direct evaluation and, from C++17 on, with the standard "
                "trait; distinct by types",
        "units": [{"src": "c29.cpp", "parts": [0, 1, 2, 3, 4], "configs": ["q14", "q17"], "configs_thorough": ["q14", "q17", "q20"]}],
        "bounds": "swap traits of 49 types; logic over all lists up to 3 of 6; searches over all lists up to 4 of 5 types with 7 predicates; conversions "
                  "between all pairs of 34 types in 3 value categories; best conversions of 10 types to all lists of 1 and 2, of 5 types to all lists of 3",
        "assumptions": [],
    },
    "C30": {
        "level": "exploration",
        "rule": "one evaluation per wrapper and combination of special members: 19 facts compared with the rule of the standard spelt out in the harness and, "
                "from C++17 on, with the standard wrapper; distinct by combination",
        "units": [{"src": "c30.cpp", "parts": list(range(11)), "configs": ["q14", "q17"], "configs_thorough": ["q14", "q17", "q20"]}],
        "bounds": "all 800 combinations of special members of one type, all pairs of 14 and all triples of 7 representatives",
        "assumptions": [],
    },
    "C31": {
        "level": "model_checking",
        "units": [{"src": "c31.cpp", "parts": [0, 1, 2, 3],
                   "configs": ["g14", "g17", "g20", "g14rel", "g20rel", "n14", "n17", "n20", "n14rel", "r14", "r17"]}],
        "bounds": "all histories up to the listed depth over two arrays, variants, functions, optionals, pointers, over one resource and over a mixture of them; "
                  "all texts up to 3 characters, all sub-spans of up to 5 elements; 11 builds",
        "assumptions": ["the largest size an array reports is left out where the standard resources do not state any",
                        "all builds are of one compiler"],
    },
    "C32": {
        "level": "fault_enumeration",
        "rule": "one execution per history and per set of refused requests; distinct by resulting state",
        "units": [{"src": "c32.cpp", "parts": [0], "configs": ["g14", "g20", "n14"], "configs_thorough": ["g14", "g17", "g20", "n14", "n20", "g14rel"]}],
        "bounds": "all histories up to the listed depth over two resources with the listed number of refusals, 5 sizes; 6 sizes of storage",
        "assumptions": ["the heap behaves as its interface says: it is replaced by a recording one, as the library itself is not available here"],
    },
}
