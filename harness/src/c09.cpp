// C09: an unbounded variant uses its memory resource correctly, also when memory runs out.
#define MC_MAIN
#include "uv.hpp"
#include "uvwide.hpp"
using namespace uv;
//                    types first vals recr alias peek
static Cfg all     = {3, 1, 1, true, true, false};
static Cfg history = {2, 1, 2, false, true, false};
#define KIND(label, F, K, A)                                                                    \
    MC_SCENARIO("all/" label, 5, 2, 9, 3, [] { run_world<Profile<F, K, A, true, 0>>(all); });   \
    MC_SCENARIO("history/" label, 5, 2, 9, 3, [] { run_world<Profile<F, K, A, true, 0>>(history); })
#if PART == 0
KIND("pmr", 0, kFull, 16);
KIND("pmr-move-only", 0, kMoveOnly, 8);
#elif PART == 1
KIND("pmr-copy-only", 0, kCopyOnly, 64);
KIND("pmr-pinned", 0, kPinned, 16);
#elif PART == 2
KIND("mixed", 16, kFull, 8);
KIND("mixed-move-only", 15, kMoveOnly, 16);
#elif PART == 4
MC_SCENARIO("sizes/pmr", 0, 0, 0, 0, (&wide::Wide<0, true, true, true>::run));
MC_SCENARIO("sizes/pmr-copy-only", 0, 0, 0, 0, (&wide::Wide<0, true, false, true>::run));
#elif PART == 5
MC_SCENARIO("sizes/mixed", 0, 0, 0, 0, (&wide::Wide<256, true, true, true>::run));
MC_SCENARIO("sizes/mixed-copy-only", 0, 0, 0, 0, (&wide::Wide<1000, true, false, true>::run));
MC_SCENARIO("sizes/mixed-move-only", 0, 0, 0, 0, (&wide::Wide<64, false, true, true>::run));
#else
KIND("mixed-copy-only", 48, kCopyOnly, 16);
KIND("mixed-pinned", 47, kPinned, 16);
#endif
