// C10: an unbounded variant contains failures of the values it stores.
#define MC_MAIN
#include "uv.hpp"
using namespace uv;
//                    types first vals recr alias peek
static Cfg all     = {3, 1, 1, true, true, false};
static Cfg history = {2, 1, 2, false, true, false};
#define KIND(label, F, K, A, Pmr)                                                                        \
    MC_SCENARIO("all/" label, 5, 2, 9, 3, [] { run_world<Profile<F, K, A, Pmr, kThrowing>>(all); });     \
    MC_SCENARIO("history/" label, 5, 2, 9, 3, [] { run_world<Profile<F, K, A, Pmr, kThrowing>>(history); })
#if PART == 0
KIND("inside", 96, kFull, 16, false);
KIND("inside-move-only", 96, kMoveOnly, 8, false);
#elif PART == 1
KIND("inside-copy-only", 128, kCopyOnly, 64, false);
KIND("inside-pinned", 96, kPinned, 16, false);
#elif PART == 2
KIND("pmr", 0, kFull, 16, true);
KIND("pmr-move-only", 0, kMoveOnly, 8, true);
#elif PART == 3
KIND("pmr-copy-only", 0, kCopyOnly, 16, true);
KIND("pmr-pinned", 0, kPinned, 64, true);
#elif PART == 4
KIND("mixed", 16, kFull, 16, true);
KIND("mixed-move-only", 48, kMoveOnly, 16, true);
#else
KIND("mixed-copy-only", 24, kCopyOnly, 8, true);
KIND("mixed-pinned", 16, kPinned, 16, true);
#endif
