// C07: builds without exceptions: running out of memory or over the limit has a defined, contained effect.
#define MC_MAIN
#include "vla.hpp"
using namespace vla;
//                 nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg one   = {4, 1, false, false, false, true, true, 4, 1, 0, 3, 0};
static Cfg both  = {3, 2, true, true, true, false, false, 0, 2, 0, 3, 2};
static Cfg lim   = {3, 1, true, true, true, false, true, 2, 2, 0, 2, 2};
static Cfg bone  = {10, 1, false, false, false, false, true, 10, 1, 0, 9, 0};
static Cfg bboth = {9, 2, true, true, true, false, false, 0, 2, 0, 9, 9};
static Cfg wide  = {18, 1, false, false, false, true, false, 0, 1, 0, 18, 0};
static Cfg wideboth = {1, 1, true, true, true, false, false, 0, 2, 0, 7, 7};

using Plain = Elem<kCopy | kSelf>;
using Mo    = MoveOnly<kSelf>;
using Co    = CopyOnly<kCopy>;
#define KIND(label, T, ONE, BOTH, LIM, Ca, Ma, R)                                                             \
    MC_SCENARIO("one/" label, 2, 1, 3, 2, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(ONE); });   \
    MC_SCENARIO("both/" label, 2, 1, 3, 1, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(BOTH); });  \
    MC_SCENARIO("wide/" label, 1, 1, 1, 1, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(wide); }); \
    MC_SCENARIO("wide-both/" label, 1, 1, 1, 1, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(wideboth); }); \
    MC_SCENARIO("limits/" label, 1, 2, 2, 2, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(LIM); })
#if PART == 0
KIND("int", int, one, both, lim, false, false, kMoving);
KIND("int-propagating", int, one, both, lim, true, true, kNoRealloc);
#elif PART == 1
KIND("nontrivial", Plain, one, both, lim, false, false, kMoving);
KIND("move-only", Mo, one, both, lim, false, false, kNoRealloc);
#else
KIND("copy-only", Co, one, both, lim, true, false, kInPlace);
MC_SCENARIO("one/bits", 1, 1, 2, 2, [] { run_world<bool, Alloc<bool, false, false, false, false, kNoRealloc>>(bone); });
MC_SCENARIO("both/bits", 1, 1, 2, 1, [] { run_world<bool, Alloc<bool, false, false, false, false, kNoRealloc>>(bboth); });
MC_SCENARIO("both/bits-realloc", 1, 1, 2, 1, [] { run_world<bool, Alloc<bool, false, true, true, false, kMoving>>(bboth); });
#endif
