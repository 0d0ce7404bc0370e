// C03: memory and element lifetimes stay balanced over every history.
#define MC_MAIN
#include "vla.hpp"
using namespace vla;
//                 nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg both  = {3, 1, true, true, true, false, false, 0, 2, 0, 3, 2};
static Cfg deep  = {6, 1, false, false, false, true, true, 6, 1, 0, 5, 0};
static Cfg wide     = {20, 1, false, false, false, true, true, 20, 1, 0, 20, 0};
static Cfg wideboth = {1, 1, true, true, true, false, false, 0, 2, 0, 9, 9};
static Cfg large    = {1, 1, false, false, true, true, false, 0, 1, 0, 1025, 0, kFew, kNFew};

using Plain = Elem<kCopy>;
using Big   = Elem<kCopy | kBig>;
using Self  = Elem<kCopy | kSelf | kAlign>;
using Mo    = MoveOnly<kSelf>;
using Co    = CopyOnly<kCopy | kSelf>;
#define KIND(label, T, Ca, Ma, R)                                                             \
    MC_SCENARIO("deep/" label, 3, 0, 4, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(deep); }); \
    MC_SCENARIO("wide/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(wide); }); \
    MC_SCENARIO("wide-both/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(wideboth); }); \
    MC_SCENARIO("large/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(large); }); \
    MC_SCENARIO("both/" label, 2, 0, 3, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(both); })
#if PART == 0
KIND("plain", Plain, false, false, kNoRealloc);
KIND("big-realloc", Big, true, true, kMoving);
KIND("bare", Bare<kCopy>, false, false, kMoving);
#elif PART == 1
KIND("self-aligned", Self, false, true, kMoving);
KIND("move-only", Mo, false, false, kNoRealloc);
#else
KIND("copy-only", Co, true, false, kInPlace);
KIND("int-realloc", int, false, false, kMoving);
#endif
