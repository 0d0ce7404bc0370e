// C04: a failing allocation or element operation at any point of any history.
#define MC_MAIN
#include "vla.hpp"
using namespace vla;
//                 nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg one   = {4, 1, false, false, false, true, false, 0, 1, 0, 3, 0};
static Cfg both  = {3, 2, true, true, true, false, false, 0, 2, 0, 3, 2};
static Cfg wide  = {18, 1, false, false, false, true, false, 0, 1, 0, 18, 0};
static Cfg wideboth = {1, 1, true, true, true, false, false, 0, 2, 0, 7, 7};

using ThrowAll  = Elem<kCopy | kThrowCopy | kThrowMove | kThrowDef>;
using ThrowCopy = Elem<kCopy | kThrowCopy | kThrowDef | kSelf>;
using ThrowAsgn = Elem<kCopy | kThrowAsgn>;
using MoThrow   = MoveOnly<kThrowMove | kThrowDef>;
using Co        = CopyOnly<kCopy | kThrowCopy>;
using Plain     = Elem<kCopy>;
#define KIND(label, T, Ca, Ma, R)                                                             \
    MC_SCENARIO("one/" label, 2, 1, 3, 2, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(one); }); \
    MC_SCENARIO("both/" label, 2, 1, 3, 1, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(both); }); \
    MC_SCENARIO("wide/" label, 1, 1, 1, 1, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(wide); }); \
    MC_SCENARIO("wide-both/" label, 1, 1, 1, 1, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(wideboth); }); \
    MC_SCENARIO("two-faults/" label, 1, 2, 2, 3, [] { run_world<T, Alloc<T, false, Ca, Ma, false, R>>(both); })
#if PART == 0
KIND("throw-all", ThrowAll, false, false, kNoRealloc);
KIND("throw-all-realloc", ThrowAll, true, true, kMoving);
#elif PART == 1
KIND("throw-copy", ThrowCopy, false, false, kNoRealloc);
KIND("throw-copy-inplace", ThrowCopy, true, false, kInPlace);
#elif PART == 2
KIND("throw-assign", ThrowAsgn, false, false, kMoving);
KIND("copy-only", Co, false, true, kNoRealloc);
#elif PART == 4
using BareAll  = Bare<kCopy | kThrowCopy | kThrowMove | kThrowDef>;
using BareCopy = Bare<kCopy | kThrowCopy | kThrowDef>;
KIND("bare-all", BareAll, false, false, kNoRealloc);
KIND("bare-copy", BareCopy, true, true, kMoving);
#else
KIND("move-only-throw", MoThrow, false, false, kMoving);
KIND("plain", Plain, true, true, kMoving);
KIND("int", int, false, false, kMoving);
KIND("bits", bool, false, false, kNoRealloc);
#endif
