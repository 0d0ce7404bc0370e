// C05: allocator propagation.
#define MC_MAIN
#include "vla.hpp"
using namespace vla;
//                 nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg both  = {3, 1, true, true, true, false, false, 0, 2, 0, 3, 3};
static Cfg lims  = {3, 1, true, true, true, false, true, 3, 2, 0, 3, 3};
static Cfg bits  = {9, 1, true, true, true, false, false, 0, 2, 0, 9, 9};
/// allocators 0 and 1 have different identities but compare equal
static Cfg wide  = {1, 1, true, true, false, false, false, 0, 2, 0, 20, 20};
static Cfg large = {1, 1, true, true, false, false, false, 0, 2, 0, 1025, 1025, kPair, kNPair};
template <typename T, typename A>
static void run_equal(const Cfg& c)
{
    tr().equal_class[1] = tr().equal_class[0];
    run_world<T, A>(c);
}
using Plain = Elem<kCopy | kSelf>;
using Mo    = MoveOnly<kSelf>;
#define COMBO(label, Ca, Ma, Cc)                                                                                       \
    MC_SCENARIO("wide/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, Cc, kNoRealloc>>(wide); });         \
    MC_SCENARIO("large/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, Cc, kNoRealloc>>(large); });       \
    COMBO_(label, Ca, Ma, Cc)
#define COMBO_(label, Ca, Ma, Cc)                                                                                       \
    MC_SCENARIO("unequal/" label, 1, 0, 3, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, Cc, kNoRealloc>>(CFG); });       \
    MC_SCENARIO("limits/" label, 1, 0, 2, 0, [] { run_world<T, Alloc<T, false, Ca, Ma, Cc, kNoRealloc>>(LIM); });        \
    MC_SCENARIO("equal/" label, 1, 0, 2, 0, [] { run_equal<T, Alloc<T, false, Ca, Ma, Cc, kMoving>>(CFG); });            \
    MC_SCENARIO("always-equal/" label, 1, 0, 2, 0, [] { run_equal<T, Alloc<T, true, Ca, Ma, Cc, kNoRealloc>>(CFG); })
#if PART < 2
using T = int;
#define CFG both
#define LIM lims
#elif PART < 4
using T = Plain;
#define CFG both
#define LIM lims
#elif PART < 6
using T = Mo;
#define CFG both
#define LIM lims
#else
using T = bool;
#define CFG bits
#define LIM bits
#endif
#if PART % 2 == 0
COMBO("none", false, false, false);
COMBO("copy", true, false, false);
COMBO("move", false, true, false);
COMBO("copy+move", true, true, false);
#else
COMBO("select", false, false, true);
COMBO("copy+select", true, false, true);
COMBO("move+select", false, true, true);
COMBO("copy+move+select", true, true, true);
#endif
