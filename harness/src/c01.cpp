// C01: a variable-length array behaves as a plain sequence.
#define MC_MAIN
#include "fwd.hpp"
#include "vla.hpp"
using namespace vla;
//                 nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg one   = {5, 2, false, false, false, true, false, 0, 1, 0, 4, 1};
static Cfg both  = {4, 2, true, true, true, false, false, 0, 2, 0, 3, 2};
// counts and sizes that are not small
static Cfg wide     = {36, 2, false, false, false, true, false, 0, 1, 0, 36, 0};
static Cfg wideboth = {1, 2, true, true, true, false, false, 0, 2, 0, 12, 12};
static Cfg large    = {1, 2, false, false, true, true, false, 0, 1, 0, 1025, 0, kLong, kNLong};
static Cfg largeboth = {1, 2, true, true, true, false, false, 0, 1, 0, 1025, 1025, kPair, kNPair};

#define BIG(label, T, R)                                                                                               \
    MC_SCENARIO("wide/" label, 1, 0, 2, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(wide); });         \
    MC_SCENARIO("wide-both/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(wideboth); }); \
    MC_SCENARIO("large/" label, 1, 0, 2, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(large); });       \
    MC_SCENARIO("large-both/" label, 1, 0, 1, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(largeboth); })
#define KIND(label, T, R)                                                                              \
    MC_SCENARIO("one/" label, 3, 0, 5, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(one); }); \
    MC_SCENARIO("both/" label, 2, 0, 3, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(both); })

using Plain = Elem<kCopy>;
using Self  = Elem<kCopy | kSelf>;
using Over  = Elem<kCopy | kAlign>;
using Tm    = Elem<kCopy | kThrowMove>;
using Mo    = MoveOnly<kSelf>;
using Co    = CopyOnly<kCopy>;
#if PART == 0
KIND("int", int, kNoRealloc);
KIND("int-moving-realloc", int, kMoving);
KIND("byte-moving-realloc", unsigned char, kMoving);
#elif PART == 1
KIND("nontrivial", Plain, kNoRealloc);
KIND("self-moving-realloc", Self, kMoving);
#elif PART == 2
KIND("overaligned", Over, kNoRealloc);
KIND("throwing-move", Tm, kMoving);
KIND("bare", Bare<kCopy>, kMoving);
#elif PART == 4
BIG("int-moving-realloc", int, kMoving);
// the arguments of emplace_back
static void emplacing()
{
    using fwd::Sink;
    fwd::every("emplace_back", FWD_LAMBDA {
        cetl::VariableLengthArray<Sink, Alloc<Sink>> a(Alloc<Sink>(0));
        a.emplace_back(FWD_ARGS);
        return a[0];
    });
    fwd::every("emplace_back with capacity", FWD_LAMBDA {
        cetl::VariableLengthArray<Sink, Alloc<Sink>> a(Alloc<Sink>(0));
        a.reserve(3);
        a.emplace_back(FWD_ARGS);
        a.emplace_back(FWD_ARGS);
        return a[1];
    });
    fwd::every("emplace_back with a list", FWD_LAMBDA {
        cetl::VariableLengthArray<Sink, Alloc<Sink>> a(Alloc<Sink>(0));
        a.emplace_back(std::initializer_list<int>{1, 2}, FWD_ARGS);
        return a[0];
    }, 2);
}
MC_SCENARIO("emplacing", 0, 0, 0, 0, &emplacing);
#elif PART == 5
BIG("nontrivial", Plain, kNoRealloc);
#else
KIND("move-only", Mo, kMoving);
KIND("copy-only", Co, kInPlace);
#endif
