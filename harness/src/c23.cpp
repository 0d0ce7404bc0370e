// C23: a variant survives an alternative operation that throws.
#define MC_MAIN
#include "var.hpp"

using namespace mc;
using namespace mc::var;
namespace
{
constexpr unsigned kAll = kThrowCopy | kThrowMove | kThrowDef | kThrowAsgn;
using Nothrow   = Elem<kCopy | kSelf, 1>;
using NoMove    = Elem<kCopy | kSelf | kThrowCopy | kThrowDef | kThrowAsgn, 2>;  // only moves succeed for sure
using All       = Elem<kCopy | kAll, 3>;
using Conv      = V<Elem<kCopy | kThrowCopy | kThrowDef | kThrowAsgn, 6>, kAll>;
using ConvAll   = V<Elem<kCopy | kAll, 7>, kAll>;
#if PART == 0
MC_SCENARIO("throwing", 3, 2, 5, 2, (&scenario<World<void, 0, Nothrow, NoMove, All>>));
MC_SCENARIO("throwing-pair", 4, 2, 6, 3, (&scenario<World<void, 0, int, All>>));
#elif PART == 1
MC_SCENARIO("throwing-conversion", 4, 2, 6, 2, (&scenario<World<opt::W<kAll>, 1, int, Conv>>));
MC_SCENARIO("throwing-conversion-and-move", 4, 2, 6, 2, (&scenario<World<opt::W<kAll>, 1, Nothrow, ConvAll>>));
#elif PART == 2
MC_SCENARIO("throwing-move-only", 4, 2, 6, 3, (&scenario<World<void, 0, MoveOnly<kSelf | kAll, 4>, int>>));
MC_SCENARIO("throwing-copy-only", 4, 2, 6, 3, (&scenario<World<void, 0, CopyOnly<kCopy | kAll, 4>, monostate>>));
MC_SCENARIO("throwing-duplicates", 4, 2, 5, 2, (&scenario<World<void, 0, NoMove, All, NoMove>>));
#elif PART == 3
using BareNoMove = Bare<kCopy | kThrowCopy | kThrowDef | kThrowAsgn, 2>;
using BareAll    = Bare<kCopy | kAll, 3>;
using BareConv   = V<Bare<kCopy | kAll, 7>, kAll>;
MC_SCENARIO("throwing-bare", 3, 2, 5, 2, (&scenario<World<void, 0, int, BareNoMove, BareAll>>));
MC_SCENARIO("throwing-bare-pair", 4, 2, 6, 3, (&scenario<World<void, 0, int, BareAll>>));
MC_SCENARIO("throwing-bare-conversion", 4, 2, 6, 2, (&scenario<World<opt::W<kAll>, 1, int, BareConv>>));
MC_SCENARIO("throwing-half-bare", 4, 2, 6, 2, (&scenario<World<void, 0, Nothrow, BareAll>>));
#endif
}  // namespace
