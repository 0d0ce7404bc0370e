// C20: an optional survives a value operation that throws.
#define MC_MAIN
#include "opt.hpp"

using namespace mc;
using namespace mc::opt;
namespace
{
constexpr unsigned kAll = kThrowCopy | kThrowMove | kThrowDef | kThrowAsgn;
#if PART == 0
MC_SCENARIO("throwing", 5, 2, 8, 3, &scenario<Kind<V<Elem<kCopy | kSelf | kAll>, kAll>, W<kAll>, true, true>>);
MC_SCENARIO("throwing-std-swap", 5, 2, 8, 3, &scenario<Kind<VS<Elem<kCopy | kSelf | kAll>, kAll>, W<kAll>, true, true>>);
MC_SCENARIO("throwing-bare", 5, 2, 8, 3, &scenario<Kind<V<Bare<kCopy | kAll>, kAll>, W<kAll>, true, true>>);
MC_SCENARIO("throwing-bare-std-swap", 5, 2, 8, 3, &scenario<Kind<VS<Bare<kCopy | kAll>, kAll>, W<kAll>, true, true>>);
MC_SCENARIO("throwing-bare-copy", 5, 2, 8, 3, &scenario<Kind<V<Bare<kCopy | kThrowCopy | kThrowAsgn>>, W<0>, true, true>>);
#elif PART == 1
MC_SCENARIO("throwing-move-only", 5, 2, 8, 3, &scenario<Kind<V<MoveOnly<kSelf | kAll>, kAll>, W<kAll>, true, true>>);
MC_SCENARIO("throwing-copy-only", 5, 2, 8, 3, &scenario<Kind<V<CopyOnly<kCopy | kAll>, kAll>, W<kAll>, false, true>>);
MC_SCENARIO("throwing-copy", 5, 2, 8, 3, &scenario<Kind<V<Elem<kCopy | kThrowCopy | kThrowAsgn>>, W<0>, true, true>>);
#endif
}  // namespace
