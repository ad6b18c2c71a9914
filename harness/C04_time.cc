//@ time=100,600
//# Integer tick conversions: universal ticks round-trip for every 64-bit value; milliseconds are exactly 10000 ticks.
//b ticks: all int64; milliseconds: all values whose tick count fits int64
#include "symx.h"
#include "cartographer/common/time.h"
using namespace cartographer;
extern "C" void symx_main() {
  const int64_t t = symx_i64("ticks");
  const common::Time time = common::FromUniversal(t);
  symx_assert(common::ToUniversal(time) == t, "universal ticks round trip");
  const int64_t u = symx_i64("ticks2");
  symx_assert((common::FromUniversal(t) < common::FromUniversal(u)) == (t < u), "time order is tick order");
  const int64_t ms = symx_range("ms", -922337203685477ll, 922337203685477ll);
  symx_assert(common::FromMilliseconds(ms).count() == ms * 10000, "a millisecond is 10000 ticks");
  symx_reach("all");
  symx_observe("ms", common::FromMilliseconds(ms).count());
}
