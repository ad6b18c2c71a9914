//@ time=100,600 parts=k:4
//# Seconds conversions: whole ticks survive ToSeconds/FromSeconds to within one tick, conversion is monotone, exact sign and whole seconds exact.
//b |duration| < 2^24 ticks quick (2^31 thorough) for the round trip; |seconds| <= 2^20 for monotonicity
#include "symx.h"
#include "cartographer/common/time.h"
#include <cmath>
using namespace cartographer;
extern "C" void symx_main() {
  const int k = symx_choose("k", 4);
  const int64_t B = TIER ? (1ll << 31) : (1ll << 24);
  if (k == 0) {
    const int64_t t = symx_range("t", -B, B);
    const int64_t r = common::FromSeconds(common::ToSeconds(common::Duration(t))).count();
    symx_assert(r - t >= -1 && r - t <= 1, "ticks to seconds and back within one tick");
    symx_assert(r == t || (t > 0 && r == t - 1) || (t < 0 && r == t + 1), "rounding is toward zero");
  } else if (k == 1) {
    const int64_t s = symx_range("s", -(1ll << 30), 1ll << 30);
    symx_assert(common::FromSeconds((double)s).count() == s * 10000000ll, "whole seconds are exact");
  } else if (k == 2) {
    const double a = symx_f64_range("a", -1e6, 1e6), b = symx_f64_range("b", -1e6, 1e6);
    symx_assume(a <= b);
    symx_assert(common::FromSeconds(a) <= common::FromSeconds(b), "conversion from seconds is monotone");
  } else {
    const int64_t s = symx_range("s", -(1ll << 29), 1ll << 29);
    symx_assert(common::ToSeconds(common::Duration(s * 10000000ll)) == (double)s, "whole seconds of ticks convert exactly");
    const double ns = common::ToSeconds(std::chrono::nanoseconds(s * 10000000ll)), e = ns - (double)s * 0.01;
    symx_assert(e >= -1e-6 && e <= 1e-6, "steady clock durations convert to within a microsecond");
  }
  symx_reach("end");
}
