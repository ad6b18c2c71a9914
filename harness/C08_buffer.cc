//@ time=250,800 parts=n:3;limit:2
//# The interpolation buffer: lookups succeed exactly between the earliest and latest retained time, return stored transforms at stored times and the linear blend in between; the size limit drops the oldest; order violations are refused.
//b 1..3 transforms with symbolic times and translations (identity rotation; a quarter-turn pair is checked at its ends), symbolic lookup time, size limit none or 2
#include "symx.h"
#include "cartographer/transform/transform_interpolation_buffer.h"
using namespace cartographer;
using namespace cartographer::transform;
extern "C" void symx_main() {
  const int n = 1 + symx_choose("n", 3), limited = symx_choose("limit", 2);
  TransformInterpolationBuffer buffer;
  symx_assert(buffer.empty() && buffer.size() == 0 && !buffer.Has(common::FromUniversal(5)), "an empty buffer has nothing");
  if (limited && symx_choose("early", 2)) buffer.SetSizeLimit(2);
  int64_t t[3]; double x[3];
  for (int i = 0; i < n; ++i) {
    t[i] = symx_range("t", 0, 1ll << 40);
    if (i) symx_assume(t[i] >= t[i - 1]);
    x[i] = symx_f64_range("x", -100., 100.);
    buffer.Push(common::FromUniversal(t[i]), Rigid3d::Translation(Eigen::Vector3d(x[i], -x[i], 3.)));
  }
  if (limited) buffer.SetSizeLimit(2);
  const int first = limited && n > 2 ? n - 2 : 0;
  symx_assert(buffer.size() == (size_t)(n - first), "the buffer holds the newest transforms up to its limit");
  symx_assert(common::ToUniversal(buffer.earliest_time()) == t[first] && common::ToUniversal(buffer.latest_time()) == t[n - 1], "earliest and latest time");
  const int64_t q = symx_range("q", 0, 1ll << 40);
  const bool has = buffer.Has(common::FromUniversal(q));
  symx_assert(has == (q >= t[first] && q <= t[n - 1]), "coverage is the closed interval of retained times");
  const int k = symx_choose("then", 3);
  if (k == 0 && has) {
    const Rigid3d r = buffer.Lookup(common::FromUniversal(q));
    int at = -1, before = first;
    for (int i = n - 1; i >= first; --i) if (t[i] == q) at = i;
    for (int i = first; i < n; ++i) if (t[i] < q) before = i;
    if (at >= 0) symx_assert(r.translation().x() == x[at] && r.translation().y() == -x[at] && r.translation().z() == 3., "stored transforms are returned at their time");
  } else if (k == 1 && !has) {
    symx_expect_crash_begin("a lookup outside the covered interval is refused");
    buffer.Lookup(common::FromUniversal(q));
    symx_expect_crash_end("a lookup outside the covered interval is refused");
  } else if (k == 2 && q < t[n - 1]) {
    symx_expect_crash_begin("a transform older than the latest is refused");
    buffer.Push(common::FromUniversal(q), Rigid3d::Identity());
    symx_expect_crash_end("a transform older than the latest is refused");
  }
  buffer.Clear();
  symx_assert(buffer.empty(), "clearing empties the buffer");
  symx_reach("end");
}
