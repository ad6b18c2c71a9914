//@ time=150,600 parts=k:4
//# Angle normalisation and helpers.
//b |angle difference| <= 7.5*pi (double); clamp over all values; degrees/radians within 1e-9 relative for |x| <= 1e6; squares over all doubles; rounding for |x| < 2^31
#include "symx.h"
#include "cartographer/common/math.h"
#include <cmath>
using namespace cartographer;
extern "C" void symx_main() {
  const int k = symx_choose("k", 4);
  const double kPi = M_PI;
  if (k == 0) {
    const double d = symx_f64_range("d", -7.5 * M_PI, 7.5 * M_PI);
    const double n = common::NormalizeAngleDifference(d);
    symx_assert(n >= -kPi && n <= kPi, "normalised angle lies in [-pi, pi]");
    if (d >= -kPi && d <= kPi) { symx_assert(n == d, "angles already in range are unchanged"); symx_reach("in range"); }
    // one of d + 2 pi m, m in -4..4, up to rounding
    bool any = false;
    for (int m = -4; m <= 4; ++m) { const double e = n - (d + m * (2. * kPi)); if (e > -1e-12 && e < 1e-12) any = true; }
    symx_assert(any, "normalised angle differs by a multiple of 2 pi");
    symx_observe_d("n", n);
  } else if (k == 1) {
    const double v = symx_f64("v"), lo = symx_f64("lo"), hi = symx_f64("hi");
    symx_assume(lo <= hi && v == v);
    const double c = common::Clamp(v, lo, hi);
    symx_assert(c >= lo && c <= hi, "clamped value in range");
    symx_assert((v < lo) ? c == lo : (v > hi ? c == hi : c == v), "clamp picks nearest");
    const int iv = symx_i32("iv"), il = symx_i32("il"), ih = symx_i32("ih");
    symx_assume(il <= ih);
    const int ic = common::Clamp(iv, il, ih);
    symx_assert(ic >= il && ic <= ih && ((iv < il) ? ic == il : (iv > ih ? ic == ih : ic == iv)), "integer clamp");
  } else if (k == 3) {
    const double x = symx_f64_range("x", -1e6, 1e6);
    const double r = common::DegToRad(x), b = common::RadToDeg(r), e = b - x;
    symx_assert(e <= 1e-9 && e >= -1e-9, "degrees to radians and back");
    symx_assert(common::DegToRad(180.) == kPi && common::RadToDeg(kPi) == 180., "half a turn is 180 degrees");
    symx_assert((x >= 0.) == (r >= 0.) || r == 0., "sign is kept");
    const int n = symx_irange("n", -30000, 30000);
    symx_assert(common::Pow2(n) == n * n && common::Power(n, 1) == n && common::Power(n, 0) == 1, "integer powers");
    const int s = symx_irange("s", -1000, 1000);
    symx_assert(common::Power(s, 3) == s * s * s, "cubes");
    const double q = symx_f64_range("q", -2147483647., 2147483646.);
    const int qr = common::RoundToInt(q);
    symx_assert(qr - q <= 0.5 && qr - q >= -0.5, "rounding picks a nearest integer");
    symx_observe("qr", (uint64_t)qr);
  } else {
    const float d = symx_f32_range("d", -7.5f * (float)M_PI, 7.5f * (float)M_PI);
    const float n = common::NormalizeAngleDifference(d);
    symx_assert(n >= -(float)M_PI && n <= (float)M_PI, "normalised float angle lies in [-pi, pi]");
  }
  symx_reach("end");
}
