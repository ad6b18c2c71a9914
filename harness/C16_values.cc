//@ time=200,800 parts=k:4;c:2
//# Signed distances and weights are stored in 16 bits: values clamp to the configured range, encoding is monotone, decoding and re-encoding is the identity on stored values, the error is at most half a step, the update marker does not change the decoded value and unknown decodes to the smallest distance and no weight.
//b two configurations (0.3 m / 10 and 2.5 m / 1000); all floats for the encoders, all 65536 stored values for the decoders
#include "symx.h"
#include "cartographer/mapping/internal/2d/tsd_value_converter.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int k = symx_choose("k", 4), c = symx_choose("c", 2);
  const float d = c ? 2.5f : 0.3f, w = c ? 1000.f : 10.f;
  ValueConversionTables tables;
  const TSDValueConverter conv(d, w, &tables);
  symx_assert(conv.getMaxTSD() == d && conv.getMinTSD() == -d && conv.getMaxWeight() == w && conv.getMinWeight() == 0.f, "the configured range is used");
  if (k == 0) {
    const float t = symx_f32("t");
    symx_assume(t == t);
    const uint16 a = conv.TSDToValue(t), b = conv.WeightToValue(t);
    symx_assert(a >= 1 && a <= 32767 && b >= 1 && b <= 32767, "stored values are in 1..32767");
    symx_assert(!(t <= -d) || a == 1, "distances at or below the lower bound are stored as 1");
    symx_assert(!(t >= d) || a == 32767, "distances at or above the upper bound are stored as 32767");
    symx_assert(!(t <= 0.f) || b == 1, "no weight is stored as 1");
    symx_assert(!(t >= w) || b == 32767, "the largest weight is stored as 32767");
  } else if (k == 1) {
    const float x = symx_f32_range("x", -3.f, 3.f), y = symx_f32_range("y", -3.f, 3.f);
    symx_assume(x <= y);
    symx_assert(conv.TSDToValue(x) <= conv.TSDToValue(y), "distance encoding is monotone");
    symx_assert(conv.WeightToValue(x) <= conv.WeightToValue(y), "weight encoding is monotone");
  } else if (k == 2) {
    const uint16 v = symx_u16("v");
    const float t = conv.ValueToTSD(v), g = conv.ValueToWeight(v);
    symx_assert(t >= -d - 1e-6f && t <= d + 1e-6f && g >= 0.f && g <= w * 1.00001f, "decoded values are in range");
    symx_assert(conv.ValueToTSD(v & 32767) == t && conv.ValueToWeight(v & 32767) == g, "the update marker does not change the decoded value");
    if ((v & 32767) == 0) symx_assert(t == -d && g == 0.f, "unknown decodes to the smallest distance and no weight");
    else symx_assert(conv.TSDToValue(t) == (v & 32767) && conv.WeightToValue(g) == (v & 32767), "decoding and re-encoding is the identity");
  } else {
    // half a step of error on a raster finer than the steps
    const int i = symx_irange("i", 0, TIER ? 60000 : 8000);
    const float t = -d + 2.f * d * i / (TIER ? 60000.f : 8000.f), g = w * i / (TIER ? 60000.f : 8000.f);
    const double e = (double)conv.ValueToTSD(conv.TSDToValue(t)) - t, f = (double)conv.ValueToWeight(conv.WeightToValue(g)) - g;
    symx_assert(e <= 0.51 * 2. * d / 32766. && e >= -0.51 * 2. * d / 32766., "distances are stored to half a step");
    symx_assert(f <= 0.51 * w / 32766. && f >= -0.51 * w / 32766., "weights are stored to half a step");
  }
  symx_reach("end");
}
