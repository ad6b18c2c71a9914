//@ time=150,800
//# The sampler's output after every pulse: #samples is the smallest count with samples/pulses >= ratio, for every ratio in [0,1].
//b pulses 6 quick / 12 thorough; ratio: every double in [0,1]
#include "symx.h"
#include "cartographer/common/fixed_ratio_sampler.h"
using namespace cartographer;
extern "C" void symx_main() {
  if (symx_choose("refuse", 2)) {
    const double bad = symx_f64("bad");
    symx_assume(bad < 0. || bad > 1.);
    symx_expect_crash_begin("a ratio outside [0, 1] is refused");
    common::FixedRatioSampler sampler(bad);
    symx_expect_crash_end("a ratio outside [0, 1] is refused");
    return;
  }
  const double ratio = symx_f64_range("ratio", 0., 1.);
  common::FixedRatioSampler sampler(ratio);
  int samples = 0;
  const int N = TIER ? 12 : 6;
  for (int i = 1; i <= N; ++i) {
    if (sampler.Pulse()) ++samples;
    const double got = (double)samples / i;
    symx_assert(got >= ratio, "kept fraction never below the ratio");
    symx_assert(samples == 0 || (double)(samples - 1) / i < ratio, "kept count exceeds the ratio by less than one sample");
  }
  symx_assert(ratio != 0. || samples == 0, "ratio 0 drops everything");
  symx_assert(ratio != 1. || samples == N, "ratio 1 keeps everything");
  symx_observe("samples", samples);
}
