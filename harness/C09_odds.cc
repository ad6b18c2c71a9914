//@ time=250,800 parts=k:3 tparts=k:3
//# Odds tables: every entry marks the cell as updated, stays in range, moves the probability in the direction of the observation, and is monotone in the old value.
//b k=0,1: tables for the default hit/miss probabilities, all 32768 cell values symbolic; k=2: symbolic odds in [0.01, 100] on a set of cell values
#include "symx.h"
#include "cartographer/mapping/probability_values.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int k = symx_choose("k", 3);
  if (k < 2) {
    const float p = k ? 0.49f : 0.55f;
    const auto t = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(p));
    const auto u = ComputeLookupTableToApplyOdds(Odds(p));
    symx_assert(t.size() == 32768 && u.size() == 32768, "table covers every cell value");
    const uint16 v = symx_u16("v");
    symx_assume(v < 32768);
    symx_assert(t[v] > 32768 && u[v] > 32768, "an updated cell is marked and known");
    const uint16 a = t[v] - 32768, b = u[v] - 32768;
    if (v == 0) {
      symx_assert(a == CorrespondenceCostToValue(1.f - p) && b == ProbabilityToValue(p), "an unknown cell takes the observed probability");
    } else {
      symx_assert(k ? a >= v : a <= v, "cost moves in the direction of the observation");
      symx_assert(k ? b <= v : b >= v, "probability moves in the direction of the observation");
      if (v < 32767) symx_assert(t[v] <= t[v + 1] && u[v] <= u[v + 1], "the update preserves the order of cells");
      const int d = (int)a + (int)u[32768 - v] - 65536;
      symx_assert(d >= -1 && d <= 1, "cost and probability tables describe the same update");
    }
    symx_observe("a", a); symx_observe("b", b);
  } else {
    const float odds = symx_f32_range("odds", 0.01f, 100.f);
    const int cells[6] = {0, 1, 9000, 16384, 25000, 32767};
    const auto t = ComputeLookupTableToApplyCorrespondenceCostOdds(odds);
    for (int i = 0; i < 6; ++i) {
      const int c = cells[i];
      symx_assert(t[c] > 32768, "every entry is marked and known for any odds");
      if (c) symx_assert(odds >= 1.f ? t[c] - 32768 <= c + 1 : t[c] - 32768 >= c - 1, "any odds move the cost in their direction");
    }
  }
  symx_reach("end");
}
