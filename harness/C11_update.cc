//@ time=200,700 parts=n:3
//# A cell is updated at most once per update cycle whatever the order of observations; the first observation wins; after the cycle a new observation applies again; other cells are untouched.
//b 2x2 grid, 3 observations (thorough 4) on any cells with hit or miss in any order, followed by a second cycle
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int nobs = 1 + symx_choose("n", 3) + (TIER ? 1 : 0);
  ValueConversionTables tables;
  ProbabilityGrid grid(MapLimits(1., Eigen::Vector2d(2., 2.), CellLimits(2, 2)), &tables);
  const auto hit = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.62f));
  const auto miss = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.4f));
  int value[4] = {0, 0, 0, 0};
  // one cell is known from before
  const int pre = symx_choose("pre", 2);
  if (pre) { grid.SetProbability(Eigen::Array2i(1, 0), 0.7f); value[1] = CorrespondenceCostToValue(1.f - 0.7f); }
  for (int cycle = 0; cycle < 2; ++cycle) {
    int upd[4] = {0, 0, 0, 0};
    for (int i = 0; i < (cycle ? 1 : nobs); ++i) {
      const int c = symx_choose("cell", 4);
      const bool h = symx_bool("hit");
      bool did;
      if (h) did = grid.ApplyLookupTable(Eigen::Array2i(c % 2, c / 2), hit); else did = grid.ApplyLookupTable(Eigen::Array2i(c % 2, c / 2), miss);
      symx_assert(did == !upd[c], "a cell accepts exactly one update per cycle");
      if (!upd[c]) { value[c] = (h ? hit[value[c]] : miss[value[c]]) - 32768; upd[c] = 1; }
    }
    grid.FinishUpdate();
    for (int c = 0; c < 4; ++c) {
      const Eigen::Array2i ix(c % 2, c / 2);
      symx_assert(grid.IsKnown(ix) == (value[c] != 0), "exactly the observed cells are known");
      symx_assert(grid.GetCorrespondenceCost(ix) == ValueToCorrespondenceCost(value[c]), "cell holds the first update of the cycle applied to its old value");
      symx_assert(grid.GetProbability(ix) == 1.f - ValueToCorrespondenceCost(value[c]), "probability is the complement of the cost");
    }
    const auto p = grid.ToProto();
    for (int c = 0; c < 4; ++c) symx_assert(p.cells(c) == value[c], "no update marker survives the cycle");
  }
  symx_reach("end");
}
