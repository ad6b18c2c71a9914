//@ time=300,850 parts=free:2;o:3;sub:2 tparts=free:2;o:3;a:7
//# A whole scan of two returns and an echo without return: cells of returns are updated as hit once however many returns and rays touch them, the other cells crossed by rays as free once, everything else keeps its content; the grid grows as needed and keeps what it knew.
//b row of 3 cells of 1 m with any stored values, origin in any of them; two returns and optionally one missing echo in a row of 7 cells reaching beyond both ends of the grid, two sub-cell positions each
#include "grid2d.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
// world cell w covers x in [w, w + 1); the grid starts with w = 0, 1, 2
extern "C" void symx_main() {
  const bool free_space = symx_choose("free", 2);
  const int origin = symx_choose("o", 3);
  proto::ProbabilityGridRangeDataInserterOptions2D options;
  options.set_hit_probability(0.62); options.set_miss_probability(0.4);
  options.set_insert_free_space(free_space);
  ProbabilityGridRangeDataInserter2D inserter(options);
  ValueConversionTables* tables = FilledTables();
  const auto hit = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.62f));
  const auto miss = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.4f));
  const int a = symx_choose("a", 7) - 2, b = symx_choose("b", 7) - 2;
  const int e = symx_choose("echo", TIER ? 8 : 4);
  const int sub = symx_choose("sub", TIER ? 3 : 2);
  const bool has_echo = e > 0; const int echo = TIER ? e - 3 : e == 1 ? -1 : e == 2 ? 1 : 4;
  int value[3]; value[0] = symx_irange("v", 0, 32767); value[1] = symx_irange("v", 0, 32767); value[2] = symx_irange("v", 0, 32767);
  int stored[3] = {value[2], value[1], value[0]};  // indices run against the axes
  ProbabilityGrid grid(MakeGridProto(1, 3, 1., 3., 1., stored), tables);
  sensor::RangeData data;
  data.origin = Eigen::Vector3f(origin + 0.55f, 0.45f, 0.f);
  data.returns.push_back({Eigen::Vector3f(a + 0.35f, 0.55f, 0.f)});
  data.returns.push_back({Eigen::Vector3f(b + (sub == 1 ? 0.35f : 0.8f), sub == 1 ? 0.55f : 0.3f, 0.f)});
  if (has_echo) data.misses.push_back({Eigen::Vector3f(echo + (sub == 2 ? 0.35f : 0.6f), sub == 2 ? 0.55f : 0.5f, 0.f)});
  inserter.Insert(data, &grid);
  const auto p = grid.ToProto();
  for (int w = -2; w < 5; ++w) {
    const int old = w < 0 || w > 2 ? 0 : value[w];
    const Eigen::Array2i at = grid.limits().GetCellIndex(Eigen::Vector2f(w + 0.5f, 0.5f));
    auto crossed = [&](int end) { return w >= std::min(origin, end) && w <= std::max(origin, end); };
    const bool is_hit = w == a || w == b;
    const bool is_free = free_space && (crossed(a) || crossed(b) || (has_echo && crossed(echo)));
    if (!grid.limits().Contains(at)) {
      symx_assert((w < 0 || w > 2) && !is_hit && !is_free, "the grid grows to hold the scan and keeps what it held");
      continue;
    }
    const int now = p.cells(at.y() * p.limits().cell_limits().num_x_cells() + at.x());
    if (is_hit) symx_assert(now == hit[old] - 32768, "the cell of a return is updated as hit exactly once");
    else if (is_free) symx_assert(now == miss[old] - 32768, "a cell crossed by rays is updated as free exactly once");
    else symx_assert(now == old, "cells off the rays keep their content");
    symx_assert(grid.IsKnown(at) == (now != 0), "known cells are those with a value");
  }
  // nothing off the row of the scan becomes known
  for (int x = 0; x < p.limits().cell_limits().num_x_cells(); ++x) for (int y = 0; y < p.limits().cell_limits().num_y_cells(); ++y)
    if (grid.limits().GetCellCenter(Eigen::Array2i(x, y)).y() < 0.f || grid.limits().GetCellCenter(Eigen::Array2i(x, y)).y() > 1.f)
      symx_assert(!grid.IsKnown(Eigen::Array2i(x, y)), "cells off the rays stay unknown");
  symx_reach("end");
}
