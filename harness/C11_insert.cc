//@ time=300,850 parts=ox:2;hx:3 tparts=ox:3;hx:3;hy:3
//# Inserting a scan: the cell of every return becomes more occupied than before, cells strictly between origin and return are observed free exactly once, the origin cell and nothing off the rays changes; hits win over rays that pass through them.
//b 1 m grid of 3x3 cells, one return per scan in any cell with one coordinate symbolic within the cell, origin in 2 (thorough 3) cells, prior unknown or known, free-space insertion on and off
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
static float Coord(const char* n, double top, int cell) { return symx_f32_range(n, (float)(top - cell - 0.9), (float)(top - cell - 0.1)); }
extern "C" void symx_main() {
  const int oc = symx_choose("ox", TIER ? 3 : 2), hx = symx_choose("hx", 3), hy = symx_choose("hy", 3);
  proto::ProbabilityGridRangeDataInserterOptions2D options;
  options.set_hit_probability(0.7); options.set_miss_probability(0.4);
  const bool free_space = symx_choose("free", 2);
  options.set_insert_free_space(free_space);
  ProbabilityGridRangeDataInserter2D inserter(options);
  ValueConversionTables tables;
  ProbabilityGrid grid(MapLimits(1., Eigen::Vector2d(3., 3.), CellLimits(3, 3)), &tables);
  const bool prior = symx_choose("prior", 2);
  if (prior) for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) grid.SetProbability(Eigen::Array2i(x, y), 0.5f);
  static const int ocx[3] = {0, 1, 2}, ocy[3] = {0, 1, 0};
  // cell (x, y) covers world y in 3 - x - {0,1} and world x in 3 - y - {0,1}
  sensor::RangeData data;
  // the fixed coordinates sit at 0.55 / 0.35 of their cell
  const bool vertical = symx_choose("axis", 2);
  data.origin = Eigen::Vector3f(3.f - ocy[oc] - 0.55f, 3.f - ocx[oc] - 0.55f, 0.f);
  const float v = Coord("hit", 3., vertical ? hx : hy);
  data.returns.push_back({Eigen::Vector3f(vertical ? 3.f - hy - 0.35f : v, vertical ? v : 3.f - hx - 0.35f, 0.f)});
  const float before = ValueToCorrespondenceCost(prior ? CorrespondenceCostToValue(0.5f) : 0);
  inserter.Insert(data, &grid);
  symx_assert(grid.limits().cell_limits().num_x_cells == 3 && grid.limits().cell_limits().num_y_cells == 3, "a scan inside the grid does not grow it");
  const auto hit = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.7f));
  const auto miss = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.4f));
  const int v0 = prior ? CorrespondenceCostToValue(0.5f) : 0;
  const float hc = ValueToCorrespondenceCost(hit[v0]), mc = ValueToCorrespondenceCost(miss[v0]);
  for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) {
    const float c = grid.GetCorrespondenceCost(Eigen::Array2i(x, y));
    const bool known = grid.IsKnown(Eigen::Array2i(x, y));
    if (x == hx && y == hy) { symx_assert(c == hc, "the cell of a return is updated as hit"); continue; }
    const bool between = x >= std::min(hx, ocx[oc]) && x <= std::max(hx, ocx[oc]) && y >= std::min(hy, ocy[oc]) && y <= std::max(hy, ocy[oc]);
    if (!free_space || !between) symx_assert(c == before && known == prior, "cells off the ray are untouched");
    else if (x == ocx[oc] && y == ocy[oc]) symx_assert(c == mc, "the cell of the sensor is observed free");
    else if (hx == ocx[oc] || hy == ocy[oc]) symx_assert(c == mc, "cells on a straight ray are observed free");
    else symx_assert(c == mc || (c == before && known == prior), "cells near the ray are either observed free or untouched");
  }
  symx_reach("end");
}
