//@ time=250,800 parts=kind:4;dir:4
//# Inserting a scan into a signed-distance grid: cells on the ray within the truncation distance around the return get their signed distance to it (positive towards the sensor), with free-space insertion also the cells before; repeated scans give the weighted mean, the weight grows up to the maximum, other cells are unchanged; returns closer than the truncation distance are ignored; rays of any slope stay inside the grown grid.
//b 1 m cells, truncation 2 m, rays along the four axes from a fixed origin to a symbolic distance (raster 0.25 m, up to 7.5 m) and symbolic height (raster 1 m, +-4 m), with and without free space, second scan at a symbolic distance, maximum weight 1.5 or 10
#include "symx.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
static bool Near(double a, double b, double t) { const double e = a - b; return (e <= t) & (e >= -t); }
static double Clamped(double v) { return v < -2. ? -2. : v > 2. ? 2. : v; }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 4), dir = symx_choose("dir", 4);
  const bool free_space = kind == 1 || kind == 3, twice = kind >= 2;
  mapping::proto::TSDFRangeDataInserterOptions2D options;
  options.set_truncation_distance(2.); options.set_maximum_weight(kind == 3 ? 1.5 : 10.);
  options.set_update_free_space(free_space);
  TSDFRangeDataInserter2D inserter(options);
  ValueConversionTables tables;
  TSDF2D grid(MapLimits(1., Eigen::Vector2d(8., 8.), CellLimits(16, 16)), 2.f, kind == 3 ? 1.5f : 10.f, &tables);
  static const double DX[4] = {1, -1, 0, 0}, DY[4] = {0, 0, 1, -1};
  // the origin is the centre of a cell
  const double ox = 0.5, oy = -0.5;
  double d[2] = {0, 0};
  for (int s = 0; s < (twice ? 2 : 1); ++s) {
    const int i = twice ? symx_irange("d", 9, 29) : symx_irange("d", 5, 30), zi = twice ? 0 : symx_irange("z", -4, 4);
    d[s] = 0.25 * i + 0.0625;
    sensor::RangeData data;
    data.origin = Eigen::Vector3f(ox, oy, 0.5f);
    const float x = DX[dir] != 0 ? (float)(ox + DX[dir] * d[s]) : (float)ox, y = DY[dir] != 0 ? (float)(oy + DY[dir] * d[s]) : (float)oy;
    data.returns.push_back({Eigen::Vector3f(x, y, 0.5f + zi)});
    inserter.Insert(data, &grid);
  }
  for (int k = -3; k <= 12; ++k) {
    const Eigen::Vector2f at(ox + DX[dir] * k, oy + DY[dir] * k);
    const Eigen::Array2i c = grid.limits().GetCellIndex(at);
    const bool in = grid.limits().Contains(c);
    const double tsd = grid.GetTSD(c), weight = grid.GetWeight(c);
    double sum = 0, n = 0; bool open = false;
    for (int s = 0; s < (twice ? 2 : 1); ++s) {
      if (d[s] < 2.) continue;
      // a cell reaches half a metre around its centre
      const bool on = (k - 0.5 < d[s] + 2.) & (k + 0.5 > (free_space ? 0. : d[s] - 2.));
      sum += on ? Clamped(d[s] - k) : 0.; n += on ? 1 : 0;
    }
    const double cap = kind == 3 ? 1.5 : 10.;
    if (k < 0) symx_assert(n == 0 && weight == 0., "cells behind the sensor are untouched");
    const double want = n > cap ? cap : n;
    symx_assert(Near(weight, want, 4e-4), "each ray through a cell adds one unit of weight up to the maximum");
    if (in & (n > 0.5)) symx_assert(Near(tsd, n > 1.5 ? sum / 2. : sum, 4e-4), "the distance is the mean signed distance to the returns");
    // neighbours off the ray
    const Eigen::Array2i side = grid.limits().GetCellIndex(Eigen::Vector2f(at.x() + DY[dir], at.y() + DX[dir]));
    symx_assert(grid.GetWeight(side) == 0.f, "cells off the ray are untouched");
  }
  symx_reach("end");
}
