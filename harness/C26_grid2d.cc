//@ time=250,800 parts=shape:6;width:4
//# Every cell of a precomputed 2D grid holds the maximum of the map over the width x width window starting there, for windows inside, across and outside the border; with width 1 it is the map itself, quantised to 8 bits; scores are between the smallest and largest possible.
//b maps of 1x1 to 4x1, 2x2 and 3x2 cells, every cell independently one of four values (unknown, smallest cost, an intermediate one, largest cost) chosen symbolically, window widths 1..4, all window positions
#include "grid2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
extern "C" void symx_main() {
  const int shape = symx_choose("shape", 6), width = 1 + symx_choose("width", 4);
  static const int X[6] = {1, 4, 1, 2, 3, 2}, Y[6] = {1, 1, 4, 2, 2, 3};
  const int nx = X[shape], ny = Y[shape];
  auto* tables = FilledTables();
  int value[6], level[6];
  for (int i = 0; i < nx * ny; ++i) {
    const int v = symx_irange("cell", 0, 3);
    value[i] = StoredValue(v); level[i] = StoredLevel(v);
  }
  ProbabilityGrid grid(MakeGridProto(nx, ny, 0.5, 1., 2., value), tables);
  std::vector<float> reusable;
  const PrecomputationGrid2D pre(grid, grid.limits().cell_limits(), width, &reusable);
  for (int x = -width; x <= nx; ++x) for (int y = -width; y <= ny; ++y) {
    int best = 0;
    for (int u = x; u < x + width; ++u) for (int v = y; v < y + width; ++v)
      if (u >= 0 && u < nx && v >= 0 && v < ny) best = level[v * nx + u] > best ? level[v * nx + u] : best;
    symx_assert(pre.GetValue(Eigen::Array2i(x, y)) == best, "a precomputed cell is the maximum of its window");
  }
  const int far[] = {-1000000, -7, 9, 1000000};
  for (int a : far) for (int b : far) symx_assert(pre.GetValue(Eigen::Array2i(a, b)) == 0, "outside the map the bound is the smallest score");
  const float lo = pre.ToScore(0), hi = pre.ToScore(255);
  symx_assert(lo >= 0.0999f && lo <= 0.1001f && hi >= 0.8999f && hi <= 0.9001f, "scores span the range of probabilities");
  symx_reach("end");
}
