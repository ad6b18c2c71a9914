//@ time=250,800 parts=set:4;grow:4;mode:3
//# The window of known cells after any short history of setting, updating and growing: it is the tight bounding box, nothing known is cut off, and the cropped grid is the same map.
//b 2x2 start grid of 0.5 m cells, any cell set or updated, growth to any of 4 points (up to three doublings, both directions), then another update of any cell of the grown grid and optionally a second growth; updates with 16 adjacent stored values (all values: C12_crop); observed values 1..16 and 20000..20015
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
static void Check(const ProbabilityGrid& grid, int known) {
  const CellLimits& n = grid.limits().cell_limits();
  int lx = n.num_x_cells, hx = -1, ly = n.num_y_cells, hy = -1, count = 0;
  for (int x = 0; x < n.num_x_cells; ++x) for (int y = 0; y < n.num_y_cells; ++y) if (grid.IsKnown(Eigen::Array2i(x, y))) {
    lx = std::min(lx, x); hx = std::max(hx, x); ly = std::min(ly, y); hy = std::max(hy, y); ++count;
  }
  symx_assert(count == known, "as many known cells as were observed");
  Eigen::Array2i offset; CellLimits limits;
  grid.ComputeCroppedLimits(&offset, &limits);
  symx_assert(offset.x() == lx && offset.y() == ly && limits.num_x_cells == hx - lx + 1 && limits.num_y_cells == hy - ly + 1, "cropped limits are the tight bounding box");
  const std::unique_ptr<Grid2D> cropped = grid.ComputeCroppedGrid();
  symx_assert(cropped->limits().resolution() == grid.limits().resolution(), "cropping keeps the resolution");
  symx_assert(cropped->limits().max().x() == grid.limits().max().x() - 0.5 * offset.y() && cropped->limits().max().y() == grid.limits().max().y() - 0.5 * offset.x(), "cropped grid keeps its place in the world");
  for (int x = 0; x < limits.num_x_cells; ++x) for (int y = 0; y < limits.num_y_cells; ++y) {
    const Eigen::Array2i at(x, y), from(x + offset.x(), y + offset.y());
    symx_assert(cropped->IsKnown(at) == grid.IsKnown(from), "cropping keeps which cells are known");
    symx_assert(cropped->GetCorrespondenceCost(at) == grid.GetCorrespondenceCost(from), "cropping keeps every cell value");
  }
  const proto::Grid2D p = grid.ToProto();
  symx_assert(p.has_known_cells_box() && p.known_cells_box().min_x() == lx && p.known_cells_box().max_x() == hx && p.known_cells_box().min_y() == ly && p.known_cells_box().max_y() == hy, "the serialized window is tight");
}
extern "C" void symx_main() {
  const int set = symx_choose("set", 4), grow = symx_choose("grow", 4), mode = symx_choose("mode", 3);
  ValueConversionTables tables;
  ProbabilityGrid grid(MapLimits(0.5, Eigen::Vector2d(1., 1.), CellLimits(2, 2)), &tables);
  int v = symx_irange("v", 0, 15); v += mode == 2 ? 1 : 20000;
  const Eigen::Array2i first(set & 1, set >> 1);
  std::vector<uint16> table;
  for (int i = 0; i < kUpdateMarker; ++i) table.push_back(kUpdateMarker + (i ? i : v));
  if (mode == 1) grid.SetProbability(first, 0.7f);
  else { grid.ApplyLookupTable(first, table); grid.FinishUpdate(); }
  const float value = grid.GetProbability(first);
  const Eigen::Vector2f world = grid.limits().GetCellCenter(first);
  Check(grid, 1);
  static const float kPoint[4][2] = {{1.3f, 0.3f}, {-2.6f, 0.9f}, {0.2f, 2.4f}, {-0.4f, -3.7f}};
  grid.GrowLimits(Eigen::Vector2f(kPoint[grow][0], kPoint[grow][1]));
  Check(grid, 1);
  symx_assert(grid.GetProbability(grid.limits().GetCellIndex(world)) == value, "the cell keeps its value at its place");
  // one more observation at a corner or the centre of the grown grid
  const CellLimits n = grid.limits().cell_limits();
  const int second = symx_choose("second", 3);
  const Eigen::Array2i next = second == 0 ? Eigen::Array2i(0, 0) : second == 1 ? Eigen::Array2i(n.num_x_cells - 1, n.num_y_cells - 1) : Eigen::Array2i(n.num_x_cells / 2, 0);
  const int known = grid.IsKnown(next) ? 1 : 2;
  symx_assert(grid.ApplyLookupTable(next, table), "a cell can be updated after growing");
  grid.FinishUpdate();
  Check(grid, known);
  if (symx_choose("again", 2) && n.num_x_cells <= 8) { grid.GrowLimits(Eigen::Vector2f(0.2f, -40.f * 0.125f)); Check(grid, known); }
  symx_reach("end");
}
