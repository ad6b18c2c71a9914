//@ time=250,800 parts=nx:3;ny:2 tparts=nx:4;ny:3
//# Growing a grid to a symbolic point keeps the value and knowledge of every cell at its position in the world, adds only unknown cells, keeps resolution and alignment, and ends with the point inside.
//b grids of 1-3 x 1-2 cells (thorough 1-4 x 1-3), any subset of known cells with any values, point within 8 m of a 1 m grid (several doublings); resolution 1 and 0.05
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int nx = 1 + symx_choose("nx", TIER ? 4 : 3), ny = 1 + symx_choose("ny", TIER ? 3 : 2);
  const double r = symx_choose("res", 2) ? 0.05 : 1.;
  ValueConversionTables tables;
  const Eigen::Vector2d max0(3. * r, -2. * r);
  ProbabilityGrid grid(MapLimits(r, max0, CellLimits(nx, ny)), &tables);
  const float px = symx_f32_range("px", -6.f * (float)r, 8.f * (float)r), py = symx_f32_range("py", -8.f * (float)r, 5.f * (float)r);
  // a symbolic known cell plus a fixed one
  const int sx = symx_choose("sx", nx), sy = symx_choose("sy", ny);
  const float p0 = 0.3f;
  grid.SetProbability(Eigen::Array2i(sx, sy), p0);
  const bool second = (sx != nx - 1 || sy != ny - 1) && symx_choose("second", 2);
  if (second) grid.SetProbability(Eigen::Array2i(nx - 1, ny - 1), 0.7f);
  float cost[4][3]; bool known[4][3];
  for (int x = 0; x < nx; ++x) for (int y = 0; y < ny; ++y) {
    cost[x][y] = grid.GetCorrespondenceCost(Eigen::Array2i(x, y));
    known[x][y] = grid.IsKnown(Eigen::Array2i(x, y));
    symx_assert(known[x][y] == ((x == sx && y == sy) || (second && x == nx - 1 && y == ny - 1)), "exactly the set cells are known");
  }
  Eigen::Array2i off0; CellLimits crop0;
  grid.ComputeCroppedLimits(&off0, &crop0);
  const Eigen::Vector2f point(px, py);
  grid.GrowLimits(point);
  const MapLimits& l = grid.limits();
  symx_assert(l.Contains(l.GetCellIndex(point)), "the point is inside after growing");
  symx_assert(l.resolution() == r, "resolution is unchanged");
  const int NX = l.cell_limits().num_x_cells, NY = l.cell_limits().num_y_cells;
  // old cells keep their position in the world
  const Eigen::Array2i o = l.GetCellIndex(Eigen::Vector2f(max0.x() - 0.5 * r, max0.y() - 0.5 * r));
  const double ex = l.max().x() - r * o.y() - max0.x(), ey = l.max().y() - r * o.x() - max0.y();
  symx_assert(ex < 1e-6 * r && ex > -1e-6 * r && ey < 1e-6 * r && ey > -1e-6 * r, "the cell raster stays aligned with the old one");
  symx_assert(o.x() >= 0 && o.y() >= 0 && o.x() + nx <= NX && o.y() + ny <= NY, "the old area is contained in the new one");
  for (int x = 0; x < NX; ++x) for (int y = 0; y < NY; ++y) {
    const int ax = x - o.x(), ay = y - o.y();
    const bool old = ax >= 0 && ay >= 0 && ax < nx && ay < ny;
    symx_assert(grid.IsKnown(Eigen::Array2i(x, y)) == (old && known[ax][ay]), "only previously known cells are known");
    if (old) symx_assert(grid.GetCorrespondenceCost(Eigen::Array2i(x, y)) == cost[ax][ay], "cell values stay at their world position");
  }
  Eigen::Array2i off; CellLimits crop;
  grid.ComputeCroppedLimits(&off, &crop);
  symx_assert(off.x() == off0.x() + o.x() && off.y() == off0.y() + o.y() && crop.num_x_cells == crop0.num_x_cells && crop.num_y_cells == crop0.num_y_cells, "the known area moves with the cells");
  symx_observe("n", NX * 1000 + NY);
  symx_reach("end");
}
