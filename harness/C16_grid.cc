//@ time=250,800 parts=grow:5;crop:2
//# A signed-distance grid stores distance and weight of each cell once per update, keeps both at their place when the grid grows, and crops and serialises without losing a known cell; unknown cells and cells outside have the smallest distance and no weight.
//b 3x2 cells, two cells set with symbolic distance and weight (on a raster reaching beyond the limits), a second write in the same and in the next update, growth in four directions, then crop or serialisation
#include "symx.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
static bool Near(double a, double b, double t) { const double e = a - b; return (e <= t) & (e >= -t); }
static double Clamped(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
extern "C" void symx_main() {
  const int grow = symx_choose("grow", 5), crop = symx_choose("crop", 2);
  ValueConversionTables tables;
  std::unique_ptr<TSDF2D> grid(new TSDF2D(MapLimits(0.5, Eigen::Vector2d(1., 2.), CellLimits(3, 2)), 0.3f, 10.f, &tables));
  // raster of 0.04 m and 1.5: reaches beyond the limits
  const int i1 = symx_irange("tsd", -10, 10), i2 = symx_irange("weight", -1, 8);
  const float t1 = i1 * 0.04f, w1 = i2 * 1.5f;
  const Eigen::Array2i a(1, 0), b(2, 1);
  grid->SetCell(a, t1, w1);
  symx_assert(grid->CellIsUpdated(a) && !grid->CellIsUpdated(b), "a set cell counts as updated");
  grid->SetCell(a, 0.2f, 5.f);   // ignored
  grid->SetCell(b, -0.1f, 2.f);
  grid->FinishUpdate();
  symx_assert(!grid->CellIsUpdated(a) && !grid->CellIsUpdated(b), "finishing an update clears the markers");
  const double ta = Clamped(t1, -0.3, 0.3), wa = Clamped(w1, 0., 10.);
  auto check = [&](const TSDF2D& g, const char* what) {
    // world positions of the two cells
    const Eigen::Array2i ca = g.limits().GetCellIndex(Eigen::Vector2f(0.75f, 1.25f)), cb = g.limits().GetCellIndex(Eigen::Vector2f(0.25f, 0.75f));
    symx_assert(g.limits().Contains(ca) && g.limits().Contains(cb) && g.IsKnown(ca) && g.IsKnown(cb), what);
    symx_assert(Near(g.GetTSD(ca), ta, 2e-5) && Near(g.GetWeight(ca), wa, 4e-4), what);
    symx_assert(g.GetTSDAndWeight(ca).first == g.GetTSD(ca) && g.GetTSDAndWeight(ca).second == g.GetWeight(ca), "distance and weight agree with the pair");
    symx_assert(Near(g.GetTSD(cb), -0.1, 2e-5) && Near(g.GetWeight(cb), 2., 4e-4), what);
    int known = 0;
    for (const Eigen::Array2i& c : XYIndexRangeIterator(g.limits().cell_limits())) {
      if (g.IsKnown(c)) { ++known; continue; }
      symx_assert(Near(g.GetTSD(c), -0.3, 1e-6) && g.GetWeight(c) == 0.f, "an unknown cell has the smallest distance and no weight");
    }
    symx_assert(known == 2, "only set cells are known");
    const Eigen::Array2i out(-1, 0);
    symx_assert(Near(g.GetTSD(out), -0.3, 1e-6) && g.GetWeight(out) == 0.f && g.GetTSDAndWeight(out).second == 0.f, "outside there is no information");
  };
  check(*grid, "a cell keeps the first value of an update");
  if (grow) {
    static const float X[5] = {0, 2.1f, -1.3f, 0.5f, 0.5f}, Y[5] = {0, 1.f, 1.f, 3.3f, -2.4f};
    grid->GrowLimits(Eigen::Vector2f(X[grow], Y[grow]));
    symx_assert(grid->limits().Contains(grid->limits().GetCellIndex(Eigen::Vector2f(X[grow], Y[grow]))), "growing includes the point");
    check(*grid, "growing keeps distance and weight at their place");
  }
  const mapping::proto::Grid2D p = grid->ToProto();
  symx_assert(p.has_tsdf_2d() && p.tsdf_2d().weight_cells_size() == p.cells_size(), "serialisation has a weight per cell");
  const TSDF2D loaded(p, &tables);
  check(loaded, "serialisation keeps every cell");
  if (crop) {
    const std::unique_ptr<Grid2D> c = grid->ComputeCroppedGrid();
    symx_assert(c->limits().cell_limits().num_x_cells == 2 && c->limits().cell_limits().num_y_cells == 2, "cropping leaves the bounding box of known cells");
    check(static_cast<const TSDF2D&>(*c), "cropping keeps every known cell");
  }
  // the next update may change the cell
  const Eigen::Array2i ca = grid->limits().GetCellIndex(Eigen::Vector2f(0.75f, 1.25f));
  grid->SetCell(ca, 0.2f, 5.f);
  symx_assert(Near(grid->GetTSD(ca), 0.2, 2e-5) && Near(grid->GetWeight(ca), 5., 4e-4), "the next update changes the cell");
  symx_reach("end");
}
