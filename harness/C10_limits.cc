//@ time=200,700 parts=k:3;r:3 exttimeout=60
//# Cell addressing: the centre of every cell maps back to that cell, every point lies within half a cell of the centre of its cell (up to float rounding), membership is exactly the index rectangle.
//b resolutions 0.05, 0.1, 1 (float-representable corner offsets), |corner| <= 100 m, |index| <= 1000
#include "symx.h"
#include "cartographer/mapping/2d/map_limits.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  static const double res[3] = {0.05, 0.1, 1.};
  const int k = symx_choose("k", 3);
  const double r = res[symx_choose("r", 3)];
  const double mx = symx_f64_range("max_x", -100., 100.), my = symx_f64_range("max_y", -100., 100.);
  const int nx = symx_irange("nx", 1, 1000), ny = symx_irange("ny", 1, 1000);
  const MapLimits limits(r, Eigen::Vector2d(mx, my), CellLimits(nx, ny));
  if (k == 0) {
    const int ix = symx_irange("ix", -1000, 1000), iy = symx_irange("iy", -1000, 1000);
    const Eigen::Array2i back = limits.GetCellIndex(limits.GetCellCenter(Eigen::Array2i(ix, iy)));
    symx_assert(back.x() == ix, "cell centre maps back to its cell (x)");
    symx_assert(back.y() == iy, "cell centre maps back to its cell (y)");
  } else if (k == 1) {
    const float px = symx_f32_range("px", -100.f, 100.f), py = symx_f32_range("py", -100.f, 100.f);
    const Eigen::Array2i c = limits.GetCellIndex(Eigen::Vector2f(px, py));
    // the cell spans max - r * (index + {0, 1})
    const double x1 = mx - r * c.y(), y1 = my - r * c.x(), e = 1e-9;
    symx_assert(px <= x1 + e && px >= x1 - r - e, "a point lies in its cell (x)");
    symx_assert(py <= y1 + e && py >= y1 - r - e, "a point lies in its cell (y)");
  } else {
    const int ix = symx_i32("ix"), iy = symx_i32("iy");
    symx_assert(limits.Contains(Eigen::Array2i(ix, iy)) == (ix >= 0 && ix < nx && iy >= 0 && iy < ny), "membership is the index rectangle");
    const MapLimits copy(ToProto(limits));
    symx_assert(copy.resolution() == r && copy.max().x() == mx && copy.max().y() == my && copy.cell_limits().num_x_cells == nx && copy.cell_limits().num_y_cells == ny, "limits survive serialization");
  }
  symx_reach("end");
}
