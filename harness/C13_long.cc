//@ time=250,850 parts=x:2;up:2 tparts=x:3;up:2 qtimeout=20000
//# Long rays (products beyond 32 bits): the pixels of each column are exactly the ones the segment crosses.
//b subpixel scale 100000, horizontal extent fixed per part (3, 5; thorough 9 pixels), all sub-pixel heights of both end points within 2 (thorough 3) pixel rows
#include "symx.h"
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include <algorithm>
using namespace cartographer;
extern "C" void symx_main() {
  const int64_t s = 100000;
  static const int64_t exs[3] = {312345, 554321, 999999};
  const int64_t bx = 12345, ex = exs[symx_choose("x", TIER ? 3 : 2)];
  const int H = TIER ? 3 : 2, W = ex / s + 1;
  const bool up = symx_choose("up", 2);
  const int by = symx_irange("by", 0, H * s - 1), ey = symx_irange("ey", 0, H * s - 1);
  if (up) symx_assume(by < ey); else symx_assume(by >= ey);
  const auto mask = mapping::RayToPixelMask(Eigen::Array2i(bx, by), Eigen::Array2i(ex, ey), s);
  symx_assert(!mask.empty() && mask.size() <= (size_t)(W + H - 1), "long mask size is bounded");
  const int64_t dx = 2 * (ex - bx), dy = 2 * ((int64_t)ey - by), py = 2 * (int64_t)by + 1, px = 2 * bx + 1, qx = 2 * ex + 1;
  bool exact = true;
  for (int cx = 0; cx < W; ++cx) for (int cy = 0; cy < H; ++cy) {
    // height of the segment over the column, times dx
    const int64_t x0 = std::max<int64_t>(2 * s * cx, px), x1 = std::min<int64_t>(2 * s * (cx + 1), qx);
    const int64_t h0 = py * dx + dy * (x0 - px), h1 = py * dx + dy * (x1 - px);
    const int64_t lo = up ? h0 : h1, hi = up ? h1 : h0;
    const int64_t y0 = 2 * s * cy * dx, y1 = 2 * s * (cy + 1) * dx;
    const bool interior = (lo < y1) & (hi > y0), touch = (lo <= y1) & (hi >= y0);
    int count = 0;
    for (const auto& p : mask) count += (p.x() == cx) & (p.y() == cy);
    exact = exact & (!interior | (count >= 1)) & ((count == 0) | touch) & (count <= 1);
  }
  symx_assert(exact, "long mask is exactly the set of crossed pixels");
  symx_observe("n", mask.size());
  symx_reach("end");
}
