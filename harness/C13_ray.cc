//@ time=250,850 parts=s:3;q:2 tparts=s:4;q:2;px:5 qtimeout=20000
//# A ray mask contains every pixel whose interior the segment crosses, only pixels the segment touches, no pixel twice, starts/ends at the end pixels and is connected.
//b subpixel scale 1 on 4x4 pixels, 2 and 3 on 3x3 pixels, end points anywhere (thorough: scales 1,2,3,5 on 5x4 pixels)
#include "symx.h"
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include <algorithm>
using namespace cartographer;
extern "C" void symx_main() {
  static const int scales[4] = {1, 2, 3, 5};
  const int s = scales[symx_choose("s", TIER ? 4 : 3)];
  const int W = TIER ? 5 : s == 1 ? 4 : 3, H = TIER ? 4 : s == 1 ? 4 : 3;
  const int q = symx_choose("q", 2);
  const int bx = symx_irange("bx", 0, W * s - 1), by = symx_irange("by", 0, H * s - 1);
#if TIER
  const int pxl = symx_choose("px", 5);
  symx_assume(bx / s == pxl);
#endif
  const int ex = symx_irange("ex", 0, W * s - 1), ey = symx_irange("ey", 0, H * s - 1);
  if (q) symx_assume(bx <= ex); else symx_assume(bx > ex);
  const auto mask = mapping::RayToPixelMask(Eigen::Array2i(bx, by), Eigen::Array2i(ex, ey), s);
  symx_assert(!mask.empty() && mask.size() <= (size_t)(W + H - 1), "mask size is bounded by the area crossed");
  // doubled subpixel-centre coordinates; pixel k spans [2 s k, 2 s (k + 1)]
  const int px = 2 * bx + 1, py = 2 * by + 1, qx = 2 * ex + 1, qy = 2 * ey + 1;
  const int lx = std::min(px, qx), hx = std::max(px, qx), ly = std::min(py, qy), hy = std::max(py, qy);
  const int dx = qx - px, dy = qy - py;
  bool all_in = true, exact = true;
  for (int cx = 0; cx < W; ++cx) for (int cy = 0; cy < H; ++cy) {
    const int x0 = 2 * s * cx, x1 = x0 + 2 * s, y0 = 2 * s * cy, y1 = y0 + 2 * s;
    const int c0 = dx * (y0 - py) - dy * (x0 - px), c1 = dx * (y0 - py) - dy * (x1 - px);
    const int c2 = dx * (y1 - py) - dy * (x0 - px), c3 = dx * (y1 - py) - dy * (x1 - px);
    const int mn = std::min(std::min(c0, c1), std::min(c2, c3)), mx = std::max(std::max(c0, c1), std::max(c2, c3));
    const bool point = (dx == 0) & (dy == 0);
    const bool box = (lx < x1) & (hx > x0) & (ly < y1) & (hy > y0);
    const bool interior = box & (point | ((mn < 0) & (mx > 0)));
    const bool touch = (lx <= x1) & (hx >= x0) & (ly <= y1) & (hy >= y0) & (mn <= 0) & (mx >= 0);
    int count = 0;
    for (const auto& p : mask) count += (p.x() == cx) & (p.y() == cy);
    exact = exact & (!interior | (count >= 1)) & ((count == 0) | touch) & (count <= 1);
  }
  for (const auto& p : mask) all_in = all_in & (p.x() >= 0) & (p.x() < W) & (p.y() >= 0) & (p.y() < H);
  symx_assert(all_in, "mask stays within the pixels spanned by the end points");
  symx_assert(exact, "mask is exactly the set of crossed pixels");
  const auto f = mask.front(), l = mask.back();
  const bool fwd = (f.x() == bx / s) & (f.y() == by / s) & (l.x() == ex / s) & (l.y() == ey / s);
  const bool bwd = (l.x() == bx / s) & (l.y() == by / s) & (f.x() == ex / s) & (f.y() == ey / s);
  symx_assert(fwd | bwd, "mask runs between the two end pixels");
  for (size_t i = 1; i < mask.size(); ++i) {
    const int ax = mask[i].x() - mask[i - 1].x(), ay = mask[i].y() - mask[i - 1].y();
    symx_assert((ax >= -1) & (ax <= 1) & (ay >= -1) & (ay <= 1), "consecutive mask pixels are neighbours");
  }
  symx_observe("n", mask.size());
  symx_reach("end");
}
