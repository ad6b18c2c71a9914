//@ time=250,800 parts=a:3;b:6 tparts=a:7;b:8
//# The sparse voxel grid behaves as a total map with default value: writes are seen at exactly the written index, also across growth; nothing else changes.
//b a write at any of 32 boundary cells, a second write and a read at any cell of an 8^3 block chosen from 7 (thorough 8) blocks: around 0, at the edges, and beyond the initial extent, growing up to four (thorough five) times, any 16-bit values
#include "symx.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
static const int kBlock[8][3] = {{0, 0, 0}, {-1, -1, 0}, {7, -8, 0}, {8, 0, 0}, {-9, 3, 8}, {16, 0, -17}, {75, -2, 0}, {-3, -130, 1}};
static Eigen::Array3i At(const char* n, int block) {
  return Eigen::Array3i(kBlock[block][0] * 8 + symx_irange(n, 0, 7), kBlock[block][1] * 8 + symx_irange(n, 0, 7), kBlock[block][2] * 8 + symx_irange(n, 0, 7));
}
static Eigen::Array3i Corner(const char* n, int block) {
  return Eigen::Array3i(kBlock[block][0] * 8 + 7 * symx_irange(n, 0, 1), kBlock[block][1] * 8 + 7 * symx_irange(n, 0, 1), kBlock[block][2] * 8 + symx_irange(n, 0, 7));
}
static bool Eq(const Eigen::Array3i& a, const Eigen::Array3i& b) { return (a.x() == b.x()) & (a.y() == b.y()) & (a.z() == b.z()); }
extern "C" void symx_main() {
  const int ba = symx_choose("a", TIER ? 7 : 3), bb = TIER ? symx_choose("b", 8) : 1 + symx_choose("b", 6);
  HybridGridBase<uint16> grid(0.1f);
  const Eigen::Array3i a = Corner("ai", ba), b = At("bi", bb);
  const uint16 va = symx_u16("va"), vb = symx_u16("vb");
  symx_assert(grid.value(a) == 0 && grid.value(b) == 0, "an empty grid is default everywhere");
  *grid.mutable_value(a) = va;
  symx_assert(grid.value(a) == va, "a write is read back");
  *grid.mutable_value(b) = vb;
  symx_assert(grid.value(b) == vb, "a second write is read back");
  symx_assert(grid.value(a) == (Eq(a, b) ? vb : va), "writing one cell leaves another unchanged");
  const int bc = symx_choose("c", 3);
  const Eigen::Array3i c = At("ci", bc == 0 ? ba : bc == 1 ? bb : (ba + 1) % 7);
  const uint16 rc = grid.value(c);
  symx_assert(rc == (Eq(c, b) ? vb : Eq(c, a) ? va : 0), "every other cell keeps the default");
  symx_observe("rc", rc);
  symx_reach("end");
}
