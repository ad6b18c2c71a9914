//@ time=200,700 parts=k:3
//# Serialization of a probability voxel grid reproduces every cell; cell addressing of voxels round-trips; octants enumerate the eight corners.
//b k=0: two known cells (one beyond the initial extent) with any known value; k=1,2: resolutions 0.1 and 0.45, |index| <= 2000
#include "symx.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int k = symx_choose("k", 3);
  if (k == 0) {
    const uint16 a = symx_u16("a");
    symx_assume(a >= 1 && a <= 32767);
    HybridGrid grid(0.05f);
    const Eigen::Array3i ia(-3, 70, 12), ib(4, 5, -6);
    grid.SetProbability(ia, ValueToProbability(a));
    grid.SetProbability(ib, 0.9f);
    const proto::HybridGrid p = grid.ToProto();
    symx_assert(p.values_size() == 2 && p.x_indices_size() == 2 && p.y_indices_size() == 2 && p.z_indices_size() == 2, "serialized grid lists every known cell");
    HybridGrid copy(p);
    symx_assert(copy.resolution() == grid.resolution(), "resolution survives");
    symx_assert(copy.value(ia) == a && copy.value(ib) == grid.value(ib), "values survive serialization");
    symx_assert(copy.IsKnown(ia) && !copy.IsKnown(Eigen::Array3i(0, 0, 0)), "knowledge survives serialization");
    int n = 0;
    for (const auto it : copy) { ++n; symx_assert(it.second == grid.value(it.first), "deserialized grid equals the original"); }
    symx_assert(n == 2, "deserialized grid has no extra cells");
  } else {
    HybridGrid grid(k == 1 ? 0.1f : 0.45f);
    const int x = symx_irange("x", -2000, 2000), y = symx_irange("y", -2000, 2000), z = symx_irange("z", -2000, 2000);
    const Eigen::Array3i r = grid.GetCellIndex(grid.GetCenterOfCell(Eigen::Array3i(x, y, z)));
    symx_assert(r.x() == x && r.y() == y && r.z() == z, "voxel centre maps back to its voxel");
    const float px = symx_f32_range("px", -100.f, 100.f);
    const Eigen::Array3i c = grid.GetCellIndex(Eigen::Vector3f(px, 0.f, 0.f));
    const double d = (double)px - (double)grid.resolution() * c.x();
    symx_assert(d <= 0.5001 * grid.resolution() && d >= -0.5001 * grid.resolution(), "a point lies within half a voxel of its voxel centre");
    const int o = symx_irange("o", 0, 7);
    const Eigen::Array3i oct = HybridGrid::GetOctant(o);
    symx_assert(oct.x() == (o & 1) && oct.y() == (o >> 1 & 1) && oct.z() == (o >> 2 & 1), "octants enumerate the eight corners");
  }
  symx_reach("end");
}
