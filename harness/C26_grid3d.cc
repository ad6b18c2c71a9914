//@ time=250,800 parts=place:3;full:3
//# The levels of the 3D precomputation stack: level 0 is the map quantised to 8 bits; every full-resolution level holds the exact maximum over its window of 2^depth voxels per axis; every reduced level bounds all full-resolution windows it stands for from above and contains no value that is not in the map nearby.
//b three voxels with symbolic contents (unset, 0.9, 0.5, 0.1) near zero, at negative indices or at a block border of the sparse grid; depths 0..3, full resolution depth 1..3; all windows around the voxels
#include "grid3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
extern "C" void symx_main() {
  const int place = symx_choose("place", 3), full = 1 + symx_choose("full", 3);
  static const Voxel base[3] = {{0, 0, 0}, {-3, -2, -5}, {7, 63, -64}};
  const Voxel b = base[place];
  const Voxel at[3] = {b, {b.x + 1, b.y, b.z}, {b.x - 1, b.y + 2, b.z + 1}};
  HybridGrid grid(0.5f);
  int level[3];
  for (int k = 0; k < 3; ++k) { const int v = symx_irange("voxel", 0, 3); level[k] = VoxelLevel(v); FillVoxel(&grid, at[k], v); }
  scan_matching::proto::FastCorrelativeScanMatcherOptions3D options;
  options.set_branch_and_bound_depth(4); options.set_full_resolution_depth(full);
  const PrecomputationGridStack3D stack(grid, options);
  symx_assert(stack.max_depth() == 3, "one level per depth");
  auto inside = [](const Voxel& c, int x, int y, int z, int lo, int hi) { return c.x >= x + lo && c.x < x + hi && c.y >= y + lo && c.y < y + hi && c.z >= z + lo && c.z < z + hi; };
  for (int d = 0; d < 4; ++d) {
    const int w = 1 << d, r = d - full + 1 > 0 ? d - full + 1 : 0;
    const PrecomputationGrid3D& g = stack.Get(d);
    bool exact = true, upper = true, tight = true;
    for (int x = b.x - w - 2; x <= b.x + 2; ++x) for (int y = b.y - w; y <= b.y + 3; ++y) for (int z = b.z - w; z <= b.z + 2; ++z) {
      int best = 0, near = 0;
      for (int k = 0; k < 3; ++k) {
        if (inside(at[k], x, y, z, 0, w)) best = level[k] > best ? level[k] : best;
        if (inside(at[k], x, y, z, -3 * w, 4 * w)) near = level[k] > near ? level[k] : near;
      }
      const int v = g.value(Eigen::Array3i(x >> r, y >> r, z >> r));
      if (r == 0) exact = exact & (v == best);
      upper = upper & (v >= best);
      tight = tight & (v <= near);
    }
    symx_assert(exact, "a full-resolution level holds the maximum of each window");
    symx_assert(upper, "a reduced level bounds every window from above");
    symx_assert(tight, "a level contains only values of nearby voxels");
  }
  const float lo = PrecomputationGrid3D::ToProbability(0), hi = PrecomputationGrid3D::ToProbability(255);
  symx_assert(lo >= 0.0999f && lo <= 0.1001f && hi >= 0.8999f && hi <= 0.9001f, "levels span the range of probabilities");
  symx_reach("end");
}
