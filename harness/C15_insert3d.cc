//@ time=250,800 parts=what:2;hx:3;hy:3
//# Inserting a 3D scan: the voxel of a return is updated as hit (also when another ray passes through it), the last configured number of voxels on the line from the sensor to the return are updated as free, every other voxel is unchanged, an update is applied once per scan; intensities up to the threshold are averaged per voxel.
//b 1 m voxels, sensor at a fixed voxel, first return in any voxel of a 3x3x2 block with one coordinate symbolic inside the voxel, second return fixed behind it; 0..3 free voxels; symbolic intensities and threshold
#include "symx.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/probability_values.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int what = symx_choose("what", 2);
  const int hx = symx_choose("hx", 3) + 2, hy = symx_choose("hy", 3) - 1, hz = symx_choose("hz", 2);
  const int axis = what ? 0 : symx_choose("axis", 3);
  const int num_free = what ? 0 : symx_choose("free", 4);
  proto::RangeDataInserterOptions3D options;
  options.set_hit_probability(0.7); options.set_miss_probability(0.4); options.set_num_free_space_voxels(num_free);
  const float threshold = 40.f; options.set_intensity_threshold(threshold);
  RangeDataInserter3D inserter(options);
  HybridGrid grid(1.f); IntensityHybridGrid intensity(1.f);
  Eigen::Vector3f hit(hx + 0.2f, hy - 0.1f, hz + 0.3f);
  hit[axis] = (axis == 0 ? hx : axis == 1 ? hy : hz) + (what ? 0.2f : symx_f32_range("x", -0.49f, 0.49f));
  // the second return lies one step further along x: its ray passes next to or through the first
  const Eigen::Vector3f second(hx + 1.f, hy, hz);
  float i0 = 30.f, i1 = 40.1f;
  if (what) { i0 = symx_f32_range("intensity", -50.f, 100.f); i1 = symx_f32_range("intensity2", -50.f, 100.f); }
  sensor::RangeData data{Eigen::Vector3f(0.1f, 0.2f, 0.f), sensor::PointCloud({{hit}, {second}}, {i0, i1}), {}};
  inserter.Insert(data, &grid, &intensity);
  const auto table = ComputeLookupTableToApplyOdds(Odds(0.7f)), miss = ComputeLookupTableToApplyOdds(Odds(0.4f));
  const float hp = ValueToProbability(table[0]), mp = ValueToProbability(miss[0]);
  // expected free voxels
  bool line[8][4][3] = {};
  for (int r = 0; r < 2; ++r) {
    const int d[3] = {hx + r, hy, hz}; const int len = d[0];  // x is the longest
    for (int s = std::max(0, len - num_free); s < len; ++s) line[s][(d[1] * s) / len + 1][(d[2] * s) / len] = true;
  }
  for (int x = 0; x < 6; ++x) for (int y = -1; y <= 1; ++y) for (int z = 0; z < 2; ++z) {
    const Eigen::Array3i c(x, y, z);
    const bool is_hit = (x == hx || x == hx + 1) && y == hy && z == hz;
    const float p = grid.GetProbability(c);
    if (is_hit) symx_assert(p == hp, "the voxel of a return is updated as hit");
    else if (line[x][y + 1][z]) symx_assert(p == mp, "the last voxels on the ray are updated as free");
    else symx_assert(!grid.IsKnown(c), "other voxels are unchanged");
  }
  const float m0 = intensity.GetIntensity(Eigen::Array3i(hx, hy, hz)), m1 = intensity.GetIntensity(Eigen::Array3i(hx + 1, hy, hz));
  symx_assert(m0 == (i0 <= threshold ? i0 : 0.f) && m1 == (i1 <= threshold ? i1 : 0.f), "intensities up to the threshold are kept");
  symx_assert(intensity.GetIntensity(Eigen::Array3i(0, 0, 0)) == 0.f, "voxels without returns have no intensity");
  // a second scan in the same place: once more
  if (num_free == 0 && hz == 0) {
    inserter.Insert(data, &grid, &intensity);
    symx_assert(grid.GetProbability(Eigen::Array3i(hx, hy, hz)) == ValueToProbability(table[ProbabilityToValue(hp)]), "every scan is applied once");
    const float a = intensity.GetIntensity(Eigen::Array3i(hx, hy, hz)) - m0;
    symx_assert(a <= 1e-4f && a >= -1e-4f, "intensities are averaged");
  }
  symx_reach("end");
}
