//@ time=200,800 parts=dx:9
//# A single ray in any direction: the return's voxel is a hit, exactly the configured number of voxels before it (at most all between sensor and return) are free, one per step along the longest axis and each within one voxel of the straight line, all others stay unknown.
//b 0.5 m voxels, returns in every voxel up to 4 (thorough 5) voxels from the sensor along each axis, sensor in two voxels, symbolic position of the return inside its voxel along one axis, 0, 2 or all voxels free
#include "symx.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/probability_values.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int R = TIER ? 5 : 4;
  const int d[3] = {symx_choose("dx", 2 * R + 1) - R, symx_choose("dy", 2 * R + 1) - R, symx_choose("dz", 2 * R + 1) - R};
  const int away = (d[0] + 2 * d[1] + 3 * d[2]) & 1;
  const int o[3] = {away ? -7 : 0, away ? 3 : 0, away ? 1 : 0};
  static const int kFree[3] = {2, 0, 100};
  const int num_free = kFree[symx_choose("free", 3)];
  proto::RangeDataInserterOptions3D options;
  options.set_hit_probability(0.7); options.set_miss_probability(0.4); options.set_num_free_space_voxels(num_free); options.set_intensity_threshold(10.);
  RangeDataInserter3D inserter(options);
  HybridGrid grid(0.5f);
  Eigen::Vector3f hit(0.5f * (o[0] + d[0]) + 0.1f, 0.5f * (o[1] + d[1]) - 0.2f, 0.5f * (o[2] + d[2]) + 0.05f);
  const int axis = (d[0] + d[1] + d[2] + 30) % 3;
  hit[axis] = 0.5f * (o[axis] + d[axis]) + 0.01f * symx_irange("inside", -24, 24);
  const Eigen::Vector3f origin(0.5f * o[0] - 0.1f, 0.5f * o[1] + 0.2f, 0.5f * o[2]);
  inserter.Insert(sensor::RangeData{origin, sensor::PointCloud({{hit}}), {}}, &grid, nullptr);
  int len = 0;
  for (int k = 0; k < 3; ++k) len = std::max(len, std::abs(d[k]));
  int longest = 0;
  for (int k = 0; k < 3; ++k) if (std::abs(d[k]) == len) longest = k;
  const int n = std::min(num_free, len);
  int found = 0, hits = 0; bool step[12] = {};
  for (const auto it : grid) {
    const float p = ValueToProbability(it.second);
    const int c[3] = {it.first.x() - o[0], it.first.y() - o[1], it.first.z() - o[2]};
    if (c[0] == d[0] && c[1] == d[1] && c[2] == d[2]) { ++hits; symx_assert(p > 0.69f && p < 0.71f, "the voxel of the return is a hit"); continue; }
    ++found;
    symx_assert(p > 0.39f && p < 0.41f, "the voxels before are free, once");
    const int s = d[longest] < 0 ? -c[longest] : c[longest];
    symx_assert(s < len && s >= len - n, "only the last voxels before the return are touched");
    if (s < 0 || s >= len) continue;
    symx_assert(!step[s], "one voxel per step");
    step[s] = true;
    for (int k = 0; k < 3; ++k) { const int e = c[k] * len - d[k] * s; symx_assert(e < len && e > -len, "free voxels lie on the ray"); }
  }
  symx_assert(hits == 1 && found == n, "all of these voxels are updated");
  symx_reach("end");
}
