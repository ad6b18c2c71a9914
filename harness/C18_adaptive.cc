//@ time=250,800 parts=map:3;min:4
//# The adaptive voxel filter returns only points within the maximum range, unchanged and in order, returns everything in range if there are not more than the wanted number, keeps at least the wanted number whenever that many fall into different voxels of a hundredth of the maximum edge length, and keeps one point per voxel if filtering with the maximum edge length leaves enough.
//b 5 points on a line (three spacings, from all in one voxel to all in different voxels), each displaced by a symbolic amount up to 1 mm, one of them at a symbolic distance around the maximum range, wanted number 1, 2, 4 or 6
#include "symx.h"
#include "cartographer/sensor/internal/voxel_filter.h"
using namespace cartographer;
using namespace cartographer::sensor;
extern "C" void symx_main() {
  const int map = symx_choose("map", 3);
  static const int kMin[4] = {1, 2, 4, 6};
  const int min = kMin[symx_choose("min", 4)];
  // spacing relative to the maximum voxel edge of 1 m
  static const float kX[3][4] = {{2.1f, 3.1f, 4.1f, 5.1f}, {2.05f, 2.25f, 2.45f, 3.2f}, {2.10f, 2.13f, 2.16f, 2.20f}};
  std::vector<RangefinderPoint> points;
  for (int i = 0; i < 4; ++i) points.push_back({Eigen::Vector3f(kX[map][i] + symx_f32_range("d", -0.0005f, 0.0005f), 0.f, 0.f)});
  const float far = symx_f32_range("far", 7.f, 13.f);
  points.push_back({Eigen::Vector3f(far, 0.f, 0.f)});
  proto::AdaptiveVoxelFilterOptions options;
  options.set_max_length(1.f); options.set_min_num_points(min); options.set_max_range(10.f);
  const PointCloud out = AdaptiveVoxelFilter(PointCloud(points), options);
  const int in = far <= 10.f ? 5 : 4;
  size_t k = 0;
  for (int i = 0; i < 5 && k < out.size(); ++i) if (out[k].position == points[i].position) ++k;
  symx_assert(k == out.size() && out.size() > 0, "the result is a selection of the points in order");
  bool range = true; for (const auto& p : out) range = range && p.position.x() <= 10.f;
  symx_assert(range, "no point beyond the maximum range");
  if (in <= min) symx_assert((int)out.size() == in, "sparse clouds are returned completely");
  else symx_assert((int)out.size() >= min, "at least the wanted number of points is kept");
  if (map == 0 && min < 4) symx_assert((int)out.size() == in, "one point for every voxel of the maximum edge length");
  if (map == 1 && min <= 2) symx_assert((int)out.size() == in - 2, "filtering with the maximum edge length when that leaves enough");
  symx_reach("end");
}
