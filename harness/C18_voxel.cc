//@ time=250,800 parts=kind:5
//# The voxel filter keeps exactly one of the points of every voxel, in the original order, unchanged and with its own intensity; for point clouds, timed point clouds, range measurements and plain point lists.
//b 4 points (thorough 5), every partition of them into voxels, along each of the three axes and in three placements, one symbolic coordinate each, voxel edge 0.5 m (quick) or 0.05, 0.3, 2 m; pairs of voxels up to 2^20 edges from the origin; a thousandth of a voxel around voxel borders excluded
#include "symx.h"
#include "cartographer/sensor/internal/voxel_filter.h"
using namespace cartographer;
using namespace cartographer::sensor;
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 5);
  const int axis = symx_choose("axis", 3);
  if (kind == 4) {
    // voxels far apart, up to a million edges from the origin
    static const int kFar[4] = {1 << 16, 1 << 18, 1 << 19, (1 << 20) - 4};
    const int far = kFar[symx_choose("far", 4)], other = (axis + 1 + symx_choose("other", 2)) % 3;
    Eigen::Vector3f a(0.f, 0.f, 0.f), b(0.f, 0.f, 0.f);
    const int da = symx_irange("da", -2, 2), db = symx_irange("db", -2, 2), oa = symx_irange("oa", -2, 2), ob = symx_irange("ob", -2, 2);
    a[axis] = float(far + da); b[axis] = float(db - far);
    a[other] = float(oa); b[other] = float(ob);
    const std::vector<RangefinderPoint> out = VoxelFilter(std::vector<RangefinderPoint>{{a}, {b}}, 1.f);
    symx_assert(out.size() == 2 && out[0].position == a && out[1].position == b, "points of different voxels are both kept");
    symx_reach("end");
    return;
  }
  static const float kRes[4] = {0.5f, 0.05f, 0.3f, 2.f};
  const float res = kRes[TIER ? symx_choose("res", 4) : (axis == 1 ? 2 : 0)];
  const int N = TIER ? 5 : 4;
  // every partition of the points into voxels
  static const int kVoxel[3][5] = {{0, -1, 1, -2, 3}, {-5, 4, -4, 0, 5}, {1000, 999, -1000, 7, 3}};
  const int map = symx_choose("map", 3); int top = 0;
  std::vector<Eigen::Vector3f> p; std::vector<int> v;
  for (int i = 0; i < N; ++i) {
    const int label = i == 0 ? 0 : symx_choose("label", (i < top + 1 ? i : top + 1) + 1);
    if (label > top) top = label;
    const int voxel = kVoxel[map][label];
    const float f = symx_f32_range("x", -0.499f, 0.499f);
    Eigen::Vector3f q(0.1f * res, -2.2f * res, 100.4f * res);
    q[axis] = (voxel + f) * res;
    p.push_back(q); v.push_back(voxel);
  }
  std::vector<int> kept; bool intact = true;
  auto find = [&](const Eigen::Vector3f& q, size_t tag) { kept.push_back((int)tag); intact = intact && tag < (size_t)N && q == p[tag]; };
  if (kind == 0) {
    // intensities identify the points
    std::vector<RangefinderPoint> points; std::vector<float> intensities;
    for (int i = 0; i < N; ++i) { points.push_back({p[i]}); intensities.push_back(i); }
    const PointCloud out = VoxelFilter(PointCloud(points, intensities), res);
    symx_assert(out.intensities().size() == out.size(), "intensities stay aligned");
    for (size_t i = 0; i < out.size(); ++i) find(out[i].position, (size_t)out.intensities()[i]);
  } else if (kind == 1) {
    TimedPointCloud points;
    for (int i = 0; i < N; ++i) points.push_back({p[i], (float)i});
    for (const auto& o : VoxelFilter(points, res)) find(o.position, (size_t)o.time);
  } else if (kind == 2) {
    std::vector<TimedPointCloudOriginData::RangeMeasurement> points;
    for (int i = 0; i < N; ++i) points.push_back({{p[i], 5.f}, 7.f, (size_t)i});
    for (const auto& o : VoxelFilter(points, res)) { find(o.point_time.position, o.origin_index); intact = intact && o.point_time.time == 5.f && o.intensity == 7.f; }
  } else {
    std::vector<RangefinderPoint> points;
    for (int i = 0; i < N; ++i) { p[i][(axis + 1) % 3] = 0.001f * i * res; points.push_back({p[i]}); }
    for (const auto& o : VoxelFilter(points, res)) {
      size_t tag = 99;
      for (int i = 0; i < N; ++i) if (o.position[(axis + 1) % 3] == p[i][(axis + 1) % 3]) tag = i;
      find(o.position, tag);
    }
  }
  bool order = true; for (size_t i = 0; i + 1 < kept.size(); ++i) order = order && kept[i] < kept[i + 1];
  symx_assert(intact, "kept points are unchanged");
  symx_assert(order, "kept points stay in order");
  bool one = true;
  for (int i = 0; i < N; ++i) { int reps = 0; for (int k : kept) reps += v[k] == v[i]; one = one && reps == 1; }
  symx_assert(one, "every voxel with points has exactly one representative");
  symx_reach("end");
}
