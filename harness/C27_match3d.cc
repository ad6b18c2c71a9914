//@ time=280,850 parts=what:3;d:3;f:2
//# The fast 3D matcher returns a result exactly if some pose of its search window passes the rotational and low-resolution tests and scores above the threshold; the result is the best such score, with the pose, the rotational and the low-resolution score that belong to it.
//b four voxels with symbolic contents, two points, window of +-2 voxels horizontally and +-1 vertically, or +-1 voxel with three orientations of which one or all pass the rotational test, or with two symbolic low-resolution voxels deciding; branch-and-bound depth 1..3, full-resolution depth 1..2, six thresholds between the possible scores
#include "grid3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
extern "C" void symx_main() {
  const int what = symx_choose("what", 3), depth = 1 + symx_choose("d", 3), full = 1 + symx_choose("f", 2);
  static const Voxel at[4] = {{2, -1, 0}, {1, 0, 1}, {3, -2, 1}, {2, 1, -1}};
  const int N = 4, W = what == 0 ? 2 : 1;
  HybridGrid grid(1.f), low(3.f);
  int level[4] = {0, 0, 0, 0};
  for (int k = 0; k < N; ++k) { const int v = symx_irange("voxel", 0, what == 2 && !TIER ? 1 : 2); level[k] = VoxelLevel(v); FillVoxel(&grid, at[k], v); }
  // low resolution voxels of 3 m: x in [-1.5, 1.5) or [1.5, 4.5)
  int lowlevel[2] = {0, 0};
  if (what == 2) for (int k = 0; k < 2; ++k) { const int v = symx_irange("low", 0, 1); lowlevel[k] = v; FillVoxel(&low, Voxel{k, 0, 0}, v); }
  Eigen::VectorXf submap_histogram = Eigen::VectorXf::Zero(4), scan_histogram = Eigen::VectorXf::Zero(4);
  scan_matching::proto::FastCorrelativeScanMatcherOptions3D options;
  options.set_branch_and_bound_depth(depth); options.set_full_resolution_depth(full);
  options.set_linear_xy_search_window(W + 0.1); options.set_linear_z_search_window(0.9);
  options.set_angular_search_window(what == 1 ? 0.3 : 0.);
  options.set_min_low_resolution_score(what == 2 ? 0.5 : 0.);
  options.set_min_rotational_score(0.5);
  FastCorrelativeScanMatcher3D matcher(grid, &low, &submap_histogram, options);
  TrajectoryNode::Data data;
  data.gravity_alignment = Eigen::Quaterniond::Identity();
  data.rotational_scan_matcher_histogram = scan_histogram;
  data.high_resolution_point_cloud.push_back({Eigen::Vector3f(0.f, 0.05f, 0.f)});
  data.high_resolution_point_cloud.push_back({Eigen::Vector3f(1.f, -1.1f, 1.04f)});
  data.low_resolution_point_cloud.push_back({Eigen::Vector3f(0.f, 0.f, 0.f)});
  const transform::Rigid3d submap = transform::Rigid3d::Translation(Eigen::Vector3d(10., 20., 0.)), node = transform::Rigid3d::Translation(Eigen::Vector3d(11.2, 19.9, 0.1));
  static const float kThreshold[6] = {0.05f, 0.2f, 0.4f, 0.6f, 0.8f, 0.95f};
  const float min_score = kThreshold[symx_irange("min_score", 0, 5)];
  const auto result = matcher.Match(node, submap, data, min_score);
  const double step = 0.99 * std::acos(1. - 1. / 18.);
  auto at_pose = [&](double angle, double x, double y, double z) {
    const double c = std::cos(angle), s = std::sin(angle);
    int sum = 0;
    for (const auto& p : data.high_resolution_point_cloud) {
      const double px = c * p.position.x() - s * p.position.y() + x, py = s * p.position.x() + c * p.position.y() + y, pz = p.position.z() + z;
      const int i = (int)std::lround(px), j = (int)std::lround(py), k = (int)std::lround(pz);
      for (int n = 0; n < N; ++n) sum += at[n].x == i && at[n].y == j && at[n].z == k ? level[n] : 0;
    }
    return sum;
  };
  auto low_pass = [&](double x) { return what != 2 || lowlevel[x >= 1.5 ? 1 : 0] == 1; };
  int best = -1;
  const int na = what == 1 ? 1 : 0;
  for (int a = -na; a <= na; ++a) for (int i = -W; i <= W; ++i) for (int j = -W; j <= W; ++j) for (int k = -1; k <= 1; ++k) {
    const int s = at_pose(a * step, 1.2 + i, -0.1 + j, 0.1 + k);
    best = (s > best) & low_pass(1.2 + i) ? s : best;
  }
  const double want = 0.1 + 0.8 * best / 510.;
  const bool possible = best >= 0 && want > min_score;
  if (possible) symx_assert(result != nullptr, "a pose above the threshold is found"); else symx_assert(result == nullptr, "nothing is found if no pose qualifies");
  if (result != nullptr) {
    symx_assert(result->score > min_score && result->score < want + 1e-5 && result->score > want - 1e-5, "the best score of the window is returned");
    const Eigen::Vector3d t = result->pose_estimate.translation();
    const double angle = transform::GetYaw(result->pose_estimate);
    const double u = t.x() - 1.2, v = t.y() + 0.1, w = t.z() - 0.1;
    auto raster = [](double d, int n) { bool on = false; for (int k = -n; k <= n; ++k) on = on | (std::abs(d - k) < 1e-5); return on; };
    symx_assert(raster(u, W) && raster(v, W) && raster(w, 1), "the pose lies in the linear window");
    bool on = false; for (int a = -na; a <= na; ++a) on = on || std::abs(angle - a * step) < 1e-5;
    symx_assert(on, "the pose has an orientation of the angular window");
    symx_assert(at_pose(angle, t.x(), t.y(), t.z()) == best, "the returned pose has the returned score");
    symx_assert(low_pass(t.x()), "the returned pose passes the low-resolution test");
    const double low_want = what == 2 ? 0.9 : 0.1;
    symx_assert(std::abs(result->low_resolution_score - low_want) < 1e-3, "the low-resolution score belongs to the pose");
    symx_assert(result->rotational_score == 1.f, "the rotational score belongs to the pose");
    symx_reach("found");
  } else symx_reach("not found");
}
