//@ time=250,800 parts=w:3;r:2
//# The real-time 3D matcher returns the pose of the search window with the best weighted score and that score.
//b three voxels with symbolic contents, two points, window of +-1 voxel per axis without rotation, or rotations of one step about every axis without displacement; three pairs of damping weights; tolerance 1e-5
#include "grid3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
extern "C" void symx_main() {
  const int wi = symx_choose("w", 3), r = symx_choose("r", 2);
  static const Voxel at[4] = {{2, -1, 0}, {1, 0, 1}, {3, -2, 1}, {1, 1, -1}};
  const int N = 4;
  HybridGrid grid(1.f);
  double prob[4];
  for (int k = 0; k < N; ++k) { const int v = symx_irange("voxel", 0, 3); prob[k] = VoxelProbability(v); FillVoxel(&grid, at[k], v); }
  scan_matching::proto::RealTimeCorrelativeScanMatcherOptions options;
  options.set_linear_search_window(r ? 0.2 : 1.1); options.set_angular_search_window(r ? 0.3 : 0.);
  static const double tw[3] = {0., 0.3, 0.05}, rw[3] = {0., 0.1, 2.};
  options.set_translation_delta_cost_weight(tw[wi]); options.set_rotation_delta_cost_weight(rw[wi]);
  RealTimeCorrelativeScanMatcher3D matcher(options);
  sensor::PointCloud cloud;
  cloud.push_back({Eigen::Vector3f(0.f, 0.05f, 0.f)});
  cloud.push_back({Eigen::Vector3f(1.f, -1.1f, 1.04f)});
  transform::Rigid3d pose;
  const float score = matcher.Match(transform::Rigid3d::Translation(Eigen::Vector3d(1.2, -0.1, 0.1)), cloud, grid, &pose);
  double best = -1;
  bool ok = false, good = false;
  const double step = (1. - 1e-3) * std::acos(1. - 1. / 18.);
  std::vector<double> scores; std::vector<bool> here;
  const int nl = r ? 0 : 1, na = r ? 1 : 0;
  for (int i = -nl; i <= nl; ++i) for (int j = -nl; j <= nl; ++j) for (int k = -nl; k <= nl; ++k)
    for (int a = -na; a <= na; ++a) for (int b = -na; b <= na; ++b) for (int c = -na; c <= na; ++c) {
      const Eigen::Vector3d axis(a * step, b * step, c * step);
      const double angle = axis.norm();
      const Eigen::Quaterniond q = angle == 0. ? Eigen::Quaterniond::Identity() : Eigen::Quaterniond(Eigen::AngleAxisd(angle, axis / angle));
      const Eigen::Vector3d t(1.2 + i, -0.1 + j, 0.1 + k);
      double sum = 0;
      for (const auto& p : cloud) {
        const Eigen::Vector3d x = q * p.position.cast<double>() + t;
        double v = 0.1;
        for (int n = 0; n < N; ++n) if (at[n].x == std::lround(x.x()) && at[n].y == std::lround(x.y()) && at[n].z == std::lround(x.z())) v = prob[n];
        sum += v;
      }
      const double d = std::sqrt(double(i * i + j * j + k * k)) * tw[wi] + angle * rw[wi];
      const double s = sum / 2. * std::exp(-d * d);
      best = s > best ? s : best;
      scores.push_back(s);
      const Eigen::Vector3d e = pose.translation() - t;
      const double dot = std::abs(pose.rotation().w() * q.w() + pose.rotation().x() * q.x() + pose.rotation().y() * q.y() + pose.rotation().z() * q.z());
      here.push_back((std::abs(e.x()) < 1e-5) & (std::abs(e.y()) < 1e-5) & (std::abs(e.z()) < 1e-5) & (dot > 1. - 1e-6));
    }
  for (size_t n = 0; n < scores.size(); ++n) { ok = ok | here[n]; good = good | (here[n] & (scores[n] >= best - 1e-5)); }
  symx_assert(score <= best + 1e-5 && score >= best - 1e-5, "the best score of the window is returned");
  symx_assert(ok, "the pose lies in the search window");
  symx_assert(good, "the returned pose has the best score");
  symx_reach("end");
}
