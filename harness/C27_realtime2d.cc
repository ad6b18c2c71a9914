//@ time=250,800 parts=m:2;r:2;w:3
//# The real-time 2D matcher returns the pose of the search window with the best weighted score (mean occupancy of the points damped by displacement and rotation) and that score; ties aside, nothing in the window is better.
//b 5x4 map, four (thorough five) cells with symbolic contents, two or three points, window of +-1..2 cells, with or without three to five orientations, three pairs of damping weights, tolerance 1e-5
#include "grid2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
extern "C" void symx_main() {
  const int m = symx_choose("m", 2), r = symx_choose("r", 2), wi = symx_choose("w", 3);
  const int nx = 5, ny = 4;
  auto* tables = FilledTables();
  int value[nx * ny]; double prob[nx * ny];
  for (int i = 0; i < nx * ny; ++i) { value[i] = 0; prob[i] = 0.1; }
  static const int where[2][5] = {{6, 7, 12, 13, 18}, {0, 4, 11, 8, 15}};
  for (int k = 0; k < (TIER ? 5 : 4); ++k) {
    const int v = symx_irange("cell", 0, 3);
    value[where[m][k]] = StoredValue(v);
    static const double p[4] = {0.1, 0.9, 0.9 - 12344. * 0.8 / 32766., 0.1};
    prob[where[m][k]] = p[v];
  }
  ProbabilityGrid grid(MakeGridProto(nx, ny, 1., 2., 3., value), tables);
  scan_matching::proto::RealTimeCorrelativeScanMatcherOptions options;
  const int win = m == 0 ? 1 : 2;
  options.set_linear_search_window(win - 0.25);
  options.set_angular_search_window(r ? 0.3 : 0.);
  static const double tw[3] = {0., 0.3, 0.05}, rw[3] = {0., 0.1, 2.};
  options.set_translation_delta_cost_weight(tw[wi]); options.set_rotation_delta_cost_weight(rw[wi]);
  RealTimeCorrelativeScanMatcher2D matcher(options);
  sensor::PointCloud cloud;
  cloud.push_back({Eigen::Vector3f(0.05f, 0.02f, 0.f)});
  cloud.push_back({Eigen::Vector3f(1.02f, 1.97f, 0.3f)});
  if (m == 1) cloud.push_back({Eigen::Vector3f(-1.04f, 0.01f, 0.f)});
  const double a0 = m == 1 ? 0.1 : 0.;
  const transform::Rigid2d initial({0.53, 0.45}, a0);
  transform::Rigid2d pose;
  const double score = matcher.Match(initial, cloud, grid, &pose);
  auto at = [&](double angle, double x, double y) {
    double sum = 0;
    const double c = std::cos(angle), s = std::sin(angle);
    for (const auto& p : cloud) {
      const double px = c * p.position.x() - s * p.position.y() + x, py = s * p.position.x() + c * p.position.y() + y;
      const int i = (int)std::floor(3. - py), j = (int)std::floor(2. - px);
      sum += i >= 0 && i < nx && j >= 0 && j < ny ? prob[j * nx + i] : 0.1;
    }
    const double d = std::hypot(x - 0.53, y - 0.45) * tw[wi] + std::abs(angle - a0) * rw[wi];
    return sum / cloud.size() * std::exp(-d * d);
  };
  double best = -1;
  const double step = (1. - 1e-3) * std::acos(1. - 1. / (2. * 9.));
  const int na = r ? 1 : 0;
  for (int a = -na; a <= na; ++a) for (int i = -win; i <= win; ++i) for (int j = -win; j <= win; ++j) {
    const double s = at(a0 + a * step, 0.53 + j, 0.45 + i);
    best = s > best ? s : best;
  }
  symx_assert(score <= best + 1e-5 && score >= best - 1e-5, "the best score of the window is returned");
  // the pose is one of the window and has this score
  bool ok = false, good = false;
  for (int a = -na; a <= na; ++a) for (int i = -win; i <= win; ++i) for (int j = -win; j <= win; ++j) {
    const bool here = std::abs(pose.translation().x() - 0.53 - j) < 1e-6 && std::abs(pose.translation().y() - 0.45 - i) < 1e-6 && std::abs(pose.rotation().angle() - a0 - a * step) < 1e-6;
    const double s = at(a0 + a * step, 0.53 + j, 0.45 + i);
    ok = ok | here; good = good | (here & (s >= best - 1e-5));
  }
  symx_assert(ok, "the pose lies in the search window");
  symx_assert(good, "the returned pose has the best score");
  symx_reach("end");
}
