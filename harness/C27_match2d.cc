//@ time=280,850 parts=what:3;m:2;d:3
//# The fast 2D matcher succeeds exactly if some pose of the search window scores above the threshold, returns the best score of the window, and a pose of the window that has this score; in the full-map search the window is the whole map.
//b 5x4 map, four (thorough five) cells with symbolic contents (unknown, full or half occupied), two or three points, window of +-1..2 cells (three orientations in one variant) or full map, branch-and-bound depth 1..3, eight thresholds between the possible scores
#include "grid2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
extern "C" void symx_main() {
  const int what = symx_choose("what", 3);   // 0 window, 1 window with rotations, 2 full map
  const int m = symx_choose("m", 2), depth = 1 + symx_choose("d", 3);
  const int nx = 5, ny = 4;
  auto* tables = FilledTables();
  int value[nx * ny], level[nx * ny];
  for (int i = 0; i < nx * ny; ++i) { value[i] = 0; level[i] = 0; }
  static const int where[2][6] = {{6, 7, 12, 13, 1, 18}, {0, 4, 11, 8, 15, 19}};
  for (int k = 0; k < (TIER ? 5 : 4); ++k) {
    const int v = symx_irange("cell", 0, 2);
    value[where[m][k]] = StoredValue(v); level[where[m][k]] = StoredLevel(v);
  }
  ProbabilityGrid grid(MakeGridProto(nx, ny, 1., 2., 3., value), tables);
  scan_matching::proto::FastCorrelativeScanMatcherOptions2D options;
  const int win = m == 0 ? 1 : 2;
  options.set_linear_search_window(win - 0.25);
  options.set_angular_search_window(what == 1 ? 0.3 : 0.);
  options.set_branch_and_bound_depth(depth);
  FastCorrelativeScanMatcher2D matcher(grid, options);
  sensor::PointCloud cloud;
  cloud.push_back({Eigen::Vector3f(0.05f, 0.02f, 0.f)});
  cloud.push_back({Eigen::Vector3f(1.02f, 1.97f, 0.3f)});
  if (m == 1) cloud.push_back({Eigen::Vector3f(-1.04f, 0.01f, 0.f)});
  const transform::Rigid2d initial({0.53, 0.45}, 0.);
  // thresholds below, between and above the scores two points can reach
  static const float kThreshold[8] = {0.05f, 0.1499f, 0.25f, 0.4f, 0.55f, 0.7f, 0.8f, 0.95f};
  const float min_score = kThreshold[symx_irange("min_score", 0, 7)];
  float score = -1.f;
  transform::Rigid2d pose({77., 78.}, 0.5);
  bool found;
  if (what == 2) {
    // a single orientation would need a point-symmetric cloud: use the centre point only
    sensor::PointCloud one; one.push_back({Eigen::Vector3f(0.f, 0.f, 0.f)});
    cloud = one;
    found = matcher.MatchFullSubmap(cloud, min_score, &score, &pose);
  } else found = matcher.Match(initial, cloud, min_score, &score, &pose);
  // oracle: every pose of the window
  auto at = [&](double angle, double x, double y) {
    int sum = 0;
    const double c = std::cos(angle), s = std::sin(angle);
    for (const auto& p : cloud) {
      const double px = c * p.position.x() - s * p.position.y() + x, py = s * p.position.x() + c * p.position.y() + y;
      // cell (i, j): x index grows with decreasing y, y index with decreasing x
      const int i = (int)std::floor(3. - py), j = (int)std::floor(2. - px);
      if (i >= 0 && i < nx && j >= 0 && j < ny) sum += level[j * nx + i];
    }
    return sum;
  };
  int best = -1;
  const double step = (1. - 1e-3) * std::acos(1. - 1. / (2. * 9.));
  const int na = what == 1 ? 1 : 0;
  const double x0 = what == 2 ? 0. : 0.53, y0 = what == 2 ? 0.5 : 0.45;
  const int w = what == 2 ? 6 : win;
  for (int a = -na; a <= na; ++a) for (int i = -w; i <= w; ++i) for (int j = -w; j <= w; ++j) {
    const int s = at(a * step, x0 + j, y0 + i);
    best = s > best ? s : best;
  }
  const float n = cloud.size();
  // the score of a sum: mean level mapped to [0.1, 0.9]
  const float want = 0.1f + 0.8f * (best / (255.f * n));
  const float margin = 1e-5f;
  if (want > min_score + margin) symx_assert(found, "a pose above the threshold is found");
  if (want < min_score - margin) symx_assert(!found, "nothing is found if no pose is above the threshold");
  if (found) {
    symx_assert(score > min_score, "a found score is above the threshold");
    symx_assert(score <= want + margin && score >= want - margin, "the best score of the window is returned");
    const double px = pose.translation().x(), py = pose.translation().y(), angle = pose.rotation().angle();
    const double u = px - x0, v = py - y0;
    symx_assert(std::abs(u - std::round(u)) < 1e-6 && std::abs(v - std::round(v)) < 1e-6, "the pose is on the search raster");
    if (what != 2) symx_assert(std::abs(u) < win + 1e-6 && std::abs(v) < win + 1e-6, "the pose lies in the linear window");
    bool on = what == 2; for (int a = -na; a <= na; ++a) on = on || std::abs(angle - a * step) < 1e-6;
    symx_assert(on, "the pose has an orientation of the angular window");
    symx_assert(at(angle, px, py) == best, "the returned pose has the returned score");
    symx_reach("found");
  } else {
    symx_assert(score == -1.f && pose.translation().x() == 77., "results are untouched without a match");
    symx_reach("not found");
  }
}
