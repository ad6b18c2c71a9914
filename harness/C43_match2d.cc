//@ time=100,300 parts=tsdf:2
//# A 2D scan match asks for exactly the map term over all points, with the occupied space weight shared by the square root of their number, the translation term towards the target and the rotation term towards the initial estimate; it starts at the initial estimate and returns what was found.
//b probability grid or signed distance grid, 1 or 4 points, symbolic initial pose, target and result
//s ceres::Problem and ceres::Solve record the problem; the found pose is arbitrary
#include "fakeceres.h"
#include "grid2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
using namespace cartographer;
using namespace cartographer::mapping;
static bool Near(double a, double b, double t = 1e-9) { const double e = a - b; return (e <= t) & (e >= -t); }
static bool g_tsdf; static int g_points, g_solved;
static double g_initial[3], g_target[2], g_found[3], g_weight[3];
namespace ceres {
static void OnSolve(const Solver::Options& options) {
  ++g_solved;
  symx_assert(options.max_num_iterations == 17 && options.num_threads == 3 && options.use_nonmonotonic_steps && options.linear_solver_type == DENSE_QR, "the solver is configured as asked");
  symx_assert(g_problem.terms.size() == 3 && g_problem.constant.empty(), "a match has a map, a translation and a rotation term");
  double* const pose = g_problem.terms[0].at[0];
  for (const Term& t : g_problem.terms) symx_assert(t.at.size() == 1 && t.at[0] == pose && !t.loss, "all terms are about the same pose");
  for (int a = 0; a < 3; ++a) symx_assert(Near(pose[a], g_initial[a]), "the search starts at the initial estimate");
  int map = 0, translation = 0, rotation = 0;
  for (const Term& t : g_problem.terms) {
    const std::vector<double> r = Residuals(t);
    if (t.cost->num_residuals() == g_points && !map) {
      ++map;
      // every point lies in unknown space far away: the largest cost
      if (g_tsdf) for (double v : r) symx_assert(Near(v * v * g_points, g_weight[0] * g_weight[0] * 0.01, 1e-3 * g_weight[0] * g_weight[0]), "the distance term is shared by the points");
      else for (double v : r) symx_assert(Near(v * v * g_points, g_weight[0] * g_weight[0] * kMaxCorrespondenceCost * kMaxCorrespondenceCost, 1e-3), "the map term is shared by the points");
    } else if (t.cost->num_residuals() == 2) {
      ++translation;
      symx_assert(Near(r[0], g_weight[1] * (g_initial[0] - g_target[0]), 1e-7) && Near(r[1], g_weight[1] * (g_initial[1] - g_target[1]), 1e-7), "the translation term pulls to the target");
    } else {
      ++rotation;
      symx_assert(t.cost->num_residuals() == 1 && Near(r[0], 0.), "the rotation term is zero at the initial estimate");
      pose[2] += 0.25;
      symx_assert(Near(Residuals(t)[0], g_weight[2] * 0.25, 1e-7), "the rotation term pulls to the initial estimate");
      pose[2] -= 0.25;
    }
  }
  symx_assert(map == 1 && translation == 1 && rotation == 1, "each term is there once");
  for (int a = 0; a < 3; ++a) pose[a] = g_found[a];
}
}  // namespace ceres
extern "C" void symx_main() {
  g_tsdf = symx_choose("tsdf", 2) == 1; g_points = symx_choose("points", 2) ? 4 : 1;
  static const double kWeights[2][3] = {{1., 10., 40.}, {20., 0.5, 3.}};
  const int w = symx_choose("weights", 2);
  for (int a = 0; a < 3; ++a) g_weight[a] = kWeights[w][a];
  mapping::scan_matching::proto::CeresScanMatcherOptions2D options;
  options.set_occupied_space_weight(g_weight[0]); options.set_translation_weight(g_weight[1]); options.set_rotation_weight(g_weight[2]);
  options.mutable_ceres_solver_options()->set_max_num_iterations(17);
  options.mutable_ceres_solver_options()->set_num_threads(3);
  options.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(true);
  g_initial[0] = -60.; g_initial[1] = -75.;
  if (!g_tsdf) { g_initial[0] = symx_f64_range("ix", -100., -50.); g_initial[1] = symx_f64_range("iy", -100., -50.); }
  static const double kAngle[3] = {0., 2.5, -1.};
  g_initial[2] = kAngle[symx_choose("angle", 3)];
  for (int a = 0; a < 2; ++a) g_target[a] = symx_f64_range("target", -100., 100.);
  for (int a = 0; a < 3; ++a) g_found[a] = symx_f64_range("found", -3., 3.);
  ValueConversionTables tables;
  std::unique_ptr<Grid2D> grid;
  static const int kStored[4] = {1, 1000, 20000, 5};
  if (g_tsdf) {
    auto tsdf = std::make_unique<TSDF2D>(MapLimits(200., Eigen::Vector2d(400., 400.), CellLimits(4, 4)), 0.3f, 10.f, &tables);
    for (int k = 0; k < 16; ++k) { tsdf->SetCell(Eigen::Array2i(k / 4, k % 4), 0.1f, 2.f); tsdf->FinishUpdate(); }
    grid = std::move(tsdf);
  } else {
    grid = std::make_unique<ProbabilityGrid>(MakeGridProto(2, 2, 0.5, 1000., 1000., kStored), &tables);
  }
  std::vector<sensor::RangefinderPoint> points;
  for (int k = 0; k < g_points; ++k) points.push_back({Eigen::Vector3f(0.5f * k, 0.25f * k, 0.f)});
  const scan_matching::CeresScanMatcher2D matcher(options);
  transform::Rigid2d found; ceres::Solver::Summary summary;
  matcher.Match(Eigen::Vector2d(g_target[0], g_target[1]), transform::Rigid2d({g_initial[0], g_initial[1]}, g_initial[2]), sensor::PointCloud(points), *grid, &found, &summary);
  symx_assert(g_solved == 1, "every match is solved once");
  symx_assert(found.translation().x() == g_found[0] && found.translation().y() == g_found[1] && Near(found.rotation().angle(), g_found[2]), "the pose found is returned");
  symx_reach("end");
}
