//@ time=200,700 parts=kind:4
//# The cost of a point under a pose is the map's value interpolated at the point: 2D occupancy (bicubic), 2D signed distance (bilinear, weighted), 3D occupancy and 3D intensity (smoothly between voxel centres); at a cell centre it is the cell's own value, outside the map the value of unknown space, and the derivatives are those of the residual.
//b small grids with known, unknown and outside cells; positions on a raster of 1/8 or 1/4 cell over the map and around it, rotations, scale and second point from fixed sets
//s automatic differentiation and bicubic interpolation are Ceres' headers, executed as they are
#include "grid2d.h"
#include "symx.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/tsdf_match_cost_function_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/intensity_cost_function_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/low_resolution_matcher.h"
#include "cartographer/mapping/internal/3d/scan_matching/occupied_space_cost_function_3d.h"
namespace ceres { CostFunction::CostFunction() : num_residuals_(0) {} CostFunction::~CostFunction() {} }
using namespace cartographer;
using namespace cartographer::mapping;
static bool Near(double a, double b, double t) { const double e = a - b; return (e <= t) & (e >= -t); }
static sensor::PointCloud Cloud(const std::vector<Eigen::Vector3f>& points, const std::vector<float>& intensities = {}) {
  std::vector<sensor::RangefinderPoint> p;
  for (const Eigen::Vector3f& q : points) p.push_back({q});
  return intensities.empty() ? sensor::PointCloud(p) : sensor::PointCloud(p, intensities);
}
static int Floor(double v) { return static_cast<int>(v + 64.) - 64; }
// values of cells by their position in the world: cell (i, j) is the i-th from the left and the j-th from below
static double Cubic(const double* p, double x) { return p[1] + 0.5 * x * (p[2] - p[0] + x * (2. * p[0] - 5. * p[1] + 4. * p[2] - p[3] + x * (3. * (p[1] - p[2]) + p[3] - p[0]))); }
template <typename Value> static double Bicubic(const Value& value, double x, double y) {  // in cells, from the first centre
  const int i = Floor(x), j = Floor(y);
  double column[4];
  for (int a = 0; a < 4; ++a) { double p[4]; for (int b = 0; b < 4; ++b) p[b] = value(i - 1 + a, j - 1 + b); column[a] = Cubic(p, y - j); }
  return Cubic(column, x - i);
}
static double Smooth(double t) { return t * t * (3. - 2. * t); }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 4);
  const int scale_kind = symx_choose("scale", 2);
  const double scale = scale_kind ? 7.5 : 1.;
  if (kind == 0) {
    // 3 cells along y, 4 along x, half a metre each
    static const int stored[12] = {1, 32767, 12345, 20000, 0, 8000, 30000, 4000, 16000, 25000, 2000, 28000};
    ValueConversionTables tables;
    const ProbabilityGrid grid(MakeGridProto(3, 4, 0.5, 1., 2., stored), &tables);
    const int turn = symx_choose("turn", 3);
    static const double kTurn[3] = {0., M_PI_2, -0.5};
    // where the first point is in the map, in eighths of a cell
    const int ix = symx_irange("x", -20, 51), iy = symx_choose("y", TIER ? 40 : 11);
    const double y8 = TIER ? iy - 8 : iy * 4. - 9.;
    const double lx = -1. + ix * 0.0625, ly = 0.5 + y8 * 0.0625;   // lower left corner of the map is (-1, 0.5)
    // the same point seen from a pose
    const double pose[3] = {0.25, -0.75, kTurn[turn]};
    const double c = std::cos(pose[2]), s = std::sin(pose[2]);
    const Eigen::Vector3f p(c * (lx - pose[0]) + s * (ly - pose[1]), -s * (lx - pose[0]) + c * (ly - pose[1]), 0.3f);
    // and a second one, at the centre of a cell
    const double kx = -0.25, ky = 1.75;
    const Eigen::Vector3f q(c * (kx - pose[0]) + s * (ky - pose[1]), -s * (kx - pose[0]) + c * (ky - pose[1]), -4.f);
    const sensor::PointCloud cloud = Cloud({p, q});
    ceres::CostFunction* f = scan_matching::CreateOccupiedSpaceCostFunction2D(scale, cloud, grid);
    auto value = [&](int i, int j) {   // i-th from the left, j-th from below
      if (i < 0 || j < 0 || i >= 4 || j >= 3) return static_cast<double>(kMaxCorrespondenceCost);
      return static_cast<double>(grid.GetCorrespondenceCost(Eigen::Array2i(2 - j, 3 - i)));
    };
    const double* parameters[1] = {pose};
    double r[2] = {99., 99.}, jac[6]; double* jacs[1] = {jac};
    symx_assert(f->num_residuals() == 2 && f->parameter_block_sizes().size() == 1 && f->Evaluate(parameters, r, nullptr), "one residual per point");
    symx_assert(Near(r[0] / scale, Bicubic(value, ix / 8. - 0.5, y8 / 8. - 0.5), 4e-6), "2D occupancy is interpolated at the point");
    symx_assert(Near(r[1] / scale, value(1, 2), 4e-6), "at the centre of a cell its own value counts");
    double again[2];
    symx_assert(f->Evaluate(parameters, again, jacs) && Near(again[0], r[0], 1e-9 * scale) && Near(again[1], r[1], 1e-9 * scale), "derivatives do not change the residuals");
    for (int a = 0; a < 3; ++a) {
      double lo[3] = {pose[0], pose[1], pose[2]}, hi[3] = {pose[0], pose[1], pose[2]}; lo[a] -= 1. / 1024.; hi[a] += 1. / 1024.;
      double rl[2], rh[2]; const double *pl[1] = {lo}, *ph[1] = {hi};
      f->Evaluate(pl, rl, nullptr); f->Evaluate(ph, rh, nullptr);
      symx_assert(Near(jac[a] / scale, (rh[0] - rl[0]) * 512. / scale, 0.05), "2D derivatives are those of the residual");
    }
    delete f;
  } else if (kind == 1) {
    ValueConversionTables tables;
    TSDF2D grid(MapLimits(0.5, Eigen::Vector2d(1., 2.), CellLimits(4, 5)), 0.3f, 10.f, &tables);
    // cells known in the middle
    static const float tsd[12] = {0.3f, -0.2f, 0.1f, 0.05f, -0.3f, 0.25f, 0.f, -0.1f, 0.2f, -0.25f, 0.15f, 0.3f};
    static const float weight[12] = {1.f, 10.f, 3.f, 7.f, 2.f, 5.f, 0.f, 4.f, 1.f, 9.f, 2.f, 6.f};
    const bool empty = symx_choose("map", 2) == 1;
    if (!empty) for (int k = 0; k < 12; ++k) if (weight[k] != 0.f) { grid.SetCell(Eigen::Array2i(1 + k / 4, 1 + k % 4), tsd[k], weight[k]); grid.FinishUpdate(); }
    const int turn = symx_choose("turn", 3);
    static const double kTurn[3] = {0., M_PI_2, -0.5};
    const int ix = symx_irange("x", -3, 40), iy = symx_choose("y", TIER ? 18 : 9);
    const double y8 = TIER ? iy * 2. - 1.5 : iy * 4. - 1.5;
    const double lx = -1.5 + (ix + 0.5) * 0.0625, ly = 0. + y8 * 0.0625;  // lower left corner (-1.5, 0)
    const double pose[3] = {0.25, -0.75, kTurn[turn]};
    const double c = std::cos(pose[2]), s = std::sin(pose[2]);
    const Eigen::Vector3f p(c * (lx - pose[0]) + s * (ly - pose[1]), -s * (lx - pose[0]) + c * (ly - pose[1]), 0.3f);
    const int second = symx_choose("second", 2);
    const double kx = second ? -0.5 : 8., ky = 0.9;
    const Eigen::Vector3f q(c * (kx - pose[0]) + s * (ky - pose[1]), -s * (kx - pose[0]) + c * (ky - pose[1]), -4.f);
    const sensor::PointCloud cloud = Cloud({p, q});
    ceres::CostFunction* f = scan_matching::CreateTSDFMatchCostFunction2D(scale, cloud, grid);
    auto known = [&](int i, int j) { const Eigen::Array2i cell(3 - j, 4 - i); return i >= 0 && j >= 0 && i < 5 && j < 4 && grid.GetWeight(cell) != 0.f; };
    auto at = [&](int i, int j, bool w) { if (!known(i, j)) return 0.; const Eigen::Array2i cell(3 - j, 4 - i); return static_cast<double>(w ? grid.GetWeight(cell) : grid.GetTSD(cell)); };
    auto bilinear = [&](double x, double y, bool w) {
      const int i = Floor(x), j = Floor(y); const double u = x - i, v = y - j;
      return (1. - u) * ((1. - v) * at(i, j, w) + v * at(i, j + 1, w)) + u * ((1. - v) * at(i + 1, j, w) + v * at(i + 1, j + 1, w));
    };
    auto cost = [&](double x, double y) {
      const int i = Floor(x), j = Floor(y);
      return known(i, j) && known(i + 1, j) && known(i, j + 1) && known(i + 1, j + 1) ? bilinear(x, y, false) : 0.3;
    };
    const double x = (ix + 0.5) / 8. - 0.5, y = y8 / 8. - 0.5, x2 = (kx + 1.5) * 2. - 0.5, y2 = ky * 2. - 0.5;
    const double w1 = bilinear(x, y, true), w2 = bilinear(x2, y2, true);
    const double* parameters[1] = {pose};
    double r[2] = {99., 99.}, jac[6]; double* jacs[1] = {jac};
    const bool ok = f->Evaluate(parameters, r, nullptr);
    symx_assert(f->num_residuals() == 2, "one residual per point");
    if (w1 > 1e-3 || w2 > 1e-3) {
      symx_assert(ok, "residuals exist where the map is known");
      symx_assert(Near(r[0] / scale, 2. * cost(x, y) * w1 / (w1 + w2), 2e-4), "signed distance is interpolated and weighted at the point");
      symx_assert(Near(r[1] / scale, 2. * cost(x2, y2) * w2 / (w1 + w2), 2e-4), "every point has its own residual");
      double again[2];
      symx_assert(f->Evaluate(parameters, again, jacs) && Near(again[0], r[0], 1e-9 * scale) && Near(again[1], r[1], 1e-9 * scale), "derivatives do not change the residuals");
    }
    if (empty) symx_assert(!ok, "without any known cell there is no match");
    delete f;
  } else {
    // 3 x 2 x 2 voxels with values, a rotation in 3D
    HybridGrid grid(0.5f); IntensityHybridGrid light(0.5f);
    static const float probability[12] = {0.3f, 0.9f, 0.1f, 0.5f, 0.7f, 0.2f, 0.6f, 0.8f, 0.4f, 0.15f, 0.85f, 0.55f};
    for (int k = 0; k < 12; ++k) {
      const Eigen::Array3i cell(k % 3 - 1, k / 3 % 2 - 1, k / 6);
      if (k != 5) { grid.SetProbability(cell, probability[k]); light.AddIntensity(cell, 100.f * probability[k] - 20.f); light.AddIntensity(cell, 100.f * probability[k] + 20.f); }
    }
    const int turn = symx_choose("turn", 3);
    static const double kTurn[3][4] = {{1., 0., 0., 0.}, {0.5, 0.5, 0.5, 0.5}, {0.8, 0., 0.6, 0.}};
    const int ix = symx_irange("x", -16, 15), iy = symx_choose("y", TIER ? 21 : 7), iz = symx_choose("z", TIER ? 21 : 7);
    const double step = TIER ? 1. / 4. : 3. / 4.;
    // position in voxels, from the voxel centre with index (0, 0, 0)
    const double x = ix / 8., y = TIER ? -2.5 + iy * step : -2.5 + iy * step, z = -2. + iz * step;
    const Eigen::Vector3d at(0.5 * x, 0.5 * y, 0.5 * z);
    const double translation[3] = {0.25, -0.75, 1.5};
    const Eigen::Quaterniond rotation(kTurn[turn][0], kTurn[turn][1], kTurn[turn][2], kTurn[turn][3]);
    const Eigen::Vector3d seen = rotation.conjugate() * (at - Eigen::Vector3d(translation[0], translation[1], translation[2]));
    const Eigen::Vector3d centre = rotation.conjugate() * (Eigen::Vector3d(0.5, -0.5, 0.) - Eigen::Vector3d(translation[0], translation[1], translation[2]));
    auto value = [&](int i, int j, int k) {
      const Eigen::Array3i cell(i, j, k);
      return static_cast<double>(kind == 2 ? grid.GetProbability(cell) : light.GetIntensity(cell));
    };
    // keep away from where rounding decides which voxels are used; the interpolation is continuous there
    double want = 0.;
    const int i = Floor(x), j = Floor(y), k = Floor(z);
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int d = 0; d < 2; ++d) {
      const double u = Smooth(x - i), v = Smooth(y - j), w = Smooth(z - k);
      want += (a ? u : 1. - u) * (b ? v : 1. - v) * (d ? w : 1. - w) * value(i + a, j + b, k + d);
    }
    const double* parameters[2] = {translation, kTurn[turn]};
    double r[2] = {99., 99.}, again[2], jt[6], jr[8]; double* jacs[2] = {jt, jr};
    ceres::CostFunction* f;
    if (kind == 2) {
      const sensor::PointCloud cloud = Cloud({seen.cast<float>(), centre.cast<float>()});
      f = scan_matching::OccupiedSpaceCostFunction3D::CreateAutoDiffCostFunction(scale, cloud, grid);
      symx_assert(f->num_residuals() == 2 && f->Evaluate(parameters, r, nullptr), "one residual per point");
      symx_assert(Near(r[0] / scale, 1. - want, 1e-4), "3D occupancy is interpolated at the point");
      symx_assert(Near(r[1] / scale, 1. - value(1, -1, 0), 1e-4), "at the centre of a voxel its own value counts");
      symx_assert(f->Evaluate(parameters, again, jacs) && Near(again[0], r[0], 1e-9 * scale) && Near(again[1], r[1], 1e-9 * scale), "derivatives do not change the residuals");
      for (int a = 0; a < 3; ++a) {
        double lo[3] = {translation[0], translation[1], translation[2]}, hi[3] = {lo[0], lo[1], lo[2]}; lo[a] -= 1. / 1024.; hi[a] += 1. / 1024.;
        double rl[2], rh[2]; const double *pl[2] = {lo, kTurn[turn]}, *ph[2] = {hi, kTurn[turn]};
        f->Evaluate(pl, rl, nullptr); f->Evaluate(ph, rh, nullptr);
        symx_assert(Near(jt[a] / scale, (rh[0] - rl[0]) * 512. / scale, 0.05), "3D derivatives are those of the residual");
      }
      // the average of the values under the points, without interpolation
      const auto matcher = scan_matching::CreateLowResolutionMatcher(&grid, &cloud);
      const transform::Rigid3f pose(Eigen::Vector3f(0.25f, -0.75f, 1.5f), rotation.cast<float>());
      const double fx = x + 0.5 - Floor(x + 0.5), fy = y + 0.5 - Floor(y + 0.5), fz = z + 0.5 - Floor(z + 0.5);
      symx_assert(fx < 1e-3 || fy < 1e-3 || fz < 1e-3 || Near(matcher(pose), 0.5 * (value(Floor(x + 0.5), Floor(y + 0.5), Floor(z + 0.5)) + value(1, -1, 0)), 1e-4), "the low resolution score is the average value under the points");
      delete f;
    } else {
      const int bright = symx_choose("bright", 3);
      static const float kBright[3] = {30.f, 50.f, 50.5f};
      const sensor::PointCloud cloud = Cloud({seen.cast<float>(), centre.cast<float>()}, {kBright[bright], 10.f});
      f = scan_matching::IntensityCostFunction3D::CreateAutoDiffCostFunction(scale, 50.f, cloud, light);
      symx_assert(f->num_residuals() == 2 && f->Evaluate(parameters, r, nullptr), "one residual per point");
      if (bright == 2) symx_assert(r[0] == 0., "too bright points are ignored");
      else symx_assert(Near(r[0] / scale, want - kBright[bright], 1e-2), "3D intensity is interpolated at the point");
      symx_assert(Near(r[1] / scale, value(1, -1, 0) - 10., 1e-2), "at the centre of a voxel its own intensity counts");
      symx_assert(f->Evaluate(parameters, again, jacs) && Near(again[0], r[0], 1e-9 * scale) && Near(again[1], r[1], 1e-9 * scale), "derivatives do not change the residuals");
      delete f;
    }
  }
  symx_reach("end");
}
