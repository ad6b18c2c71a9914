//@ time=250,800 parts=kind:4;n:2
//# Rotating an angle histogram keeps its size, its sum and its range of values, shifts it cyclically for whole buckets and blends neighbouring buckets linearly in between; the match score of two histograms is at most 1, is 1 for proportional ones and for empty ones, and follows the rotation; the histogram of a cloud is non-negative, independent of the order of the points and of where the scan is, and adds up over height slices.
//b histograms of 3 or 5 buckets with symbolic entries in [0, 10], eight rotation angles within and beyond one turn; clouds of 4 points on a raster of symbolic positions; tolerance 1e-3
#include "symx.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
using namespace cartographer;
using namespace cartographer::mapping::scan_matching;
static bool Near(double a, double b, double t) { const double e = a - b; return (e <= t) & (e >= -t); }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 4), n = symx_choose("n", 2) ? 5 : 3;
  if (kind <= 1) {
    // rotations by b + f buckets; index i of the result is made of i + b and i + b + 1
    static const int full[8] = {0, 1, 2, -1, -7, 11, 0, -1};
    static const double frac[8] = {0., 0.25, 0., 0.5, 0., 0.75, 0.125, 0.9375};
    const int r = symx_choose("rotation", 8);
    const float angle = static_cast<float>(-(full[r] + frac[r]) * M_PI / n);
    Eigen::VectorXf h = Eigen::VectorXf::Zero(n);
    if (kind == 0) {
      for (int i = 0; i < n; ++i) h(i) = symx_f32_range("h", 0.f, 10.f);
      const Eigen::VectorXf out = RotationalScanMatcher::RotateHistogram(h, angle);
      symx_assert(out.size() == n, "rotation keeps the number of buckets");
      for (int i = 0; i < n; ++i) {
        const int a = ((i + full[r]) % n + n) % n, b = (a + 1) % n;
        symx_assert(Near(out(i), (1. - frac[r]) * h(a) + frac[r] * h(b), 1e-3), "rotation shifts whole buckets and blends neighbours");
      }
    } else {
      // integer entries: the score is a finite function of them
      for (int i = 0; i < n; ++i) { const int v = symx_irange("h", 0, n == 3 ? 6 : 2); h(i) = v; }
      const RotationalScanMatcher matcher(&h);
      const Eigen::VectorXf twice = 2.f * RotationalScanMatcher::RotateHistogram(h, frac[r] == 0. ? angle : 0.f);
      const std::vector<float> scores = matcher.Match(twice, 0.f, {frac[r] == 0. ? -angle : 0.f, 0.4f, 1.f});
      symx_assert(scores.size() == 3, "one score per angle");
      symx_assert(Near(scores[0], 1., 1e-3), "a proportional histogram rotated back matches perfectly");
      for (float s : scores) symx_assert(s <= 1.0001f && s >= 0.f, "the score of non-negative histograms lies in [0, 1]");
      const std::vector<float> shifted = matcher.Match(twice, 0.4f, {0.f});
      symx_assert(Near(shifted[0], scores[1], 1e-4), "the initial angle adds to the angles");
    }
  } else {
    // four points; positions on a raster
    static const float X[4] = {0.f, 0.5f, 1.1f, 0.6f}, Y[4] = {0.f, 0.1f, 0.4f, 1.f};
    Eigen::Vector3f p[4];
    for (int k = 0; k < 4; ++k) {
      const int v = symx_irange("p", 0, 2);
      static const float off[3] = {0.f, 0.3f, -0.45f};
      p[k] = Eigen::Vector3f(X[k], Y[k], 0.02f); p[k][k % 2] += off[v];
    }
    sensor::PointCloud cloud, other;
    for (int k = 0; k < 4; ++k) cloud.push_back({p[k]});
    const Eigen::VectorXf h = RotationalScanMatcher::ComputeHistogram(cloud, 2 * n);
    symx_assert(h.size() == 2 * n, "the histogram has the wanted size");
    for (int i = 0; i < 2 * n; ++i) symx_assert(h(i) >= 0.f && h(i) <= 4.f, "entries are non-negative and bounded by the points");
    if (kind == 2) {
      static const int order[3][4] = {{3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 3, 1}};
      const int o = symx_choose("order", 3);
      for (int k = 0; k < 4; ++k) other.push_back({p[order[o][k]]});
      const Eigen::VectorXf g = RotationalScanMatcher::ComputeHistogram(other, 2 * n);
      double sum = 0, gsum = 0; for (int i = 0; i < 2 * n; ++i) { sum += h(i); gsum += g(i); }
      symx_assert(Near(sum, gsum, 1e-3), "the order of the points does not matter");
      // one slice above the other: contributions add up
      sensor::PointCloud both = cloud;
      for (int k = 0; k < 4; ++k) both.push_back({p[k] + Eigen::Vector3f(0.f, 0.f, 0.6f)});
      const Eigen::VectorXf b = RotationalScanMatcher::ComputeHistogram(both, 2 * n);
      for (int i = 0; i < 2 * n; ++i) symx_assert(Near(b(i), 2. * h(i), 1e-4), "height slices add up");
    } else {
      for (int k = 0; k < 4; ++k) other.push_back({Eigen::Vector3f(p[k].x() + 4.f, p[k].y() - 8.f, p[k].z())});
      const Eigen::VectorXf g = RotationalScanMatcher::ComputeHistogram(other, 2 * n);
      for (int i = 0; i < 2 * n; ++i) symx_assert(Near(h(i), g(i), 1e-3), "the place of the scan does not matter");
    }
  }
  symx_reach("end");
}
