//@ time=200,800 parts=kind:5
//# A compressed point cloud decompresses to the same number of points, each within half a millimetre (plus float rounding) of the original, with points of one block in their original order; it survives its proto and compares equal to itself.
//b 3 points (thorough 4), or 300 in one block and one in another; block of every point any of 5 (per-axis sides of zero, up to +-1.2 km), positions symbolic inside a 1.024 m block, one axis at a time; proto and out-of-range refusal in kind 3
#include "symx.h"
#include "cartographer/sensor/compressed_point_cloud.h"
using namespace cartographer;
using namespace cartographer::sensor;
static const float kBase[5][3] = {{0.f, 0.f, 0.f}, {-1.024f, 1.024f, 2.048f}, {1.024f, -2.048f, -1.024f}, {1024.f, 512.f, -1228.8f}, {-1228.8f, -8.192f, 1024.f}};
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 5);
  if (kind == 3) {
    CompressedPointCloud empty((PointCloud()));
    symx_assert(empty.empty() && empty.size() == 0 && empty.Decompress().empty() && !(empty.begin() != empty.end()), "empty cloud");
    CompressedPointCloud def;
    symx_assert(def.empty() && def.size() == 0 && def.Decompress().empty(), "default cloud is empty");
    const float x = symx_f32_range("x", -20000.f, 20000.f);
    symx_assume(!(x > -8388.f && x < 8388.f));
    const int axis = symx_choose("axis", 3);
    Eigen::Vector3f p(1.f, 2.f, 3.f); p[axis] = x;
    if (x > 8389.f || x < -8389.f) {
      symx_expect_crash_begin("points outside the representable range are refused");
      CompressedPointCloud c(PointCloud({{p}}));
      symx_expect_crash_end("points outside the representable range are refused");
    }
    symx_reach("end");
    return;
  }
  if (kind == 4) {
    // many points in one block, and one in another
    const int many = symx_choose("many", 2) ? 300 : 70, at = symx_choose("at", 3);
    std::vector<RangefinderPoint> points;
    for (int i = 0; i < many; ++i) points.push_back({Eigen::Vector3f(0.003f * i, 0.5f, 0.25f)});
    const float x = symx_f32_range("x", -1.0f, -0.01f);
    points.insert(points.begin() + (at == 0 ? 0 : at == 1 ? many / 2 : many), {Eigen::Vector3f(x, 0.5f, 0.25f)});
    const CompressedPointCloud compressed((PointCloud(points)));
    const PointCloud d = compressed.Decompress();
    symx_assert(compressed.size() == size_t(many) + 1 && d.size() == size_t(many) + 1, "number of points");
    if (d.size() != size_t(many) + 1) return;
    int next = 0, others = 0;
    for (const auto& p : d) {
      if (p.position.x() < -0.005f) { ++others; const double e = double(p.position.x()) - double(x); symx_assert(e <= 0.000502 && e >= -0.000502, "every point is within half a millimetre"); continue; }
      const double e = double(p.position.x()) - 0.003 * next++;
      symx_assert(e <= 0.000502 && e >= -0.000502, "every point is within half a millimetre, in the order of its block");
    }
    symx_assert(others == 1 && next == many, "every point comes out");
    symx_reach("end");
    return;
  }
  const int N = TIER ? 4 : 3;
  std::vector<RangefinderPoint> points; int block[4];
  for (int i = 0; i < N; ++i) {
    block[i] = symx_choose("block", 5);
    if (!TIER && i == 1) symx_assume(block[1] == 0 || block[1] == 1 || block[1] == 4);
    Eigen::Vector3f p(kBase[block[i]][0] + 0.25f, kBase[block[i]][1] + 0.5f, kBase[block[i]][2] + 0.75f);
    const float lo = kBase[block[i]][kind];
    p[kind] = symx_f32_range("x", lo + 0.001f, lo + 1.022f);
    points.push_back({p});
  }
  const PointCloud cloud(points);
  CompressedPointCloud compressed(cloud);
  symx_assert(compressed.size() == (size_t)N && !compressed.empty(), "number of points");
  const PointCloud d = compressed.Decompress();
  symx_assert(d.size() == (size_t)N && d.intensities().empty(), "number of points");
  if (d.size() != (size_t)N) return;
  // the points of each block come out together and in order; the block is
  // identified by the coordinates that are not symbolic
  int k = 0; unsigned used = 0; bool grouped = true;
  while (k < N) {
    int b = -1;
    for (int c = 0; c < 5 && b < 0; ++c) if (!(used & (1u << c))) {
      bool in = true;
      for (int a = 0; a < 3; ++a) if (a != kind) { const float v = d[k].position[a]; in = in && v >= kBase[c][a] - 0.01f && v <= kBase[c][a] + 1.034f; }
      bool any = false; for (int i = 0; i < N; ++i) any = any || block[i] == c;
      if (in && any) b = c;
    }
    if (b < 0) { grouped = false; break; }
    used |= 1u << b;
    for (int i = 0; i < N; ++i) if (block[i] == b) {
      if (k >= N) { grouped = false; break; }
      const double tol = b < 3 ? 0.000502 : 0.00065;
      for (int a = 0; a < 3; ++a) { const double e = (double)d[k].position[a] - (double)points[i].position[a]; symx_assert(e <= tol && e >= -tol, "every point is within half a millimetre, in the order of its block"); }
      ++k;
    }
  }
  symx_assert(grouped, "the points of each block come out together");
  const CompressedPointCloud again(compressed.ToProto());
  symx_assert(again == compressed && again.size() == (size_t)N, "the proto keeps the cloud");
  const PointCloud d2 = again.Decompress();
  bool same = d2.size() == d.size();
  for (size_t i = 0; same && i < d.size(); ++i) same = d2[i].position == d[i].position;
  symx_assert(same, "the proto keeps the points");
  symx_reach("end");
}
