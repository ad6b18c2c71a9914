//@ time=200,800 parts=kind:5
//# Cropping keeps exactly the points within the closed height range, in order, with their intensities; filtering a cloud keeps points and intensities aligned; transforms keep count, order, times and intensities; range data keeps its points through its proto and through the legacy proto fields.
//b up to 4 points per cloud (thorough 5), symbolic coordinates of any float (crop, proto) or within 100 m (transform, three rotations of the axes), symbolic crop limits
#include "symx.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/transform/transform.h"
using namespace cartographer;
using namespace cartographer::sensor;
static bool Same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
static bool Same(const Eigen::Vector3f& a, const Eigen::Vector3f& b) { return Same(a.x(), b.x()) && Same(a.y(), b.y()) && Same(a.z(), b.z()); }
static Eigen::Vector3f Any(const char* n) { Eigen::Vector3f r; r.x() = symx_f32(n); r.y() = symx_f32(n); r.z() = symx_f32(n); return r; }
static Eigen::Vector3f In(const char* n) { Eigen::Vector3f r; r.x() = symx_f32_range(n, -100.f, 100.f); r.y() = symx_f32_range(n, -100.f, 100.f); r.z() = symx_f32_range(n, -100.f, 100.f); return r; }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 5);
  const int N = TIER ? 5 : 4;
  if (kind == 0) {
    const bool with = symx_choose("intensities", 2);
    std::vector<RangefinderPoint> points; std::vector<float> in;
    for (int i = 0; i < N; ++i) { points.push_back({Eigen::Vector3f(i, -i, symx_f32("z"))}); if (with) in.push_back(10 + i); }
    const float lo = symx_f32("min_z"), hi = symx_f32("max_z");
    const PointCloud out = CropPointCloud(PointCloud(points, in), lo, hi);
    size_t k = 0; bool ok = true;
    for (int i = 0; i < N; ++i) if (lo <= points[i].position.z() && points[i].position.z() <= hi) {
      ok = ok && k < out.size(); if (!ok) break;
      ok = Same(out[k].position, points[i].position) && (!with || (k < out.intensities().size() && out.intensities()[k] == in[i]));
      ++k;
    }
    symx_assert(ok && out.size() == k && out.intensities().size() == (with ? k : 0), "cropping keeps exactly the points in range with their intensities");
  } else if (kind == 1) {
    RangeData data{Any("o"), PointCloud({{Any("r")}, {Any("r")}}), PointCloud({{Any("m")}, {Any("m")}, {Any("m")}})};
    const float lo = symx_f32("min_z"), hi = symx_f32("max_z");
    const RangeData out = CropRangeData(data, lo, hi);
    symx_assert(Same(out.origin, data.origin), "cropping keeps the origin");
    for (int w = 0; w < 2; ++w) {
      const PointCloud& a = w ? data.misses : data.returns; const PointCloud& b = w ? out.misses : out.returns;
      size_t k = 0; bool ok = true;
      for (const auto& p : a) if (lo <= p.position.z() && p.position.z() <= hi) { ok = ok && k < b.size() && Same(b[k].position, p.position); ++k; }
      symx_assert(ok && b.size() == k, "cropping range data crops returns and misses");
    }
  } else if (kind == 2) {
    const int nr = symx_choose("returns", 3), nm = symx_choose("misses", 3);
    std::vector<RangefinderPoint> r, m;
    for (int i = 0; i < nr; ++i) r.push_back({Any("r")});
    for (int i = 0; i < nm; ++i) m.push_back({Any("m")});
    const RangeData data{Any("o"), PointCloud(r), PointCloud(m)};
    const RangeData out = FromProto(ToProto(data));
    bool ok = Same(out.origin, data.origin) && out.returns.size() == r.size() && out.misses.size() == m.size();
    for (int i = 0; ok && i < nr; ++i) ok = Same(out.returns[i].position, r[i].position);
    for (int i = 0; ok && i < nm; ++i) ok = Same(out.misses[i].position, m[i].position);
    symx_assert(ok, "range data survives its proto");
    proto::RangeData legacy; *legacy.mutable_origin() = transform::ToProto(data.origin);
    for (const auto& p : r) *legacy.add_returns_legacy() = transform::ToProto(p.position);
    for (const auto& p : m) *legacy.add_misses_legacy() = transform::ToProto(p.position);
    const RangeData old = FromProto(legacy);
    ok = Same(old.origin, data.origin) && old.returns.size() == r.size() && old.misses.size() == m.size();
    for (int i = 0; ok && i < nr; ++i) ok = Same(old.returns[i].position, r[i].position);
    for (int i = 0; ok && i < nm; ++i) ok = Same(old.misses[i].position, m[i].position);
    symx_assert(ok, "range data is read from the legacy fields");
    const TimedRangefinderPoint t{Any("t"), symx_f32("time")};
    const TimedRangefinderPoint t2 = FromProto(ToProto(t));
    symx_assert(Same(t.position, t2.position) && Same(t.time, t2.time), "timed points survive their proto");
  } else if (kind == 3) {
    // axis rotations and a symbolic shift: exact up to float rounding
    const int rot = symx_choose("rot", 3);
    const float h = 0.70710678f;
    const Eigen::Quaternionf q = rot == 0 ? Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f) : rot == 1 ? Eigen::Quaternionf(h, 0.f, 0.f, h) : Eigen::Quaternionf(0.f, 1.f, 0.f, 0.f);
    const Eigen::Vector3f s = In("s");
    const transform::Rigid3f tf(s, q);
    auto expect = [&](const Eigen::Vector3f& p) { Eigen::Vector3f e = rot == 0 ? p : rot == 1 ? Eigen::Vector3f(-p.y(), p.x(), p.z()) : Eigen::Vector3f(p.x(), -p.y(), -p.z()); return e; };
    auto close = [&](const Eigen::Vector3f& got, const Eigen::Vector3f& p) {
      const Eigen::Vector3f e = expect(p); bool ok = true;
      for (int a = 0; a < 3; ++a) { const float d = got[a] - (e[a] + s[a]); ok = ok && d <= 1e-3f && d >= -1e-3f; }
      return ok;
    };
    const Eigen::Vector3f a = In("a"), b = In("b");
    const int what = symx_choose("what", 3);
    if (what == 0) {
      const PointCloud out = TransformPointCloud(PointCloud({{a}, {b}}, {3.f, 4.f}), tf);
      symx_assert(out.size() == 2 && close(out[0].position, a) && close(out[1].position, b) && out.intensities() == std::vector<float>({3.f, 4.f}), "transforming a cloud moves every point and keeps intensities");
    } else if (what == 1) {
      const float time = symx_f32("time");
      const TimedPointCloud out = TransformTimedPointCloud({{a, time}, {b, 0.f}}, tf);
      symx_assert(out.size() == 2 && close(out[0].position, a) && close(out[1].position, b) && Same(out[0].time, time) && out[1].time == 0.f, "transforming a timed cloud moves every point and keeps times");
    } else {
      const RangeData out = TransformRangeData(RangeData{a, PointCloud({{b}}), PointCloud({{a}, {b}})}, tf);
      symx_assert(close(out.origin, a) && out.returns.size() == 1 && close(out.returns[0].position, b) && out.misses.size() == 2 && close(out.misses[0].position, a) && close(out.misses[1].position, b), "transforming range data moves origin, returns and misses");
    }
  } else {
    std::vector<RangefinderPoint> points; std::vector<float> in; unsigned mask = symx_u8("mask");
    for (int i = 0; i < N; ++i) { points.push_back({Any("p")}); in.push_back(symx_f32("i")); }
    int calls = 0;
    const PointCloud out = PointCloud(points, in).copy_if([&](const RangefinderPoint&) { return (mask >> calls++) & 1; });
    size_t k = 0; bool ok = calls == N;
    for (int i = 0; i < N; ++i) if ((mask >> i) & 1) { ok = ok && k < out.size() && k < out.intensities().size() && Same(out[k].position, points[i].position) && Same(out.intensities()[k], in[i]); ++k; }
    symx_assert(ok && out.size() == k && out.intensities().size() == k, "filtering keeps points and intensities aligned");
    const int extra = symx_choose("extra", 3) - 1;
    in.resize(N + extra);
    if (extra != 0) { symx_expect_crash_begin("a cloud with the wrong number of intensities is refused"); PointCloud bad(points, in); symx_expect_crash_end("a cloud with the wrong number of intensities is refused"); }
  }
  symx_reach("end");
}
