//@ time=280,800 parts=s1:2;s2:2;s3:2 tparts=s1:2;s2:2;s3:2;s4:2
//# Points of several range sensors come out sorted by time within and across results, each at most once, with their own position, intensity and origin and a relative time that gives back the measurement time; a point is lost only if it is older than what was already handed over (or than the previous message of its own sensor), and a message is delayed at most until the next message of its sensor.
//b two sensors, 4 messages (thorough 5) in every order of sensors, up to 3 points each, message times symbolic on a 0.125 s raster (non-decreasing, as the collator in front delivers them, gaps up to 1.4 s, thorough 2.5 s)
#include "symx.h"
#include "cartographer/mapping/internal/range_data_collator.h"
using namespace cartographer;
using namespace cartographer::mapping;
static constexpr int64_t kRaster = 1250000;
struct Pt { int64_t t; int sensor, message; bool emitted; int64_t e_before, prev; };
extern "C" void symx_main() {
  const int N = TIER ? 5 : 4;
  RangeDataCollator collator({"a", "b"});
  int sensor[5] = {0};
  sensor[1] = symx_choose("s1", 2); sensor[2] = symx_choose("s2", 2); sensor[3] = symx_choose("s3", 2); if (TIER) sensor[4] = symx_choose("s4", 2);
  // relative point times in raster units, ascending, the last one 0
  static const int kPoints[5][3] = {{-8, -2, 0}, {-2, 0, 9}, {-4, 0, 9}, {-8, 0, 9}, {0, 9, 9}};
  std::vector<Pt> points;
  int64_t last[2] = {0, 0}; bool has[2] = {false, false};
  const int64_t none = -1000000000ll; int64_t latest = 0;
  int64_t E = none;
  for (int m = 0; m < N; ++m) {
    const int s = sensor[m];
    const int64_t t = m ? latest + symx_irange("gap", 0, TIER ? 20 : 11) : 10; latest = t;
    sensor::TimedPointCloudData data;
    data.time = common::FromUniversal(1000000000ll + t * kRaster); data.origin = Eigen::Vector3f(s, m, 0.f);
    for (int i = 0; i < 3; ++i) if (kPoints[m][i] <= 0) {
      data.ranges.push_back({Eigen::Vector3f(1.f, 2.f, points.size()), 0.125f * kPoints[m][i]});
      if (m != 1) data.intensities.push_back(100.f + points.size());
      points.push_back({t + kPoints[m][i], s, m, false, E, has[s] ? last[s] : none});
    }
    const sensor::TimedPointCloudOriginData out = collator.AddRangeData(s ? "b" : "a", data);
    const int64_t before = E;
    if (!out.ranges.empty()) {
      const int64_t ticks = common::ToUniversal(out.time) - 1000000000ll;
      symx_assert(out.origins.size() <= 2 && ticks >= before * kRaster && ticks <= 200 * kRaster && ticks % kRaster == 0, "results move forward in time");
      E = ticks / kRaster;
    }
    for (size_t i = 0; i < out.ranges.size(); ++i) {
      const auto& r = out.ranges[i];
      const int id = (int)r.point_time.position.z();
      symx_assert(id >= 0 && id < (int)points.size() && r.point_time.position.x() == 1.f && r.point_time.position.y() == 2.f && r.intensity == (points[id].message == 1 ? 0.f : 100.f + id), "points keep position and intensity");
      Pt& p = points[id];
      symx_assert(!p.emitted, "no point is handed over twice");
      p.emitted = true;
      symx_assert(r.origin_index < out.origins.size() && out.origins[r.origin_index] == Eigen::Vector3f(p.sensor, p.message, 0.f), "points refer to their origin");
      symx_assert(p.t <= E && p.t >= before, "results are sorted across calls");
      const float e = r.point_time.time - 0.125f * (p.t - E);
      symx_assert(e <= 1e-3f && e >= -1e-3f, "relative times give back the measurement time");
      if (i) symx_assert(out.ranges[i - 1].point_time.time <= r.point_time.time, "results are sorted by time");
    }
    // nothing is lost without reason
    for (const Pt& p : points) if (!p.emitted) symx_assert(p.t >= E || p.t < p.e_before || p.t < p.prev, "only points older than what was handed over are lost");
    for (const Pt& p : points) if (!p.emitted && p.message < m && p.sensor == s) symx_assert(p.t < p.e_before || p.t < p.prev, "a message waits at most for the next one of its sensor");
    has[s] = true; last[s] = t;
  }
  symx_expect_crash_begin("unknown sensors are refused");
  collator.AddRangeData("c", sensor::TimedPointCloudData());
  symx_expect_crash_end("unknown sensors are refused");
}
