//@ time=250,800 parts=rot:4 tparts=rot:4
//# The motion filter drops a pose only if time, distance and angle since the last kept pose are all within the limits, and keeps it otherwise; the reference moves only when a pose is kept.
//b 3 poses (thorough 4) moving along symbolic translations (|x| <= 100 m), times symbolic (< 2^40 ticks), distance limit symbolic (the last micrometre around it excluded), time limit 0, 0.2 or 5 s; rotations about z from a fixed set of steps
#include "symx.h"
#include "cartographer/mapping/internal/motion_filter.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int rot = symx_choose("rot", 4);
  // per-step rotation in units of 0.2 rad; the angle limit lies between multiples
  static const int kStep[4][3] = {{0, 0, 0}, {1, 1, 1}, {3, -2, 1}, {-1, -1, 2}};
  proto::MotionFilterOptions options;
  static const double kSeconds[3] = {0., 0.2, 5.};
  const double seconds = kSeconds[symx_choose("seconds", 3)];
  const int64_t max_ticks = (int64_t)(seconds * 1e7 + 0.5);
  const double distance = symx_f64_range("max_distance", 0.01, 50.);
  options.set_max_time_seconds(seconds); options.set_max_distance_meters(distance); options.set_max_angle_radians(0.3);
  MotionFilter filter(options);
  int64_t rt = 0; double rx = 0.; int ra = 0; int angle = 0; int64_t t = 0;
  const int N = TIER ? 4 : 3;
  for (int i = 0; i < N; ++i) {
    t = symx_range("time", 0, 1ll << 40);
    symx_assume(t >= rt);
    const double x = symx_f64_range("x", -100., 100.);
    if (i) angle += kStep[rot][i - 1];
    const transform::Rigid3d pose(Eigen::Vector3d(1., 2., x), Eigen::AngleAxisd(0.2 * angle, Eigen::Vector3d::UnitZ()));
    const bool similar = filter.IsSimilar(common::FromUniversal(t), pose);
    const double d = x - rx;
    const double ad = d < 0 ? -d : d;
    symx_assume(ad < distance - 1e-6 || ad > distance + 1e-6);
    const bool want = i > 0 && t - rt <= max_ticks && ad <= distance && std::abs(angle - ra) <= 1;
    symx_assert(similar == want, "a pose is dropped exactly if close in time, distance and angle to the last kept one");
    if (!want) { rt = t; rx = x; ra = angle; }
  }
  symx_reach("end");
}
