//@ time=250,800 parts=kind:6;dur:3
//# Extrapolation starts at the newest pose and continues with constant linear and angular velocity: the velocities span the shortest part of the history that covers the configured duration, are kept if the history is too short, and are zero before that; at the time of the newest pose the result is that pose, also if that time was extrapolated before; with two or more odometry poses the linear velocity is that of the odometry in the frame of the newest pose; with IMU data the rotation integrates its angular velocities and the gravity orientation turns its accelerations upwards; several poses extrapolated at once are the same as one by one.
//b three poses at symbolic times (raster 0.5 s, gaps up to 1.5 s) or with symbolic translations (within 100 m), planar rotation at three rates, durations 0.001, 0.5 and 2 s, lookups up to 2 s ahead; two odometry poses with symbolic displacement; three IMU readings with angular velocities and accelerations on a raster
#include "symx.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "cartographer/transform/transform.h"
using namespace cartographer;
using namespace cartographer::mapping;
static bool Near(double a, double b, double t) { const double e = a - b; return (e <= t) & (e >= -t); }
static common::Time At(int half_seconds) { return common::FromUniversal(1000000) + common::Duration(int64_t(half_seconds) * 5000000); }
static transform::Rigid3d Pose(double x, double y, double yaw) { return transform::Rigid3d(Eigen::Vector3d(x, y, 0.5), transform::RollPitchYaw(0., 0., yaw)); }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 6), dur = symx_choose("dur", 3);
  static const double kDuration[3] = {0.001, 0.5, 2.};
  PoseExtrapolator e(common::FromSeconds(kDuration[dur]), 10.);
  symx_assert(e.GetLastPoseTime() == common::Time::min() && e.GetLastExtrapolatedTime() == common::Time::min(), "nothing is known at first");
  const int rate_i = symx_choose("rate", 3);
  const double rate = rate_i == 0 ? 0. : rate_i == 1 ? 0.3 : -0.5;  // rad per half second
  int t[3]; double x[3], y[3];
  for (int k = 0; k < 3; ++k) {
    const int gap = kind == 0 ? symx_irange("gap", 1, 3) : 1 + k % 2;
    t[k] = k == 0 ? 0 : t[k - 1] + gap;
    x[k] = kind == 0 ? k * k * 2. - k : symx_f64_range("x", -100., 100.);
    y[k] = kind == 0 ? -3. * k : 4. - k;
  }
  const double kTol = 1e-6;
  double vx = 0, vy = 0, w = 0;
  auto check = [&](int k, int ahead, const char* what) {
    const transform::Rigid3d p = e.ExtrapolatePose(At(t[k] + ahead));
    symx_assert(Near(p.translation().x(), x[k] + vx * ahead, kTol) && Near(p.translation().y(), y[k] + vy * ahead, kTol) && Near(p.translation().z(), 0.5, 1e-9), what);
    // yaw relative to the expected one
    const double want = rate * t[k] + w * ahead;
    const Eigen::Quaterniond q = p.rotation();
    const double c = 1. - 2. * (q.y() * q.y() + q.z() * q.z()), s = 2. * (q.w() * q.z() + q.x() * q.y());
    symx_assert(Near(c, std::cos(want), kTol) && Near(s, std::sin(want), kTol), "the rotation continues with constant angular velocity");
    symx_assert(e.GetLastExtrapolatedTime() == At(t[k] + ahead), "the last extrapolated time is remembered");
  };
  if (kind <= 1) {
    for (int k = 0; k < 3; ++k) {
      e.AddPose(At(t[k]), Pose(x[k], y[k], rate * t[k]));
      symx_assert(e.GetLastPoseTime() == At(t[k]), "the last pose time is the newest");
      // velocity: from the latest pose at least the duration old, else from the oldest
      const double need = kDuration[dur] * 2.;
      int from = 0;
      if (k == 2) from = t[1] <= t[2] - need ? 1 : 0;
      if (k > 0) {
        const double span = t[k] - t[from];
        const double sx = (x[k] - x[from]) / span, sy = (y[k] - y[from]) / span;
        vx = span >= need ? sx : vx; vy = span >= need ? sy : vy; w = span >= need ? rate : w;
      }
      check(k, 0, "at the newest pose the result is that pose");
      if (kind == 0 || k == 2) { check(k, 1, "the translation continues with constant linear velocity"); check(k, 4, "the translation continues with constant linear velocity"); }
    }
  } else if (kind == 2) {
    // predict the time of the next pose before it is added
    for (int k = 0; k < 3; ++k) {
      e.AddPose(At(t[k]), Pose(x[k], y[k], rate * t[k]));
      const transform::Rigid3d p = e.ExtrapolatePose(At(t[k]));
      symx_assert(Near(p.translation().x(), x[k], kTol) && Near(p.translation().y(), y[k], kTol), "an added pose replaces the prediction for its time");
      if (k < 2) e.ExtrapolatePose(At(t[k + 1]));
    }
  } else if (kind == 4) {
    // IMU readings at 0.5 s, 1 s and 2 s after the first pose
    e.AddPose(At(0), Pose(1., 2., rate));
    const int w0 = symx_irange("w0", -2, 2), w1 = symx_irange("w1", -2, 2), w2 = symx_irange("w2", -2, 2);
    const Eigen::Vector3d g(0., 0., 9.8);
    e.AddImuData(sensor::ImuData{At(1), g, Eigen::Vector3d(0., 0., 0.2 * w0)});
    e.AddImuData(sensor::ImuData{At(2), g, Eigen::Vector3d(0., 0., 0.2 * w1)});
    e.AddImuData(sensor::ImuData{At(4), g, Eigen::Vector3d(0., 0., 0.2 * w2)});
    auto yaw_is = [&](const transform::Rigid3d& p, double want, const char* what) {
      const Eigen::Quaterniond q = p.rotation();
      const double c = 1. - 2. * (q.y() * q.y() + q.z() * q.z()), s = 2. * (q.w() * q.z() + q.x() * q.y());
      symx_assert(Near(c, std::cos(want), kTol) && Near(s, std::sin(want), kTol), what);
    };
    yaw_is(e.ExtrapolatePose(At(1)), rate, "before the first IMU reading nothing turns");
    yaw_is(e.ExtrapolatePose(At(3)), rate + 0.1 * w0 + 0.1 * w1, "the IMU angular velocities are integrated");
    yaw_is(e.ExtrapolatePose(At(6)), rate + 0.1 * w0 + 0.2 * w1 + 0.2 * w2, "the IMU angular velocities are integrated");
    e.AddPose(At(3), Pose(1., 2., 0.25));
    yaw_is(e.ExtrapolatePose(At(3)), 0.25, "the new pose is the start of the extrapolation");
    yaw_is(e.ExtrapolatePose(At(7)), 0.25 + 0.1 * w1 + 0.3 * w2, "the IMU angular velocities since the newest pose are integrated");
  } else if (kind == 5) {
    const int a = symx_irange("a", -3, 3), b = symx_irange("b", -3, 3);
    const Eigen::Vector3d g(a * 1.2, b * 0.9, 9.);
    e.AddImuData(sensor::ImuData{At(0), g, Eigen::Vector3d(0., 0., 0.)});
    e.AddPose(At(0), Pose(a, 2., rate));
    e.AddPose(At(2), Pose(b, 3., rate));
    const transform::Rigid3d p1 = e.ExtrapolatePose(At(3)), p2 = e.ExtrapolatePose(At(4));
    const double factor = dur < 2 ? 1. : 0.;
    symx_assert(Near(p2.translation().x(), b + factor * (b - a), kTol), "the translation continues with constant linear velocity");
    PoseExtrapolator f(common::FromSeconds(kDuration[dur]), 10.);
    f.AddImuData(sensor::ImuData{At(0), g, Eigen::Vector3d(0., 0., 0.)});
    f.AddPose(At(0), Pose(a, 2., rate));
    f.AddPose(At(2), Pose(b, 3., rate));
    const PoseExtrapolator::ExtrapolationResult r = f.ExtrapolatePosesWithGravity({At(3), At(4)});
    symx_assert(r.previous_poses.size() == 1, "one earlier pose is returned");
    symx_assert(r.previous_poses[0].translation() == p1.translation().cast<float>() && r.current_pose.translation() == p2.translation(), "poses are the same as one by one");
    symx_assert(Near(r.current_velocity.x(), factor * (b - a), kTol) && Near(r.current_velocity.y(), factor, kTol), "the velocity is that of the poses");
    const Eigen::Vector3d up = r.gravity_from_tracking * g;
    const double n = g.norm();
    symx_assert(Near(up.x(), 0., kTol * n) && Near(up.y(), 0., kTol * n) && Near(up.z(), n, kTol * n), "the gravity orientation turns the measured gravity upwards");
  } else {
    // odometry in its own frame: at rest in rotation, moving along its x axis
    e.AddPose(At(0), Pose(x[0], y[0], rate * 2));
    const double step = symx_f64_range("step", -50., 50.);
    e.AddOdometryData(sensor::OdometryData{At(1), transform::Rigid3d::Translation(Eigen::Vector3d(7., -2., 0.))});
    e.AddOdometryData(sensor::OdometryData{At(3), transform::Rigid3d::Translation(Eigen::Vector3d(7. + step, -2., 0.))});
    const double c = std::cos(rate * 2), s = std::sin(rate * 2);
    const transform::Rigid3d p = e.ExtrapolatePose(At(4));
    symx_assert(Near(p.translation().x(), x[0] + 2. * step * c, kTol) && Near(p.translation().y(), y[0] + 2. * step * s, kTol), "with odometry the linear velocity is that of the odometry");
    const transform::Rigid3d here = e.ExtrapolatePose(At(4));
    symx_assert(here.translation() == p.translation(), "asking again gives the same result");
  }
  symx_reach("end");
}
