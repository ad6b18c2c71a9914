//@ time=250,800 parts=kind:4
//# The IMU tracker: a first acceleration observation turns the measured direction upwards, the yaw is integrated from angular velocity and not changed by gravity, repeated observations pull the gravity estimate towards them exponentially with the time constant, and without observations the orientation follows the angular velocity; the orientation always is a unit quaternion.
//b accelerations on a raster of directions (also downward-tilted ones within 80 degrees), angular velocity on a raster, gaps of 0..1 s on a raster
#include "symx.h"
#include "cartographer/mapping/imu_tracker.h"
#include "cartographer/transform/transform.h"
using namespace cartographer;
using namespace cartographer::mapping;
static bool Near(double a, double b, double t) { const double e = a - b; return (e <= t) & (e >= -t); }
static common::Time At(int tenths) { return common::FromUniversal(1000000) + common::Duration(int64_t(tenths) * 1000000); }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 4);
  const double tau = 10.;
  ImuTracker tracker(tau, At(0));
  symx_assert(tracker.time() == At(0), "the tracker starts at its time");
  auto unit = [&]() { const Eigen::Quaterniond q = tracker.orientation(); symx_assert(Near(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1., 1e-9), "the orientation is a unit quaternion"); return q; };
  auto up = [&](const Eigen::Quaterniond& q, const Eigen::Vector3d& g) {
    const Eigen::Vector3d r = q * g; const double n = g.norm();
    return Near(r.x(), 0., 1e-6 * n) && Near(r.y(), 0., 1e-6 * n) && Near(r.z(), n, 1e-6 * n);
  };
  if (kind == 0) {
    const int a = symx_irange("ax", -4, 4), b = symx_irange("ay", -4, 4), c = symx_irange("az", 1, 4);
    const Eigen::Vector3d acc(a * 1.7, b * 1.7, c * 3.);
    tracker.AddImuLinearAccelerationObservation(acc);
    symx_assert(up(unit(), acc), "the first measured direction becomes up");
    const Eigen::Quaterniond q = tracker.orientation();
    symx_assert(Near(q.z(), 0., 1e-9), "gravity does not change the yaw");
  } else if (kind == 1) {
    const int w = symx_irange("w", -5, 5), dt = symx_irange("dt", 0, 10);
    tracker.AddImuAngularVelocityObservation(Eigen::Vector3d(0., 0., 0.2 * w));
    tracker.Advance(At(dt));
    symx_assert(tracker.time() == At(dt), "advancing sets the time");
    const double half = 0.5 * 0.2 * w * 0.1 * dt;
    Eigen::Quaterniond q = unit();
    symx_assert(Near(q.w(), std::cos(half), 1e-9) && Near(q.z(), std::sin(half), 1e-9) && q.x() == 0. && q.y() == 0., "the angular velocity is integrated over time");
    tracker.AddImuLinearAccelerationObservation(Eigen::Vector3d(0., 0., 9.8));
    q = unit();
    symx_assert(Near(q.w(), std::cos(half), 1e-9) && Near(q.z(), std::sin(half), 1e-9), "level gravity does not change the orientation");
    tracker.Advance(At(dt + 5));
    q = unit();
    const double later = 0.5 * 0.2 * w * 0.1 * (dt + 5);
    symx_assert(Near(q.w(), std::cos(later), 1e-9) && Near(q.z(), std::sin(later), 1e-9), "the last angular velocity continues");
  } else if (kind == 2) {
    // exponential average of two directions, no rotation
    const int a = symx_irange("a", -3, 3), dt = symx_irange("dt", 1, 60);
    const Eigen::Vector3d first(0., 0., 9.8), second(a * 1.5, 0.8, 9.);
    tracker.AddImuLinearAccelerationObservation(first);
    tracker.Advance(At(dt));
    tracker.AddImuLinearAccelerationObservation(second);
    const double alpha = 1. - std::exp(-0.1 * dt / tau);
    const Eigen::Vector3d g = (1. - alpha) * first + alpha * second;
    symx_assert(up(unit(), g), "gravity is the exponential average of the observations");
  } else {
    // a tilted tracker rotates its gravity estimate along
    const int a = symx_irange("a", -3, 3), w = symx_irange("w", -3, 3);
    const Eigen::Vector3d acc(a * 1.5, -1., 9.);
    tracker.AddImuLinearAccelerationObservation(acc);
    tracker.AddImuAngularVelocityObservation(Eigen::Vector3d(0.3 * w, 0.1, -0.2));
    const Eigen::Quaterniond q0 = tracker.orientation();
    tracker.Advance(At(7));
    const Eigen::Vector3d v(0.3 * w * 0.7, 0.1 * 0.7, -0.2 * 0.7);
    const double n = v.norm();
    const Eigen::Quaterniond r = q0 * Eigen::Quaterniond(Eigen::AngleAxisd(n, v / n));
    const Eigen::Quaterniond q = unit();
    symx_assert(Near(q.w(), r.w(), 1e-9) && Near(q.x(), r.x(), 1e-9) && Near(q.y(), r.y(), 1e-9) && Near(q.z(), r.z(), 1e-9), "the rotation is applied in the moving frame");
    // the same gravity seen from the rotated frame changes nothing
    tracker.AddImuLinearAccelerationObservation(Eigen::Quaterniond(Eigen::AngleAxisd(n, v / n)).conjugate() * acc);
    const Eigen::Quaterniond s = unit();
    symx_assert(Near(s.w(), q.w(), 1e-7) && Near(s.x(), q.x(), 1e-7) && Near(s.y(), q.y(), 1e-7) && Near(s.z(), q.z(), 1e-7), "the gravity estimate turns with the sensor");
  }
  symx_reach("end");
}
