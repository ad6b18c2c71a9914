//@ time=100,400 parts=kind:7
//# IMU, odometry, fixed-frame, landmark, range and node data and sensor ids survive their messages bit for bit, with every optional part present or absent; old point formats are read, messages with misaligned intensities refused.
//b any int64 time, any double and float bit patterns, up to two landmarks, points and intensities, empty parts included
#include "symx.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "cartographer/mapping/trajectory_node.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/landmark_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
using namespace cartographer;
using namespace cartographer::sensor;
static bool Same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static bool SameF(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
static Eigen::Vector3d V3(const char* n) { Eigen::Vector3d v; v[0] = symx_f64(n); v[1] = symx_f64(n); v[2] = symx_f64(n); return v; }
static Eigen::Vector3f V3f(const char* n) { Eigen::Vector3f v; v[0] = symx_f32(n); v[1] = symx_f32(n); v[2] = symx_f32(n); return v; }
static transform::Rigid3d Pose() { const Eigen::Vector3d t = V3("t"); const double w = symx_f64("w"), x = symx_f64("x"), y = symx_f64("y"), z = symx_f64("z"); return transform::Rigid3d(t, Eigen::Quaterniond(w, x, y, z)); }
static bool SameV(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return Same(a[0], b[0]) & Same(a[1], b[1]) & Same(a[2], b[2]); }
static bool SameVf(const Eigen::Vector3f& a, const Eigen::Vector3f& b) { return SameF(a[0], b[0]) & SameF(a[1], b[1]) & SameF(a[2], b[2]); }
static bool SameP(const transform::Rigid3d& a, const transform::Rigid3d& b) { const auto &p = a.rotation(), &q = b.rotation(); return SameV(a.translation(), b.translation()) & Same(p.w(), q.w()) & Same(p.x(), q.x()) & Same(p.y(), q.y()) & Same(p.z(), q.z()); }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 7);
  const common::Time time = common::FromUniversal(symx_i64("time"));
  if (kind == 0) {
    const Eigen::Vector3d a = V3("a"), w = V3("w");
    const ImuData d = FromProto(ToProto(ImuData{time, a, w}));
    symx_assert((d.time == time) & SameV(d.linear_acceleration, a) & SameV(d.angular_velocity, w), "IMU data survive their message");
  } else if (kind == 1) {
    const transform::Rigid3d p = Pose();
    const OdometryData d = FromProto(ToProto(OdometryData{time, p}));
    symx_assert((d.time == time) & SameP(d.pose, p), "odometry survives its message");
  } else if (kind == 2) {
    const transform::Rigid3d p = Pose();
    const bool has = symx_choose("has", 2);
    const FixedFramePoseData d = FromProto(ToProto(FixedFramePoseData{time, has ? absl::optional<transform::Rigid3d>(p) : absl::nullopt}));
    symx_assert(d.time == time && d.pose.has_value() == has, "fixed-frame data keep time and presence of a pose");
    if (has) symx_assert(SameP(*d.pose, p), "fixed-frame data keep the pose");
  } else if (kind == 3) {
    const int n = symx_choose("n", 3);
    LandmarkData in; in.time = time;
    for (int i = 0; i < n; ++i) { const transform::Rigid3d p = Pose(); const double a = symx_f64("weight"), b = symx_f64("weight"); in.landmark_observations.push_back({i ? "second" : "first", p, a, b}); }
    const LandmarkData d = FromProto(ToProto(in));
    symx_assert(d.time == time && int(d.landmark_observations.size()) == n, "landmark data keep time and number");
    for (int i = 0; i < n; ++i) {
      const auto &a = in.landmark_observations[i], &b = d.landmark_observations[i];
      symx_assert(a.id == b.id, "landmarks keep their names");
      symx_assert(SameP(a.landmark_to_tracking_transform, b.landmark_to_tracking_transform) & Same(a.translation_weight, b.translation_weight) & Same(a.rotation_weight, b.rotation_weight), "landmarks keep pose and weights");
    }
  } else if (kind == 4) {
    const int n = symx_choose("n", 3), with = symx_choose("intensities", 3), legacy = symx_choose("legacy", 2);
    TimedPointCloudData in; in.time = time; in.origin = V3f("origin");
    for (int i = 0; i < n; ++i) { const Eigen::Vector3f p = V3f("p"); const float t = symx_f32("t"); in.ranges.push_back({p, t}); }
    // none, one per point, or one too many
    const int m = with == 0 ? 0 : with == 1 ? n : n + 1;
    for (int i = 0; i < m; ++i) in.intensities.push_back(symx_f32("intensity"));
    proto::TimedPointCloudData p = ToProto(in);
    if (legacy) {
      p.clear_point_data();
      for (const auto& r : in.ranges) { auto* const o = p.add_point_data_legacy(); o->set_x(r.position.x()); o->set_y(r.position.y()); o->set_z(r.position.z()); o->set_t(r.time); }
      if (m) return;  // intensities came later than the old format
    }
    if (with == 2) { symx_expect_crash_begin("misaligned intensities are refused"); FromProto(p); symx_expect_crash_end("misaligned intensities are refused"); return; }
    const TimedPointCloudData d = FromProto(p);
    symx_assert((d.time == time) & SameVf(d.origin, in.origin), "range data keep time and origin");
    symx_assert(int(d.ranges.size()) == n && int(d.intensities.size()) == m, "range data keep all points and intensities");
    for (int i = 0; i < n; ++i) symx_assert(SameVf(d.ranges[i].position, in.ranges[i].position) & SameF(d.ranges[i].time, in.ranges[i].time), "points keep position and time");
    for (int i = 0; i < m; ++i) symx_assert(SameF(d.intensities[i], in.intensities[i]), "points keep their intensity");
  } else if (kind == 5) {
    mapping::TrajectoryNode::Data in;
    in.time = time; in.local_pose = Pose();
    const double w = symx_f64("w"), x = symx_f64("x"), y = symx_f64("y"), z = symx_f64("z");
    in.gravity_alignment = Eigen::Quaterniond(w, x, y, z);
    const int n = symx_choose("n", 3);
    in.rotational_scan_matcher_histogram = Eigen::VectorXf::Zero(n);
    for (int i = 0; i < n; ++i) in.rotational_scan_matcher_histogram[i] = symx_f32("h");
    // clouds are compressed in nodes: coordinates on the raster of the compression
    const int a = symx_choose("filtered", 2), b = symx_choose("high", 2), c = symx_choose("low", 2);
    static const float kX[3] = {1.f, 2.f, 3.f};
    if (a) in.filtered_gravity_aligned_point_cloud = PointCloud(std::vector<RangefinderPoint>{{Eigen::Vector3f(kX[0], 0.f, 0.f)}});
    if (b) in.high_resolution_point_cloud = PointCloud(std::vector<RangefinderPoint>{{Eigen::Vector3f(kX[1], 0.f, 0.f)}, {Eigen::Vector3f(kX[1], 1.f, 0.f)}});
    if (c) in.low_resolution_point_cloud = PointCloud(std::vector<RangefinderPoint>{{Eigen::Vector3f(kX[2], 0.f, 0.f)}});
    const mapping::TrajectoryNode::Data d = mapping::FromProto(mapping::ToProto(in));
    symx_assert((d.time == time) & SameP(d.local_pose, in.local_pose) & Same(d.gravity_alignment.w(), w) & Same(d.gravity_alignment.x(), x) & Same(d.gravity_alignment.y(), y) & Same(d.gravity_alignment.z(), z), "nodes keep time, pose and gravity");
    symx_assert(d.rotational_scan_matcher_histogram.size() == n, "nodes keep the size of their histogram");
    for (int i = 0; i < n; ++i) symx_assert(SameF(d.rotational_scan_matcher_histogram[i], in.rotational_scan_matcher_histogram[i]), "nodes keep their histogram");
    symx_assert(int(d.filtered_gravity_aligned_point_cloud.size()) == a && int(d.high_resolution_point_cloud.size()) == 2 * b && int(d.low_resolution_point_cloud.size()) == c, "nodes keep the size of each cloud");
    const auto near = [](const PointCloud& cloud, float x) { const float e = cloud[0].position.x() - x; return e < 1e-3f && e > -1e-3f; };
    symx_assert((!a || near(d.filtered_gravity_aligned_point_cloud, 1.f)) && (!b || near(d.high_resolution_point_cloud, 2.f)) && (!c || near(d.low_resolution_point_cloud, 3.f)), "nodes keep each cloud apart");
  } else {
    using SensorId = mapping::TrajectoryBuilderInterface::SensorId;
    const int k = symx_choose("type", 6);
    const SensorId in{static_cast<SensorId::SensorType>(k), k % 2 ? "scan" : ""};
    symx_assert(mapping::FromProto(mapping::ToProto(in)) == in, "sensor ids survive their message");
    const auto p = mapping::ToProto(in);
    symx_assert(int(p.type()) == k, "sensor kinds keep their numbers in messages");
  }
  symx_reach("end");
}
