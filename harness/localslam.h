// The real LocalTrajectoryBuilder2D (LocalTrajectoryBuilder3D with LS3 defined) with stand-ins around it that record
// what they are given and answer what the harness chose: the pose extrapolator, both scan matchers, the submap
// collection and the voxel filters. The range data collator and the motion filter are the real ones.
//
// All rotations are quarter turns: s about z after g about x, the gravity alignment being g about x; or a cyclic change of the axes.
#pragma once
#include <functional>
#include <vector>
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "cartographer/transform/transform.h"
#ifdef LS3
#include "cartographer/mapping/internal/3d/local_trajectory_builder_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#define LS_XD(name) name##3D
#else
#include "cartographer/mapping/internal/2d/local_trajectory_builder_2d.h"
#define LS_XD(name) name##2D
#endif
namespace ls {
using namespace cartographer;
using namespace cartographer::mapping;
using cartographer::transform::Rigid3d;
using cartographer::transform::Rigid2d;
using Eigen::Vector3d;
typedef LS_XD(LocalTrajectoryBuilder) Builder;
typedef LS_XD(Submap) SubmapXD;
static const int64_t kSecond = 10000000;
static common::Time At(double seconds) { return common::FromUniversal(1000 * kSecond) + common::Duration(int64_t(seconds * kSecond)); }
static double Seconds(common::Time t) { return double(common::ToUniversal(t) - 1000 * kSecond) / kSecond; }
static bool Near(double a, double b, double t = 1e-3) { const double e = a - b; return (e <= t) & (e >= -t); }
static bool Near(const Vector3d& a, const Vector3d& b) { return Near(a.x(), b.x()) & Near(a.y(), b.y()) & Near(a.z(), b.z()); }
static Eigen::Quaterniond Quarters(int n, bool about_x) {
  static const double kHalf = std::sqrt(0.5);
  n &= 3;
  const double c = n == 0 ? 1. : n == 1 ? kHalf : n == 2 ? 0. : -kHalf, v = n == 0 ? 0. : n == 2 ? 1. : kHalf;
  return about_x ? Eigen::Quaterniond(c, v, 0, 0) : Eigen::Quaterniond(c, 0, 0, v);
}
// levelling: quarter turns about x, or (4) the turn that takes x to y, y to z and z to x
static Eigen::Quaterniond Level(int g) { return g == 4 ? Eigen::Quaterniond(0.5, 0.5, 0.5, 0.5) : Quarters(g, true); }
static Eigen::Quaterniond Turn(int s, int g) { return g == 0 ? Quarters(s, false) : (s & 3) == 0 ? Level(g) : Quarters(s, false) * Level(g); }
static Vector3d AboutX(int n, const Vector3d& v) { n &= 3; return n == 0 ? v : n == 1 ? Vector3d(v.x(), -v.z(), v.y()) : n == 2 ? Vector3d(v.x(), -v.y(), -v.z()) : Vector3d(v.x(), v.z(), -v.y()); }
static Vector3d AboutZ(int n, const Vector3d& v) { n &= 3; return n == 0 ? v : n == 1 ? Vector3d(-v.y(), v.x(), v.z()) : n == 2 ? Vector3d(-v.x(), -v.y(), v.z()) : Vector3d(v.y(), -v.x(), v.z()); }
static Vector3d Turned(int s, int g, const Vector3d& v) { return AboutZ(s, g == 4 ? Vector3d(v.z(), v.x(), v.y()) : AboutX(g, v)); }
static Vector3d TurnedBack(int s, int g, const Vector3d& v) { const Vector3d r = AboutZ(-s, v); return g == 4 ? Vector3d(r.y(), r.z(), r.x()) : AboutX(-g, r); }
static bool IsTurn(const Eigen::Quaterniond& q, int s, int g) {
  const Eigen::Quaterniond t = Turn(s, g);
  const double d = q.w() * t.w() + q.x() * t.x() + q.y() * t.y() + q.z() * t.z();
  return Near(d, 1., 1e-5) | Near(d, -1., 1e-5);
}
struct Cloud { std::vector<Vector3d> p; std::vector<double> intensity; };
static Cloud Copy(const sensor::PointCloud& c) {
  Cloud r;
  for (const auto& p : c) r.p.push_back(p.position.cast<double>());
  for (const float i : c.intensities()) r.intensity.push_back(i);
  return r;
}
static void Same(const Cloud& a, const std::vector<Vector3d>& b, const char* what) {
  symx_assert(a.p.size() == b.size(), what);
  if (a.p.size() != b.size()) return;
  for (size_t i = 0; i < b.size(); ++i) symx_assert(Near(a.p[i], b[i]), what);
}
struct Added { common::Time time; Rigid3d pose; };
struct State {
  // the motion: position (vx, vy, vz) * seconds + offset, rotation by quarter turns
  double vx = 0, vy = 0, vz = 0;
  int s = 0, g = 0;
  Vector3d Position(double t) const { return Vector3d(vx * t, vy * t + 0.5, vz * t); }
  bool created = false;
  common::Time last_pose = common::Time::min(), last_extrapolated = common::Time::min();
  std::vector<Added> poses;
  std::vector<sensor::ImuData> imu;
  std::vector<sensor::OdometryData> odometry;
  int extrapolated = 0;
  std::vector<sensor::ImuData> first_imu;
  std::vector<transform::TimestampedTransform> first_poses;
  // scan matchers
  int asked = 0, correlated = 0;
  std::function<void(const Rigid3d& initial, const Cloud& cloud, const void* grid, Rigid3d* result)> correlate;
  std::function<void(const Vector3d& target, const Rigid3d& initial, const Cloud& high, const void* high_grid, const Cloud& low, const void* low_grid, bool intensities, Rigid3d* result)> match;
  std::function<void(const Cloud&)> histogram;
  // submaps
  std::vector<std::shared_ptr<SubmapXD>> submaps;
  std::vector<sensor::RangeData> inserted;
  std::vector<Eigen::Quaterniond> inserted_rotation;
  std::function<std::shared_ptr<SubmapXD>()> make_submap;
  int submaps_after = 2;
  // filters: the adaptive ones drop that many points at the front
  int drop_high = 0, drop_low = 0;
};
static State* w = nullptr;
}  // namespace ls
namespace cartographer {
namespace mapping {
PoseExtrapolator::PoseExtrapolator(common::Duration d, double c) : pose_queue_duration_(d), gravity_time_constant_(c), cached_extrapolated_pose_{common::Time::min(), transform::Rigid3d::Identity()} {
  symx_assert(!ls::w->created, "the motion estimate is started once");
  symx_assert(d == common::FromSeconds(0.25) && c == 7., "the motion estimate gets its options");
  ls::w->created = true;
}
common::Time PoseExtrapolator::GetLastPoseTime() const { return ls::w->last_pose; }
common::Time PoseExtrapolator::GetLastExtrapolatedTime() const { return ls::w->last_extrapolated; }
void PoseExtrapolator::AddPose(common::Time time, const transform::Rigid3d& pose) {
  symx_assert(time >= ls::w->last_pose, "poses are added in the order of time");
  ls::w->poses.push_back({time, pose});
  ls::w->last_pose = time; ls::w->last_extrapolated = time;
}
void PoseExtrapolator::AddImuData(const sensor::ImuData& d) { ls::w->imu.push_back(d); }
void PoseExtrapolator::AddOdometryData(const sensor::OdometryData& d) { ls::w->odometry.push_back(d); }
transform::Rigid3d PoseExtrapolator::ExtrapolatePose(common::Time time) {
  symx_assert(time >= ls::w->last_pose, "poses are extrapolated forward");
  symx_assert(time >= ls::w->last_extrapolated, "poses are extrapolated in the order of time");
  ls::w->last_extrapolated = time; ++ls::w->extrapolated;
  return transform::Rigid3d(ls::w->Position(ls::Seconds(time)), ls::Turn(ls::w->s, ls::w->g));
}
PoseExtrapolatorInterface::ExtrapolationResult PoseExtrapolator::ExtrapolatePosesWithGravity(const std::vector<common::Time>& times) {
  std::vector<transform::Rigid3f> poses;
  for (size_t i = 0; i + 1 < times.size(); ++i) poses.push_back(ExtrapolatePose(times[i]).cast<float>());
  const transform::Rigid3d last = ExtrapolatePose(times.back());
  return {poses, last, Eigen::Vector3d(ls::w->vx, ls::w->vy, ls::w->vz), EstimateGravityOrientation(times.back())};
}
Eigen::Quaterniond PoseExtrapolator::EstimateGravityOrientation(common::Time time) {
  symx_assert(time >= ls::w->last_pose, "gravity is asked for forward in time");
  return ls::Turn(0, ls::w->g);
}
#ifdef LS3
std::unique_ptr<PoseExtrapolatorInterface> PoseExtrapolatorInterface::CreateWithImuData(const proto::PoseExtrapolatorOptions& o, const std::vector<sensor::ImuData>& imu, const std::vector<transform::TimestampedTransform>& poses) {
  auto e = absl::make_unique<PoseExtrapolator>(common::FromSeconds(o.constant_velocity().pose_queue_duration()), o.constant_velocity().imu_gravity_time_constant());
  symx_assert(!imu.empty(), "the motion estimate starts with IMU data");
  ls::w->first_imu = imu; ls::w->first_poses = poses;
  e->AddPose(imu.back().time, transform::Rigid3d::Identity());
  return std::move(e);
}
Submap3D::Submap3D(float high, float low, const transform::Rigid3d& pose, const Eigen::VectorXf&) : Submap(pose), high_resolution_hybrid_grid_(absl::make_unique<HybridGrid>(high)), low_resolution_hybrid_grid_(absl::make_unique<HybridGrid>(low)), high_resolution_intensity_hybrid_grid_(absl::make_unique<IntensityHybridGrid>(high)) {}
proto::Submap Submap3D::ToProto(bool) const { return {}; }
void Submap3D::UpdateFromProto(const proto::Submap&) {}
void Submap3D::ToResponseProto(const transform::Rigid3d&, proto::SubmapQuery::Response*) const {}
RangeDataInserter3D::RangeDataInserter3D(const proto::RangeDataInserterOptions3D& o) : options_(o), hit_table_(), miss_table_() {}
ActiveSubmaps3D::ActiveSubmaps3D(const proto::SubmapsOptions3D& o) : options_(o), range_data_inserter_(o.range_data_inserter_options()) { symx_assert(o.num_range_data() == 9, "the submaps get their options"); }
std::vector<std::shared_ptr<const Submap3D>> ActiveSubmaps3D::submaps() const { return {ls::w->submaps.begin(), ls::w->submaps.end()}; }
std::vector<std::shared_ptr<const Submap3D>> ActiveSubmaps3D::InsertData(const sensor::RangeData& d, const Eigen::Quaterniond& q, const Eigen::VectorXf& h) {
  symx_assert(h.size() == 3 && h[0] == 11.f, "the histogram of the scan goes with it");
  ls::w->inserted_rotation.push_back(q);
#else
Submap2D::Submap2D(const Eigen::Vector2f& o, std::unique_ptr<Grid2D> grid, ValueConversionTables* t) : Submap(transform::Rigid3d::Translation(Eigen::Vector3d(o.x(), o.y(), 0.))), grid_(std::move(grid)), conversion_tables_(t) {}
proto::Submap Submap2D::ToProto(bool) const { return {}; }
void Submap2D::UpdateFromProto(const proto::Submap&) {}
void Submap2D::ToResponseProto(const transform::Rigid3d&, proto::SubmapQuery::Response*) const {}
ActiveSubmaps2D::ActiveSubmaps2D(const proto::SubmapsOptions2D& o) : options_(o) { symx_assert(o.num_range_data() == 9, "the submaps get their options"); }
std::vector<std::shared_ptr<const Submap2D>> ActiveSubmaps2D::submaps() const { return {ls::w->submaps.begin(), ls::w->submaps.end()}; }
std::vector<std::shared_ptr<const Submap2D>> ActiveSubmaps2D::InsertRangeData(const sensor::RangeData& d) {
#endif
  ls::w->inserted.push_back(d);
  if (int(ls::w->submaps.size()) < ls::w->submaps_after) ls::w->submaps.push_back(ls::w->make_submap());
  return submaps();
}
namespace scan_matching {
#ifdef LS3
Eigen::VectorXf RotationalScanMatcher::ComputeHistogram(const sensor::PointCloud& cloud, int size) {
  ls::w->histogram(ls::Copy(cloud));
  symx_assert(size == 3, "the histogram has its size");
  return Eigen::VectorXf::Constant(size, 11.f);
}
RealTimeCorrelativeScanMatcher3D::RealTimeCorrelativeScanMatcher3D(const proto::RealTimeCorrelativeScanMatcherOptions& o) : options_(o) { symx_assert(o.linear_search_window() == 5., "the matcher gets its options"); }
float RealTimeCorrelativeScanMatcher3D::Match(const transform::Rigid3d& initial, const sensor::PointCloud& cloud, const HybridGrid& grid, transform::Rigid3d* result) const {
  ++ls::w->correlated;
  ls::w->correlate(initial, ls::Copy(cloud), &grid, result);
  return 0.5f;
}
CeresScanMatcher3D::CeresScanMatcher3D(const proto::CeresScanMatcherOptions3D& o) : options_(o) { symx_assert(o.translation_weight() == 3., "the matcher gets its options"); }
void CeresScanMatcher3D::Match(const Eigen::Vector3d& target, const transform::Rigid3d& initial, const std::vector<PointCloudAndHybridGridsPointers>& c, transform::Rigid3d* result, ceres::Solver::Summary*) const {
  ++ls::w->asked;
  symx_assert(c.size() == 2, "both point clouds are matched");
  if (c.size() != 2) return;
  symx_assert(c[1].intensity_hybrid_grid == nullptr, "intensities are matched at the high resolution only");
  if (c[0].intensity_hybrid_grid != nullptr) symx_assert(!ls::w->submaps.empty() && c[0].intensity_hybrid_grid == &ls::w->submaps.front()->high_resolution_intensity_hybrid_grid(), "intensities are those of the submap matched against");
  ls::w->match(target, initial, ls::Copy(*c[0].point_cloud), c[0].hybrid_grid, ls::Copy(*c[1].point_cloud), c[1].hybrid_grid, c[0].intensity_hybrid_grid != nullptr, result);
}
#else
RealTimeCorrelativeScanMatcher2D::RealTimeCorrelativeScanMatcher2D(const proto::RealTimeCorrelativeScanMatcherOptions& o) : options_(o) { symx_assert(o.linear_search_window() == 5., "the matcher gets its options"); }
double RealTimeCorrelativeScanMatcher2D::Match(const transform::Rigid2d& initial, const sensor::PointCloud& cloud, const Grid2D& grid, transform::Rigid2d* result) const {
  ++ls::w->correlated;
  transform::Rigid3d r;
  ls::w->correlate(transform::Embed3D(initial), ls::Copy(cloud), &grid, &r);
  *result = transform::Project2D(r);
  return 0.5;
}
CeresScanMatcher2D::CeresScanMatcher2D(const proto::CeresScanMatcherOptions2D& o) : options_(o) { symx_assert(o.translation_weight() == 3., "the matcher gets its options"); }
CeresScanMatcher2D::~CeresScanMatcher2D() {}
void CeresScanMatcher2D::Match(const Eigen::Vector2d& target, const transform::Rigid2d& initial, const sensor::PointCloud& cloud, const Grid2D& grid, transform::Rigid2d* result, ceres::Solver::Summary*) const {
  ++ls::w->asked;
  transform::Rigid3d r;
  const ls::Cloud c = ls::Copy(cloud);
  ls::w->match(Eigen::Vector3d(target.x(), target.y(), 0.), transform::Embed3D(initial), c, &grid, c, &grid, false, &r);
  *result = transform::Project2D(r);
}
#endif
}  // namespace scan_matching
}  // namespace mapping
namespace sensor {
// The filters keep everything, the adaptive ones all but the first few points.
std::vector<RangefinderPoint> VoxelFilter(const std::vector<RangefinderPoint>& p, const float r) { symx_assert(r == 0.25f, "the voxel filter has its size"); return p; }
PointCloud VoxelFilter(const PointCloud& p, const float r) { symx_assert(r == 0.25f, "the voxel filter has its size"); return p; }
TimedPointCloud VoxelFilter(const TimedPointCloud& p, const float r) { symx_assert(r == 0.125f, "points are thinned before with half the size"); return p; }
std::vector<TimedPointCloudOriginData::RangeMeasurement> VoxelFilter(const std::vector<TimedPointCloudOriginData::RangeMeasurement>& p, const float r) { symx_assert(r == 0.125f, "points are thinned before with half the size"); return p; }
PointCloud AdaptiveVoxelFilter(const PointCloud& cloud, const proto::AdaptiveVoxelFilterOptions& o) {
  symx_assert(o.max_length() == 2.f || o.max_length() == 4.f, "the adaptive filters have their options");
  const size_t drop = o.max_length() == 2.f ? ls::w->drop_high : ls::w->drop_low;
  std::vector<RangefinderPoint> p; std::vector<float> in;
  for (size_t i = drop; i < cloud.size(); ++i) { p.push_back(cloud[i]); if (!cloud.intensities().empty()) in.push_back(cloud.intensities()[i]); }
  return PointCloud(std::move(p), std::move(in));
}
}  // namespace sensor
}  // namespace cartographer
