// The real ConstraintBuilder2D (ConstraintBuilder3D with PG3 defined); the scan matchers are stand-ins
// that record what they are asked and answer what the harness chose.
#pragma once
#include <deque>
#include <set>
#include <iomanip>
#include <iostream>
#include <sstream>
#include "symx.h"
#include "cartographer/common/task.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.h"
namespace std {
struct symx_null_stream {
  template <typename T> symx_null_stream& operator<<(const T&) { return *this; }
  symx_null_stream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  symx_null_stream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
  std::string str() const { return ""; }
};
}  // namespace std
#define ostringstream symx_null_stream
#ifdef PG3
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.cc"
#define CB_XD(name) name##3D
#else
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.cc"
#define CB_XD(name) name##2D
#endif
#undef ostringstream
namespace cb {
using namespace cartographer;
using namespace cartographer::mapping;
using cartographer::transform::Rigid3d;
using cartographer::transform::Rigid2d;
typedef CB_XD(constraints::ConstraintBuilder) Builder;
typedef CB_XD(Submap) SubmapXD;
typedef PoseGraphInterface::Constraint Constraint;
#ifdef PG3
typedef Rigid3d Pose;
static Rigid3d Embed(const Pose& p) { return p; }
static Pose P(double x, double y, double a) { return Rigid3d(Eigen::Vector3d(x, y, 0.5 * y), transform::RollPitchYaw(0.2 * a, 0.1 * a, a)); }
#else
typedef Rigid2d Pose;
static Rigid3d Embed(const Pose& p) { return transform::Embed3D(p); }
static Pose P(double x, double y, double a) { return Rigid2d(Eigen::Vector2d(x, y), Eigen::Rotation2Dd(a)); }
#endif
static bool Near(double a, double b, double t = 1e-6) { const double e = a - b; return (e <= t) & (e >= -t); }
static bool Near(const Rigid3d& a, const Rigid3d& b) {
  const double d = a.rotation().w() * b.rotation().w() + a.rotation().x() * b.rotation().x() + a.rotation().y() * b.rotation().y() + a.rotation().z() * b.rotation().z();
  return Near(a.translation().x(), b.translation().x()) & Near(a.translation().y(), b.translation().y()) & Near(a.translation().z(), b.translation().z()) & (Near(d, 1., 1e-9) | Near(d, -1., 1e-9));
}
static bool Near(const Rigid2d& a, const Rigid2d& b) {
  return Near(a.translation().x(), b.translation().x()) & Near(a.translation().y(), b.translation().y()) & Near((a.rotation().inverse() * b.rotation()).smallestAngle(), 0., 1e-7);
}
// one request to the fast matcher, as it sees it
struct Asked { int submap, node; bool full; Pose initial; float min_score; };
struct State {
  absl::Mutex mutex;
  std::vector<Asked> asked;
  std::map<int, int> built;                         // matchers built per submap
  std::map<const void*, int> live;                  // matcher -> submap
  std::set<int> being_built;
  std::function<bool(const Asked&, float* score, Pose*)> answer;
  std::function<Pose(int node, int submap, const Pose&)> refine;
};
static State* g = nullptr;
// what belongs to submap s and node n can be told from its contents
#ifdef PG3
static std::shared_ptr<SubmapXD> MakeSubmap(int s, const Pose& local) { return std::make_shared<SubmapXD>(0.1f + s, 0.5f + s, local, Eigen::VectorXf::Constant(2, s + 1.f)); }
static int SubmapOf(const HybridGrid& high, const HybridGrid* low, const Eigen::VectorXf* histogram) {
  const int s = int((*histogram)[0]) - 1;
  symx_assert(high.resolution() == 0.1f + s && low->resolution() == 0.5f + s, "the matcher is built of both grids and the histogram of one submap");
  return s;
}
static std::shared_ptr<TrajectoryNode::Data> MakeNode(int n) {
  auto d = std::make_shared<TrajectoryNode::Data>();
  d->high_resolution_point_cloud = sensor::PointCloud({sensor::RangefinderPoint{Eigen::Vector3f(n, 1.f, 0.f)}});
  d->low_resolution_point_cloud = sensor::PointCloud({sensor::RangefinderPoint{Eigen::Vector3f(n, 2.f, 0.f)}});
  return d;
}
static int NodeOf(const sensor::PointCloud& c, float kind) { symx_assert(c.size() == 1 && c[0].position.y() == kind, "the right cloud is matched"); return int(c[0].position.x()); }
#else
static ValueConversionTables* tables = nullptr;
static std::shared_ptr<SubmapXD> MakeSubmap(int s, const Pose& local) {
  if (!tables) tables = new ValueConversionTables;
  // a submap with a rotation only comes from a stream
  auto grid = absl::make_unique<ProbabilityGrid>(MapLimits(1., Eigen::Vector2d(s + 2., 2.), CellLimits(1, 1)), tables);
  mapping::proto::Submap2D p;
  *p.mutable_local_pose() = transform::ToProto(transform::Embed3D(local));
  p.set_num_range_data(1); p.set_finished(true);
  *p.mutable_grid() = grid->ToProto();
  return std::make_shared<SubmapXD>(p, tables);
}
static int SubmapOf(const Grid2D& grid) { return int(grid.limits().max().x()) - 2; }
static std::shared_ptr<TrajectoryNode::Data> MakeNode(int n) {
  auto d = std::make_shared<TrajectoryNode::Data>();
  d->filtered_gravity_aligned_point_cloud = sensor::PointCloud({sensor::RangefinderPoint{Eigen::Vector3f(n, 1.f, 0.f)}});
  return d;
}
static int NodeOf(const sensor::PointCloud& c, float kind) { symx_assert(c.size() == 1 && c[0].position.y() == kind, "the right cloud is matched"); return int(c[0].position.x()); }
#endif
static bool Ask(const Asked& a, float* score, Pose* pose) {
  absl::MutexLock l(&g->mutex);
  g->asked.push_back(a);
  return g->answer(a, score, pose);
}
static void Build(const void* matcher, int submap) { absl::MutexLock l(&g->mutex); ++g->built[submap]; g->live[matcher] = submap; }
static void Destroy(const void* matcher) { absl::MutexLock l(&g->mutex); g->live.erase(matcher); }
static int Of(const void* matcher) {
  absl::MutexLock l(&g->mutex);
  const auto it = g->live.find(matcher);
  symx_assert(it != g->live.end(), "a matcher is used after it was built");
  return it == g->live.end() ? 0 : it->second;
}
static constraints::proto::ConstraintBuilderOptions Options(double ratio) {
  constraints::proto::ConstraintBuilderOptions o;
  o.set_sampling_ratio(ratio);
  o.set_max_constraint_distance(5.);
  o.set_min_score(0.5);
  o.set_global_localization_min_score(0.75);
  o.set_loop_closure_translation_weight(1.1e4);
  o.set_loop_closure_rotation_weight(1e5);
  o.set_log_matches(false);
#ifdef PG3
  o.mutable_fast_correlative_scan_matcher_options_3d()->set_full_resolution_depth(3);
  o.mutable_ceres_scan_matcher_options_3d()->set_translation_weight(17.);
#else
  o.mutable_fast_correlative_scan_matcher_options()->set_branch_and_bound_depth(3);
  o.mutable_ceres_scan_matcher_options()->set_translation_weight(17.);
#endif
  return o;
}
}  // namespace cb
namespace cartographer {
namespace mapping {
namespace scan_matching {
#ifdef PG3
RotationalScanMatcher::RotationalScanMatcher(const Eigen::VectorXf* h) : histogram_(h) {}
FastCorrelativeScanMatcher3D::FastCorrelativeScanMatcher3D(const HybridGrid& high, const HybridGrid* low, const Eigen::VectorXf* histogram, const proto::FastCorrelativeScanMatcherOptions3D& o)
    : options_(o), resolution_(0), width_in_voxels_(0), low_resolution_hybrid_grid_(nullptr), rotational_scan_matcher_(histogram) {
  symx_assert(o.full_resolution_depth() == 3, "the matcher gets its options");
  cb::Build(this, cb::SubmapOf(high, low, histogram));
}
FastCorrelativeScanMatcher3D::~FastCorrelativeScanMatcher3D() { cb::Destroy(this); }
static int NodeOfData(const TrajectoryNode::Data& d) { return cb::NodeOf(d.high_resolution_point_cloud, 1.f); }
static std::unique_ptr<FastCorrelativeScanMatcher3D::Result> Answer(const cb::Asked& a) {
  float score = 0; transform::Rigid3d pose;
  if (!cb::Ask(a, &score, &pose)) return nullptr;
  return absl::make_unique<FastCorrelativeScanMatcher3D::Result>(FastCorrelativeScanMatcher3D::Result{score, pose, 0.5f, 0.5f});
}
std::unique_ptr<FastCorrelativeScanMatcher3D::Result> FastCorrelativeScanMatcher3D::Match(const transform::Rigid3d& node, const transform::Rigid3d& submap, const TrajectoryNode::Data& d, float min_score) const {
  return Answer(cb::Asked{cb::Of(this), NodeOfData(d), false, submap.inverse() * node, min_score});
}
std::unique_ptr<FastCorrelativeScanMatcher3D::Result> FastCorrelativeScanMatcher3D::MatchFullSubmap(const Eigen::Quaterniond& node, const Eigen::Quaterniond& submap, const TrajectoryNode::Data& d, float min_score) const {
  return Answer(cb::Asked{cb::Of(this), NodeOfData(d), true, transform::Rigid3d::Rotation(submap.conjugate() * node), min_score});
}
CeresScanMatcher3D::CeresScanMatcher3D(const proto::CeresScanMatcherOptions3D& o) { symx_assert(o.translation_weight() == 17., "the refinement gets its options"); }
void CeresScanMatcher3D::Match(const Eigen::Vector3d& target, const transform::Rigid3d& initial, const std::vector<PointCloudAndHybridGridsPointers>& v, transform::Rigid3d* out, ceres::Solver::Summary*) const {
  symx_assert(target == initial.translation(), "the refinement is held to the match");
  symx_assert(v.size() == 2, "both resolutions are refined");
  const int n = cb::NodeOf(*v[0].point_cloud, 1.f), s = int(v[0].hybrid_grid->resolution());
  symx_assert(cb::NodeOf(*v[1].point_cloud, 2.f) == n && v[1].hybrid_grid->resolution() == 0.5f + s && v[0].hybrid_grid->resolution() == 0.1f + s, "the refinement gets both clouds and both grids");
  *out = cb::g->refine(n, s, initial);
}
#else
FastCorrelativeScanMatcher2D::FastCorrelativeScanMatcher2D(const Grid2D& grid, const proto::FastCorrelativeScanMatcherOptions2D& o) : options_(o), limits_(grid.limits()) {
  symx_assert(o.branch_and_bound_depth() == 3, "the matcher gets its options");
  cb::Build(this, cb::SubmapOf(grid));
}
FastCorrelativeScanMatcher2D::~FastCorrelativeScanMatcher2D() { cb::Destroy(this); }
bool FastCorrelativeScanMatcher2D::Match(const transform::Rigid2d& initial, const sensor::PointCloud& c, float min_score, float* score, transform::Rigid2d* pose) const {
  return cb::Ask(cb::Asked{cb::Of(this), cb::NodeOf(c, 1.f), false, initial, min_score}, score, pose);
}
bool FastCorrelativeScanMatcher2D::MatchFullSubmap(const sensor::PointCloud& c, float min_score, float* score, transform::Rigid2d* pose) const {
  return cb::Ask(cb::Asked{cb::Of(this), cb::NodeOf(c, 1.f), true, transform::Rigid2d::Identity(), min_score}, score, pose);
}
CeresScanMatcher2D::CeresScanMatcher2D(const proto::CeresScanMatcherOptions2D& o) { symx_assert(o.translation_weight() == 17., "the refinement gets its options"); }
CeresScanMatcher2D::~CeresScanMatcher2D() {}
void CeresScanMatcher2D::Match(const Eigen::Vector2d& target, const transform::Rigid2d& initial, const sensor::PointCloud& c, const Grid2D& grid, transform::Rigid2d* out, ceres::Solver::Summary*) const {
  symx_assert(target == initial.translation(), "the refinement is held to the match");
  *out = cb::g->refine(cb::NodeOf(c, 1.f), cb::SubmapOf(grid), initial);
}
#endif
}  // namespace scan_matching
}  // namespace mapping
}  // namespace cartographer
