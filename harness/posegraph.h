// The real PoseGraph2D (PoseGraph3D with PG3 defined) with stand-ins around it:
//  - the thread pool keeps scheduled tasks until the harness lets them run,
//  - the constraint search records what it is asked and returns what the harness chose,
//  - the optimisation keeps its data as the real one does and moves poses as told.
#pragma once
#include <deque>
#include <set>
#include "symx.h"
#include "cartographer/common/task.h"
#include <iomanip>
#include <iostream>
#include <sstream>
#include "cartographer/mapping/internal/2d/pose_graph_2d.h"
#include "cartographer/mapping/internal/3d/pose_graph_3d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "cartographer/sensor/compressed_point_cloud.h"
// progress messages are not modelled
namespace std {
struct symx_null_stream {
  template <typename T> symx_null_stream& operator<<(const T&) { return *this; }
  symx_null_stream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  symx_null_stream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
  std::string str() const { return ""; }
};
static symx_null_stream symx_null_out;
}  // namespace std
#define ostringstream symx_null_stream
#define cout symx_null_out
#ifdef PG3
#include "cartographer/mapping/internal/3d/pose_graph_3d.cc"
#define PG_2D(name) name##3D
#define PG_POSE global_pose
#define PG_CERES(o) ceres_scan_matcher_(o.ceres_scan_matcher_options_3d())
#else
#include "cartographer/mapping/internal/2d/pose_graph_2d.cc"
#define PG_2D(name) name##2D
#define PG_POSE global_pose_2d
#define PG_CERES(o) ceres_scan_matcher_(o.ceres_scan_matcher_options())
#endif
#undef ostringstream
#undef cout
namespace pg {
using namespace cartographer;
using namespace cartographer::mapping;
using cartographer::transform::Rigid3d;
using cartographer::transform::Rigid2d;
typedef PoseGraphInterface::Constraint Constraint;
typedef PG_2D(PoseGraph) Graph;
typedef PG_2D(Submap) SubmapXD;
#ifdef PG3
typedef Rigid3d Pose;    // poses of the optimisation
static Rigid3d Embed(const Pose& p) { return p; }
#else
typedef Rigid2d Pose;
static Rigid3d Embed(const Pose& p) { return transform::Embed3D(p); }
#endif
struct Search { SubmapId submap; NodeId node; bool global; Pose initial; const void* submap_ptr; const void* data; };
struct State {
  std::deque<std::shared_ptr<common::Task>> ready;   // tasks that may run
  std::vector<std::shared_ptr<common::Task>> all;
  std::vector<Search> searches;                      // everything asked for so far
  std::vector<Constraint> found;                     // results for the next WhenDone
  std::function<bool(const Search&, Constraint*)> answer;
  int ends_of_node = 0, whendone = 0, solves = 0;
  std::vector<SubmapId> matchers_deleted;
  std::vector<Constraint> solve_constraints;
  std::map<int, PoseGraphInterface::TrajectoryState> solve_states;
  std::map<std::string, PoseGraphInterface::LandmarkNode> solve_landmarks;
  std::vector<NodeId> solve_nodes; std::vector<SubmapId> solve_submaps;
  std::function<Pose(const NodeId&, const Pose&)> move_node;
  std::function<Pose(const SubmapId&, const Pose&)> move_submap;
  std::function<void()> solved;
  std::map<std::string, Rigid3d> landmarks_out;
  int max_iterations = -1; std::vector<int> iterations_at_solve;
};
static State* g = nullptr;
#ifndef PG_REAL_POOL
static bool RunOne() {
  if (g->ready.empty()) return false;
  std::shared_ptr<common::Task> t = g->ready.front();
  g->ready.pop_front();
  struct X : common::ThreadPoolInterface { static void Do(common::ThreadPoolInterface* p, common::Task* t) { (p->*(&X::Execute))(t); } };
  extern common::ThreadPoolInterface* the_pool;
  X::Do(the_pool, t.get());
  return true;
}
static void RunAll() { while (RunOne()) {} }
common::ThreadPoolInterface* the_pool = nullptr;
#endif
}  // namespace pg
namespace cartographer {
#ifndef PG_REAL_POOL
namespace common {
void ThreadPoolInterface::Execute(Task* task) { task->Execute(); }
void ThreadPoolInterface::SetThreadPool(Task* task) { task->SetThreadPool(this); }
ThreadPool::ThreadPool(int) { pg::the_pool = this; }
ThreadPool::~ThreadPool() {}
void ThreadPool::DoWork() {}
std::weak_ptr<Task> ThreadPool::Schedule(std::unique_ptr<Task> task) {
  std::shared_ptr<Task> shared = std::move(task);
  pg::g->all.push_back(shared);
  SetThreadPool(shared.get());
  return shared;
}
void ThreadPool::NotifyDependenciesCompleted(Task* task) {
  for (const auto& t : pg::g->all) if (t.get() == task) pg::g->ready.push_back(t);
}
}  // namespace common
#endif
namespace mapping {
namespace constraints {
#ifndef PG3
transform::Rigid2d ComputeSubmapPose(const Submap2D& submap) { return transform::Project2D(submap.local_pose()); }
#endif
typedef PG_2D(ConstraintBuilder) Builder;
Builder::PG_2D(ConstraintBuilder)(const proto::ConstraintBuilderOptions& options, common::ThreadPoolInterface* thread_pool)
    : options_(options), thread_pool_(thread_pool), PG_CERES(options) {}
Builder::~PG_2D(ConstraintBuilder)() {}
static void Record(const pg::Search& s) {
  pg::g->searches.push_back(s);
  pg::Constraint c{s.submap, s.node, {transform::Rigid3d::Identity(), 0., 0.}, pg::Constraint::INTER_SUBMAP};
  if (pg::g->answer && pg::g->answer(s, &c)) pg::g->found.push_back(c);
}
#ifdef PG3
void Builder::MaybeAddConstraint(const SubmapId& submap_id, const Submap3D* submap, const NodeId& node_id, const TrajectoryNode::Data* const constant_data, const transform::Rigid3d& node_pose, const transform::Rigid3d& submap_pose) {
  Record(pg::Search{submap_id, node_id, false, submap_pose.inverse() * node_pose, submap, constant_data});
}
void Builder::MaybeAddGlobalConstraint(const SubmapId& submap_id, const Submap3D* submap, const NodeId& node_id, const TrajectoryNode::Data* const constant_data, const Eigen::Quaterniond& node_rotation, const Eigen::Quaterniond& submap_rotation) {
  Record(pg::Search{submap_id, node_id, true, transform::Rigid3d::Rotation(submap_rotation.conjugate() * node_rotation), submap, constant_data});
}
#else
void Builder::MaybeAddConstraint(const SubmapId& submap_id, const Submap2D* submap, const NodeId& node_id, const TrajectoryNode::Data* const constant_data, const transform::Rigid2d& initial) {
  Record(pg::Search{submap_id, node_id, false, initial, submap, constant_data});
}
void Builder::MaybeAddGlobalConstraint(const SubmapId& submap_id, const Submap2D* submap, const NodeId& node_id, const TrajectoryNode::Data* const constant_data) {
  Record(pg::Search{submap_id, node_id, true, transform::Rigid2d::Identity(), submap, constant_data});
}
#endif
static absl::Mutex count_mutex;
void Builder::NotifyEndOfNode() { absl::MutexLock l(&count_mutex); ++pg::g->ends_of_node; }
void Builder::WhenDone(const std::function<void(const Result&)>& callback) {
  ++pg::g->whendone;
  auto task = absl::make_unique<common::Task>();
  Result result = pg::g->found;
  pg::g->found.clear();
  task->SetWorkItem([callback, result]() { callback(result); });
  thread_pool_->Schedule(std::move(task));
}
int Builder::GetNumFinishedNodes() { absl::MutexLock l(&count_mutex); return pg::g->ends_of_node; }
void Builder::DeleteScanMatcher(const SubmapId& id) { pg::g->matchers_deleted.push_back(id); }
}  // namespace constraints
namespace scan_matching {
typedef PG_2D(CeresScanMatcher) Ceres;
Ceres::PG_2D(CeresScanMatcher)(const PG_2D(proto::CeresScanMatcherOptions)&) {}
#ifndef PG3
Ceres::~CeresScanMatcher2D() {}
#endif
}  // namespace scan_matching
namespace optimization {
typedef PG_2D(OptimizationProblem) Problem;
Problem::PG_2D(OptimizationProblem)(const proto::OptimizationProblemOptions& o) : options_(o) {}
Problem::~PG_2D(OptimizationProblem)() {}
#ifdef PG3
void Problem::AddImuData(int t, const sensor::ImuData& d) { imu_data_.Append(t, d); }
#else
void Problem::AddImuData(int, const sensor::ImuData&) {}
#endif
void Problem::AddOdometryData(int t, const sensor::OdometryData& d) { odometry_data_.Append(t, d); }
void Problem::AddFixedFramePoseData(int t, const sensor::FixedFramePoseData& d) { fixed_frame_pose_data_.Append(t, d); }
void Problem::AddTrajectoryNode(int t, const PG_2D(NodeSpec)& d) { node_data_.Append(t, d); trajectory_data_[t]; }
void Problem::SetTrajectoryData(int t, const PoseGraphInterface::TrajectoryData& d) { trajectory_data_[t] = d; }
void Problem::InsertTrajectoryNode(const NodeId& id, const PG_2D(NodeSpec)& d) { node_data_.Insert(id, d); trajectory_data_[id.trajectory_id]; }
void Problem::TrimTrajectoryNode(const NodeId& id) { node_data_.Trim(id); if (node_data_.SizeOfTrajectoryOrZero(id.trajectory_id) == 0) trajectory_data_.erase(id.trajectory_id); }
void Problem::AddSubmap(int t, const pg::Pose& p) { submap_data_.Append(t, PG_2D(SubmapSpec){p}); }
void Problem::InsertSubmap(const SubmapId& id, const pg::Pose& p) { submap_data_.Insert(id, PG_2D(SubmapSpec){p}); }
void Problem::TrimSubmap(const SubmapId& id) { submap_data_.Trim(id); }
void Problem::SetMaxNumIterations(int32 n) { pg::g->max_iterations = n; }
void Problem::Solve(const std::vector<Constraint>& constraints, const std::map<int, PoseGraphInterface::TrajectoryState>& states, const std::map<std::string, LandmarkNode>& landmarks) {
  ++pg::g->solves;
  pg::g->iterations_at_solve.push_back(pg::g->max_iterations);
  pg::g->solve_constraints = constraints; pg::g->solve_states = states; pg::g->solve_landmarks = landmarks;
  pg::g->solve_nodes.clear(); pg::g->solve_submaps.clear();
  for (const auto& n : node_data_) { pg::g->solve_nodes.push_back(n.id); if (pg::g->move_node) node_data_.at(n.id).PG_POSE = pg::g->move_node(n.id, n.data.PG_POSE); }
  for (const auto& s : submap_data_) { pg::g->solve_submaps.push_back(s.id); if (pg::g->move_submap) submap_data_.at(s.id).global_pose = pg::g->move_submap(s.id, s.data.global_pose); }
  landmark_data_ = pg::g->landmarks_out;
  if (pg::g->solved) pg::g->solved();
}
}  // namespace optimization
}  // namespace mapping
}  // namespace cartographer
namespace pg {
static bool Near(double a, double b, double t = 1e-6) { const double e = a - b; return (e <= t) & (e >= -t); }
static bool Near(const Rigid3d& a, const Rigid3d& b) {
  const double d = a.rotation().w() * b.rotation().w() + a.rotation().x() * b.rotation().x() + a.rotation().y() * b.rotation().y() + a.rotation().z() * b.rotation().z();
  return Near(a.translation().x(), b.translation().x()) & Near(a.translation().y(), b.translation().y()) & Near(a.translation().z(), b.translation().z()) & (Near(d, 1., 1e-9) | Near(d, -1., 1e-9));
}
static bool Near(const Rigid2d& a, const Rigid2d& b) {
  return Near(a.translation().x(), b.translation().x()) & Near(a.translation().y(), b.translation().y()) & Near((a.rotation().inverse() * b.rotation()).smallestAngle(), 0., 1e-7);
}
#ifdef PG3
// in 3D everything is tilted, too
static Pose P2(double x, double y, double a) { return Rigid3d(Eigen::Vector3d(x, y, 0.5 * y), transform::RollPitchYaw(0.2 * a, 0.1 * a, a)); }
static Pose NodePose(const Pose& p, const Eigen::Quaterniond& gravity) { return p * Rigid3d::Rotation(gravity); }
static Rigid3d FullPose(const Pose& p, const Eigen::Quaterniond&) { return p; }
#else
static Pose P2(double x, double y, double a) { return Rigid2d(Eigen::Vector2d(x, y), Eigen::Rotation2Dd(a)); }
static Pose NodePose(const Pose& p, const Eigen::Quaterniond&) { return p; }
static Rigid3d FullPose(const Pose& p, const Eigen::Quaterniond& gravity) { return transform::Embed3D(p) * Rigid3d::Rotation(gravity); }
#endif
// how a constraint found by the search is given out
static Rigid3d GivenOut(const Rigid3d& z, const Eigen::Quaterniond& gravity) {
#ifdef PG3
  return z;
#else
  return z * Rigid3d::Rotation(gravity);
#endif
}
static void SetSubmap(mapping::proto::Submap* p, const Rigid3d& local, int num, bool finished) {
#ifdef PG3
  auto* s = p->mutable_submap_3d();
#else
  auto* s = p->mutable_submap_2d();
#endif
  *s->mutable_local_pose() = transform::ToProto(local);
  s->set_num_range_data(num);
  s->set_finished(finished);
}
static std::shared_ptr<SubmapXD> MakeSubmap(const Rigid3d& local) {
  mapping::proto::Submap p;
  SetSubmap(&p, local, 0, false);
#ifdef PG3
  return std::make_shared<SubmapXD>(p.submap_3d());
#else
  static ValueConversionTables tables;
  return std::make_shared<SubmapXD>(p.submap_2d(), &tables);
#endif
}
static void Finish(SubmapXD* s) {
  mapping::proto::Submap p;
  SetSubmap(&p, s->local_pose(), 7, true);
  s->UpdateFromProto(p);
}
static common::Time At(int64_t seconds) { return common::FromUniversal(1000000000) + common::Duration(seconds * 10000000); }
static std::shared_ptr<TrajectoryNode::Data> MakeNode(common::Time time, const Pose& planar, const Eigen::Quaterniond& gravity) {
  auto d = std::make_shared<TrajectoryNode::Data>();
  d->time = time;
  d->gravity_alignment = gravity;
  d->local_pose = FullPose(NodePose(planar, gravity), gravity);
  return d;
}
static mapping::proto::PoseGraphOptions Options(int every_n) {
  mapping::proto::PoseGraphOptions o;
  o.set_optimize_every_n_nodes(every_n);
  o.set_matcher_translation_weight(5e2);
  o.set_matcher_rotation_weight(1.6e3);
  o.set_global_sampling_ratio(1.);
  o.set_global_constraint_search_after_n_seconds(10.);
  o.set_max_num_final_iterations(77);
  o.mutable_optimization_problem_options()->mutable_ceres_solver_options()->set_max_num_iterations(33);
  return o;
}
static Graph* NewGraph(const mapping::proto::PoseGraphOptions& o) {
  g = new State;
  common::ThreadPool* pool = new common::ThreadPool(1);
  return new Graph(o, absl::make_unique<optimization::Problem>(o.optimization_problem_options()), pool);
}
// the submaps of one trajectory as local SLAM builds them: two active ones, each for 2 * window nodes
struct Feeder {
  int trajectory, window, count = 0;
  std::vector<std::shared_ptr<SubmapXD>> submaps, active;
  std::vector<std::set<int>> members;                     // nodes of each submap
  std::vector<std::shared_ptr<TrajectoryNode::Data>> data;
  std::vector<bool> finished;
  std::function<Rigid3d(int)> submap_pose;
  NodeId Add(Graph* graph, std::shared_ptr<TrajectoryNode::Data> d) {
    if (count % window == 0) {
      if (active.size() == 2) active.erase(active.begin());
      submaps.push_back(MakeSubmap(submap_pose(submaps.size())));
      active.push_back(submaps.back()); members.emplace_back(); finished.push_back(false);
    }
    const int last = submaps.size() - 1;
    members[last].insert(count);
    if (active.size() == 2) members[last - 1].insert(count);
    ++count;
    if (active.size() == 2 && count % window == 0) { Finish(active.front().get()); finished[last - 1] = true; }
    data.push_back(d);
    std::vector<std::shared_ptr<const SubmapXD>> insertion(active.begin(), active.end());
    return graph->AddNode(d, trajectory, insertion);
  }
};
}  // namespace pg
