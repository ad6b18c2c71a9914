// The real MapBuilder on top of a stand-in pose graph, which holds and records
// data (harnesses fill and compare it), and stand-in local trajectory builders.
#include "symx.h"
#define CARTOGRAPHER_COMMON_THREAD_POOL_H_
#define CARTOGRAPHER_MAPPING_INTERNAL_2D_LOCAL_TRAJECTORY_BUILDER_2D_H_
#define CARTOGRAPHER_MAPPING_INTERNAL_3D_LOCAL_TRAJECTORY_BUILDER_3D_H_
#define CARTOGRAPHER_MAPPING_INTERNAL_2D_POSE_GRAPH_2D_H_
#define CARTOGRAPHER_MAPPING_INTERNAL_3D_POSE_GRAPH_3D_H_
#ifndef REAL_BUILDERS
#define CARTOGRAPHER_MAPPING_INTERNAL_GLOBAL_TRAJECTORY_BUILDER_H_
#define CARTOGRAPHER_MAPPING_INTERNAL_COLLATED_TRAJECTORY_BUILDER_H_
#endif
#define PoseGraph2D SymxPoseGraph2D
#define PoseGraph3D SymxPoseGraph3D
#define ThreadPool SymxThreadPool
#define LocalTrajectoryBuilder2D SymxLocalTrajectoryBuilder2D
#define LocalTrajectoryBuilder3D SymxLocalTrajectoryBuilder3D
#define OptimizationProblem2D SymxOptimizationProblem2D
#define OptimizationProblem3D SymxOptimizationProblem3D
#define CollatedTrajectoryBuilder SymxCollatedTrajectoryBuilder
#define MapBuilder SymxMapBuilder
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "absl/memory/memory.h"
#include "cartographer/mapping/internal/motion_filter.h"
#include "cartographer/mapping/pose_graph.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "cartographer/sensor/collator_interface.h"
#include "cartographer/transform/transform.h"
namespace cartographer {
namespace common { class ThreadPool { public: explicit ThreadPool(int) {} }; }
namespace mapping {
struct Event { char to; int kind; int trajectory; common::Time time; };  // to: 'L' local SLAM, 'G' pose graph, 'N' new node, 'C' callback
inline std::vector<Event>& Log() { static std::vector<Event>* const log = new std::vector<Event>; return *log; }
struct StateGraph : public PoseGraph {
  std::map<int, TrajectoryState> states;
  MapById<SubmapId, SubmapData> submaps;
  MapById<NodeId, TrajectoryNode> nodes;
  std::vector<Constraint> cons;
  std::map<int, TrajectoryData> trajectory_data;
  sensor::MapByTime<sensor::ImuData> imu;
  sensor::MapByTime<sensor::OdometryData> odometry;
  sensor::MapByTime<sensor::FixedFramePoseData> fixed;
  std::map<std::string, LandmarkNode> landmarks;
  std::map<std::string, transform::Rigid3d> landmark_poses;
  // recorded calls
  struct AddedSubmap { transform::Rigid3d pose; proto::Submap proto; };
  struct AddedNode { transform::Rigid3d pose; proto::Node proto; };
  std::vector<AddedSubmap> added_submaps;
  std::vector<AddedNode> added_nodes;
  std::vector<proto::TrajectoryData> added_data;
  std::vector<std::pair<NodeId, SubmapId>> added_to_submap;
  std::vector<std::pair<int, sensor::LandmarkData>> added_landmarks;
  std::vector<int> frozen, finished;
  int frozen_landmarks = 0, constraint_calls = 0, trimmers = 0;
  std::vector<std::unique_ptr<PoseGraphTrimmer>> trimmer_list;
  struct Initial { int from, to; transform::Rigid3d pose; common::Time time; };
  std::vector<Initial> initial;

  void AddImuData(int t, const sensor::ImuData& d) override { Log().push_back({'G', 1, t, d.time}); imu.Append(t, d); }
  void AddOdometryData(int t, const sensor::OdometryData& d) override { Log().push_back({'G', 2, t, d.time}); odometry.Append(t, d); }
  void AddFixedFramePoseData(int t, const sensor::FixedFramePoseData& d) override { Log().push_back({'G', 3, t, d.time}); fixed.Append(t, d); }
  void AddLandmarkData(int t, const sensor::LandmarkData& d) override { Log().push_back({'G', 4, t, d.time}); added_landmarks.emplace_back(t, d); }
  void FinishTrajectory(int t) override { finished.push_back(t); }
  void FreezeTrajectory(int t) override { frozen.push_back(t); }
  void AddSubmapFromProto(const transform::Rigid3d& p, const proto::Submap& s) override { added_submaps.push_back({p, s}); }
  void AddNodeFromProto(const transform::Rigid3d& p, const proto::Node& n) override { added_nodes.push_back({p, n}); }
  void SetTrajectoryDataFromProto(const proto::TrajectoryData& d) override { added_data.push_back(d); }
  void AddNodeToSubmap(const NodeId& n, const SubmapId& s) override { added_to_submap.emplace_back(n, s); }
  void AddSerializedConstraints(const std::vector<Constraint>& c) override { ++constraint_calls; cons.insert(cons.end(), c.begin(), c.end()); }
  void AddTrimmer(std::unique_ptr<PoseGraphTrimmer> t) override { ++trimmers; trimmer_list.push_back(std::move(t)); }
  std::vector<std::vector<int>> GetConnectedTrajectories() const override { return {}; }
  sensor::MapByTime<sensor::ImuData> GetImuData() const override { return imu; }
  sensor::MapByTime<sensor::OdometryData> GetOdometryData() const override { return odometry; }
  sensor::MapByTime<sensor::FixedFramePoseData> GetFixedFramePoseData() const override { return fixed; }
  std::map<std::string, LandmarkNode> GetLandmarkNodes() const override { return landmarks; }
  void SetInitialTrajectoryPose(int from, int to, const transform::Rigid3d& p, const common::Time t) override { initial.push_back({from, to, p, t}); }
  void RunFinalOptimization() override {}
  MapById<SubmapId, SubmapData> GetAllSubmapData() const override { return submaps; }
  SubmapData GetSubmapData(const SubmapId& id) const override { return submaps.Contains(id) ? submaps.at(id) : SubmapData{}; }
  MapById<SubmapId, SubmapPose> GetAllSubmapPoses() const override { return {}; }
  transform::Rigid3d GetLocalToGlobalTransform(int) const override { return transform::Rigid3d::Identity(); }
  MapById<NodeId, TrajectoryNode> GetTrajectoryNodes() const override { return nodes; }
  MapById<NodeId, TrajectoryNodePose> GetTrajectoryNodePoses() const override { return {}; }
  std::map<int, TrajectoryState> GetTrajectoryStates() const override { return states; }
  std::map<std::string, transform::Rigid3d> GetLandmarkPoses() const override { return landmark_poses; }
  void SetLandmarkPose(const std::string& id, const transform::Rigid3d& p, const bool f) override { landmark_poses[id] = p; frozen_landmarks += f; }
  void DeleteTrajectory(int) override {}
  bool IsTrajectoryFinished(int) const override { return false; }
  bool IsTrajectoryFrozen(int) const override { return false; }
  std::map<int, TrajectoryData> GetTrajectoryData() const override { return trajectory_data; }
  std::vector<Constraint> constraints() const override { return cons; }
  NodeId AddNode(std::shared_ptr<const TrajectoryNode::Data> d, int t, const std::vector<std::shared_ptr<const Submap>>& s) {
    Log().push_back({'N', 0, t, d->time});
    symx_assert(s.size() == 2, "a node comes with the submaps it was inserted into");
    return NodeId{t, next_node++};
  }
  int next_node = 5;
  void SetGlobalSlamOptimizationCallback(GlobalSlamOptimizationCallback) override {}
};
namespace optimization {
struct OptimizationProblem2D { template <typename T> explicit OptimizationProblem2D(const T&) {} };
struct OptimizationProblem3D { template <typename T> explicit OptimizationProblem3D(const T&) {} };
}
class PoseGraph2D : public StateGraph { public: template <typename A, typename B> PoseGraph2D(const A&, B, common::ThreadPool*) {} };
class PoseGraph3D : public StateGraph { public: template <typename A, typename B> PoseGraph3D(const A&, B, common::ThreadPool*) {} };
#ifdef REAL_BUILDERS
// What local SLAM returns for a scan is up to the harness.
inline int& NextResult() { static int r = 0; return r; }  // 0 nothing yet, 1 matched, 2 matched and inserted
inline int& LocalCount() { static int n = 0; return n; }
inline std::vector<std::string>& RangeIds() { static auto* const v = new std::vector<std::string>; return *v; }
template <typename SubmapType> struct StandInLocal {
  struct InsertionResult { std::shared_ptr<const TrajectoryNode::Data> constant_data; std::vector<std::shared_ptr<const SubmapType>> insertion_submaps; };
  struct MatchingResult { common::Time time; transform::Rigid3d local_pose; sensor::RangeData range_data_in_local; std::unique_ptr<const InsertionResult> insertion_result; };
  template <typename T> StandInLocal(const T&, const std::vector<std::string>& ids) { ++LocalCount(); RangeIds() = ids; }
  std::unique_ptr<MatchingResult> AddRangeData(const std::string& id, const sensor::TimedPointCloudData& d) {
    Log().push_back({'L', 0, -1, d.time});
    symx_assert(id == "range", "range data arrive under the name of their sensor");
    if (NextResult() == 0) return nullptr;
    auto r = absl::make_unique<MatchingResult>();
    r->time = d.time; r->local_pose = transform::Rigid3d::Translation({1., 2., 3.}); r->range_data_in_local.origin = {4.f, 5.f, 6.f};
    if (NextResult() == 2) {
      auto data = std::make_shared<TrajectoryNode::Data>(); data->time = d.time;
      r->insertion_result = absl::make_unique<const InsertionResult>(InsertionResult{data, {nullptr, nullptr}});
    }
    return r;
  }
  void AddImuData(const sensor::ImuData& d) { Log().push_back({'L', 1, -1, d.time}); }
  void AddOdometryData(const sensor::OdometryData& d) { Log().push_back({'L', 2, -1, d.time}); }
};
struct LocalTrajectoryBuilder2D : public StandInLocal<Submap> { using StandInLocal<Submap>::StandInLocal; };
struct LocalTrajectoryBuilder3D : public StandInLocal<Submap> { using StandInLocal<Submap>::StandInLocal; };
}  // namespace mapping
}  // namespace cartographer
#include "cartographer/mapping/internal/collated_trajectory_builder.cc"
#include "cartographer/mapping/internal/global_trajectory_builder.cc"
#else
struct LocalTrajectoryBuilder2D { template <typename T> LocalTrajectoryBuilder2D(const T&, const std::vector<std::string>& ids) : range_ids(ids) {} std::vector<std::string> range_ids; };
struct LocalTrajectoryBuilder3D { template <typename T> LocalTrajectoryBuilder3D(const T&, const std::vector<std::string>& ids) : range_ids(ids) {} std::vector<std::string> range_ids; };
struct StandInBuilder : public TrajectoryBuilderInterface {
  int trajectory_id = -1; bool local = false, filter = false; std::vector<std::string> range_ids; StateGraph* graph = nullptr;
  void AddSensorData(const std::string&, const sensor::TimedPointCloudData&) override {}
  void AddSensorData(const std::string&, const sensor::ImuData&) override {}
  void AddSensorData(const std::string&, const sensor::OdometryData&) override {}
  void AddSensorData(const std::string&, const sensor::FixedFramePoseData&) override {}
  void AddSensorData(const std::string&, const sensor::LandmarkData&) override {}
  void AddLocalSlamResultData(std::unique_ptr<LocalSlamResultData>) override {}
};
template <typename Local, typename Graph>
std::unique_ptr<TrajectoryBuilderInterface> MakeStandIn(std::unique_ptr<Local> local, int id, Graph* graph, bool filter) {
  auto b = absl::make_unique<StandInBuilder>();
  b->trajectory_id = id; b->local = local != nullptr; b->filter = filter; b->graph = graph;
  if (local) b->range_ids = local->range_ids;
  return b;
}
inline std::unique_ptr<TrajectoryBuilderInterface> CreateGlobalTrajectoryBuilder2D(std::unique_ptr<LocalTrajectoryBuilder2D> l, const int id, PoseGraph2D* const g, const TrajectoryBuilderInterface::LocalSlamResultCallback&, const absl::optional<MotionFilter>& f) { return MakeStandIn(std::move(l), id, g, f.has_value()); }
inline std::unique_ptr<TrajectoryBuilderInterface> CreateGlobalTrajectoryBuilder3D(std::unique_ptr<LocalTrajectoryBuilder3D> l, const int id, PoseGraph3D* const g, const TrajectoryBuilderInterface::LocalSlamResultCallback&, const absl::optional<MotionFilter>& f) { return MakeStandIn(std::move(l), id, g, f.has_value()); }
class CollatedTrajectoryBuilder : public StandInBuilder {
 public:
  CollatedTrajectoryBuilder(const proto::TrajectoryBuilderOptions&, sensor::CollatorInterface* collator, int id, const std::set<TrajectoryBuilderInterface::SensorId>& sensors, std::unique_ptr<TrajectoryBuilderInterface> w) : sensor_ids(sensors), wrapped(std::move(w)) { trajectory_id = id; (void)collator; }
  std::set<TrajectoryBuilderInterface::SensorId> sensor_ids;
  std::unique_ptr<TrajectoryBuilderInterface> wrapped;
};
}  // namespace mapping
}  // namespace cartographer
#endif
#include "cartographer/mapping/map_builder.cc"
