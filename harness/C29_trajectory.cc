//@ time=150,800 parts=pair:10;collate:4 skip=cartographer/mapping/map_builder.cc,cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/global_trajectory_builder.cc,cartographer/mapping/internal/collated_trajectory_builder.cc
//# Data of two sensors of one trajectory, added in any interleaving next to an idle trajectory: everything reaches local SLAM (range, IMU, odometry) and the pose graph (IMU, odometry, fixed frame, landmarks) exactly once, under the right trajectory and in global time order; sensors that are not collated are passed on at once without blocking the others. Every match is reported, every inserted scan becomes a node.
//b two sensors of the five kinds (ten pairs), one or two data each at symbolic times, every interleaving, both collation flags, 2D and 3D, collated by trajectory or globally, with and without local SLAM and odometry filter; local SLAM gives nothing, a match or an inserted scan
//s local SLAM and pose graph are recording stand-ins; wall clock stands still
#define REAL_BUILDERS
#include "mapbuilder.h"
#include "collate.h"
using namespace cartographer;
using namespace cartographer::mapping;
using SensorId = TrajectoryBuilderInterface::SensorId;
extern "C" void symx_main() {
  static const int kPair[10][2] = {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}, {3, 4}};
  // names in the order of the collator's queues
  static const char* const kName[5] = {"range", "imu", "odometry", "fixed", "landmark"};
  const int pair = symx_choose("pair", 10), collate = symx_choose("collate", 4), setup = symx_choose("setup", 4);
  const bool three = setup & 1, by_trajectory = setup & 2;
  const int* const kind = kPair[pair];
  const bool uses_range = kind[0] == 0;
  const bool local = uses_range || symx_choose("local", 2);
  const bool filter = (kind[0] == 2 || kind[1] == 2) && symx_choose("filter", 2);
  proto::MapBuilderOptions options;
  options.set_use_trajectory_builder_2d(!three); options.set_use_trajectory_builder_3d(three); options.set_collate_by_trajectory(by_trajectory); options.set_num_background_threads(1);
  MapBuilder map_builder(options);
  auto* const graph = static_cast<StateGraph*>(map_builder.pose_graph());
  proto::TrajectoryBuilderOptions t;
  if (local && !three) t.mutable_trajectory_builder_2d_options();
  if (local && three) t.mutable_trajectory_builder_3d_options();
  const bool landmarks = collate & 1, fixed_frame = collate & 2;
  t.set_collate_landmarks(landmarks); t.set_collate_fixed_frame(fixed_frame);
  if (filter) { auto* const f = t.mutable_pose_graph_odometry_motion_filter(); f->set_max_time_seconds(1e3); f->set_max_distance_meters(1.); f->set_max_angle_radians(1.); }
  int callbacks = 0, inserted = 0;
  const auto callback = [&](int id, common::Time time, transform::Rigid3d pose, sensor::RangeData data, std::unique_ptr<const TrajectoryBuilderInterface::InsertionResult> result) {
    ++callbacks;
    Log().push_back({'C', 0, id, time});
    symx_assert(pose.translation().y() == 2. && data.origin.z() == 6.f, "the result carries pose and scan of the match");
    symx_assert((result != nullptr) == (NextResult() == 2), "the result says whether the scan was inserted");
    if (result) symx_assert(result->node_id.trajectory_id == id && result->node_id.node_index == 5 + inserted++ && result->constant_data->time == time && result->insertion_submaps.size() == 2, "the result names the new node");
  };
  // an idle trajectory, finished before any data come in
  symx_assert(map_builder.AddTrajectoryBuilder({SensorId{SensorId::SensorType::IMU, "idle"}}, t, nullptr) == 0, "trajectories are numbered from zero");
  std::set<SensorId> sensors;
  for (int k = 0; k < 2; ++k) sensors.insert(SensorId{static_cast<SensorId::SensorType>(kind[k]), kName[kind[k]]});
  const int id = map_builder.AddTrajectoryBuilder(sensors, t, callback);
  symx_assert(id == 1 && map_builder.num_trajectory_builders() == 2, "trajectories are numbered in order");
  symx_assert(LocalCount() == (local ? 2 : 0), "local SLAM runs if and only if it is configured");
  if (local) symx_assert(uses_range ? RangeIds().size() == 1 && RangeIds()[0] == "range" : RangeIds().empty(), "local SLAM expects exactly the range sensors");
  map_builder.FinishTrajectory(0);
  symx_assert(graph->finished.size() == 1 && graph->finished[0] == 0, "finishing reaches the pose graph");
  auto* const builder = map_builder.GetTrajectoryBuilder(id);
  std::vector<std::vector<int64_t>> queue(2);
  bool collated[2];
  int n[2];
  for (int k = 0; k < 2; ++k) {
    collated[k] = !(kind[k] == 4 && !landmarks) && !(kind[k] == 3 && !fixed_frame);
    n[k] = 1 + symx_choose("n", 2);
    for (int i = 0; i < n[k]; ++i) {
      const int64_t v = symx_i64("time");
      symx_assume(v > 0 && v < 1000000);
      if (i) symx_assume(v > queue[k][i - 1]);
      queue[k].push_back(v);
    }
  }
  // what is expected from the collated sensors, in the alphabetical order of their queues
  const bool swap = std::string(kName[kind[0]]) > kName[kind[1]];
  std::vector<std::vector<int64_t>> q; std::vector<int> group, which;
  for (int j = 0; j < 2; ++j) { const int k = swap ? 1 - j : j; if (collated[k]) { q.push_back(queue[k]); group.push_back(0); which.push_back(k); } }
  const std::vector<Item> expected = Expected(q, group);
  NextResult() = uses_range ? symx_choose("result", 3) : 0;
  Log().clear();
  int odometry_seen = 0;
  size_t checked = 0;
  const auto check = [&](int k, int64_t time) {  // one datum has arrived
    const common::Time at = common::FromUniversal(time);
    const auto next = [&](char to, int kk, int trajectory) {
      symx_assert(checked < Log().size() && Log()[checked].to == to && Log()[checked].kind == kk && Log()[checked].trajectory == trajectory, "a datum goes to local SLAM and the pose graph of its trajectory");
      symx_assert(Log()[checked].time == at, "data arrive in time order, each with its own time");
      ++checked;
    };
    if (k == 0) { next('L', 0, -1); if (NextResult() == 2) next('N', 0, id); if (NextResult() >= 1) next('C', 0, id); return; }
    if ((k == 1 || k == 2) && local) next('L', k, -1);
    if (k == 2 && filter && odometry_seen++) return;
    next('G', k, id);
  };
  size_t delivered = 0;
  for (int added[2] = {0, 0}; added[0] < n[0] || added[1] < n[1];) {
    const int k = added[0] == n[0] ? 1 : added[1] == n[1] ? 0 : symx_choose("which", 2);
    const int64_t time = queue[k][added[k]++];
    const common::Time at = common::FromUniversal(time);
    switch (kind[k]) {
      case 0: builder->AddSensorData("range", sensor::TimedPointCloudData{at, Eigen::Vector3f::Zero(), {}, {}}); break;
      case 1: builder->AddSensorData("imu", sensor::ImuData{at, Eigen::Vector3d::UnitZ(), Eigen::Vector3d::Zero()}); break;
      case 2: builder->AddSensorData("odometry", sensor::OdometryData{at, transform::Rigid3d::Identity()}); break;
      case 3: builder->AddSensorData("fixed", sensor::FixedFramePoseData{at, transform::Rigid3d::Identity()}); break;
      case 4: builder->AddSensorData("landmark", sensor::LandmarkData{at, {}}); break;
    }
    if (!collated[k]) check(kind[k], time);
    // collated data that are due have arrived, in order
    while (checked < Log().size()) {
      symx_assert(delivered < expected.size(), "no datum arrives twice");
      const Item& e = expected[delivered++];
      check(kind[which[e.queue]], e.time);
    }
    // while one sensor is not collated, the other does not wait for it
    if (q.size() == 1 && collated[k] && !(filter && !local)) symx_assert(delivered == size_t(added[k]), "sensors that are not collated do not hold up the others");
  }
  map_builder.FinishTrajectory(id);
  while (delivered < expected.size()) { const Item& e = expected[delivered++]; check(kind[which[e.queue]], e.time); }
  symx_assert(checked == Log().size(), "finishing the trajectory delivers the rest, and nothing else");
  symx_assert(graph->finished.size() == 2 && graph->finished[1] == id, "the trajectory is finished in the pose graph");
  symx_observe("delivered", delivered); symx_observe("callbacks", callbacks);
  symx_reach("end");
}
