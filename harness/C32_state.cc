//@ time=200,800 parts=states:8;frozen:2 skip=cartographer/mapping/map_builder.cc,cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/3d/pose_graph_3d.cc
//# Everything in the pose graph when the state is saved comes back when it is loaded: options of every trajectory, submaps (unfinished ones only if asked for, then without their constraints), nodes, poses, constraints, trajectory data, IMU, odometry, fixed-frame and landmark data and landmark poses, each with the right ids after renumbering. Every saved state can be loaded, whatever state the trajectories are in.
//b two trajectories in eight combinations of states (not registered yet, active, finished with and without data, frozen, deleted), two submaps finished or not, two nodes, three constraints, sensor data of either, loaded into an empty map or next to an existing trajectory, frozen or not; symbolic values
//s the pose graphs before and after are data-holding stand-ins; messages travel through a queue of serialised messages
#include "mapbuilder.h"
using namespace cartographer;
using namespace cartographer::mapping;
struct OneSubmap : public Submap {
  int value;
  OneSubmap(int v, bool finished) : Submap(transform::Rigid3d::Identity()), value(v) { set_insertion_finished(finished); }
  proto::Submap ToProto(bool grid) const override { symx_assert(grid, "submaps are saved with their grids"); proto::Submap p; p.mutable_submap_2d()->set_num_range_data(value); p.mutable_submap_2d()->set_finished(insertion_finished()); return p; }
  void UpdateFromProto(const proto::Submap&) override {}
  void ToResponseProto(const transform::Rigid3d&, proto::SubmapQuery::Response*) const override {}
};
struct Queue : public io::ProtoStreamWriterInterface, public io::ProtoStreamReaderInterface {
  std::vector<std::string> items; size_t next = 0;
  void WriteProto(const google::protobuf::Message& m) override { std::string s; m.SerializeToString(&s); items.push_back(s); }
  bool Close() override { return true; }
  bool ReadProto(google::protobuf::Message* m) override { if (next == items.size()) return false; return m->ParseFromString(items[next++]); }
  bool eof() const override { return next == items.size(); }
};
static transform::Rigid3d Pose(int v) { return transform::Rigid3d(Eigen::Vector3d(v, v + .5, -v), Eigen::Quaterniond(.5, .5, -.5, .5)); }
static bool IsPose(const transform::Rigid3d& p, int v) { const auto q = p.rotation(); return (p.translation().x() == double(v)) & (p.translation().y() == v + .5) & (p.translation().z() == double(-v)) & (q.w() == .5) & (q.x() == .5) & (q.y() == -.5) & (q.z() == .5); }
using S = PoseGraphInterface::TrajectoryState;
extern "C" void symx_main() {
  proto::MapBuilderOptions options; options.set_use_trajectory_builder_2d(true); options.set_num_background_threads(1);
  MapBuilder source(options), target(options);
  auto* const a = static_cast<StateGraph*>(source.pose_graph());
  auto* const b = static_cast<StateGraph*>(target.pose_graph());
  const int states = symx_choose("states", 8), load_frozen = symx_choose("frozen", 2), include = symx_choose("include", 2), existing = symx_choose("existing", 2);
  // per trajectory: 0 not registered, 1 active, 2 finished, 3 frozen, 4 deleted; and whether it has submaps and nodes
  static const int kState[8][2] = {{1, 1}, {2, 0}, {2, 1}, {2, 3}, {4, 1}, {1, 4}, {3, 2}, {0, 1}};
  static const int kData[8][2] = {{1, 1}, {1, 0}, {0, 1}, {1, 1}, {0, 1}, {1, 0}, {1, 0}, {0, 1}};
  bool valid[2], data[2];
  int option[2], submap_pose[2][2], submap_value[2][2], node_pose[2][2], node_time[2][2]; bool finished[2][2];
  for (int t = 0; t < 2; ++t) {
    const int o = symx_irange("option", 0, 100);
    option[t] = o;
    proto::TrajectoryBuilderOptionsWithSensorIds p;
    p.mutable_trajectory_builder_options()->mutable_pure_localization_trimmer()->set_max_submaps_to_keep(o);
    auto* const id = p.add_sensor_id(); id->set_id(t ? "b" : "a"); id->set_type(proto::SensorId::IMU);
    symx_assert(source.AddTrajectoryForDeserialization(p) == t, "trajectories are numbered in order");
    const int st = kState[states][t];
    valid[t] = st != 0 && st != 4; data[t] = kData[states][t];
    if (st) a->states[t] = st == 1 ? S::ACTIVE : st == 2 ? S::FINISHED : st == 3 ? S::FROZEN : S::DELETED;
    if (!data[t]) continue;
    for (int i = 0; i < 2; ++i) {
      // indices with a gap: submap and node 0 were trimmed
      const int pv = symx_irange("pose", 0, 100), v = symx_irange("value", 0, 100), np = symx_irange("npose", 0, 100), nt = symx_irange("ntime", 0, 100);
      finished[t][i] = i == 0 ? true : symx_choose("finished", 2);
      submap_pose[t][i] = pv; submap_value[t][i] = v; node_pose[t][i] = np; node_time[t][i] = nt + 1000 * i;
      a->submaps.Insert(SubmapId{t, i + 1}, {std::make_shared<const OneSubmap>(v, finished[t][i]), Pose(pv)});
      TrajectoryNode::Data d; d.time = common::FromUniversal(node_time[t][i]); d.gravity_alignment = Eigen::Quaterniond(.5, .5, -.5, .5); d.local_pose = Pose(np + 1); d.rotational_scan_matcher_histogram = Eigen::VectorXf::Constant(1, float(nt));
      a->nodes.Insert(NodeId{t, i + 1}, {std::make_shared<const TrajectoryNode::Data>(d), Pose(np)});
    }
    a->trajectory_data[t].gravity_constant = 9. + t;
    if (t) a->trajectory_data[t].fixed_frame_origin_in_map = Pose(7);
  }
  // node 1 is in submap 1, node 2 in submap 2; node 2 was also matched to submap 1 of the last trajectory with data
  std::vector<PoseGraphInterface::Constraint> want;
  for (int t = 0; t < 2; ++t) if (data[t]) {
    const int other = data[1 - t] ? 1 - t : t;
    for (int k = 0; k < 3; ++k) {
      const int w = symx_irange("weight", 0, 100);
      const PoseGraphInterface::Constraint c{SubmapId{k == 2 ? other : t, k == 2 ? 1 : k + 1}, NodeId{t, k == 0 ? 1 : 2}, {Pose(10 * t + k), double(w), w + 2.}, k == 2 ? PoseGraphInterface::Constraint::INTER_SUBMAP : PoseGraphInterface::Constraint::INTRA_SUBMAP};
      a->cons.push_back(c);
      if (include || k == 2 || finished[t][k]) want.push_back(c);
    }
  }
  // sensor data may have arrived for trajectories in any state
  const int sensors = symx_choose("sensors", 3);
  int imu[2] = {}, lm[2] = {};
  for (int t = 0; t < 2; ++t) if (sensors == 2 || sensors == t) {
    const int v = symx_irange("imu", 0, 100);
    imu[t] = v;
    a->imu.Append(t, {common::FromUniversal(5), Eigen::Vector3d(v, 1., 2.), Eigen::Vector3d(3., 4., v)});
    a->imu.Append(t, {common::FromUniversal(6), Eigen::Vector3d(v, 1., 2.), Eigen::Vector3d(3., 4., v)});
    a->odometry.Append(t, {common::FromUniversal(7), Pose(v)});
    a->fixed.Append(t, {common::FromUniversal(8), Pose(v)});
    a->fixed.Append(t, {common::FromUniversal(9), absl::nullopt});
    const int l = symx_irange("landmark", 0, 100);
    lm[t] = l;
    a->landmarks["l"].landmark_observations.push_back({t, common::FromUniversal(l), Pose(l), l + 1., l + 2.});
    if (t == 0) a->landmarks["m"].landmark_observations.push_back({t, common::FromUniversal(3), Pose(1), 1., 2.});
  }
  if (sensors == 2) { a->landmark_poses["l"] = Pose(21); a->landmark_poses["m"] = Pose(22); }
  Queue queue;
  source.SerializeState(include, &queue);
  if (existing) { proto::TrajectoryBuilderOptionsWithSensorIds p; target.AddTrajectoryForDeserialization(p); }
  const std::map<int, int> remap = target.LoadState(&queue, load_frozen);
  // trajectories
  symx_assert(remap.size() == size_t(valid[0] + valid[1]), "exactly the trajectories that were not deleted come back");
  int ids[2] = {-1, -1};
  for (int t = 0; t < 2; ++t) if (valid[t]) {
    symx_assert(remap.count(t) == 1, "every trajectory gets a number");
    ids[t] = remap.at(t);
    symx_assert(ids[t] >= existing && ids[t] < target.num_trajectory_builders(), "loaded trajectories get new numbers");
    const auto& o = target.GetAllTrajectoryBuilderOptions()[ids[t]];
    symx_assert((o.trajectory_builder_options().pure_localization_trimmer().max_submaps_to_keep() == option[t]) & (o.sensor_id_size() == 1) && o.sensor_id(0).id() == (t ? "b" : "a"), "a trajectory keeps its own options");
  }
  symx_assert(target.num_trajectory_builders() == existing + valid[0] + valid[1], "no further trajectories appear");
  symx_assert(!(valid[0] && valid[1]) || ids[0] != ids[1], "numbers are different");
  symx_assert(b->frozen.size() == size_t(load_frozen ? valid[0] + valid[1] : 0), "trajectories are frozen if and only if asked for");
  for (int id : b->frozen) symx_assert(id == ids[0] || id == ids[1], "loaded trajectories are frozen");
  // submaps and nodes
  size_t submaps = 0, nodes = 0, td = 0;
  for (int t = 0; t < 2; ++t) if (data[t]) {
    for (int i = 0; i < 2; ++i) {
      int found = 0;
      for (const auto& s : b->added_submaps) if (s.proto.submap_id().trajectory_id() == ids[t] && s.proto.submap_id().submap_index() == i + 1) { ++found; symx_assert(IsPose(s.pose, submap_pose[t][i]) & (s.proto.submap_2d().num_range_data() == submap_value[t][i]) & (s.proto.submap_2d().finished() == finished[t][i]), "a submap keeps its pose and contents"); }
      symx_assert(found == (include || finished[t][i]), "finished submaps come back, unfinished ones if asked for"); submaps += found;
      found = 0;
      for (const auto& n : b->added_nodes) if (n.proto.node_id().trajectory_id() == ids[t] && n.proto.node_id().node_index() == i + 1) {
        ++found;
        const TrajectoryNode::Data d = FromProto(n.proto.node_data());
        symx_assert(IsPose(n.pose, node_pose[t][i]) & (d.time == common::FromUniversal(node_time[t][i])) & IsPose(d.local_pose, node_pose[t][i] + 1) & (d.gravity_alignment.y() == -.5), "a node keeps its pose, time and data");
        symx_assert(d.rotational_scan_matcher_histogram.size() == 1 && d.rotational_scan_matcher_histogram[0] == float(node_time[t][i] - 1000 * i), "a node keeps its histogram");
      }
      symx_assert(found == 1, "every node comes back"); ++nodes;
    }
    int found = 0;
    for (const auto& d : b->added_data) if (d.trajectory_id() == ids[t]) { ++found; symx_assert(d.gravity_constant() == 9. + t && d.imu_calibration().w() == 1. && d.imu_calibration().x() == 0. && d.has_fixed_frame_origin_in_map() == (t == 1) && (t == 0 || IsPose(transform::ToRigid3(d.fixed_frame_origin_in_map()), 7)), "trajectory data come back"); }
    symx_assert(found == 1, "trajectory data come back once"); ++td;
  }
  symx_assert(b->added_submaps.size() == submaps && b->added_nodes.size() == nodes && b->added_data.size() == td, "nothing else appears");
  // constraints
  if (load_frozen) {
    size_t intra = 0;
    for (const auto& c : want) if (c.tag == PoseGraphInterface::Constraint::INTRA_SUBMAP) {
      symx_assert(intra < b->added_to_submap.size() && b->added_to_submap[intra].first == NodeId(ids[c.node_id.trajectory_id], c.node_id.node_index) && b->added_to_submap[intra].second == SubmapId(ids[c.submap_id.trajectory_id], c.submap_id.submap_index), "nodes know their submaps again"); ++intra;
    }
    symx_assert(b->added_to_submap.size() == intra && b->cons.empty(), "a frozen map has no constraints");
  } else {
    symx_assert(b->added_to_submap.empty() && b->cons.size() == want.size(), "exactly the constraints of saved submaps come back");
    for (size_t i = 0; i < want.size(); ++i) {
      const auto &c = want[i], &d = b->cons[i];
      symx_assert(d.submap_id == SubmapId(ids[c.submap_id.trajectory_id], c.submap_id.submap_index) && d.node_id == NodeId(ids[c.node_id.trajectory_id], c.node_id.node_index) && d.tag == c.tag, "constraints connect the same nodes and submaps");
      symx_assert((d.pose.zbar_ij.translation().x() == c.pose.zbar_ij.translation().x()) & (d.pose.zbar_ij.rotation().y() == -.5) & (d.pose.translation_weight == c.pose.translation_weight) & (d.pose.rotation_weight == c.pose.rotation_weight), "constraints keep pose and weights");
    }
  }
  // sensor data
  size_t landmark_count = 0;
  for (int t = 0; t < 2; ++t) {
    const bool has = (sensors == 2 || sensors == t) && valid[t] && !load_frozen;
    if (!has) continue;
    const int id = ids[t];
    symx_assert(b->imu.HasTrajectory(id) && b->odometry.HasTrajectory(id) && b->fixed.HasTrajectory(id), "sensor data of a trajectory come back");
    int n = 0;
    for (const auto& d : b->imu.trajectory(id)) { ++n; symx_assert((d.linear_acceleration.x() == double(imu[t])) & (d.linear_acceleration.z() == 2.) & (d.angular_velocity.x() == 3.) & (d.angular_velocity.z() == double(imu[t])) & (d.time == common::FromUniversal(4 + n)), "IMU data come back"); }
    symx_assert(n == 2, "all IMU data come back");
    n = 0;
    for (const auto& d : b->odometry.trajectory(id)) { ++n; symx_assert(IsPose(d.pose, imu[t]) & (d.time == common::FromUniversal(7)), "odometry comes back"); }
    symx_assert(n == 1, "all odometry comes back");
    n = 0;
    for (const auto& d : b->fixed.trajectory(id)) { ++n; symx_assert(d.time == common::FromUniversal(7 + n) && d.pose.has_value() == (n == 1), "fixed-frame poses come back"); if (n == 1) symx_assert(IsPose(*d.pose, imu[t]), "fixed-frame poses come back unchanged"); }
    symx_assert(n == 2, "all fixed-frame poses come back");
    int l = 0, m = 0;
    for (const auto& e : b->added_landmarks) if (e.first == id) for (const auto& o : e.second.landmark_observations) {
      if (o.id == "l") { ++l; symx_assert((e.second.time == common::FromUniversal(lm[t])) & IsPose(o.landmark_to_tracking_transform, lm[t]) & (o.translation_weight == lm[t] + 1.) & (o.rotation_weight == lm[t] + 2.), "landmark observations come back unchanged"); }
      else { ++m; symx_assert(o.id == "m", "landmarks keep their names"); }
    }
    symx_assert(l == 1 && m == (t == 0), "all landmark observations come back"); landmark_count += l + m;
  }
  size_t landmark_got = 0;
  for (const auto& e : b->added_landmarks) landmark_got += e.second.landmark_observations.size();
  symx_assert(landmark_got == landmark_count, "no landmark observations appear");
  for (int id : b->imu.trajectory_ids()) symx_assert(id == ids[0] || id == ids[1], "no sensor data appear");
  symx_assert(b->landmark_poses.size() == (sensors == 2 ? 2u : 0u) && b->frozen_landmarks == int(b->landmark_poses.size()), "landmark poses come back frozen");
  if (sensors == 2) symx_assert(IsPose(b->landmark_poses.at("l"), 21) && IsPose(b->landmark_poses.at("m"), 22), "landmark poses come back unchanged");
  symx_reach("end");
}
