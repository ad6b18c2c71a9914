//@ time=200,700 parts=frozen:2;pattern:4 skip=cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# Loaded submaps, nodes and constraints appear in the graph under their ids with the stored poses and data (also with gaps in the ids), constraints are given out as they were loaded, frozen trajectories are told to the optimisation as frozen and are connected with each other, and a new trajectory is matched against everything loaded and the loaded nodes against its submaps. Landmark observations, odometry and fixed frame data arrive at the optimisation once and in order; landmark poses are what was set or optimised.
//b 2 loaded submaps and 3 loaded nodes with gaps in the ids in one of two loaded trajectories, symbolic poses, constraints within and between submaps; a new trajectory of 3 nodes; landmarks with 3 observations; background work run or delayed after each operation
//s thread pool: queued tasks are run when the harness says so; constraint search: records only; optimisation: shifts all poses by a symbolic amount
#include "posegraph.h"
using namespace pg;
extern "C" void symx_main() {
  const int frozen = symx_choose("frozen", 2), pattern = symx_choose("pattern", 4);
  Graph* graph = NewGraph(Options(1));
  int step = 0;
  auto go = [&]() { if (pattern == 1 || (pattern == 2 && step % 2) || (pattern == 3 && step % 3 == 0)) RunAll(); ++step; };
  const int a = symx_irange("a", -3, 3), b = symx_irange("b", -3, 3), shift = symx_irange("shift", -2, 2);
  const Eigen::Quaterniond gravity(transform::RollPitchYaw(0.1, -0.2, 0.));
  auto planar3 = [](double x, double y, double yaw) { return Rigid3d(Eigen::Vector3d(x, y, 0.), transform::RollPitchYaw(0., 0., yaw)); };
  if (frozen) { graph->FreezeTrajectory(0); go(); graph->FreezeTrajectory(1); go(); }
  // submaps 0 and 2 of trajectory 0, submap 1 of trajectory 1
  static const SubmapId kSubmaps[3] = {{0, 0}, {0, 2}, {1, 1}};
  Rigid3d submap_local[3], submap_global[3];
  for (int i = 0; i < 3; ++i) {
    submap_local[i] = planar3(i, 2. * i, 0.3 * i);
    submap_global[i] = planar3(a + 10. * i, b - i, 0.7 - 0.2 * i);
    mapping::proto::Submap p;
    p.mutable_submap_id()->set_trajectory_id(kSubmaps[i].trajectory_id);
    p.mutable_submap_id()->set_submap_index(kSubmaps[i].submap_index);
    SetSubmap(&p, submap_local[i], 5 + i, true);
    graph->AddSubmapFromProto(submap_global[i], p); go();
  }
  static const NodeId kNodes[4] = {{0, 1}, {0, 3}, {0, 4}, {1, 0}};
  Rigid3d node_local[4], node_global[4];
  for (int k = 0; k < 4; ++k) {
    node_local[k] = planar3(k, -k, 0.2 * k) * Rigid3d::Rotation(gravity);
    node_global[k] = planar3(b + 3. * k, a + k, 0.1 * k) * Rigid3d::Rotation(gravity);
    TrajectoryNode::Data d;
    d.time = At(k); d.gravity_alignment = gravity; d.local_pose = node_local[k]; d.rotational_scan_matcher_histogram = Eigen::VectorXf::Zero(2);
    mapping::proto::Node n;
    n.mutable_node_id()->set_trajectory_id(kNodes[k].trajectory_id);
    n.mutable_node_id()->set_node_index(kNodes[k].node_index);
    *n.mutable_node_data() = mapping::ToProto(d);
    graph->AddNodeFromProto(node_global[k], n); go();
  }
  auto check_loaded = [&](const Rigid3d& moved) {
    const auto nodes = graph->GetTrajectoryNodes();
    for (int k = 0; k < 4; ++k) {
      symx_assert(nodes.Contains(kNodes[k]), "every loaded node is in the graph");
      symx_assert(Near(nodes.at(kNodes[k]).global_pose, moved * node_global[k]), "a loaded node has its stored or optimised pose");
      symx_assert(Near(nodes.at(kNodes[k]).constant_data->local_pose, node_local[k]) && nodes.at(kNodes[k]).constant_data->time == At(k), "a loaded node keeps its data");
    }
    const auto submaps = graph->GetAllSubmapData();
    for (int i = 0; i < 3; ++i) {
      symx_assert(submaps.Contains(kSubmaps[i]), "every loaded submap is in the graph");
      symx_assert(Near(submaps.at(kSubmaps[i]).pose, moved * submap_global[i]), "a loaded submap has its stored or optimised pose");
      symx_assert(submaps.at(kSubmaps[i]).submap->num_range_data() == 5 + i && submaps.at(kSubmaps[i]).submap->insertion_finished(), "a loaded submap keeps its data");
    }
    symx_assert(Near(graph->GetLocalToGlobalTransform(0), moved * submap_global[1] * submap_local[1].inverse()), "the local frame follows the last submap");
  };
  check_loaded(Rigid3d::Identity());
  // which nodes belong to which submaps: node 0, 1 in submap 0; node 1, 2 in submap 1; node 3 in submap 2
  static const int kMember[5][2] = {{0, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 3}};
  std::vector<Constraint> loaded;
  if (frozen) {
    for (const auto& m : kMember) { graph->AddNodeToSubmap(kNodes[m[1]], kSubmaps[m[0]]); go(); }
  } else {
    for (const auto& m : kMember) loaded.push_back(Constraint{kSubmaps[m[0]], kNodes[m[1]], {submap_local[m[0]].inverse() * node_local[m[1]], 3. + m[0], 4. + m[1]}, Constraint::INTRA_SUBMAP});
    loaded.push_back(Constraint{kSubmaps[0], kNodes[3], {planar3(a, b, 0.5) * Rigid3d::Rotation(gravity), 8., 9.}, Constraint::INTER_SUBMAP});
    graph->AddSerializedConstraints(loaded); go();
  }
  // further data
  mapping::proto::TrajectoryData td;
  td.set_trajectory_id(7);
  *td.mutable_fixed_frame_origin_in_map() = transform::ToProto(planar3(a, 4., 0.));
  td.set_gravity_constant(9.5);
  td.mutable_imu_calibration()->set_w(0.8); td.mutable_imu_calibration()->set_z(0.6);
  graph->SetTrajectoryDataFromProto(td); go();
  graph->AddOdometryData(7, sensor::OdometryData{At(1), planar3(1., b, 0.)}); go();
  graph->AddOdometryData(7, sensor::OdometryData{At(2), planar3(2., b, 0.)}); go();
  graph->AddFixedFramePoseData(7, sensor::FixedFramePoseData{At(3), absl::optional<Rigid3d>(planar3(a, b, 0.))}); go();
  sensor::LandmarkData l1{At(1), {{"red", planar3(a, 0., 0.), 1., 2.}, {"blue", planar3(b, 0., 0.), 3., 4.}}}, l2{At(2), {{"red", planar3(0., a, 0.), 5., 6.}}};
  graph->AddLandmarkData(7, l1); go();
  graph->AddLandmarkData(7, l2); go();
  graph->SetLandmarkPose("blue", planar3(b, b, 0.), true); go();
  RunAll();
  symx_assert(g->solves == 0, "loading does not optimise");
  check_loaded(Rigid3d::Identity());
  const auto out = graph->constraints();
  symx_assert(out.size() == loaded.size(), "every loaded constraint is in the graph");
  for (size_t i = 0; i < out.size() && i < loaded.size(); ++i) {
    symx_assert(out[i].submap_id == loaded[i].submap_id && out[i].node_id == loaded[i].node_id && out[i].tag == loaded[i].tag && out[i].pose.translation_weight == loaded[i].pose.translation_weight && out[i].pose.rotation_weight == loaded[i].pose.rotation_weight, "constraints are given out as loaded");
    symx_assert(Near(out[i].pose.zbar_ij, loaded[i].pose.zbar_ij), "constraints are given out as loaded");
  }
  symx_assert(graph->GetConnectedTrajectories().size() == 1, "frozen trajectories, and those joined by a constraint, are connected");
  symx_assert(graph->IsTrajectoryFrozen(0) == bool(frozen) && graph->IsTrajectoryFrozen(1) == bool(frozen) && !graph->IsTrajectoryFinished(0), "the state of the loaded trajectories is told");
  // landmarks before the optimisation
  auto landmarks = graph->GetLandmarkPoses();
  symx_assert(landmarks.size() == 1 && landmarks.count("blue") && Near(landmarks.at("blue"), planar3(b, b, 0.)), "only landmarks with a pose are given out");
  auto nodes = graph->GetLandmarkNodes();
  symx_assert(nodes.size() == 2 && nodes.at("red").landmark_observations.size() == 2 && nodes.at("blue").landmark_observations.size() == 1, "every landmark observation is kept");
  const auto& red = nodes.at("red").landmark_observations;
  symx_assert(red[0].trajectory_id == 7 && red[0].time == At(1) && red[1].time == At(2) && red[0].translation_weight == 1. && red[0].rotation_weight == 2. && red[1].translation_weight == 5. && red[1].rotation_weight == 6., "landmark observations keep their data and order");
  symx_assert(Near(red[0].landmark_to_tracking_transform, planar3(a, 0., 0.)) && Near(red[1].landmark_to_tracking_transform, planar3(0., a, 0.)), "landmark observations keep their data and order");
  symx_assert(nodes.at("blue").frozen && !nodes.at("red").frozen, "frozen landmarks are frozen");
  const auto odometry = graph->GetOdometryData();
  int seen = 0;
  for (const auto& o : odometry.trajectory(7)) { ++seen; symx_assert(o.time == At(seen) && Near(o.pose, planar3(seen, b, 0.)), "odometry arrives once and in order"); }
  symx_assert(seen == 2, "odometry arrives once and in order");
  const auto tdata = graph->GetTrajectoryData();
  symx_assert(tdata.count(7) && tdata.at(7).fixed_frame_origin_in_map.has_value() && Near(tdata.at(7).fixed_frame_origin_in_map.value(), planar3(a, 4., 0.)), "the origin of the fixed frame is kept");
#ifdef PG3
  symx_assert(tdata.at(7).gravity_constant == 9.5 && tdata.at(7).imu_calibration[0] == 0.8 && tdata.at(7).imu_calibration[1] == 0. && tdata.at(7).imu_calibration[2] == 0. && tdata.at(7).imu_calibration[3] == 0.6, "the IMU calibration is kept");
  graph->AddImuData(7, sensor::ImuData{At(1), Eigen::Vector3d(a, b, 9.), Eigen::Vector3d(1., 2., 3.)});
  RunAll();
  const auto imu = graph->GetImuData();
  seen = 0;
  for (const auto& o : imu.trajectory(7)) { ++seen; symx_assert(o.time == At(1) && o.linear_acceleration.x() == a && o.angular_velocity.y() == 2., "IMU data arrive once"); }
  symx_assert(seen == 1, "IMU data arrive once");
#endif
  const auto fixed = graph->GetFixedFramePoseData();
  seen = 0;
  for (const auto& o : fixed.trajectory(7)) { ++seen; symx_assert(o.time == At(3) && o.pose.has_value() && Near(o.pose.value(), planar3(a, b, 0.)), "fixed frame poses arrive once"); }
  symx_assert(seen == 1, "fixed frame poses arrive once");
  // a new trajectory: its search and the optimisation
  g->move_node = [&](const NodeId&, const Pose& p) { return P2(shift, 2., 0.5) * p; };
  g->move_submap = g->move_submap = [&](const SubmapId&, const Pose& p) { return P2(shift, 2., 0.5) * p; };
  g->landmarks_out = {{"red", planar3(shift, 1., 0.)}};
  Feeder f{3, 1};
  f.submap_pose = [&](int i) { return planar3(i, 5., 0.); };
  for (int k = 0; k < 2; ++k) { f.Add(graph, MakeNode(At(20 + k), P2(k, 1., 0.1 * k), gravity)); go(); }
  RunAll();
  symx_assert(g->solves == 1, "the optimisation runs once");
  check_loaded(Embed(P2(shift, 2., 0.5)));
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) {
    int n = 0;
    for (const Search& s : g->searches) n += s.node == NodeId{3, k} && s.submap == kSubmaps[i] && s.global;
    symx_assert(n == 1, "a new node is matched against every loaded submap");
  }
  for (int k = 0; k < 4; ++k) {
    int n = 0;
    for (const Search& s : g->searches) n += s.node == kNodes[k] && s.submap == SubmapId{3, 0} && s.global;
    symx_assert(n == 1, "every loaded node is matched against a new submap");
  }
  symx_assert(g->searches.size() == 10, "nothing else is matched");
  symx_assert(g->solve_states.size() == 3 && g->solve_states.at(0) == (frozen ? PoseGraphInterface::TrajectoryState::FROZEN : PoseGraphInterface::TrajectoryState::ACTIVE) && g->solve_states.at(0) == g->solve_states.at(1) && g->solve_states.at(3) == PoseGraphInterface::TrajectoryState::ACTIVE, "the optimisation is told which trajectories are frozen");
  symx_assert(g->solve_landmarks.size() == 2 && g->solve_landmarks.at("red").landmark_observations.size() == 2, "the optimisation gets the landmarks");
  symx_assert(g->solve_constraints.size() == loaded.size() + 3, "the optimisation gets all constraints");
  landmarks = graph->GetLandmarkPoses();
  symx_assert(landmarks.size() == 2 && Near(landmarks.at("red"), planar3(shift, 1., 0.)) && Near(landmarks.at("blue"), planar3(b, b, 0.)), "landmark poses are what was set or optimised");
  // the loaded nodes belong to their submaps
  struct Trimmer : PoseGraphTrimmer {
    bool done = false;
    void Trim(Trimmable* p) override { p->TrimSubmap(SubmapId{0, 0}); done = true; }
    bool IsFinished() override { return done; }
  };
  graph->AddTrimmer(absl::make_unique<Trimmer>());
  f.Add(graph, MakeNode(At(22), P2(2., 1., 0.), gravity)); f.Add(graph, MakeNode(At(23), P2(3., 1., 0.), gravity));
  RunAll();
  const auto left = graph->GetTrajectoryNodes();
  symx_assert(!left.Contains(kNodes[0]) && left.Contains(kNodes[1]) && left.Contains(kNodes[2]) && left.Contains(kNodes[3]), "trimming removes the loaded nodes that are in no other submap");
  symx_reach("end");
}
