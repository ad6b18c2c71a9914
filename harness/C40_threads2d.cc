//@ mt preempt=2,3 time=300,850 parts=what:3 skip=cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# While the background work runs on the real thread pool, under every schedule within the preemption bound, trajectories can be frozen, submaps and nodes loaded, landmarks set and the graph asked without data race, deadlock or lost work.
//b one frozen trajectory with one submap and one node, or landmarks and sensor data, or finishing and deleting a trajectory; one worker thread, <=2 preemptions (thorough 3) plus all blocking switches
//s constraint search: records requests; optimisation: keeps all poses; absl::Mutex and std::thread modelled
#define PG_REAL_POOL
#include "posegraph.h"
using namespace pg;
extern "C" void symx_main() {
  const int what = symx_choose("what", 3);
  g = new State;
  const auto options = Options(1);
  common::ThreadPool* pool = new common::ThreadPool(1);
  Graph* graph = new Graph(options, absl::make_unique<optimization::Problem>(options.optimization_problem_options()), pool);
  const Rigid3d pose = Embed(P2(1., 2., 0.));
  if (what == 0) {
    graph->FreezeTrajectory(0);
    mapping::proto::Submap p;
    p.mutable_submap_id()->set_trajectory_id(0); p.mutable_submap_id()->set_submap_index(0);
    SetSubmap(&p, pose, 5, true);
    graph->AddSubmapFromProto(pose, p);
    TrajectoryNode::Data d;
    d.time = At(1); d.gravity_alignment = Eigen::Quaterniond::Identity(); d.local_pose = pose; d.rotational_scan_matcher_histogram = Eigen::VectorXf::Zero(1);
    mapping::proto::Node n;
    n.mutable_node_id()->set_trajectory_id(0); n.mutable_node_id()->set_node_index(0);
    *n.mutable_node_data() = mapping::ToProto(d);
    graph->AddNodeFromProto(pose, n);
    graph->AddNodeToSubmap(NodeId{0, 0}, SubmapId{0, 0});
    symx_assert(graph->GetAllSubmapPoses().size() == 1 && graph->GetTrajectoryNodePoses().size() == 1, "loaded data can be asked for at once");
    graph->RunFinalOptimization();
    symx_assert(g->solves == 1 && g->solve_states.at(0) == PoseGraphInterface::TrajectoryState::FROZEN && g->solve_nodes.size() == 1 && g->solve_submaps.size() == 1, "the optimisation sees what was loaded");
  } else if (what == 1) {
    graph->AddLandmarkData(0, sensor::LandmarkData{At(1), {{"red", pose, 1., 2.}}});
    graph->AddOdometryData(0, sensor::OdometryData{At(1), pose});
    graph->SetLandmarkPose("red", pose, true);
    graph->GetLandmarkPoses(); graph->GetOdometryData(); graph->GetTrajectoryStates(); graph->GetTrajectoryData();
    graph->AddOdometryData(0, sensor::OdometryData{At(2), pose});
    graph->RunFinalOptimization();
    symx_assert(graph->GetLandmarkPoses().size() == 1 && graph->GetLandmarkNodes().at("red").landmark_observations.size() == 1, "landmarks arrive");
    int seen = 0;
    const auto odometry = graph->GetOdometryData();
    for (const auto& o : odometry.trajectory(0)) seen += o.time == At(seen + 1);
    symx_assert(seen == 2, "odometry arrives");
  } else {
    Feeder f{0, 1};
    f.submap_pose = [](int i) { return Embed(P2(3. * i, -i, 0.)); };
    f.Add(graph, MakeNode(At(0), P2(0., 1., 0.), Eigen::Quaterniond::Identity()));
    graph->FinishTrajectory(0);
    graph->GetAllSubmapData(); graph->GetLocalToGlobalTransform(0); graph->constraints(); graph->GetTrajectoryNodes();
    graph->DeleteTrajectory(0);
    graph->GetTrajectoryStates(); graph->GetLocalToGlobalTransform(0); graph->GetAllSubmapPoses();
    graph->RunFinalOptimization();
    symx_assert(graph->GetTrajectoryStates().at(0) == PoseGraphInterface::TrajectoryState::DELETED && graph->GetTrajectoryNodes().size() == 0 && graph->GetAllSubmapData().size() == 0 && graph->constraints().empty(), "the trajectory is deleted");
  }
  delete graph;
  delete pool;
  symx_reach("end");
}
