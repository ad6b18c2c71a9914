//@ time=200,700 parts=how:3;mask:8 skip=cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# Trimming submaps removes exactly these submaps, the nodes that are in no other submap, and the constraints that mention any of these; everything else keeps its data and pose, later searches and optimisations mention only what is left, the graph can still be asked everything and keeps growing with successive ids. A finished trajectory takes part in the search with all submaps, takes no more nodes, and can be deleted as a whole, which leaves the other trajectories as they were. Trimmers see the optimised finished submaps and run until they say they are done.
//b two trajectories with 4 and 3 nodes in overlapping submaps of two nodes, any set of finished submaps trimmed, while the trajectory is active, after it finished, or all of it deleted, up to 2 further nodes; background work run or delayed after each node
//s thread pool: queued tasks are run when the harness says so; constraint search: finds a constraint for every second request; optimisation: shifts all poses by a symbolic amount
#include "posegraph.h"
using namespace pg;
static std::function<void(Trimmable*)> on_trim;
static int trim_calls, trims_wanted;
struct Trimmer : PoseGraphTrimmer {
  void Trim(Trimmable* p) override { ++trim_calls; on_trim(p); }
  bool IsFinished() override { return trim_calls >= trims_wanted; }
};
extern "C" void symx_main() {
  const int how = symx_choose("how", 3);  // 0: while active, 1: after finishing, 2: delete the trajectory
  const int mask = symx_choose("mask", 8) | (how == 1 ? symx_choose("last", 2) << 3 : 0);
  if (how == 2) symx_assume(mask < 2);
  const int pattern = TIER ? 0 : symx_choose("pattern", 8);
  Graph* graph = NewGraph(Options(1));
  const int shift = symx_irange("shift", -3, 3);
  const Eigen::Quaterniond gravity(transform::RollPitchYaw(0.1, -0.2, 0.));
  g->move_node = [&](const NodeId&, const Pose& p) { return P2(shift, 2., 0.5) * p; };
  g->move_submap = [&](const SubmapId&, const Pose& p) { return P2(shift, 2., 0.5) * p; };
  int asked = 0;
  std::set<NodeId> nodes_left; std::set<SubmapId> submaps_left, submaps_finished;
  g->answer = [&](const Search& s, Constraint*) {
    symx_assert(nodes_left.count(s.node) == 1 && submaps_left.count(s.submap) == 1 && submaps_finished.count(s.submap) == 1, "only existing nodes and finished submaps are matched");
    return asked++ % 2 == 0;
  };
  Feeder f0{0, 1}, f1{1, 1};
  f0.submap_pose = [](int i) { return Rigid3d::Translation(Eigen::Vector3d(3. * i, -i, 0.)); };
  f1.submap_pose = [](int i) { return Rigid3d::Translation(Eigen::Vector3d(i, 5., 0.)); };
  int time = 0;
  auto add = [&](Feeder* f) {
    const int k = f->count;
    // known to the model before the background work may run
    nodes_left.insert(NodeId{f->trajectory, k});
    submaps_left.insert(SubmapId{f->trajectory, k});
    if (k > 0) submaps_finished.insert(SubmapId{f->trajectory, k - 1});
    const NodeId id = f->Add(graph, MakeNode(At(++time), P2(k, 2. * k, 0.4 * k), gravity));
    symx_assert(id == (NodeId{f->trajectory, k}), "nodes get successive ids");
    if (TIER ? symx_choose("run", 2) : pattern >> (k % 3) & 1) RunAll();
  };
  for (int k = 0; k < 4; ++k) { add(&f0); if (k > 0) add(&f1); }
  RunAll();
  symx_assert(g->solves > 0, "the optimisation has run");
  // finish
  auto finish = [&](Feeder* f) {
    submaps_finished.insert(SubmapId{f->trajectory, f->count - 1});
    const int before = g->solves;
    graph->FinishTrajectory(f->trajectory); RunAll();
    symx_assert(g->solves == before + 1 && graph->IsTrajectoryFinished(f->trajectory), "finishing a trajectory optimises once more");
    symx_assert(graph->GetTrajectoryStates().at(f->trajectory) == PoseGraphInterface::TrajectoryState::FINISHED, "the state of a finished trajectory is told");
    for (const auto& s : graph->GetAllSubmapData()) symx_assert(s.data.submap != nullptr, "all submaps are there");
  };
  if (how != 0) finish(&f0);
  std::set<SubmapId> trimmed; std::set<NodeId> removed;
  for (int i = 0; i < 4; ++i) if (how == 2 || (mask >> i & 1)) trimmed.insert(SubmapId{0, i});
  for (int k = 0; k < 4; ++k) {
    bool keep = false;
    for (int i = 0; i < 4; ++i) keep |= f0.members[i].count(k) == 1 && trimmed.count(SubmapId{0, i}) == 0;
    if (!keep) removed.insert(NodeId{0, k});
  }
  std::vector<Constraint> before;
  std::map<NodeId, Rigid3d> poses_before; std::map<SubmapId, Rigid3d> submaps_before;
  trim_calls = 0; trims_wanted = 1 + mask % 2;
  bool first = true;
  on_trim = [&](Trimmable* p) {
    if (!first) return;
    first = false;
    before = p->GetConstraints();
    for (const auto& n : p->GetTrajectoryNodes()) poses_before.emplace(n.id, n.data.global_pose);
    const auto optimised = p->GetOptimizedSubmapData();
    std::set<SubmapId> seen;
    for (const auto& s : optimised) { seen.insert(s.id); submaps_before.emplace(s.id, s.data.pose); }
    if (how != 2) symx_assert(seen == submaps_finished, "a trimmer sees the finished submaps with their poses");
    symx_assert(p->num_submaps(1) == int(f1.submaps.size()) && p->IsFinished(0) == (how == 1) && !p->IsFinished(1), "a trimmer sees the state of the trajectories");
    if (how == 2) return;
    symx_assert(p->num_submaps(0) == int(f0.submaps.size()) && p->GetSubmapIds(0).size() == f0.submaps.size(), "a trimmer sees the submaps of a trajectory");
    for (const SubmapId& id : trimmed) p->TrimSubmap(id);
  };
  graph->AddTrimmer(absl::make_unique<Trimmer>());
  if (how == 2) {
    graph->DeleteTrajectory(5);
    before = graph->constraints();
    for (const auto& n : graph->GetTrajectoryNodePoses()) if (n.id.trajectory_id == 1) poses_before.emplace(n.id, n.data.global_pose);
    graph->DeleteTrajectory(0);
  }
  // the next optimisation: as many further nodes as it takes
  const int solves = g->solves;
  while (g->solves == solves) { add(&f1); RunAll(); if (f1.count > 8) break; }
  symx_assert(g->solves == solves + 1 && trim_calls == 1, "trimmers run after each optimisation");
  const size_t searches = g->searches.size();
  for (const SubmapId& id : trimmed) { submaps_left.erase(id); submaps_finished.erase(id); }
  for (const NodeId& id : removed) nodes_left.erase(id);
  auto check = [&]() {
    const auto nodes = graph->GetTrajectoryNodes();
    symx_assert(nodes.size() == nodes_left.size(), "exactly the nodes of trimmed submaps are gone");
    for (const NodeId& id : nodes_left) {
      symx_assert(nodes.Contains(id), "nodes that are in another submap stay");
      if (nodes.Contains(id)) symx_assert(nodes.at(id).constant_data == (id.trajectory_id == 0 ? f0 : f1).data[id.node_index], "remaining nodes keep their data");
    }
    const auto submaps = graph->GetAllSubmapPoses();
    symx_assert(submaps.size() == submaps_left.size(), "exactly the trimmed submaps are gone");
    for (const SubmapId& id : submaps_left) symx_assert(submaps.Contains(id) && graph->GetSubmapData(id).submap == (id.trajectory_id == 0 ? f0 : f1).submaps[id.submap_index], "other submaps stay");
    for (const SubmapId& id : trimmed) symx_assert(graph->GetSubmapData(id).submap == nullptr, "a trimmed submap is no longer there");
    for (const Constraint& c : graph->constraints()) symx_assert(nodes_left.count(c.node_id) == 1 && submaps_left.count(c.submap_id) == 1, "no constraint mentions what was trimmed");
  };
  check();
  // constraints that mention nothing trimmed are all kept, in order
  const auto after = graph->constraints();
  if (how != 2) {
    size_t at = 0;
    for (const Constraint& c : before) {
      if (trimmed.count(c.submap_id) || removed.count(c.node_id)) continue;
      symx_assert(at < after.size() && after[at].submap_id == c.submap_id && after[at].node_id == c.node_id && after[at].tag == c.tag, "other constraints stay");
      ++at;
    }
    symx_assert(at == after.size(), "no constraint is added by trimming");
    const auto nodes = graph->GetTrajectoryNodes();
    for (const auto& n : poses_before) if (nodes.Contains(n.first)) symx_assert(Near(nodes.at(n.first).global_pose, n.second), "trimming moves no node");
    for (const auto& s : submaps_before) if (submaps_left.count(s.first)) symx_assert(Near(graph->GetSubmapData(s.first).pose, s.second), "trimming moves no submap");
  } else {
    for (const Constraint& c : before) {
      if (c.submap_id.trajectory_id == 0 || c.node_id.trajectory_id == 0) continue;
      int n = 0;
      for (const Constraint& d : after) n += c.submap_id == d.submap_id && c.node_id == d.node_id;
      symx_assert(n == 1, "constraints of the other trajectory stay");
    }
    symx_assert(graph->GetTrajectoryStates().at(0) == PoseGraphInterface::TrajectoryState::DELETED && graph->GetTrajectoryStates().at(1) == PoseGraphInterface::TrajectoryState::ACTIVE, "the trajectory is deleted, the other is not");
  }
  for (const SubmapId& id : trimmed) {
    bool seen = false;
    for (const SubmapId& m : g->matchers_deleted) seen |= m == id;
    symx_assert(seen, "the search forgets a trimmed submap");
  }
  // the graph can still be asked about the trajectory
  const Rigid3d frame = graph->GetLocalToGlobalTransform(0);
  for (const auto& n : graph->GetTrajectoryNodes())
    if (n.id.trajectory_id == 0) symx_assert(Near(frame, n.data.global_pose * f0.data[n.id.node_index]->local_pose.inverse()), "the local frame stays where it was");
  // and goes on
  if (how == 0) add(&f0);
  add(&f1); add(&f1);
  RunAll();
  if (g->solves == solves + 1) { graph->FinishTrajectory(1); RunAll(); submaps_finished.insert(SubmapId{1, f1.count - 1}); }
  symx_assert(g->solves > solves + 1, "the optimisation goes on");
  symx_assert(trim_calls == (trims_wanted == 1 ? 1 : 2) || g->solves > solves + 2, "a trimmer runs until it is done");
  check();
  for (const Constraint& c : g->solve_constraints) symx_assert(nodes_left.count(c.node_id) == 1 && submaps_left.count(c.submap_id) == 1, "the optimisation gets only what is left");
  for (const NodeId& id : g->solve_nodes) symx_assert(nodes_left.count(id) == 1, "the optimisation gets only what is left");
  for (const SubmapId& id : g->solve_submaps) symx_assert(submaps_left.count(id) == 1, "the optimisation gets only what is left");
  symx_assert(g->searches.size() > searches, "the search goes on");
  if (how == 1) {
    symx_expect_crash_begin("a finished trajectory takes no more nodes");
    graph->AddNode(MakeNode(At(50), P2(0, 0, 0), gravity), 0, {f0.submaps[3]});
    symx_expect_crash_end("a finished trajectory takes no more nodes");
  }
  symx_reach("end");
}
