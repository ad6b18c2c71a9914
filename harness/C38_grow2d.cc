//@ time=200,700 parts=window:3;every:3 skip=cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# One trajectory grows as local SLAM builds it: nodes and submaps get successive ids and keep their data; for each submap a node was inserted into there is exactly one intra-submap constraint with the pose the node has in that submap and the configured weights; every node is matched against every finished submap it is not part of exactly once, starting from the current estimate; found constraints are kept once and given to the optimisation; the optimisation runs each time the configured number of nodes has been added; afterwards optimised nodes and submaps have exactly the optimised poses and everything later follows the last optimised submap - whenever the background work runs.
//b 7 (quick) or 9 nodes, submaps of 2, 4 or 6 nodes, optimisation every 0 (never), 1 or 2 nodes, background work run or delayed after each node, symbolic node positions and correction of the optimisation, tilted nodes
//s thread pool: queued tasks are run when the harness says so; constraint search: records requests and finds a constraint for every second; optimisation: shifts the poses by a symbolic amount that grows with the index
#include "posegraph.h"
using namespace pg;
extern "C" void symx_main() {
  const int window = 1 + symx_choose("window", 3), every = symx_choose("every", 3);
  const int N = TIER ? 9 : 7;
  Graph* graph = NewGraph(Options(every));
  const int shift = symx_irange("shift", -3, 3);
  const Eigen::Quaterniond gravity(transform::RollPitchYaw(0.1, -0.2, 0.));
  int dx[9];
  for (int k = 0; k < N; ++k) dx[k] = symx_irange("dx", -2, 2);
  std::map<NodeId, Pose> node_out, node_new; std::map<SubmapId, Pose> submap_out, submap_new;
  Feeder f{0, window};
  f.submap_pose = [](int i) { return Embed(P2(3. * i, -i, 0.3 * i)); };
  auto submap_planar = [](int i) { return P2(3. * i, -i, 0.3 * i); };
  std::vector<Pose> planar; std::vector<Rigid3d> expected;
  // what the optimisation knows: optimised poses, and chained from them what came later
  std::function<Pose(int)> submap_estimate = [&](int i) -> Pose {
    if (submap_out.count(SubmapId{0, i})) return submap_out.at(SubmapId{0, i});
    if (i == 0) return submap_planar(0);
    return submap_estimate(i - 1) * submap_planar(i - 1).inverse() * submap_planar(i);
  };
  auto node_estimate = [&](int k) -> Pose {
    if (node_out.count(NodeId{0, k})) return node_out.at(NodeId{0, k});
    int front = 0;
    while (f.members[front].count(k) == 0) ++front;
    return submap_estimate(front) * submap_planar(front).inverse() * NodePose(planar[k], gravity);
  };
  g->move_node = [&](const NodeId& id, const Pose& p) { symx_assert(Near(p, node_estimate(id.node_index)), "a node starts where it is in its first submap"); const Pose q = P2(shift * (id.node_index + 1), -2. * shift, 0.25) * p; node_new[id] = q; return q; };
  g->move_submap = [&](const SubmapId& id, const Pose& p) { symx_assert(Near(p, submap_estimate(id.submap_index)), "a submap starts where it is relative to the one before"); const Pose q = P2(shift * 0.5 * (id.submap_index + 1), 1., 0.5) * p; submap_new[id] = q; return q; };
  g->solved = [&]() { for (const auto& n : node_new) node_out[n.first] = n.second; for (const auto& m : submap_new) submap_out[m.first] = m.second; };
  std::vector<Constraint> given; int asked = 0;
  g->answer = [&](const Search& s, Constraint* c) {
    symx_assert(Near(s.initial, submap_estimate(s.submap.submap_index).inverse() * node_estimate(s.node.node_index)), "the search starts from the current estimate");
    c->pose = Constraint::Pose{Embed(P2(asked, 2. * asked, 0.)), 11. + asked, 22.};
    const bool yes = asked++ % 2 == 0;
    if (yes) given.push_back(*c);
    return yes;
  };
  std::map<int, NodeId> last_nodes; std::map<int, SubmapId> last_submaps; int callbacks = 0;
  graph->SetGlobalSlamOptimizationCallback([&](const std::map<int, SubmapId>& s, const std::map<int, NodeId>& n) { last_nodes = n; last_submaps = s; ++callbacks; });
  int solves_seen = 0;
  auto local_to_global = [&]() -> Rigid3d {
    if (submap_out.empty()) return Rigid3d::Identity();
    const auto& last = *submap_out.rbegin();
    return Embed(last.second) * f.submaps[last.first.submap_index]->local_pose().inverse();
  };
  auto check_state = [&]() {
    if (g->solves != solves_seen) {
      for (const auto& n : node_out) expected[n.first.node_index] = FullPose(n.second, gravity);
      for (int k = 0; k < int(f.data.size()); ++k) if (node_out.count(NodeId{0, k}) == 0) expected[k] = local_to_global() * f.data[k]->local_pose;
      solves_seen = g->solves;
    }
    symx_assert(callbacks == g->solves, "each optimisation is announced once");
    symx_assert(Near(graph->GetLocalToGlobalTransform(0), local_to_global()), "the local frame follows the last optimised submap");
    const auto nodes = graph->GetTrajectoryNodes();
    symx_assert(int(nodes.size()) == int(f.data.size()), "every node is in the graph");
    for (int k = 0; k < int(f.data.size()); ++k) {
      symx_assert(nodes.at(NodeId{0, k}).constant_data == f.data[k], "nodes keep their data");
      symx_assert(Near(nodes.at(NodeId{0, k}).global_pose, expected[k]), "a node has its optimised pose, or follows the last optimised submap");
    }
    const auto submaps = graph->GetAllSubmapData();
    symx_assert(submaps.size() == f.submaps.size(), "every submap is in the graph");
    for (int i = 0; i < int(f.submaps.size()); ++i) {
      const SubmapId id{0, i};
      const Rigid3d want = submap_out.count(id) ? Embed(submap_out.at(id)) : local_to_global() * f.submaps[i]->local_pose();
      symx_assert(submaps.at(id).submap == f.submaps[i], "submaps keep their data");
      symx_assert(Near(submaps.at(id).pose, want), "a submap has its optimised pose, or follows the last optimised submap");
    }
  };
  for (int k = 0; k < N; ++k) {
    planar.push_back(P2(k + dx[k], 2. * k, 0.4 * k));
    auto d = MakeNode(At(k), planar[k], gravity);
    expected.push_back(local_to_global() * d->local_pose);
    const NodeId id = f.Add(graph, d);
    symx_assert(id == (NodeId{0, k}), "nodes get successive ids");
    if (k == N - 1 || symx_choose("run", 2)) RunAll();
    check_state();
  }
  // the optimisation runs often enough, and never when switched off
  if (every == 0) symx_assert(g->solves == 0, "no optimisation when switched off");
  else symx_assert(g->solves >= N / (every + 1) && g->solves <= N / every, "the optimisation runs after every n nodes");
  symx_assert(g->ends_of_node == N, "the search is told the end of each node");
  // searches: each node against each finished submap it is not part of, once
  std::map<std::pair<int, int>, int> count;
  for (const Search& s : g->searches) {
    symx_assert(s.submap.trajectory_id == 0 && s.node.trajectory_id == 0 && !s.global, "within a trajectory the search is local");
    const int i = s.submap.submap_index, k = s.node.node_index;
    symx_assert(s.submap_ptr == f.submaps[i].get() && s.data == f.data[k].get(), "the search gets the data of the node and the submap");
    ++count[{i, k}];
  }
  for (int i = 0; i < int(f.submaps.size()); ++i)
    for (int k = 0; k < N; ++k)
      symx_assert((count[{i, k}]) == (f.finished[i] && f.members[i].count(k) == 0 ? 1 : 0), "each node is matched once against each finished submap it is not part of");
  // constraints
  const auto constraints = graph->constraints();
  int intra = 0, inter = 0;
  for (const Constraint& c : constraints) {
    const int i = c.submap_id.submap_index, k = c.node_id.node_index;
    if (c.tag == Constraint::INTRA_SUBMAP) {
      ++intra;
      symx_assert(f.members[i].count(k) == 1, "intra-submap constraints join a submap and its nodes");
      symx_assert(c.pose.translation_weight == 5e2 && c.pose.rotation_weight == 1.6e3, "intra-submap constraints have the configured weights");
      symx_assert(Near(c.pose.zbar_ij, f.submaps[i]->local_pose().inverse() * f.data[k]->local_pose), "an intra-submap constraint holds the pose of the node in the submap");
    } else {
      symx_assert(inter < int(given.size()), "no constraint appears that was not found");
      symx_assert(c.submap_id == given[inter].submap_id && c.node_id == given[inter].node_id && c.pose.translation_weight == given[inter].pose.translation_weight, "found constraints are kept once and in order");
      symx_assert(Near(c.pose.zbar_ij, GivenOut(given[inter].pose.zbar_ij, gravity)), "found constraints are given out with the tilt of the node");
      ++inter;
    }
  }
  int members = 0;
  for (const auto& m : f.members) members += m.size();
  symx_assert(intra == members, "one intra-submap constraint for each submap of a node");
  symx_assert(inter + g->found.size() == given.size(), "every found constraint arrives");
  if (g->solves > 0) {
    symx_assert(last_nodes.size() == 1 && last_submaps.size() == 1 && last_nodes.at(0) == g->solve_nodes.back() && last_submaps.at(0) == g->solve_submaps.back(), "the announcement names the last optimised node and submap");
    int intra_known = 0;
    for (const Constraint& c : g->solve_constraints) intra_known += c.tag == Constraint::INTRA_SUBMAP;
    int want = 0;
    for (const auto& m : f.members) for (int k : m) want += k <= g->solve_nodes.back().node_index;
    symx_assert(intra_known == want, "the optimisation gets all constraints of its nodes");
    symx_assert(int(g->solve_constraints.size()) - intra_known == inter, "the optimisation gets all constraints found before");
  }
  symx_reach("end");
}
