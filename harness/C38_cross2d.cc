//@ time=200,700 parts=init:2;find:4 skip=cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# Between trajectories a node is matched against a finished submap locally, starting from the estimate, exactly if a constraint (or a given initial pose) tied the two trajectories no longer ago than configured, and otherwise over the whole submap for the configured share of the pairs; each pair at most once. Trajectories joined by a found constraint or an initial pose are connected, and others are not. A trajectory with an initial pose starts there, relative to the pose the other trajectory had at the given time.
//b two trajectories of 3 and 4 nodes, symbolic times of the nodes, no or one found constraint among the first requests, no initial pose or one with a symbolic time and offset; all, half or none of the global searches; background work run or delayed
//s thread pool: queued tasks are run when the harness says so; constraint search: finds a constraint for one chosen request; optimisation: keeps all poses
#include "posegraph.h"
using namespace pg;
extern "C" void symx_main() {
  const int init = symx_choose("init", 2);    // 1: initial pose for trajectory 1
  const int find = symx_choose("find", 4);    // 0: nothing found, else the find-th request between trajectories
  const int share = symx_choose("share", 3);
  auto options = Options(1);
  options.set_global_sampling_ratio(share == 0 ? 1. : share == 1 ? 0.5 : 0.);
  Graph* graph = NewGraph(options);
  const Eigen::Quaterniond gravity(transform::RollPitchYaw(0.1, -0.2, 0.));
  // nodes in the order they are added: trajectory, time in seconds
  static const int kTrajectory[7] = {0, 0, 1, 0, 1, 1, 1};
  const int N = 7;
  int64_t t[7];
  for (int i = 0; i < N; ++i) {
    const int gap = i == 0 ? 0 : (i == 2 || i == 5 || i == 6) ? symx_irange("gap", 1, 12) : 2;
    t[i] = i == 0 ? 100 : t[i - 1] + gap;
  }
  // initial pose of trajectory 1
  const int where = init ? symx_irange("where", 0, 5) : 0, off = init ? symx_irange("off", -2, 2) : 0;
  const Rigid3d relative(Eigen::Vector3d(off, 1., 0.), transform::RollPitchYaw(0., 0., 0.5));
  if (init) graph->SetInitialTrajectoryPose(1, 0, relative, At(98 + where));
  int between = 0; Search hit{SubmapId{9, 9}, NodeId{9, 9}, false, Pose::Identity(), nullptr, nullptr}; bool has_hit = false;
  g->answer = [&](const Search& s, Constraint* c) {
    if (s.node.trajectory_id == s.submap.trajectory_id) return false;
    if (++between != find) return false;
    c->pose = Constraint::Pose{Rigid3d::Identity(), 1., 1.};
    hit = s; has_hit = true;
    return true;
  };
  Feeder f[2] = {{0, 1}, {1, 1}};
  f[0].submap_pose = [](int i) { return Rigid3d::Translation(Eigen::Vector3d(3. * i, -i, 0.)); };
  f[1].submap_pose = [](int i) { return Rigid3d::Translation(Eigen::Vector3d(i, 5., 0.)); };
  const int pattern = symx_choose("pattern", TIER ? 8 : 4);
  for (int i = 0; i < N; ++i) {
    Feeder& fe = f[kTrajectory[i]];
    const int k = fe.count;
    const auto d = MakeNode(At(t[i]), P2(2. * k, k, 0.4 * k), gravity);
    // where the trajectory starts
    if (kTrajectory[i] == 1 && k == 0) {
      Rigid3d start = Rigid3d::Identity();
      if (init) {
        // trajectory 0 has two nodes so far, at 100 s and 102 s
        const double w = where <= 2 ? 0. : where >= 4 ? 1. : 0.5;
        const Rigid3d a = f[0].data[0]->local_pose, b = f[0].data[1]->local_pose;
        start = Rigid3d((1. - w) * a.translation() + w * b.translation(), a.rotation().slerp(w, b.rotation())) * relative;
      }
      symx_assert(Near(graph->GetLocalToGlobalTransform(1), start), "a trajectory starts at its initial pose");
      fe.Add(graph, d);
      symx_assert(Near(graph->GetTrajectoryNodePoses().at(NodeId{1, 0}).global_pose, start * d->local_pose), "the first node is relative to the initial pose");
      const auto c = graph->GetTrajectoryNodePoses().at(NodeId{1, 0}).constant_pose_data;
      symx_assert(c.has_value() && c.value().time == At(t[i]) && c.value().local_pose.translation() == d->local_pose.translation(), "the constant data of a node are given out");
    } else {
      fe.Add(graph, d);
    }
    if (i == N - 1 || (pattern >> (i % 3) & 1)) RunAll();
  }
  // model: the pairs in the order of the nodes, and the connection as it becomes known
  std::map<std::pair<NodeId, SubmapId>, int> real;  // 1: local, 2: global
  for (const Search& s : g->searches) {
    int& kind = real[std::make_pair(s.node, s.submap)];
    symx_assert(kind == 0, "each pair is matched at most once");
    kind = s.global ? 2 : 1;
  }
  int pulses[2] = {0, 0}, sampled[2] = {0, 0}, count[2] = {0, 0}, since = 0, pairs = 0;
  bool connected = false; int64_t last = 0; bool pending = false; int64_t pending_time = 0;
  auto node_time = [&](const NodeId& id) { int n = -1; for (int i = 0; i < N; ++i) { n += kTrajectory[i] == id.trajectory_id; if (kTrajectory[i] == id.trajectory_id && n == id.node_index) return t[i]; } return int64_t(-1); };
  auto latest = [&](const NodeId& n, const SubmapId& s) {
    // submap i holds nodes i and i + 1 (window 1)
    const int64_t a = node_time(n), b = node_time(NodeId{s.trajectory_id, s.submap_index + 1});
    return a > b ? a : b;
  };
  auto pair = [&](const NodeId& n, const SubmapId& s) {
    const auto it = real.find(std::make_pair(n, s));
    const int kind = it == real.end() ? 0 : it->second;
    ++pairs;
    if (n.trajectory_id == s.trajectory_id) { symx_assert(kind == 1, "within a trajectory every pair is matched locally"); return; }
    const int64_t now = latest(n, s);
    const bool local = connected && now < last + 10;
    if (local) { symx_assert(kind == 1, "after a recent connection the match is local"); }
    else {
      symx_assert(kind != 1, "without a recent connection the match is global");
      ++pulses[n.trajectory_id]; sampled[n.trajectory_id] += kind == 2;
    }
    if (has_hit && hit.node == n && hit.submap == s) { pending = true; pending_time = now; }
  };
  for (int i = 0; i < N; ++i) {
    const int T = kTrajectory[i], k = count[T]++;
    if (T == 1 && k == 0 && init) { connected = true; last = t[i]; }
    const NodeId n{T, k};
    for (int o = 0; o < 2; ++o) for (int s = 0; s + 1 < count[o] - (o == T ? 1 : 0); ++s) pair(n, SubmapId{o, s});
    if (k > 0) {  // submap k - 1 is finished by this node
      for (int o = 0; o < 2; ++o) for (int m = 0; m < count[o]; ++m) if (!(o == T && (m == k || m == k - 1))) pair(NodeId{o, m}, SubmapId{T, k - 1});
    }
    if (++since > 1) {
      since = 0;
      if (pending) { last = connected && last > pending_time ? last : pending_time; connected = true; pending = false; }
    }
  }
  symx_assert(int(real.size()) <= pairs, "only these pairs are matched");
  for (int T = 0; T < 2; ++T) {
    if (share == 0) symx_assert(sampled[T] == pulses[T], "all global searches are made");
    if (share == 1) symx_assert(sampled[T] == (pulses[T] + 1) / 2, "half of the global searches are made");
    if (share == 2) symx_assert(sampled[T] == 0, "no global search is made");
  }
  // connectivity
  const auto parts = graph->GetConnectedTrajectories();
  symx_assert(parts.size() == (connected ? 1u : 2u), "trajectories are connected by constraints and initial poses only");
  symx_reach("end");
}
