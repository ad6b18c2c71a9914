//@ time=150,600 parts=data:4;history:3 skip=cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/optimization/ceres_pose.cc
//# The 2D problem has exactly one term per constraint, per pair of consecutive nodes and where odometry covers both, per landmark observation between two nodes and per node with a fixed frame pose; the first submap, frozen trajectories and frozen landmarks do not move, and what was found is stored where it belongs.
//b two trajectories of up to 4 nodes and 2 submaps, one node trimmed or not, trajectory 0 frozen or not; times of odometry, fixed frame poses and landmark observations on a raster of a quarter of the time between nodes
//s ceres::Problem and ceres::Solve record the problem and move every variable block; the interface of Ceres 1 (LocalParameterization) is declared by the harness, as the installed Ceres lacks it
#include "fakeproblem.h"
#include "cartographer/mapping/internal/optimization/ceres_pose.cc"
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.cc"
#undef Problem
using namespace cartographer;
using namespace cartographer::mapping;
using optimization::NodeSpec2D; using transform::Rigid2d; using transform::Rigid3d;
using Constraint = PoseGraphInterface::Constraint; using LandmarkNode = PoseGraphInterface::LandmarkNode;
static bool Near(double a, double b, double t = 1e-9) { const double e = a - b; return (e <= t) & (e >= -t); }
static common::Time At(int quarters) { return common::FromUniversal(1000000000 + quarters * 2500000ll); }
static Eigen::Quaterniond Gravity(int i) { return i % 2 ? Eigen::Quaterniond(0.8, 0.6, 0., 0.) : Eigen::Quaterniond::Identity(); }
struct Odometry { int q; Rigid3d pose; };
static optimization::OptimizationProblem2D* g_problem;
static std::vector<Constraint> g_constraints; static std::map<std::string, LandmarkNode> g_landmarks; static std::map<int, PoseGraphInterface::TrajectoryState> g_states;
static std::vector<std::pair<NodeId, NodeSpec2D>> g_nodes; static std::vector<std::pair<SubmapId, Rigid2d>> g_submaps;
static std::vector<Odometry> g_odometry;                    // of trajectory 1
static std::vector<std::pair<int, bool>> g_fixed;           // of trajectory 1: time and whether there is a pose
static bool g_frozen, g_origin_known, g_tolerant; static int g_solved, g_observed;
static Rigid3d FixedPose(int q) { return Rigid3d(Eigen::Vector3d(3. + 0.25 * q, -q, 0.), Eigen::Quaterniond(Eigen::AngleAxisd(0.125 * q, Eigen::Vector3d::UnitZ()))); }
static Rigid2d OdometryPose(int k) { return Rigid2d({2. * k, 1. - k}, 0.25 * k); }
static Rigid2d Between(const Rigid2d& a, const Rigid2d& b, double f) {
  const double x = a.rotation().angle(), y = b.rotation().angle();
  return Rigid2d({(1. - f) * a.translation().x() + f * b.translation().x(), (1. - f) * a.translation().y() + f * b.translation().y()}, (1. - f) * x + f * y);
}
static std::map<NodeId, double*> g_node_at; static std::map<SubmapId, double*> g_submap_at; static std::map<std::string, Rigid3d> g_landmark_found;
static double* g_frame; static double g_frame_start[3];
namespace ceres {
static void OnSolve(const Solver::Options& options, FakeProblem* p) {
  ++g_solved;
  symx_assert(options.max_num_iterations == 11, "iterations as configured");
  std::vector<char> used(p->terms.size(), 0);
  // variables: found by where they start
  std::map<NodeId, double*>& node_at = g_node_at; std::map<SubmapId, double*>& submap_at = g_submap_at;
  size_t named = 0;
  for (const auto& n : g_nodes) for (const Block& b : p->blocks) if (b.size == 3 && b.at[0] == n.second.global_pose_2d.translation().x() && b.at[1] == n.second.global_pose_2d.translation().y()) {
    symx_assert(!node_at.count(n.first) && Near(b.at[2], n.second.global_pose_2d.rotation().angle()), "a node starts at its pose");
    symx_assert(b.constant == (g_frozen && n.first.trajectory_id == 0), "exactly the nodes of frozen trajectories are fixed");
    node_at[n.first] = b.at; ++named;
  }
  bool first = true;
  for (const auto& n : g_submaps) {
    for (const Block& b : p->blocks) if (b.size == 3 && b.at[0] == n.second.translation().x() && b.at[1] == n.second.translation().y()) {
      symx_assert(!submap_at.count(n.first) && Near(b.at[2], n.second.rotation().angle()), "a submap starts at its pose");
      symx_assert(b.constant == (first || (g_frozen && n.first.trajectory_id == 0)), "exactly the first submap and those of frozen trajectories are fixed");
      submap_at[n.first] = b.at; ++named;
    }
    first = false;
  }
  symx_assert(node_at.size() == g_nodes.size() && submap_at.size() == g_submaps.size(), "every node and submap is a variable");
  for (const Constraint& c : g_constraints)
    Wanted::Find(*p, optimization::CreateAutoDiffSpaCostFunction(c.pose), {submap_at.at(c.submap_id), node_at.at(c.node_id)}, c.tag == Constraint::INTER_SUBMAP, 7., 0., 1e-7, "every constraint is a term, with robust loss if it closes a loop", &used);
  // consecutive nodes
  auto odometry_at = [](int q, Rigid2d* out) {
    for (size_t k = 0; k < g_odometry.size(); ++k) {
      if (g_odometry[k].q == q) { *out = OdometryPose(k); return true; }
      if (k + 1 < g_odometry.size() && g_odometry[k].q < q && q < g_odometry[k + 1].q) { *out = Between(OdometryPose(k), OdometryPose(k + 1), double(q - g_odometry[k].q) / double(g_odometry[k + 1].q - g_odometry[k].q)); return true; }
    }
    return false;
  };
  for (size_t k = 0; k + 1 < g_nodes.size(); ++k) {
    const NodeId a = g_nodes[k].first, b = g_nodes[k + 1].first;
    if (a.trajectory_id != b.trajectory_id || b.node_index != a.node_index + 1 || (g_frozen && a.trajectory_id == 0)) continue;
    const NodeSpec2D &x = g_nodes[k].second, &y = g_nodes[k + 1].second;
    Wanted::Find(*p, optimization::CreateAutoDiffSpaCostFunction({transform::Embed3D(x.local_pose_2d.inverse() * y.local_pose_2d), 100., 200.}), {node_at.at(a), node_at.at(b)}, 0, 0., 0., 1e-5, "consecutive nodes keep their relative pose of local SLAM", &used);
    Rigid2d oa, ob;
    if (a.trajectory_id == 1 && odometry_at(4 * a.node_index, &oa) && odometry_at(4 * b.node_index, &ob)) {
      const Rigid3d relative = Rigid3d::Rotation(x.gravity_alignment) * transform::Embed3D(oa).inverse() * transform::Embed3D(ob) * Rigid3d::Rotation(y.gravity_alignment.inverse());
      Wanted::Find(*p, optimization::CreateAutoDiffSpaCostFunction({relative, 300., 400.}), {node_at.at(a), node_at.at(b)}, 0, 0., 0., 1e-4, "odometry between consecutive nodes is a term where it covers both", &used);
    }
  }
  // landmarks
  for (const auto& l : g_landmarks) {
    double *rotation = nullptr, *translation = nullptr;
    for (const auto& o : l.second.landmark_observations) {
      const NodeSpec2D *before = nullptr, *after = nullptr; NodeId bi(0, 0), ai(0, 0);
      int count = 0;
      for (size_t k = 0; k < g_nodes.size(); ++k) count += g_nodes[k].first.trajectory_id == o.trajectory_id;
      for (size_t k = 0; k + 1 < g_nodes.size(); ++k) {
        if (g_nodes[k].first.trajectory_id != o.trajectory_id || g_nodes[k + 1].first.trajectory_id != o.trajectory_id) continue;
        if (g_nodes[k].second.time <= o.time && o.time <= g_nodes[k + 1].second.time && !before) { before = &g_nodes[k].second; bi = g_nodes[k].first; after = &g_nodes[k + 1].second; ai = g_nodes[k + 1].first; }
      }
      if (!before) continue;
      ++g_observed;
      if (!rotation) {
        // the landmark's variables are those of the terms on these two nodes with the right value
        for (const Term& t : p->terms) if (t.at.size() == 4 && t.at[0] == node_at.at(bi) && t.at[1] == node_at.at(ai)) {
          bool taken = false;
          for (const auto& f : g_landmark_found) taken |= f.second.translation().x() == t.at[3][0];
          if (!taken && !rotation) { rotation = t.at[2]; translation = t.at[3]; }
        }
        symx_assert(rotation != nullptr, "an observed landmark is a variable");
        const Block *r = p->Find(rotation), *t = p->Find(translation);
        symx_assert(r->constant == l.second.frozen && t->constant == l.second.frozen && r->free == 3, "exactly frozen landmarks are fixed");
        Rigid3d start;
        if (l.second.global_landmark_pose.has_value()) {
          start = l.second.global_landmark_pose.value();
        } else {
          const double f = common::ToSeconds(o.time - before->time) / common::ToSeconds(after->time - before->time);
          const auto i = optimization::InterpolateNodes2D(node_at.at(bi), before->gravity_alignment, node_at.at(ai), after->gravity_alignment, f);
          start = Rigid3d::FromArrays(std::get<0>(i), std::get<1>(i)) * o.landmark_to_tracking_transform;
        }
        for (int a = 0; a < 3; ++a) symx_assert(Near(translation[a], start.translation()[a], 1e-6), "a landmark starts where it is known to be or was first seen");
        symx_assert(Near(std::abs(rotation[0] * start.rotation().w() + rotation[1] * start.rotation().x() + rotation[2] * start.rotation().y() + rotation[3] * start.rotation().z()), 1., 1e-9), "a landmark starts with its orientation");
        g_landmark_found[l.first] = Rigid3d(Eigen::Vector3d(translation[0], translation[1], translation[2]), start.rotation());
      }
      Wanted::Find(*p, optimization::LandmarkCostFunction2D::CreateAutoDiffCostFunction(o, *before, *after), {node_at.at(bi), node_at.at(ai), rotation, translation}, 1, 7., 0., 1e-5, "every landmark observation between two nodes is a term", &used);
    }
  }
  // fixed frame poses
  auto fixed_at = [](int q, Rigid3d* out) {
    for (size_t k = 0; k < g_fixed.size(); ++k) {
      if (g_fixed[k].first == q && g_fixed[k].second && (k == 0 || g_fixed[k - 1].second)) { *out = FixedPose(q); return true; }
      if (k + 1 < g_fixed.size() && g_fixed[k].first < q && q < g_fixed[k + 1].first && g_fixed[k].second && g_fixed[k + 1].second) {
        const double f = double(q - g_fixed[k].first) / double(g_fixed[k + 1].first - g_fixed[k].first);
        *out = transform::Embed3D(Between(transform::Project2D(FixedPose(g_fixed[k].first)), transform::Project2D(FixedPose(g_fixed[k + 1].first)), f)); return true;
      }
    }
    return false;
  };
  for (const auto& n : g_nodes) {
    Rigid3d z;
    if (n.first.trajectory_id != 1 || !fixed_at(4 * n.first.node_index, &z)) continue;
    if (!g_frame) {
      for (const Term& t : p->terms) if (t.at.size() == 2 && t.at[1] == node_at.at(n.first)) { bool known = false; for (const auto& a : node_at) known |= a.second == t.at[0]; for (const auto& a : submap_at) known |= a.second == t.at[0]; if (!known) g_frame = t.at[0]; }
      symx_assert(g_frame != nullptr && !p->Find(g_frame)->constant, "the fixed frame is a variable");
      const Rigid2d start = g_origin_known ? Rigid2d({5., 6.}, 0.5) : n.second.global_pose_2d * transform::Project2D(z).inverse();
      symx_assert(Near(g_frame[0], start.translation().x(), 1e-7) && Near(g_frame[1], start.translation().y(), 1e-7) && Near(std::sin(g_frame[2] - start.rotation().angle()), 0., 1e-7), "the fixed frame starts where it is known or agrees with the first node");
    }
    Wanted::Find(*p, optimization::CreateAutoDiffSpaCostFunction({z, 500., 600.}), {g_frame, node_at.at(n.first)}, g_tolerant ? 2 : 0, 3., 4., 1e-4, "every node with a fixed frame pose has a term", &used);
  }
  int left = 0;
  for (char u : used) left += u == 0;
  symx_assert(left == 0, "there are no other terms");
  // move everything that may move
  for (const Block& b : p->blocks) if (!b.constant && b.size == 3) { b.at[0] += 0.5; b.at[1] -= 0.25; }
}
}  // namespace ceres
static NodeSpec2D Node(int trajectory, int i, int quarters) {
  return {At(quarters), Rigid2d({1. + i, trajectory - 0.5 * i}, 0.2 * i), Rigid2d({10. * trajectory + i + 0.125, 3. + i}, 0.3 * i - 0.4), Gravity(i)};
}
extern "C" void symx_main() {
  const int data = symx_choose("data", 4), history = symx_choose("history", 3);
  g_frozen = symx_choose("frozen", 2) == 1;
  optimization::proto::OptimizationProblemOptions options;
  options.set_huber_scale(7.); options.set_local_slam_pose_translation_weight(100.); options.set_local_slam_pose_rotation_weight(200.);
  options.set_odometry_translation_weight(300.); options.set_odometry_rotation_weight(400.);
  options.set_fixed_frame_pose_translation_weight(500.); options.set_fixed_frame_pose_rotation_weight(600.);
  options.set_fixed_frame_pose_tolerant_loss_param_a(3.); options.set_fixed_frame_pose_tolerant_loss_param_b(4.);
  g_tolerant = data == 2 && symx_choose("tolerant", 2) == 1; options.set_fixed_frame_pose_use_tolerant_loss(g_tolerant);
  options.mutable_ceres_solver_options()->set_max_num_iterations(50); options.mutable_ceres_solver_options()->set_num_threads(1);
  optimization::OptimizationProblem2D problem(options);
  g_problem = &problem;
  problem.SetMaxNumIterations(11);
  problem.Solve({}, {}, {});
  symx_assert(g_solved == 0, "without nodes there is nothing to solve");
  // history: 0 all there, 1 the second of four nodes trimmed, 2 a single node
  const int count = history == 2 ? 1 : 4;
  // odometry of trajectory 1, arriving before the nodes
  if (data == 1) {
    const int from = symx_irange("from", -1, 5), to = symx_irange("to", 6, 13);
    const int q[3] = {from, to, 20};
    const int n = 2 + symx_choose("samples", 2);
    for (int k = 0; k < n; ++k) { g_odometry.push_back({q[k], transform::Embed3D(OdometryPose(k))}); problem.AddOdometryData(1, sensor::OdometryData{At(q[k]), transform::Embed3D(OdometryPose(k))}); }
  }
  if (data == 2) {
    const int pattern = symx_choose("pattern", 5);
    static const int kTime[5][3] = {{-1, 6, 15}, {0, 4, 9}, {2, 7, 11}, {4, 8, 12}, {-3, 0, 12}};
    const int missing = symx_choose("missing", 4);
    for (int k = 0; k < 3; ++k) {
      g_fixed.push_back({kTime[pattern][k], missing != k});
      sensor::FixedFramePoseData d; d.time = At(kTime[pattern][k]); if (missing != k) d.pose = FixedPose(kTime[pattern][k]);
      problem.AddFixedFramePoseData(1, d);
    }
    g_origin_known = symx_choose("origin", 2) == 1;
  }
  for (int i = 0; i < 2; ++i) { const NodeSpec2D n = Node(0, i, 4 * i - 40); problem.AddTrajectoryNode(0, n); g_nodes.push_back({NodeId(0, i), n}); }
  for (int i = 0; i < count; ++i) { const NodeSpec2D n = Node(1, i, 4 * i); problem.InsertTrajectoryNode(NodeId(1, i), n); g_nodes.push_back({NodeId(1, i), n}); }
  if (g_origin_known) { PoseGraphInterface::TrajectoryData t; t.fixed_frame_origin_in_map = transform::Embed3D(Rigid2d({5., 6.}, 0.5)); problem.SetTrajectoryData(1, t); }
  for (int k = 0; k < 4; ++k) { const SubmapId id(k / 2, k % 2); const Rigid2d pose({-20. - k, 0.5 * k}, 0.1 * k); if (k % 2) problem.InsertSubmap(id, pose); else problem.AddSubmap(k / 2, pose); g_submaps.push_back({id, pose}); }
  if (history == 1) {
    problem.TrimTrajectoryNode(NodeId(1, 1)); g_nodes.erase(g_nodes.begin() + 3);
    problem.TrimSubmap(SubmapId(0, 0)); g_submaps.erase(g_submaps.begin());
  }
  for (int k = 0; k < 3; ++k) {
    const NodeId node = k == 0 ? NodeId(0, 1) : NodeId(1, count == 1 ? 0 : k == 1 ? 0 : 3);
    g_constraints.push_back({SubmapId(k == 1 ? 0 : 1, 1), node, {transform::Embed3D(Rigid2d({1. * k, 2.}, 0.3)), 10. + k, 20. - k}, k == 1 ? Constraint::INTER_SUBMAP : Constraint::INTRA_SUBMAP});
  }
  if (data == 3) {
    const int q = symx_irange("seen", -2, 14);
    LandmarkNode a, b;
    const Rigid3d to_tracking(Eigen::Vector3d(0.5, 2., -1.), Eigen::Quaterniond(0.6, 0., 0., 0.8));
    a.landmark_observations.push_back({1, At(q), to_tracking, 30., 40.});
    a.landmark_observations.push_back({1, At(5), Rigid3d::Translation(Eigen::Vector3d(1., 1., 1.)), 3., 4.});
    b.landmark_observations.push_back({0, At(-38), to_tracking, 33., 44.});
    b.global_landmark_pose = Rigid3d(Eigen::Vector3d(70., 71., 72.), Eigen::Quaterniond(0.8, 0., 0.6, 0.)); b.frozen = symx_choose("fixed landmark", 2) == 1;
    if (symx_choose("early", 2)) a.landmark_observations.insert(a.landmark_observations.begin(), {5, At(4), to_tracking, 30., 40.});   // a trajectory without nodes
    g_landmarks["a"] = a; g_landmarks["b"] = b;
  }
  g_states[0] = g_frozen ? PoseGraphInterface::TrajectoryState::FROZEN : PoseGraphInterface::TrajectoryState::FINISHED; g_states[1] = PoseGraphInterface::TrajectoryState::ACTIVE;
  problem.Solve(g_constraints, g_states, g_landmarks);
  symx_assert(g_solved == 1, "the problem is solved once");
  // results
  symx_assert(problem.node_data().size() == g_nodes.size() && problem.submap_data().size() == g_submaps.size(), "nodes and submaps stay as they are");
  for (const auto& n : g_nodes) {
    const Rigid2d &was = n.second.global_pose_2d, &is = problem.node_data().at(n.first).global_pose_2d;
    const double moved = g_frozen && n.first.trajectory_id == 0 ? 0. : 1.;
    symx_assert(Near(is.translation().x(), was.translation().x() + 0.5 * moved) && Near(is.translation().y(), was.translation().y() - 0.25 * moved) && Near(is.rotation().angle(), was.rotation().angle()), "a node gets the pose found for it");
    symx_assert(problem.node_data().at(n.first).time == n.second.time && Near(problem.node_data().at(n.first).local_pose_2d.translation().x(), n.second.local_pose_2d.translation().x()), "the rest of a node stays");
  }
  for (size_t k = 0; k < g_submaps.size(); ++k) {
    const Rigid2d &was = g_submaps[k].second, &is = problem.submap_data().at(g_submaps[k].first).global_pose;
    const double moved = k == 0 || (g_frozen && g_submaps[k].first.trajectory_id == 0) ? 0. : 1.;
    symx_assert(Near(is.translation().x(), was.translation().x() + 0.5 * moved) && Near(is.translation().y(), was.translation().y() - 0.25 * moved) && Near(is.rotation().angle(), was.rotation().angle()), "a submap gets the pose found for it");
  }
  symx_assert(problem.landmark_data().size() == g_landmark_found.size(), "exactly the observed landmarks get poses");
  for (const auto& l : g_landmark_found) {
    const double moved = g_landmarks.at(l.first).frozen ? 0. : 1.;
    const Rigid3d& is = problem.landmark_data().at(l.first);
    symx_assert(Near(is.translation().x(), l.second.translation().x() + 0.5 * moved) && Near(is.translation().y(), l.second.translation().y() - 0.25 * moved), "a landmark gets the pose found for it");
  }
  const auto& t = problem.trajectory_data();
  symx_assert(t.size() == 2 && !t.at(0).fixed_frame_origin_in_map.has_value() && t.at(1).fixed_frame_origin_in_map.has_value() == (g_frame != nullptr || g_origin_known), "the fixed frame is stored where there is one");
  symx_reach("end");
}
