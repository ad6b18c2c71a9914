//@ mt preempt=2,3 time=300,850 parts=nodes:3;then:2 tparts=nodes:4;then:2 skip=cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/mapping/internal/optimization/optimization_problem_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# With the background work on the real thread pool, under every schedule within the preemption bound: the final optimisation returns only when every node has been processed and every found constraint is in the graph, it uses the iterations configured for it and restores the others, and the graph can be destroyed at any time without losing work, deadlock, lost wake-up or data race.
//b up to 2 nodes (thorough 3), one worker thread, <=2 preemptions (thorough 3) plus all blocking switches; final optimisation or destruction right after adding the nodes
//s constraint search: records requests and finds a constraint for each; optimisation: keeps all poses; absl::Mutex and std::thread modelled
#define PG_REAL_POOL
#include "posegraph.h"
using namespace pg;
extern "C" void symx_main() {
  const int nodes = symx_choose("nodes", TIER ? 4 : 3), then = symx_choose("then", 2);
  g = new State;
  const auto options = Options(1);
  common::ThreadPool* pool = new common::ThreadPool(1);
  Graph* graph = new Graph(options, absl::make_unique<optimization::Problem>(options.optimization_problem_options()), pool);
  g->answer = [&](const Search&, Constraint*) { return true; };
  Feeder f{0, 1};
  f.submap_pose = [](int i) { return Embed(P2(3. * i, -i, 0.)); };
  const Eigen::Quaterniond gravity = Eigen::Quaterniond::Identity();
  for (int k = 0; k < nodes; ++k) f.Add(graph, MakeNode(At(k), P2(k, 2. * k, 0.), gravity));
  if (then == 0) {
    graph->RunFinalOptimization();
    symx_assert(g->ends_of_node == nodes, "every node has been processed");
    symx_assert(nodes == 0 || (g->solves >= 1 && g->iterations_at_solve.back() == 77), "the last optimisation has the final number of iterations");
    symx_assert(g->max_iterations == 33, "the number of iterations is restored");
    size_t inter = 0;
    for (const Constraint& c : graph->constraints()) inter += c.tag == Constraint::INTER_SUBMAP;
    symx_assert(inter == g->searches.size() && g->found.empty(), "every found constraint is in the graph");
  }
  delete graph;
  symx_assert(g->ends_of_node == nodes, "no work is lost");
  delete pool;
  symx_reach("end");
}
