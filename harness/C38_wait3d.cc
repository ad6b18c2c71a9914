//@ mt preempt=1,2 time=300,850 parts=nodes:3;then:2 tparts=nodes:4;then:2 skip=cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc
//# (3D) With the background work on the real thread pool, under every schedule within the preemption bound: the final optimisation returns only when every node has been processed and every found constraint is in the graph, it uses the iterations configured for it and restores the others, and the graph can be destroyed at any time without losing work, deadlock, lost wake-up or data race.
//b up to 2 nodes (thorough 3), one worker thread, <=1 preemption (thorough 2) plus all blocking switches; final optimisation or destruction right after adding the nodes
//s constraint search: records requests and finds a constraint for each; optimisation: keeps all poses; absl::Mutex and std::thread modelled
#define PG3
#include "C38_wait2d.cc"
