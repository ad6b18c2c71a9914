//@ mt preempt=1,2 time=300,850 parts=what:3 skip=cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc
//# (3D) While the background work runs on the real thread pool, under every schedule within the preemption bound, trajectories can be frozen, submaps and nodes loaded, landmarks set and the graph asked without data race, deadlock or lost work.
//b one frozen trajectory with one submap and one node, or landmarks and sensor data, or finishing and deleting a trajectory; one worker thread, <=1 preemption (thorough 2) plus all blocking switches
//s constraint search: records requests; optimisation: keeps all poses; absl::Mutex and std::thread modelled
#define PG3
#include "C40_threads2d.cc"
