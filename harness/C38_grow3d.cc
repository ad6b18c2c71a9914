//@ time=200,700 parts=window:3;every:3 skip=cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc
//# (3D) One trajectory grows as local SLAM builds it: nodes and submaps get successive ids and keep their data; for each submap a node was inserted into there is exactly one intra-submap constraint with the pose the node has in that submap and the configured weights; every node is matched against every finished submap it is not part of exactly once, starting from the current estimate; found constraints are kept once and given to the optimisation; the optimisation runs each time the configured number of nodes has been added; afterwards optimised nodes and submaps have exactly the optimised poses and everything later follows the last optimised submap - whenever the background work runs.
//b 7 (quick) or 9 nodes, submaps of 2, 4 or 6 nodes, optimisation every 0 (never), 1 or 2 nodes, background work run or delayed after each node, symbolic node positions and correction of the optimisation, tilted nodes
//s thread pool: queued tasks are run when the harness says so; constraint search: records requests and finds a constraint for every second; optimisation: shifts the poses by a symbolic amount that grows with the index
#define PG3
#include "C38_grow2d.cc"
