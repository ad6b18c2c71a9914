//@ time=200,700 parts=init:2;find:4 skip=cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc
//# (3D) Between trajectories a node is matched against a finished submap locally, starting from the estimate, exactly if a constraint (or a given initial pose) tied the two trajectories no longer ago than configured, and otherwise over the whole submap for the configured share of the pairs; each pair at most once. Trajectories joined by a found constraint or an initial pose are connected, and others are not. A trajectory with an initial pose starts there, relative to the pose the other trajectory had at the given time.
//b two trajectories of 3 and 4 nodes, symbolic times of the nodes, no or one found constraint among the first requests, no initial pose or one with a symbolic time and offset; all, half or none of the global searches; background work run or delayed
//s thread pool: queued tasks are run when the harness says so; constraint search: finds a constraint for one chosen request; optimisation: keeps all poses
#define PG3
#include "C38_cross2d.cc"
