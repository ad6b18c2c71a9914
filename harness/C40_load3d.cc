//@ time=200,700 parts=frozen:2;pattern:4 skip=cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc
//# (3D) Loaded submaps, nodes and constraints appear in the graph under their ids with the stored poses and data (also with gaps in the ids), constraints are given out as they were loaded, frozen trajectories are told to the optimisation as frozen and are connected with each other, and a new trajectory is matched against everything loaded and the loaded nodes against its submaps. Landmark observations, odometry and fixed frame data arrive at the optimisation once and in order; landmark poses are what was set or optimised.
//b 2 loaded submaps and 3 loaded nodes with gaps in the ids in one of two loaded trajectories, symbolic poses, constraints within and between submaps; a new trajectory of 3 nodes; landmarks with 3 observations; background work run or delayed after each operation
//s thread pool: queued tasks are run when the harness says so; constraint search: records only; optimisation: shifts all poses by a symbolic amount
#define PG3
#include "C40_load2d.cc"
