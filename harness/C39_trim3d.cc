//@ time=200,700 parts=how:3;mask:8 skip=cartographer/mapping/internal/3d/pose_graph_3d.cc,cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/common/thread_pool.cc,cartographer/mapping/internal/optimization/optimization_problem_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc
//# (3D) Trimming submaps removes exactly these submaps, the nodes that are in no other submap, and the constraints that mention any of these; everything else keeps its data and pose, later searches and optimisations mention only what is left, the graph can still be asked everything and keeps growing with successive ids. A finished trajectory takes part in the search with all submaps, takes no more nodes, and can be deleted as a whole, which leaves the other trajectories as they were. Trimmers see the optimised finished submaps and run until they say they are done.
//b two trajectories with 4 and 3 nodes in overlapping submaps of two nodes, any set of finished submaps trimmed, while the trajectory is active, after it finished, or all of it deleted, up to 2 further nodes; background work run or delayed after each node
//s thread pool: queued tasks are run when the harness says so; constraint search: finds a constraint for every second request; optimisation: shifts all poses by a symbolic amount
#define PG3
#include "C39_trim2d.cc"
