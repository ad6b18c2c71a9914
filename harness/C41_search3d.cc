//@ time=200,800 parts=order:3 skip=cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc,cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc
//# ConstraintBuilder3D: pairs farther apart than the limit are never searched, all others in the sampled share of each submap, full-submap searches always; each search gets the right clouds, grids, histogram, poses and score limit; every match is refined and becomes exactly one constraint with the right relative pose, weights and ids; the callback runs once, after everything; further cycles work and matchers are built once per submap.
//b 2 submaps, 2 nodes per cycle, 2 cycles; each pair not asked, asked locally or as a full search; distances around the limit, scores, matched and refined poses on rasters; sampling shares 1, 1/2, 0; tasks run at once, in order, or newest first
//s fast matcher: any score above its limit with any pose, or no match; refinement: any pose; the thread pool runs tasks whose dependencies are done in the chosen order
#define PG3
#include "C41_search2d.cc"
