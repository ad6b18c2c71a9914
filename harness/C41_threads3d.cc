//@ mt preempt=2,3 time=300,850 parts=what:2 skip=cartographer/mapping/internal/constraints/constraint_builder_3d.cc,cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc,cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc
//# ConstraintBuilder3D, documented as thread-safe: two callers ask for searches, or one asks and the other deletes a matcher of another submap, while the real thread pool works; under every schedule within the preemption bound there is no data race or deadlock, and the callback gets exactly the constraints asked for.
//b 2 callers with one search each, one worker thread; <=2 preemptions (thorough 3) plus all blocking switches
//s fast matcher and refinement: fixed answers; absl::Mutex and std::thread modelled
#define PG3
#include "C41_threads2d.cc"
