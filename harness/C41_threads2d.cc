//@ mt preempt=2,3 time=300,850 parts=what:2 skip=cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# ConstraintBuilder2D, documented as thread-safe: two callers ask for searches, or one asks and the other deletes a matcher of another submap, while the real thread pool works; under every schedule within the preemption bound there is no data race or deadlock, and the callback gets exactly the constraints asked for.
//b 2 callers with one search each, one worker thread; <=2 preemptions (thorough 3) plus all blocking switches
//s fast matcher and refinement: fixed answers; absl::Mutex and std::thread modelled
#include <thread>
#include "builder.h"
using namespace cb;
extern "C" void symx_main() {
  const int what = symx_choose("what", 2);
  g = new State;
  const auto options = Options(1.);
  common::ThreadPool* pool = new common::ThreadPool(1);
  Builder* builder = new Builder(options, pool);
  std::shared_ptr<SubmapXD> submap[2] = {MakeSubmap(0, P(0., 0., 0.)), MakeSubmap(1, P(0., 0., 0.))};
  std::shared_ptr<TrajectoryNode::Data> data[2] = {MakeNode(0), MakeNode(1)};
  const Pose found = P(1., 1., 0.);
  g->answer = [&](const Asked&, float* score, Pose* pose) { *score = 0.9f; *pose = found; return true; };
  g->refine = [&](int, int, const Pose& from) { return from; };
  auto ask = [&](int s, int n) {
#ifdef PG3
    builder->MaybeAddConstraint(SubmapId{0, s}, submap[s].get(), NodeId{0, n}, data[n].get(), P(1., 0., 0.), P(0., 0., 0.));
#else
    builder->MaybeAddConstraint(SubmapId{0, s}, submap[s].get(), NodeId{0, n}, data[n].get(), P(1., 0., 0.));
#endif
  };
  std::thread other([&] { if (what == 0) ask(1, 1); else builder->DeleteScanMatcher(SubmapId{0, 1}); });
  ask(0, 0);
  other.join();
  builder->NotifyEndOfNode();
  absl::Mutex mutex; int callbacks = 0; size_t results = 0;
  builder->WhenDone([&](const Builder::Result& r) { absl::MutexLock l(&mutex); ++callbacks; results = r.size(); });
  { absl::MutexLock l(&mutex); auto done = [&] { return callbacks > 0; }; mutex.Await(absl::Condition(&done)); }
  delete pool;
  symx_assert(callbacks == 1 && results == (what == 0 ? 2u : 1u), "the callback gets all constraints once");
  symx_assert(builder->GetNumFinishedNodes() == 1, "the node is finished");
  delete builder;
  symx_reach("end");
}
