//@ time=200,800 parts=order:3 skip=cartographer/mapping/internal/constraints/constraint_builder_2d.cc,cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc
//# ConstraintBuilder2D: pairs farther apart than the limit are never searched, all others in the sampled share of each submap, full-submap searches always; each search gets the right cloud, submap, starting pose and score limit; every match is refined and becomes exactly one constraint with the right relative pose, weights and ids; the callback runs once, after everything; further cycles work and matchers are built once per submap.
//b 2 submaps, 2 nodes per cycle, 2 cycles; each pair not asked, asked locally or as a full search; distances around the limit, scores, matched and refined poses on rasters; sampling shares 1, 1/2, 0; tasks run at once, in order, or newest first
//s fast matcher: any score above its limit with any pose, or no match; refinement: any pose; the thread pool runs tasks whose dependencies are done in the chosen order
#include "builder.h"
using namespace cb;
namespace {
struct Pool : common::ThreadPoolInterface {
  std::deque<std::shared_ptr<common::Task>> ready;
  std::vector<std::shared_ptr<common::Task>> all;
  int order = 0; std::function<void()> after;
  std::weak_ptr<common::Task> Schedule(std::unique_ptr<common::Task> task) override {
    std::shared_ptr<common::Task> shared = std::move(task);
    all.push_back(shared);
    SetThreadPool(shared.get());
    return shared;
  }
  void NotifyDependenciesCompleted(common::Task* task) override { for (const auto& t : all) if (t.get() == task) ready.push_back(t); }
  void Run() {
    while (!ready.empty()) {
      std::shared_ptr<common::Task> t = order == 1 ? ready.back() : ready.front();
      if (order == 1) ready.pop_back(); else ready.pop_front();
      Execute(t.get());
      if (after) after();
    }
  }
};
}  // namespace
extern "C" void symx_main() {
  const int order = symx_choose("order", 3);  // 2: at once
  const int share = symx_choose("share", TIER ? 3 : 2);
  const int pairs = symx_choose("pairs", 81);
  const bool drop = symx_choose("drop", 2);
  g = new State;
  Pool* pool = new Pool; pool->order = order;
  const double ratio = share == 0 ? 1. : share == 1 ? 0.5 : 0.;
  const auto options = Options(ratio);
  Builder* builder = new Builder(options, pool);
  const Pose local[2] = {P(1., 2., 0.3), P(-2., 1., -0.7)};
  std::shared_ptr<SubmapXD> submap[2] = {MakeSubmap(0, local[0]), MakeSubmap(1, local[1])};
  const SubmapId sid[2] = {SubmapId{0, 0}, SubmapId{1, 4}};
  std::vector<std::shared_ptr<TrajectoryNode::Data>> data;
  for (int n = 0; n < 4; ++n) data.push_back(MakeNode(n));
  // symbolic: how far the locally asked pairs are apart, scores, matched poses
  const int qd = int(symx_irange("distance", 0, 3)), qs = int(symx_irange("score", 0, 4)), qm = int(symx_irange("match", 0, 2));
  static const double kDistance[4] = {5. + 1e-6, 5. - 1e-6, 0., 40.};
  static const float kScore[5] = {0.75f, 0.5f, 0.7500001f, 0.5000001f, 0.25f};
#ifdef PG3
  const double scale = 1. / std::sqrt(1.16);  // P() adds a height
#else
  const double scale = 1.;
#endif
  auto initial_of = [&](int n, int s) { return P(0.6 * scale * kDistance[(qd + n + s) % 4], 0.8 * scale * kDistance[(qd + n + s) % 4], 0.2 * n - 0.1 * s); };
  auto near_of = [&](int n, int s) { return initial_of(n, s).translation().norm() <= 5.; };
  auto score_of = [&](int n, int s) { return kScore[(qs + 2 * n + s) % 5]; };
  auto match_of = [&](int n, int s) { return P(qm + n, 2. * s - qm, 0.1 * n + 0.2 * s); };
  auto refined_of = [&](int n, int s) { return P(qm + n + 0.01, 2. * s - qm - 0.02, 0.1 * n + 0.2 * s + 0.005); };
  g->answer = [&](const Asked& a, float* score, Pose* pose) {
    if (!(score_of(a.node, a.submap) > a.min_score)) return false;
    *score = score_of(a.node, a.submap); *pose = match_of(a.node, a.submap);
    return true;
  };
  g->refine = [&](int n, int s, const Pose& from) { symx_assert(Near(from, match_of(n, s)), "the refinement starts at the match"); return refined_of(n, s); };
  int pulses[2] = {0, 0}, kept[2] = {0, 0};
  size_t seen = 0; int finished = 0;
  for (int cycle = 0; cycle < 2; ++cycle) {
    int kind[2][2], rest = pairs, globals = 0, callbacks = 0;
    std::vector<Constraint> result;
    pool->after = [&] { const int now = builder->GetNumFinishedNodes(); symx_assert(now >= finished && now <= 2 * (cycle + 1), "finished nodes only increase"); finished = now; };
    for (int n = 0; n < 2; ++n) {
      for (int s = 0; s < 2; ++s) {
        const int k = cycle == 0 ? rest % 3 : (rest % 3 + n + s) % 3; rest /= 3;
        kind[n][s] = k;
        const int node = 2 * cycle + n;
        const NodeId nid{1, 10 + node};
#ifdef PG3
        const Pose base = P(7., -3., 0.4);
        if (k == 1) builder->MaybeAddConstraint(sid[s], submap[s].get(), nid, data[node].get(), base * initial_of(node, s), base);
        if (k == 2) builder->MaybeAddGlobalConstraint(sid[s], submap[s].get(), nid, data[node].get(), (base * initial_of(node, s)).rotation(), base.rotation());
#else
        if (k == 1) builder->MaybeAddConstraint(sid[s], submap[s].get(), nid, data[node].get(), initial_of(node, s));
        if (k == 2) builder->MaybeAddGlobalConstraint(sid[s], submap[s].get(), nid, data[node].get());
#endif
        if (order == 2) pool->Run();
      }
      builder->NotifyEndOfNode();
      if (order == 2) { pool->Run(); symx_assert(builder->GetNumFinishedNodes() == 2 * cycle + n + 1, "a node counts as finished once its searches are done"); }
    }
    builder->WhenDone([&](const Builder::Result& r) { ++callbacks; result = r; });
    symx_assert(callbacks == 0 || order == 2, "the callback runs in the thread pool");
    pool->Run();
    symx_assert(callbacks == 1, "the callback runs exactly once");
    symx_assert(builder->GetNumFinishedNodes() == 2 * (cycle + 1), "all nodes are finished");
    // the searches
    std::map<std::pair<int, int>, const Asked*> asked;
    for (; seen < g->asked.size(); ++seen) {
      const Asked& a = g->asked[seen];
      symx_assert(asked.count(std::make_pair(a.node, a.submap)) == 0, "a pair is searched once");
      asked[std::make_pair(a.node, a.submap)] = &a;
    }
    size_t searches = 0, found = 0;
    for (int n = 0; n < 2; ++n) for (int s = 0; s < 2; ++s) {
      const int node = 2 * cycle + n, k = kind[n][s];
      const auto it = asked.find(std::make_pair(node, s));
      const bool was = it != asked.end();
      searches += was;
      if (k == 0) { symx_assert(!was, "what was not asked for is not searched"); continue; }
      if (k == 2) symx_assert(was && it->second->full, "a full search is always made");
      if (k == 1) {
        if (!near_of(node, s)) { symx_assert(!was, "far pairs are not searched"); continue; }
        ++pulses[s]; kept[s] += was;
        if (ratio == 1.) symx_assert(was, "near pairs are searched");
      }
      if (!was) continue;
      const Asked& a = *it->second;
      symx_assert(a.full == (k == 2), "the search is of the kind asked for");
      symx_assert(a.min_score == (a.full ? 0.75f : 0.5f), "the score limit of the kind of search holds");
#ifdef PG3
      if (a.full) symx_assert(Near(Rigid3d::Rotation(a.initial.rotation()), Rigid3d::Rotation(initial_of(node, s).rotation())), "the full search knows the relative rotation");
      else symx_assert(Near(a.initial, initial_of(node, s)), "the search starts at the given relative pose");
#else
      if (!a.full) symx_assert(Near(a.initial, local[s] * initial_of(node, s)), "the search starts at the given relative pose");
#endif
      const bool match = score_of(node, s) > a.min_score;
      int given = 0;
      for (const Constraint& c : result) if (c.node_id == NodeId{1, 10 + node} && c.submap_id == sid[s]) {
        ++given;
#ifdef PG3
        const Rigid3d want = refined_of(node, s);
#else
        const Rigid3d want = Embed(local[s].inverse() * refined_of(node, s));
#endif
        symx_assert(Near(c.pose.zbar_ij, want), "a constraint is the refined pose relative to the submap");
        symx_assert(c.pose.translation_weight == 1.1e4 && c.pose.rotation_weight == 1e5, "a constraint has the loop closure weights");
        symx_assert(c.tag == Constraint::INTER_SUBMAP, "a constraint found is a loop closure");
      }
      symx_assert(given == int(match), "every match is given as one constraint, nothing else");
      found += match;
      if (match) symx_reach(k == 1 ? "local match" : "full match");
    }
    symx_assert(searches == asked.size() && result.size() == found, "nothing more is searched or found");
    for (int s = 0; s < 2; ++s) {
      if (share == 1) symx_assert(2 * kept[s] >= pulses[s] - 1 && 2 * kept[s] <= pulses[s] + 1, "the share of near pairs of each submap is searched");
      if (share == 2) symx_assert(kept[s] == 0, "nothing is sampled");
      symx_assert(g->built[s] <= 1 + (cycle == 1 && drop && s == 0), "a matcher is built once per submap");
    }
    if (cycle == 0 && drop) {
      builder->DeleteScanMatcher(sid[0]);
      for (const auto& m : g->live) symx_assert(m.second != 0, "a deleted matcher is gone");
      symx_assert(g->live.size() <= 1, "no matcher is leaked");
      pulses[0] = kept[0] = 0;
    }
  }
  pool->after = nullptr;
  delete builder;
  symx_assert(g->live.empty(), "the matchers go with the builder");
  symx_reach("end");
}
