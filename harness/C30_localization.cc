//@ time=100,300
//# In pure localisation exactly the oldest submaps of its own trajectory are trimmed so that the configured number remain; once the trajectory is finished all of them are trimmed, it is deleted and the trimmer is done; fewer than two submaps to keep are refused.
//b up to 5 submaps with gaps in their indices, 2 to 6 submaps to keep, two successive runs, finishing before the first, before the second or never
//s the pose graph is a recording stand-in for the Trimmable interface
#include "symx.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
using namespace cartographer;
using namespace cartographer::mapping;
struct Graph : public Trimmable {
  std::vector<SubmapId> ids, trimmed; MapById<SubmapId, PoseGraphInterface::SubmapData> none; MapById<NodeId, TrajectoryNode> nodes; std::vector<PoseGraphInterface::Constraint> constraints;
  bool finished = false; int deleted = 0;
  int num_submaps(int t) const override { return GetSubmapIds(t).size(); }
  std::vector<SubmapId> GetSubmapIds(int t) const override { std::vector<SubmapId> r; for (const SubmapId& id : ids) if (id.trajectory_id == t) r.push_back(id); return r; }
  MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override { return none; }
  const MapById<NodeId, TrajectoryNode>& GetTrajectoryNodes() const override { return nodes; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override { return constraints; }
  void TrimSubmap(const SubmapId& id) override {
    for (size_t i = 0; i < ids.size(); ++i) if (ids[i] == id) { ids.erase(ids.begin() + i); trimmed.push_back(id); return; }
    symx_assert(false, "only existing submaps are trimmed");
  }
  bool IsFinished(int t) const override { return t == 3 && finished; }
  void SetTrajectoryState(int t, PoseGraphInterface::TrajectoryState s) override { symx_assert(t == 3 && s == PoseGraphInterface::TrajectoryState::DELETED, "only its own trajectory is deleted"); ++deleted; }
};
extern "C" void symx_main() {
  const int n = symx_choose("n", 6), more = symx_choose("more", 3), when = symx_choose("when", 3);
  const int keep = symx_irange("keep", 2, 6);
  Graph g;
  g.ids.push_back({1, 0}); g.ids.push_back({1, 5});
  int next = 0;
  for (int i = 0; i < n; ++i) { g.ids.push_back({3, next}); next += 1 + i % 2; }
  g.ids.push_back({4, 0});
  PureLocalizationTrimmer trimmer(3, keep);
  symx_assert(!trimmer.IsFinished(), "the trimmer is not done before the trajectory is finished");
  int have = n, first = 0;
  for (int run = 0; run < 2; ++run) {
    g.finished = run >= when;
    std::vector<SubmapId> before = g.GetSubmapIds(3);
    g.trimmed.clear();
    trimmer.Trim(&g);
    const int left = g.finished ? 0 : (have < keep ? have : keep);
    symx_assert(g.num_submaps(3) == left, "the configured number of submaps remains");
    for (size_t i = 0; i < g.trimmed.size(); ++i) symx_assert(g.trimmed[i] == before[i], "the oldest submaps are trimmed, in order");
    symx_assert(g.num_submaps(1) == 2 && g.num_submaps(4) == 1, "other trajectories are left alone");
    symx_assert((g.deleted == 1) == g.finished && trimmer.IsFinished() == g.finished, "a finished trajectory is deleted once and the trimmer is done");
    have = left;
    if (g.finished) break;
    for (int i = 0; i < more; ++i) { g.ids.push_back({3, next}); next++; ++have; }
  }
  symx_reach("end");
}
