//@ time=150,800 parts=s:2;finish:2
//# Two trajectories with one or two sensors through the collator: global merge order, only expected sensors, finishing a trajectory releases the others.
//b 2 trajectories (1-2 sensors each), 2 items per sensor, all int64 timestamps, every interleaving consistent with sortedness; finish of trajectory 0 before or at the end
#include "collate.h"
#include "cartographer/sensor/internal/collator.h"
extern "C" void symx_main() {
  const int s = symx_choose("s", 2);
  const bool finish = symx_choose("finish", 2);
  const std::string ids[3] = {"a", s ? "b" : "unused", "c"};
  const int traj[3] = {0, 0, 1};
  std::vector<std::vector<int64_t>> q(3);
  for (int k = 0; k < 3; ++k) if (k != 1 || s) for (int i = 0; i < (k == 1 ? 1 : 2); ++i) {
    int64_t t = symx_i64("t");
    symx_assume(t > INT64_MIN);
    if (i) symx_assume(t >= q[k].back());
    q[k].push_back(t);
  }
  std::vector<Item> got;
  sensor::Collator collator;
  int cur = -1;
  auto cb = [&](int tr) { return [&, tr](const std::string& id, std::unique_ptr<sensor::Data> d) {
    const TD* td = static_cast<const TD*>(d.get());
    symx_assert(traj[td->queue] == tr, "data reaches its own trajectory");
    symx_assert(id == ids[td->queue], "data is reported under its sensor id");
    got.push_back({td->time, td->queue, td->index});
  }; };
  absl::flat_hash_set<std::string> e0, e1;
  e0.insert("a"); if (s) e0.insert("b"); e1.insert("c");
  collator.AddTrajectory(0, e0, cb(0));
  collator.AddTrajectory(1, e1, cb(1));
  const auto expected = Expected(q, {0, 0, 1});
  size_t added[3] = {0, 0, 0};
  bool finished0 = false;
  while (true) {
    int open[3], n = 0;
    for (int k = 0; k < 3; ++k) if (added[k] < q[k].size()) open[n++] = k;
    if (finish && !finished0 && added[0] == q[0].size() && added[1] == q[1].size()) {
      finished0 = true;
      collator.FinishTrajectory(0);
      // trajectory 0 no longer holds anything back
      if (added[2] > 0) for (size_t i = 0; i < added[2]; ++i) {
        bool seen = false;
        for (auto& g : got) if (g.queue == 2 && g.index == (int)i) seen = true;
        symx_assert(seen, "a finished trajectory does not hold back another one");
      }
      continue;
    }
    if (!n) break;
    const int k = open[n == 1 ? 0 : symx_choose("which", n)];
    const int i = added[k]++;
    collator.AddSensorData(traj[k], std::make_unique<TD>(ids[k], q[k][i], k, i));
    for (size_t g = 0; g < got.size(); ++g) symx_assert(g < expected.size() && got[g].queue == expected[g].queue && got[g].index == expected[g].index, "dispatched prefix is the merge prefix");
  }
  collator.Flush();
  symx_assert(got.size() == expected.size(), "everything from the common start on is dispatched exactly once");
  for (size_t g = 0; g < got.size() && g < expected.size(); ++g) symx_assert(got[g].queue == expected[g].queue && got[g].index == expected[g].index, "final sequence is the stable merge");
  for (auto& g : got) symx_observe("item", g.queue * 16 + g.index);
  symx_reach("end");
}
