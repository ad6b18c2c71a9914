//@ time=150,800
//# The per-trajectory collator: each trajectory's output is its own stable merge, whatever the other trajectory does (including being empty).
//b 2 trajectories; sensors {a,b} with up to 2+1 items and {c} with up to 2 items; all int64 timestamps; every interleaving
#include "collate.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
extern "C" void symx_main() {
  const std::string ids[3] = {"a", "b", "c"};
  const int traj[3] = {0, 0, 1};
  const int n[3] = {2, 1, symx_choose("nc", 3)};
  std::vector<std::vector<int64_t>> q(3);
  for (int k = 0; k < 3; ++k) for (int i = 0; i < n[k]; ++i) {
    int64_t t = symx_i64("t");
    symx_assume(t > INT64_MIN);
    if (i) symx_assume(t >= q[k].back());
    q[k].push_back(t);
  }
  std::vector<Item> got[2];
  sensor::TrajectoryCollator collator;
  auto cb = [&](int tr) { return [&, tr](const std::string& id, std::unique_ptr<sensor::Data> d) {
    const TD* td = static_cast<const TD*>(d.get());
    symx_assert(traj[td->queue] == tr && id == ids[td->queue], "data reaches its own trajectory and sensor");
    got[tr].push_back({td->time, td->queue, td->index});
  }; };
  absl::flat_hash_set<std::string> e0, e1;
  e0.insert("a"); e0.insert("b"); e1.insert("c");
  collator.AddTrajectory(0, e0, cb(0));
  collator.AddTrajectory(1, e1, cb(1));
  symx_assert(!collator.GetBlockingTrajectoryId().has_value(), "no blocking trajectory");
  std::vector<Item> expected[2] = {Expected({q[0], q[1]}, {0, 0}), Expected({q[2]}, {0})};
  int added[3] = {0, 0, 0};
  while (true) {
    int open[3], m = 0;
    for (int k = 0; k < 3; ++k) if (added[k] < n[k]) open[m++] = k;
    if (!m) break;
    const int k = open[m == 1 ? 0 : symx_choose("which", m)];
    const int i = added[k]++;
    collator.AddSensorData(traj[k], std::make_unique<TD>(ids[k], q[k][i], k, i));
    if (k == 2) symx_assert(got[1].size() == (size_t)added[2], "a single sensor trajectory is dispatched at once");
  }
  if (symx_choose("how", 2)) { collator.FinishTrajectory(0); collator.FinishTrajectory(1); } else collator.Flush();
  for (int tr = 0; tr < 2; ++tr) {
    symx_assert(got[tr].size() == expected[tr].size(), "everything from the common start on is dispatched exactly once");
    for (size_t g = 0; g < got[tr].size() && g < expected[tr].size(); ++g) symx_assert((tr ? 0 : got[tr][g].queue) == expected[tr][g].queue && got[tr][g].index == expected[tr][g].index, "final sequence is the stable merge");
    for (auto& g : got[tr]) symx_observe("item", g.queue * 16 + g.index);
  }
  symx_reach("end");
}
