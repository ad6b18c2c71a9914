// Oracle for merge-sorted sensor dispatch.
#pragma once
#include "symx.h"
#include "cartographer/sensor/data.h"
#include <vector>
#include <string>
using namespace cartographer;
struct TD : sensor::Data {
  TD(const std::string& s, int64_t t, int q, int i) : Data(s), time(t), queue(q), index(i) {}
  common::Time GetTime() const override { return common::FromUniversal(time); }
  void AddToTrajectoryBuilder(mapping::TrajectoryBuilderInterface*) override {}
  int64_t time; int queue, index;
};
struct Item { int64_t time; int queue, index; };
// Which items survive the fast-forward to the common start of their group of queues.
// An item before the common start is superseded when the next item of its queue is not beyond it.
inline std::vector<Item> Expected(const std::vector<std::vector<int64_t>>& q, const std::vector<int>& group) {
  std::vector<Item> kept;
  for (int a = 0; a < (int)q.size(); ++a) {
    int64_t start = INT64_MIN;
    for (int b = 0; b < (int)q.size(); ++b) if (group[b] == group[a] && !q[b].empty() && q[b][0] > start) start = q[b][0];
    for (int i = 0; i < (int)q[a].size(); ++i) {
      if (q[a][i] < start && i + 1 < (int)q[a].size() && q[a][i + 1] <= start) continue;
      kept.push_back({q[a][i], a, i});
    }
  }
  // stable selection by (time, queue, index)
  std::vector<Item> out;
  std::vector<char> used(kept.size(), 0);
  for (size_t n = 0; n < kept.size(); ++n) {
    int best = -1;
    for (int i = 0; i < (int)kept.size(); ++i) if (!used[i] && (best < 0 || kept[i].time < kept[best].time)) best = i;
    used[best] = 1;
    out.push_back(kept[best]);
  }
  return out;
}
