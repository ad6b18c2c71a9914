//@ time=150,800 parts=n0:3
//# Every interleaving of adds to two queues with arbitrary sorted timestamps: the dispatched sequence equals the stable merge by time of the items after the common start; nothing is dispatched while an unfinished queue is empty; nothing dispatchable is withheld.
//b 2 queues; 1..3 items in the first, 0..2 (thorough 3) in the second; all int64 timestamps; every add interleaving; then flush
#include "collate.h"
#include "cartographer/sensor/internal/ordered_multi_queue.h"
extern "C" void symx_main() {
  const int n0 = 1 + symx_choose("n0", 3), n1 = symx_choose("n1", TIER ? 4 : 3);
  std::vector<std::vector<int64_t>> q(2);
  const int n[2] = {n0, n1};
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n[k]; ++i) {
    int64_t t = symx_i64("t");
    symx_assume(t > INT64_MIN);
    if (i) symx_assume(t >= q[k].back());
    q[k].push_back(t);
  }
  std::vector<Item> got;
  sensor::OrderedMultiQueue queue;
  int added[2] = {0, 0};
  bool flushing = false;
  const sensor::QueueKey keys[2] = {{0, "a"}, {0, "b"}};
  for (int k = 0; k < 2; ++k) queue.AddQueue(keys[k], [&, k](std::unique_ptr<sensor::Data> d) {
    const TD* td = static_cast<const TD*>(d.get());
    symx_assert(td->queue == k, "data goes to the callback of its own queue");
    symx_assert(flushing || (added[0] > 0 && added[1] > 0), "nothing is dispatched before every unfinished queue has data");
    got.push_back({td->time, td->queue, td->index});
  });
  const auto expected = Expected(q, {0, 0});
  while (added[0] < n0 || added[1] < n1) {
    int k = added[0] == n0 ? 1 : added[1] == n1 ? 0 : symx_choose("which", 2);
    const int i = added[k]++;
    queue.Add(keys[k], std::make_unique<TD>(keys[k].sensor_id, q[k][i], k, i));
    symx_assert(got.size() <= expected.size(), "no more items than expected");
    for (size_t g = 0; g < got.size(); ++g) symx_assert(got[g].queue == expected[g].queue && got[g].index == expected[g].index, "dispatched prefix is the merge prefix");
    // an item is withheld only while an unfinished queue has nothing beyond it
    if (got.size() < expected.size() && added[0] > 0 && added[1] > 0) {
      const int64_t start = q[0][0] > q[1][0] ? q[0][0] : q[1][0];
      bool blocked = false;
      for (int b = 0; b < 2; ++b) {
        int done = -1;  // last index already consumed (dispatched or superseded)
        for (auto& g : got) if (g.queue == b) done = g.index;
        int next = done + 1;
        while (next + 1 < added[b] && q[b][next] < start && q[b][next + 1] <= start) ++next;
        if (next >= added[b]) blocked = true;                                   // starved
        else if (next + 1 == added[b] && q[b][next] < start) blocked = true;     // undecidable yet
      }
      symx_assert(blocked, "dispatch stops only when some queue needs more data");
    }
  }
  flushing = true;
  queue.Flush();
  symx_assert(got.size() == expected.size(), "flush dispatches everything that remains");
  for (size_t g = 0; g < got.size() && g < expected.size(); ++g) {
    symx_assert(got[g].queue == expected[g].queue && got[g].index == expected[g].index, "final sequence is the stable merge");
    if (g) symx_assert(got[g - 1].time <= got[g].time, "dispatch times never decrease");
  }
  symx_observe("n", got.size());
  for (auto& g : got) symx_observe("item", g.queue * 16 + g.index);
  symx_reach("end");
}
