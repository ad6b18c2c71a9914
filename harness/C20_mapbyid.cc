//@ time=200,800 parts=op0:3;op1:3
//# Keyed storage of nodes: after any sequence of append, insert and trim, lookup, sizes, iteration order (forward and backward), ranges per trajectory and time search agree with a sorted reference.
//b 4 operations (thorough 5) out of append / insert with a gap / trim, on trajectories 0..2 with symbolic ids, symbolic non-decreasing 63-bit times, symbolic search time
#include "symx.h"
#include "cartographer/mapping/id.h"
#include <vector>
using namespace cartographer;
using namespace cartographer::mapping;
namespace {
struct Data { common::Time time; int value; };
struct Item { int t, i; int64_t time; int value; };
}
extern "C" void symx_main() {
  MapById<NodeId, Data> map;
  std::vector<Item> ref;  // sorted by (t, i)
  bool appendable[3] = {true, true, true};
  const int N = TIER ? 5 : 4;
  for (int k = 0; k < N; ++k) {
    const int op = symx_choose(k == 0 ? "op0" : k == 1 ? "op1" : "op", 3);
    const int t = (int)symx_concretize(symx_irange("trajectory", 0, 2));
    int last = -1; int64_t last_time = 0;
    for (const Item& x : ref) if (x.t == t) { last = x.i; last_time = x.time; }
    const int value = 100 + k;
    if (op == 2) {
      int n = 0; for (const Item& x : ref) if (x.t == t) ++n;
      symx_assume(n > 0);
      int w = (int)symx_concretize(symx_irange("which", 0, n - 1));
      size_t p = 0;
      for (;; ++p) if (ref[p].t == t && w-- == 0) break;
      if (ref[p].i == last) appendable[t] = false;
      map.Trim(NodeId{t, ref[p].i});
      ref.erase(ref.begin() + p);
      if (n == 1) appendable[t] = true;  // the trajectory is gone
      continue;
    }
    const int64_t time = symx_range("time", 0, (1ll << 62));
    symx_assume(time >= last_time);
    Item item{t, 0, time, value};
    if (op == 0) {
      symx_assume(appendable[t]);
      const NodeId id = map.Append(t, Data{common::FromUniversal(time), value});
      symx_assert(id.trajectory_id == t && id.node_index == last + 1, "append continues the numbering");
      item.i = id.node_index;
    } else {
      item.i = last + (int)symx_concretize(symx_irange("gap", 1, 3));
      map.Insert(NodeId{t, item.i}, Data{common::FromUniversal(time), value});
      appendable[t] = false;
    }
    size_t p = 0;
    while (p < ref.size() && (ref[p].t < t || (ref[p].t == t && ref[p].i < item.i))) ++p;
    ref.insert(ref.begin() + p, item);
  }
  symx_assert(map.size() == ref.size() && map.empty() == ref.empty(), "size counts every element");
  size_t p = 0;
  for (auto it = map.begin(); it != map.end(); ++it, ++p) {
    symx_assert(p < ref.size(), "iteration ends");
    symx_assert(it->id.trajectory_id == ref[p].t && it->id.node_index == ref[p].i && it->data.value == ref[p].value, "iteration is sorted and complete");
  }
  symx_assert(p == ref.size(), "iteration visits everything");
  auto back = map.end();
  for (size_t q = ref.size(); q-- > 0;) { --back; symx_assert((*back).data.value == ref[q].value, "backward iteration mirrors forward iteration"); }
  std::vector<int> ids;
  for (int t : map.trajectory_ids()) ids.push_back(t);
  size_t want_ids = 0;
  for (int t = 0; t < 3; ++t) {
    size_t n = 0;
    std::vector<int> values;
    for (const Item& x : ref) if (x.t == t) { ++n; values.push_back(x.value); }
    symx_assert(map.SizeOfTrajectoryOrZero(t) == n, "size per trajectory");
    if (n) { symx_assert(want_ids < ids.size() && ids[want_ids] == t, "trajectory ids are the non-empty ones in order"); ++want_ids; }
    size_t k = 0;
    for (const auto& r : map.trajectory(t)) { symx_assert(k < n && r.data.value == values[k] && r.id.trajectory_id == t, "range of a trajectory"); ++k; }
    symx_assert(k == n, "range of a trajectory is complete");
    for (int i = 0; i < 4; ++i) {
      const Item* hit = nullptr; for (const Item& x : ref) if (x.t == t && x.i == i) hit = &x;
      symx_assert(map.Contains(NodeId{t, i}) == (hit != nullptr), "membership");
      symx_assert((map.find(NodeId{t, i}) != map.end()) == (hit != nullptr), "find");
      if (hit) symx_assert(map.at(NodeId{t, i}).value == hit->value, "lookup");
    }
  }
  symx_assert(ids.size() == want_ids, "no empty trajectories");
  const int st = symx_choose("search", 3);
  const int64_t time = symx_range("time", 0, (1ll << 62));
  const auto found = map.lower_bound(st, common::FromUniversal(time));
  const Item* want = nullptr;
  for (const Item& x : ref) if (x.t == st && x.time >= time) { want = &x; break; }
  if (want) symx_assert(found != map.EndOfTrajectory(st) && found->id.trajectory_id == st && found->id.node_index == want->i, "time search finds the first element not before the time");
  else symx_assert(found == map.EndOfTrajectory(st), "time search reports the end when everything is earlier");
  symx_reach("end");
}
