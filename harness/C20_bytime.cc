//@ time=200,800 parts=n:3;m:2 tparts=n:4;m:3
//# Time-keyed sensor data: iteration and search agree with the appended sequence; trimming a node removes exactly the data strictly inside its gap, keeping one datum at each side that has a neighbouring node, and everything outside.
//b 1..3 (thorough 4) data and 1..2 (thorough 3) nodes with symbolic increasing times; any node trimmed; symbolic search time
#include "symx.h"
#include "cartographer/sensor/map_by_time.h"
#include <vector>
using namespace cartographer;
namespace { struct Data { common::Time time; int value; }; }
extern "C" void symx_main() {
  const int n = 1 + symx_choose("n", TIER ? 4 : 3), m = 1 + symx_choose("m", TIER ? 3 : 2);
  sensor::MapByTime<Data> map;
  mapping::MapById<mapping::NodeId, Data> nodes;
  int64_t t[4], u[3];
  for (int i = 0; i < n; ++i) { t[i] = symx_range("t", -(1ll << 60), 1ll << 60); if (i) symx_assume(t[i] > t[i - 1]); map.Append(1, Data{common::FromUniversal(t[i]), i}); }
  for (int i = 0; i < m; ++i) { u[i] = symx_range("u", -(1ll << 60), 1ll << 60); if (i) symx_assume(u[i] > u[i - 1]); nodes.Append(1, Data{common::FromUniversal(u[i]), i}); }
  map.Append(0, Data{common::FromUniversal(7), 70}); map.Append(2, Data{common::FromUniversal(9), 90});
  symx_assert(map.HasTrajectory(0) && map.HasTrajectory(1) && map.HasTrajectory(2) && !map.HasTrajectory(3), "trajectories with data are known");
  int k = 0;
  for (const auto& d : map.trajectory(1)) { symx_assert(d.value == k, "iteration is in time order"); ++k; }
  symx_assert(k == n, "iteration visits everything");
  const int64_t s = symx_range("s", -(1ll << 60), 1ll << 60);
  int first = 0; while (first < n && t[first] < s) ++first;
  const auto found = map.lower_bound(1, common::FromUniversal(s));
  if (first < n) symx_assert(found != map.EndOfTrajectory(1) && found->value == first, "time search");
  else symx_assert(found == map.EndOfTrajectory(1), "time search reports the end");
  const int w = symx_choose("trim", m);
  map.Trim(nodes, mapping::NodeId{1, w});
  // reference
  bool keep[4]; int lo = n, hi = -1;
  for (int i = 0; i < n; ++i) {
    const bool inside = (w == 0 || t[i] >= u[w - 1]) && (w == m - 1 || t[i] <= u[w + 1]);
    keep[i] = !inside;
    if (inside) { if (lo == n) lo = i; hi = i; }
  }
  if (hi >= 0 && w > 0) keep[lo] = true;
  if (hi >= 0 && w < m - 1) keep[hi] = true;
  int left = 0; for (int i = 0; i < n; ++i) left += keep[i];
  symx_assert(map.HasTrajectory(1) == (left > 0), "a trajectory without data is dropped");
  if (left) {
    int i = 0;
    for (const auto& d : map.trajectory(1)) {
      while (i < n && !keep[i]) ++i;
      symx_assert(i < n && d.value == i, "trimming removes exactly the data inside the gap");
      ++i;
    }
    while (i < n && !keep[i]) ++i;
    symx_assert(i == n, "trimming keeps all other data");
  }
  symx_assert(map.HasTrajectory(0) && map.HasTrajectory(2) && map.BeginOfTrajectory(0)->value == 70 && map.BeginOfTrajectory(2)->value == 90, "other trajectories are untouched");
  symx_reach("end");
}
