//@ time=250,800 parts=a0:4;b0:4
//# Trajectory connectivity: two trajectories are connected exactly if a chain of connections joins them, components partition the trajectories, and the last connection time of a pair is the time of its last joining or direct connection (never going back).
//b 4 trajectories, 3 connections (thorough 4) between symbolic pairs with symbolic times
#include "symx.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include <vector>
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  TrajectoryConnectivityState state;
  const int N = 4, K = TIER ? 4 : 3;
  bool conn[N][N]; int64_t last[N][N];
  const int64_t none = common::ToUniversal(common::Time());
  for (int i = 0; i < N; ++i) { state.Add(i * 3); for (int j = 0; j < N; ++j) { conn[i][j] = i == j; last[i][j] = none; } }
  for (int k = 0; k < K; ++k) {
    const int a = k ? (int)symx_concretize(symx_irange("a", 0, N - 1)) : symx_choose("a0", N), b = k ? (int)symx_concretize(symx_irange("b", 0, N - 1)) : symx_choose("b0", N);
    const int64_t t = symx_range("t", 1, 1ll << 60);
    state.Connect(a * 3, b * 3, common::FromUniversal(t));
    if (conn[a][b]) { if (last[a][b] < t) last[a][b] = last[b][a] = t; }
    else {
      bool ca[N], cb[N];
      for (int i = 0; i < N; ++i) { ca[i] = conn[a][i]; cb[i] = conn[b][i]; }
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (ca[i] && cb[j]) { conn[i][j] = conn[j][i] = true; last[i][j] = last[j][i] = t; }
    }
  }
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    symx_assert(state.TransitivelyConnected(i * 3, j * 3) == conn[i][j], "connected exactly if a chain of connections exists");
    symx_assert(common::ToUniversal(state.LastConnectionTime(i * 3, j * 3)) == last[i][j], "last connection time of a pair");
  }
  symx_assert(!state.TransitivelyConnected(0, 99) && state.TransitivelyConnected(99, 99), "unknown trajectories are connected only to themselves");
  const auto comps = state.Components();
  int seen[N] = {0, 0, 0, 0};
  for (const auto& c : comps) for (int x : c) {
    symx_assert(x % 3 == 0 && x / 3 < N, "components contain known trajectories");
    ++seen[x / 3];
    for (int y : c) symx_assert(conn[x / 3][y / 3], "members of a component are connected");
  }
  size_t classes = 0;
  for (int i = 0; i < N; ++i) { symx_assert(seen[i] == 1, "every trajectory is in exactly one component"); bool rep = true; for (int j = 0; j < i; ++j) if (conn[i][j]) rep = false; classes += rep; }
  symx_assert(comps.size() == classes, "as many components as equivalence classes");
  symx_reach("end");
}
