//@ time=200,700 parts=b0:3;b1:4 tparts=b0:4;b1:4
//# Iteration visits exactly the non-default cells, each once with its index and value; serialization reproduces the grid.
//b three cells at chosen positions (inside, negative, beyond the initial extent) with any 16-bit values including the default
#include "symx.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  static const int pos[5][3] = {{3, 0, 7}, {-64, 63, -1}, {70, -3, 5}, {-8, 8, -200}, {0, 0, 0}};
  int at[3] = {symx_choose("b0", TIER ? 4 : 3), symx_choose("b1", 4), 4};
  HybridGridBase<uint16> grid(0.25f);
  uint16 v[3]; bool live[3];
  for (int i = 0; i < 3; ++i) { v[i] = symx_u16("v"); }
  for (int i = 0; i < 3; ++i) *grid.mutable_value(Eigen::Array3i(pos[at[i]][0], pos[at[i]][1], pos[at[i]][2])) = v[i];
  live[0] = at[0] != at[1] && v[0] != 0; live[1] = v[1] != 0; live[2] = v[2] != 0;
  int seen[3] = {0, 0, 0}, total = 0;
  for (const auto it : grid) {
    ++total;
    bool match = false;
    for (int i = 0; i < 3; ++i) if (it.first.x() == pos[at[i]][0] && it.first.y() == pos[at[i]][1] && it.first.z() == pos[at[i]][2] && !(i == 0 && at[0] == at[1])) {
      match = true; ++seen[i];
      symx_assert(it.second == v[i] && it.second != 0, "iteration reports the value of the cell");
    }
    symx_assert(match, "iteration reports only written cells");
  }
  for (int i = 0; i < 3; ++i) symx_assert(seen[i] == (live[i] ? 1 : 0), "iteration visits every non-default cell exactly once");
  symx_observe("total", total);
  symx_reach("end");
}
