//@ time=200,800 parts=shift:3;area:4;extra:2
//# The overlapping-submaps trimmer removes exactly the finished submaps (with scans) that are among the freshest submaps in fewer cells than the configured area, for any configured area; a submap is as fresh as the latest scan of it, other constraints do not count; it only acts once more submaps were added than configured since its last run, and keeps unfinished submaps.
//b three submaps of two cells each, every cell known or not, three placements, all orders of freshness, one or two fresh submaps kept, minimum areas up to and beyond 65536 cells, 0 to 3 added submaps required
//s the pose graph is a recording stand-in for the Trimmable interface
#include "grid2d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "cartographer/transform/transform.h"
using namespace cartographer;
using namespace cartographer::mapping;
struct Graph : public Trimmable {
  MapById<SubmapId, PoseGraphInterface::SubmapData> submaps; MapById<NodeId, TrajectoryNode> nodes; std::vector<PoseGraphInterface::Constraint> constraints;
  std::vector<SubmapId> trimmed;
  int num_submaps(int) const override { return submaps.size(); }
  std::vector<SubmapId> GetSubmapIds(int) const override { std::vector<SubmapId> r; for (const auto& s : submaps) r.push_back(s.id); return r; }
  MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override { return submaps; }
  const MapById<NodeId, TrajectoryNode>& GetTrajectoryNodes() const override { return nodes; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override { return constraints; }
  void TrimSubmap(const SubmapId& id) override { trimmed.push_back(id); submaps.Trim(id); }
  bool IsFinished(int) const override { return false; }
  void SetTrajectoryState(int, PoseGraphInterface::TrajectoryState) override { symx_assert(false, "no trajectory changes its state"); }
};
static ValueConversionTables* tables;
static void AddSubmap(Graph* g, int index, int shift, const int* cells, bool finished) {
  proto::Submap2D p;
  p.set_num_range_data(1); p.set_finished(finished);
  // the submap's own origin does not matter, only its global pose and cells
  *p.mutable_local_pose() = transform::ToProto(transform::Rigid3d::Translation(Eigen::Vector3d(4., 1., 0.)));
  *p.mutable_grid() = MakeGridProto(2, 1, 1., 5., 2., cells);  // columns along x: the cells lie at x=4.5, y=1.5 and y=0.5
  auto* box = p.mutable_grid()->mutable_known_cells_box();
  box->set_max_x(1); box->set_max_y(0);
  g->submaps.Insert({0, index}, {std::make_shared<const Submap2D>(p, tables), transform::Rigid3d::Translation(Eigen::Vector3d(0., -shift, 0.))});
}
extern "C" void symx_main() {
  tables = FilledTables();
  const int shift = symx_choose("shift", 3), area_i = symx_choose("area", 4), extra = symx_choose("extra", 2), keep = 1 + symx_choose("keep", 2);
  static const int kArea[4] = {0, 1, 2, 65537};
  const int area = kArea[area_i];
  Graph g;
  bool known[3][2]; int at[3] = {0, 1, shift};  // global row of the first cell
  for (int s = 0; s < 3; ++s) {
    int cells[2];
    for (int c = 0; c < 2; ++c) { const int v = s == 1 && c == 1 ? 1 : symx_irange("cell", 0, 1); known[s][c] = v; cells[c] = v; }
    AddSubmap(&g, s, at[s], cells, true);
  }
  if (extra) { const int all[2] = {1, 1}; AddSubmap(&g, 3, 0, all, false); }  // not finished
  int64_t time[4];
  for (int n = 0; n < 4; ++n) {
    const int t = n < 3 ? symx_irange("time", 0, 8) : 100;
    time[n] = t;
    TrajectoryNode::Data data; data.time = common::FromUniversal(t);
    g.nodes.Insert(NodeId{0, n}, {std::make_shared<const TrajectoryNode::Data>(data), {}});
  }
  symx_assume(time[0] != time[1] && time[0] != time[2] && time[1] != time[2]);
  auto add = [&](int submap, int node, bool intra) { g.constraints.push_back({SubmapId{0, submap}, NodeId{0, node}, {}, intra ? PoseGraphInterface::Constraint::INTRA_SUBMAP : PoseGraphInterface::Constraint::INTER_SUBMAP}); };
  // submap 0 ends with node 1, submap 1 with node 2, submap 2 with node 0
  add(0, 1, true); add(0, 0, true); add(1, 1, true); add(1, 2, true); add(2, 0, true); add(0, 3, false); add(2, 2, false);
  if (extra) add(3, 3, true);
  const int64_t fresh[3] = {time[1], time[2], time[0]};
  const int required = symx_irange("required", 0, 4);
  OverlappingSubmapsTrimmer2D trimmer(keep, area, required);
  trimmer.Trim(&g);
  const int count = extra ? 4 : 3;
  bool want[3]; int removed = 0;
  for (int s = 0; s < 3; ++s) {
    int covers = 0;
    for (int c = 0; c < 2; ++c) {
      const int row = at[s] + c;
      int fresher = 0;
      for (int o = 0; o < 3; ++o) if (o != s) { const int oc = row - at[o]; if (oc >= 0 && oc < 2) fresher += known[o][oc] & (fresh[o] > fresh[s]); }
      covers += known[s][c] & (fresher < keep);
    }
    want[s] = (count > required) & ((covers < area) | (covers == 0));
    removed += want[s];
  }
  symx_assert(!trimmer.IsFinished(), "the trimmer goes on");
  for (int s = 0; s < 3; ++s) symx_assert(g.submaps.Contains(SubmapId{0, s}) != want[s], "exactly the submaps with too little fresh area are trimmed");
  symx_assert(!extra || g.submaps.Contains(SubmapId{0, 3}), "an unfinished submap is kept");
  const size_t before = g.trimmed.size();
  symx_assert(int(before) == removed, "each submap is trimmed once");
  if (count > required) {
    trimmer.Trim(&g);
    symx_assert(g.trimmed.size() == before, "without new submaps nothing is trimmed");
    // one more submap, covering nothing and without scans: counts as added, is not trimmed itself
    const int none[2] = {0, 0};
    AddSubmap(&g, 4, 9, none, true);
    add(4, 3, true);
    trimmer.Trim(&g);
    symx_assert(g.submaps.Contains(SubmapId{0, 4}) == (required >= 1), "after enough new submaps the trimmer acts again");
  }
  symx_reach("end");
}
