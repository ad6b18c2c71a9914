//@ time=200,800
//# A submap that alone covers more cells than required is kept, however large it is.
//b one submap with 65546 known cells, any required area up to 65556 cells
//s the pose graph is a recording stand-in for the Trimmable interface
#include "grid2d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "cartographer/transform/transform.h"
using namespace cartographer;
using namespace cartographer::mapping;
struct Graph : public Trimmable {
  MapById<SubmapId, PoseGraphInterface::SubmapData> submaps; MapById<NodeId, TrajectoryNode> nodes; std::vector<PoseGraphInterface::Constraint> constraints;
  int trimmed = 0;
  int num_submaps(int) const override { return submaps.size(); }
  std::vector<SubmapId> GetSubmapIds(int) const override { return {}; }
  MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override { return submaps; }
  const MapById<NodeId, TrajectoryNode>& GetTrajectoryNodes() const override { return nodes; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override { return constraints; }
  void TrimSubmap(const SubmapId& id) override { ++trimmed; }
  bool IsFinished(int) const override { return false; }
  void SetTrajectoryState(int, PoseGraphInterface::TrajectoryState) override {}
};
extern "C" void symx_main() {
  ValueConversionTables* tables = FilledTables();
  const int kCells = 65536 + 10;
  std::vector<int> cells(kCells, 1);
  proto::Submap2D p;
  p.set_num_range_data(1); p.set_finished(true);
  *p.mutable_local_pose() = transform::ToProto(transform::Rigid3d::Identity());
  *p.mutable_grid() = MakeGridProto(2, kCells / 2, 1., 0., 0., cells.data());
  auto* box = p.mutable_grid()->mutable_known_cells_box();
  box->set_max_x(1); box->set_max_y(kCells / 2 - 1);
  Graph g;
  g.submaps.Insert({0, 0}, {std::make_shared<const Submap2D>(p, tables), transform::Rigid3d::Identity()});
  TrajectoryNode::Data data; data.time = common::FromUniversal(5);
  g.nodes.Insert(NodeId{0, 0}, {std::make_shared<const TrajectoryNode::Data>(data), {}});
  g.constraints.push_back({SubmapId{0, 0}, NodeId{0, 0}, {}, PoseGraphInterface::Constraint::INTRA_SUBMAP});
  const int area = symx_irange("area", 1, kCells + 10);
  OverlappingSubmapsTrimmer2D trimmer(1, area, 0);
  trimmer.Trim(&g);
  symx_assert(g.trimmed == (kCells < area), "a submap is kept exactly if it covers the required area");
  symx_reach("end");
}
