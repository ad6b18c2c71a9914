//@ time=280,850 parts=kind:2
//# Active 2D submaps: every scan goes into the current submap and its predecessor; each submap takes exactly twice the configured number of scans, starting one configured number after its predecessor, has its origin at its first scan, contains exactly the scans of its window, is then finished and never changes again; its proto carries it over exactly.
//b 8 scans (thorough 12), configured number any value from 1 up (all windows shorter than the history and all longer ones), one distinct return per scan
#include "symx.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/2d/probability_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
static Eigen::Vector3f Origin(int k) { return Eigen::Vector3f(0.3f * k, -0.2f * k, 0.5f); }
static Eigen::Vector2f Hit(int k) { return Eigen::Vector2f(0.25f + 0.4f * k, 1.05f); }
static int Read(const Submap2D& s, int k) {  // 0 unknown, 1 free, 2 occupied
  const auto& g = static_cast<const ProbabilityGrid&>(*s.grid());
  const Eigen::Array2i c = g.limits().GetCellIndex(Hit(k));
  if (!g.limits().Contains(c) || !g.IsKnown(c)) return 0;
  return g.GetProbability(c) > 0.5f ? 2 : 1;
}
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 2);
  const int K = TIER ? 12 : 8;
  proto::SubmapsOptions2D options;
  const int n = symx_irange("num_range_data", 1, 1000000);
  options.set_num_range_data(n);
  options.mutable_grid_options_2d()->set_grid_type(proto::GridOptions2D::PROBABILITY_GRID);
  options.mutable_grid_options_2d()->set_resolution(0.1f);
  auto* ins = options.mutable_range_data_inserter_options();
  ins->set_range_data_inserter_type(proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
  auto* p = ins->mutable_probability_grid_range_data_inserter_options_2d();
  p->set_hit_probability(0.7); p->set_miss_probability(0.4); p->set_insert_free_space(kind == 1);
  ActiveSubmaps2D active(options);
  symx_assert(active.submaps().empty(), "no submap before the first scan");
  std::vector<std::shared_ptr<const Submap2D>> all;
  for (int k = 0; k < K; ++k) {
    sensor::RangeData data; data.origin = Origin(k);
    data.returns.push_back({Eigen::Vector3f(Hit(k).x(), Hit(k).y(), 0.f)});
    const auto now = active.InsertRangeData(data);
    const auto again = active.submaps();
    symx_assert(now.size() == again.size() && now.size() >= 1 && now.size() <= 2, "one or two active submaps");
    if (all.empty() || now.back() != all.back()) all.push_back(now.back());
    // submap i was started by scan i * n
    const int newest = (int)all.size() - 1;
    symx_assert((int64_t)newest * n <= k && (int64_t)(newest + 1) * n > k, "a new submap starts every configured number of scans");
    symx_assert(now.size() == (newest > 0 ? 2u : 1u) && (newest == 0 || now.front() == all[newest - 1]), "the active submaps are the newest and its predecessor");
    for (size_t i = 0; i < now.size(); ++i) symx_assert(now[i] == again[i], "the result lists the active submaps");
    for (int i = 0; i <= newest; ++i) {
      int64_t count = k + 1 - (int64_t)i * n; if (count > 2ll * n) count = 2ll * n;
      symx_assert(all[i]->num_range_data() == count, "a submap takes twice the configured number of scans");
      symx_assert(all[i]->insertion_finished() == (count == 2ll * n), "a submap is finished when it took all its scans");
    }
  }
  for (int i = 0; i < (int)all.size(); ++i) {
    const int first = (int)symx_concretize((uint64_t)((int64_t)i * n));
    const transform::Rigid3d pose = all[i]->local_pose();
    symx_assert(pose.translation() == Eigen::Vector3d(Origin(first).x(), Origin(first).y(), 0.) && pose.rotation().w() == 1., "a submap has its origin at its first scan");
    for (int k = 0; k < K; ++k) {
      const bool inside = k >= first && k < (int64_t)first + 2ll * n;
      const int r = Read(*all[i], k);
      symx_assert(inside ? r == 2 : kind == 0 ? r == 0 : r != 2, "a submap contains exactly the scans of its window");
    }
    if (kind == 0) {
      const proto::Submap proto = all[i]->ToProto(true);
      ValueConversionTables tables;
      const Submap2D copy(proto.submap_2d(), &tables);
      bool same = copy.num_range_data() == all[i]->num_range_data() && copy.insertion_finished() == all[i]->insertion_finished() && copy.local_pose().translation() == pose.translation();
      for (int k = 0; k < K; ++k) same = same && Read(copy, k) == Read(*all[i], k);
      symx_assert(same, "the proto carries a submap over");
    }
  }
  symx_reach("end");
}
