//@ time=280,850
//# Active 3D submaps: same life cycle as in 2D, in both resolutions; returns beyond the high-resolution range enter only the low-resolution grid; the rotational histogram sums up the scans; the proto carries a submap over exactly.
//b 8 scans (thorough 12), configured number any value from 1 up, one near and one far return per scan
#include "symx.h"
#include "cartographer/mapping/3d/submap_3d.h"
using namespace cartographer;
using namespace cartographer::mapping;
static Eigen::Vector3f Origin(int k) { return Eigen::Vector3f(0.3f * k, -0.2f * k, 0.5f); }
static Eigen::Vector3f Near(int k) { return Origin(k) + Eigen::Vector3f(0.05f, 1.05f + 0.8f * k, 0.f); }
static Eigen::Vector3f Far(int k) { return Origin(k) + Eigen::Vector3f(20.05f, 0.05f, 0.1f + 2.f * k); }
static bool Occupied(const HybridGrid& g, const Eigen::Vector3f& local) { const Eigen::Array3i c = g.GetCellIndex(local); return g.IsKnown(c) && g.GetProbability(c) > 0.5f; }
extern "C" void symx_main() {
  const int K = TIER ? 12 : 8;
  proto::SubmapsOptions3D options;
  const int n = symx_irange("num_range_data", 1, 1000000);
  options.set_num_range_data(n); options.set_high_resolution(0.1); options.set_low_resolution(0.5); options.set_high_resolution_max_range(15.);
  auto* p = options.mutable_range_data_inserter_options();
  p->set_hit_probability(0.7); p->set_miss_probability(0.4); p->set_num_free_space_voxels(0); p->set_intensity_threshold(100.);
  ActiveSubmaps3D active(options);
  symx_assert(active.submaps().empty(), "no submap before the first scan");
  std::vector<std::shared_ptr<const Submap3D>> all;
  for (int k = 0; k < K; ++k) {
    sensor::RangeData data; data.origin = Origin(k);
    data.returns = sensor::PointCloud({{Near(k)}, {Far(k)}});
    Eigen::VectorXf histogram = Eigen::VectorXf::Zero(4); histogram(k % 4) = 1.f;
    const auto now = active.InsertData(data, Eigen::Quaterniond::Identity(), histogram);
    symx_assert(now.size() == active.submaps().size() && now.size() >= 1 && now.size() <= 2, "one or two active submaps");
    if (all.empty() || now.back() != all.back()) all.push_back(now.back());
    const int newest = (int)all.size() - 1;
    symx_assert((int64_t)newest * n <= k && (int64_t)(newest + 1) * n > k, "a new submap starts every configured number of scans");
    symx_assert(now.size() == (newest > 0 ? 2u : 1u) && (newest == 0 || now.front() == all[newest - 1]), "the active submaps are the newest and its predecessor");
    for (int i = 0; i <= newest; ++i) {
      int64_t count = k + 1 - (int64_t)i * n; if (count > 2ll * n) count = 2ll * n;
      symx_assert(all[i]->num_range_data() == count, "a submap takes twice the configured number of scans");
      symx_assert(all[i]->insertion_finished() == (count == 2ll * n), "a submap is finished when it took all its scans");
    }
  }
  for (int i = 0; i < (int)all.size(); ++i) {
    const int first = (int)symx_concretize((uint64_t)((int64_t)i * n));
    const transform::Rigid3d pose = all[i]->local_pose();
    symx_assert(pose.translation() == Origin(first).cast<double>(), "a submap has its origin at its first scan");
    const proto::Submap proto = all[i]->ToProto(true);
    const Submap3D copy(proto.submap_3d());
    symx_assert(copy.num_range_data() == all[i]->num_range_data() && copy.insertion_finished() == all[i]->insertion_finished() && copy.local_pose().translation() == pose.translation(), "the proto carries a submap over");
    float total[4] = {0.f, 0.f, 0.f, 0.f};
    for (int k = 0; k < K; ++k) {
      const bool inside = k >= first && k < (int64_t)first + 2ll * n;
      if (inside) total[k % 4] += 1.f;
      const Eigen::Vector3f near = Near(k) - Origin(first), far = Far(k) - Origin(first);
      for (int c = 0; c < 2; ++c) {
        const Submap3D& s = c ? copy : *all[i];
        symx_assert(Occupied(s.high_resolution_hybrid_grid(), near) == inside && Occupied(s.low_resolution_hybrid_grid(), near) == inside && Occupied(s.low_resolution_hybrid_grid(), far) == inside, "a submap contains exactly the scans of its window");
        symx_assert(!Occupied(s.high_resolution_hybrid_grid(), far), "far returns stay out of the high resolution grid");
      }
    }
    for (int c = 0; c < 4; ++c) {
      const float a = all[i]->rotational_scan_matcher_histogram()(c) - total[c], b = copy.rotational_scan_matcher_histogram()(c) - total[c];
      symx_assert(a < 1e-4f && a > -1e-4f && b < 1e-4f && b > -1e-4f, "the histogram sums up the scans");
    }
  }
  symx_reach("end");
}
