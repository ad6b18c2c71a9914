//@ time=200,700 parts=kind:8
//# Point filters keep exactly the points that meet their criterion, in order and with their own intensities and colours, and pass everything else of a batch and the end of the stream on: range (closed interval around the sensor), vertical range, sampling ratio, frame ids to keep or drop, counting, colouring by frame, grey from intensity clamped to the range. Outlier removal takes three passes and drops exactly the points whose voxel is crossed by too many rays per hit.
//b batches of 3 points with or without intensities and colours; coordinates on a raster including the limits (range), any floats (vertical range, intensity)
#include "symx.h"
#include "cartographer/io/coloring_points_processor.h"
#include "cartographer/io/counting_points_processor.h"
#include "cartographer/io/fixed_ratio_sampling_points_processor.h"
#include "cartographer/io/frame_id_filtering_points_processor.h"
#include "cartographer/io/intensity_to_color_points_processor.h"
#include "cartographer/io/min_max_range_filtering_points_processor.h"
#include "cartographer/io/outlier_removing_points_processor.h"
#include "cartographer/io/vertical_range_filtering_points_processor.h"
using namespace cartographer;
using namespace cartographer::io;
struct Sink : public PointsProcessor {
  std::vector<std::unique_ptr<PointsBatch>> got; int flushed = 0; FlushResult answer = FlushResult::kFinished;
  void Process(std::unique_ptr<PointsBatch> b) override { got.push_back(std::move(b)); }
  FlushResult Flush() override { ++flushed; return answer; }
};
static const int kN = 3;
static std::unique_ptr<PointsBatch> Batch(const float (*p)[3], bool extra, const Eigen::Vector3f& origin, const char* frame) {
  std::unique_ptr<PointsBatch> b(new PointsBatch);
  b->frame_id = frame; b->trajectory_id = 5; b->origin = origin; b->start_time = common::FromUniversal(123);
  for (int i = 0; i < kN; ++i) { b->points.push_back({Eigen::Vector3f(p[i][0], p[i][1], p[i][2])}); if (extra) { b->intensities.push_back(10.f + i); b->colors.push_back({{0.1f * i, 0.5f, 0.f}}); } }
  return b;
}
static void Expect(const PointsBatch& b, const float (*p)[3], bool extra, const bool* keep) {
  size_t k = 0;
  for (int i = 0; i < kN; ++i) if (keep[i]) {
    symx_assert(k < b.points.size(), "a point that meets the criterion is kept");
    const Eigen::Vector3f& q = b.points[k].position;
    symx_assert(q.x() == p[i][0] && q.y() == p[i][1] && q.z() == p[i][2], "kept points are unchanged and in order");
    if (extra) symx_assert(b.intensities[k] == 10.f + i && b.colors[k][0] == 0.1f * i && b.colors[k][1] == 0.5f, "intensities and colours stay with their points");
    ++k;
  }
  symx_assert(b.points.size() == k, "a point that does not meet the criterion is dropped");
  symx_assert(b.intensities.size() == (extra ? k : 0) && b.colors.size() == (extra ? k : 0), "intensities and colours are as many as points");
  symx_assert(b.trajectory_id == 5 && b.start_time == common::FromUniversal(123), "the rest of the batch is unchanged");
}
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 8);
  Sink sink;
  float p[kN][3] = {{1.f, 2.f, 3.f}, {-1.f, 4.f, 0.5f}, {7.f, 0.f, -2.f}};
  bool keep[kN];
  const Eigen::Vector3f origin(2.f, -1.f, 0.5f);
  if (kind == 0) {
    const int extra = symx_choose("extra", 2);
    const Eigen::Vector3f o(1.f, -2.f, 0.f);
    for (int i = 0; i < kN; ++i) {
      const int a = symx_irange("a", 0, 6), b = symx_irange("b", 0, 5);
      p[i][0] = 1.f + 0.5f * a; p[i][1] = -2.f - 0.5f * b; p[i][2] = i == 1 ? 1.f : 0.f;
      const int sq = a * a + b * b + (i == 1 ? 4 : 0);  // in quarters; the limits are 1 and 2.5
      keep[i] = sq >= 4 && sq <= 25;
    }
    MinMaxRangeFilteringPointsProcessor f(1., 2.5, &sink);
    f.Process(Batch(p, extra, o, "f"));
    Expect(*sink.got.at(0), p, extra, keep);
    symx_assert(f.Flush() == PointsProcessor::FlushResult::kFinished && sink.flushed == 1, "the end is passed on");
  } else if (kind == 1) {
    const Eigen::Vector3f o(1.f, -2.f, 4.f);
    for (int i = 0; i < kN; ++i) { const float z = symx_f32_range("z", -1000.f, 1000.f); p[i][2] = z; const float d = z - 4.f; keep[i] = d >= -1.25 && d <= 2.5; }
    VerticalRangeFilteringPointsProcessor f(-1.25, 2.5, &sink);
    f.Process(Batch(p, true, o, "f"));
    Expect(*sink.got.at(0), p, true, keep);
    symx_assert(f.Flush() == PointsProcessor::FlushResult::kFinished && sink.flushed == 1, "the end is passed on");
  } else if (kind == 2) {
    const int ratio = symx_choose("ratio", 3), restart = symx_choose("restart", 2);
    const double r = ratio == 0 ? 0.5 : ratio == 1 ? 0.25 : 0.7;
    FixedRatioSamplingPointsProcessor f(r, &sink);
    sink.answer = restart ? PointsProcessor::FlushResult::kRestartStream : PointsProcessor::FlushResult::kFinished;
    int pulses = 0, kept = 0;
    for (int round = 0; round < 2; ++round) {
      for (int b = 0; b < 3; ++b) {
        f.Process(Batch(p, true, origin, "f"));
        const PointsBatch& g = *sink.got.back();
        symx_assert(g.points.size() == g.intensities.size() && g.points.size() == g.colors.size(), "intensities and colours are as many as points");
        pulses += kN; kept += g.points.size();
        symx_assert(kept >= r * pulses - 1e-9 && kept <= r * pulses + 1 + 1e-9, "the ratio is kept over all batches");
      }
      symx_assert(f.Flush() == sink.answer, "the answer to the end is passed on");
      if (restart) pulses = kept = 0;
    }
    if (restart) for (int b = 0; b < 3; ++b) symx_assert(sink.got[b]->points.size() == sink.got[b + 3]->points.size() && (sink.got[b]->intensities == sink.got[b + 3]->intensities), "after a restart the same points are sampled");
  } else if (kind == 3) {
    const int drop = symx_choose("drop", 2), which = symx_choose("which", 3);
    static const char* const kFrames[3] = {"a", "b", ""};
    absl::flat_hash_set<std::string> set, none;
    set.insert("a"); set.insert("c");
    FrameIdFilteringPointsProcessor f(drop ? none : set, drop ? set : none, &sink);
    f.Process(Batch(p, true, origin, kFrames[which]));
    const bool listed = which == 0;
    symx_assert(sink.got.size() == size_t(listed != (drop == 1)), "exactly the batches of the chosen frames are passed on");
    for (bool& k : keep) k = true;
    if (!sink.got.empty()) Expect(*sink.got[0], p, true, keep);
    symx_assert(f.Flush() == PointsProcessor::FlushResult::kFinished && sink.flushed == 1, "the end is passed on");
  } else if (kind == 4) {
    CountingPointsProcessor f(&sink);
    for (bool& k : keep) k = true;
    f.Process(Batch(p, true, origin, "f"));
    Expect(*sink.got.at(0), p, true, keep);
    sink.answer = symx_choose("restart", 2) ? PointsProcessor::FlushResult::kRestartStream : PointsProcessor::FlushResult::kFinished;
    symx_assert(f.Flush() == sink.answer && sink.flushed == 1, "the answer to the end is passed on");
  } else if (kind == 5) {
    const int same = symx_choose("same", 2), extra = symx_choose("extra", 2);
    ColoringPointsProcessor f(FloatColor{{0.2f, 0.3f, 0.4f}}, "f", &sink);
    f.Process(Batch(p, extra, origin, same ? "f" : "g"));
    const PointsBatch& b = *sink.got.at(0);
    if (!same) { for (bool& k : keep) k = true; Expect(b, p, extra, keep); }
    else { symx_assert(b.points.size() == 3 && b.colors.size() == 3 && b.intensities.size() == (extra ? 3 : 0), "every point of the frame is coloured"); for (const auto& c : b.colors) symx_assert(c[0] == 0.2f && c[1] == 0.3f && c[2] == 0.4f, "the colour is the configured one"); }
  } else if (kind == 6) {
    const int which = symx_choose("which", 3), extra = symx_choose("extra", 2);
    IntensityToColorPointsProcessor f(-20.f, 108.f, which == 0 ? "" : which == 1 ? "f" : "g", &sink);
    auto batch = Batch(p, extra, origin, "f");
    float in[kN];
    if (extra) for (int i = 0; i < kN; ++i) { in[i] = symx_f32_range("in", -1e6f, 1e6f); batch->intensities[i] = in[i]; }
    f.Process(std::move(batch));
    const PointsBatch& b = *sink.got.at(0);
    symx_assert(b.points.size() == 3, "no point is lost");
    if (!extra) symx_assert(b.colors.empty(), "without intensities nothing is coloured");
    else if (which == 2) symx_assert(b.colors.size() == 3 && b.colors[1][1] == 0.5f, "other frames keep their colours");
    else for (int i = 0; i < kN; ++i) {
      const float c = b.colors[i][0];
      symx_assert(b.colors.size() == 3 && b.colors[i][1] == c && b.colors[i][2] == c, "the colour is grey");
      const double want = (double(in[i]) + 20.) / 128.;
      symx_assert((want > 0. || c == 0.f) && (want < 1. || c == 1.f) && c >= 0.f && c <= 1.f && (want < 0. || want > 1. || (c - want <= 1e-5 && want - c <= 1e-5)), "the grey value is the intensity relative to the range, clamped");
    }
  } else {
    // voxels of 1 m along x; the sensor at 0.5: a point at n + 0.5 is hit once and crossed by every ray to a later point
    OutlierRemovingPointsProcessor f(1., 1.5, &sink);
    const Eigen::Vector3f o(0.25f, 0.f, 0.f);
    int cell[kN];
    for (int i = 0; i < kN; ++i) { cell[i] = symx_irange("cell", 1, 4); p[i][0] = cell[i] + 0.25f; p[i][1] = 0.f; p[i][2] = 0.f; }
    f.Process(Batch(p, true, o, "f"));
    symx_assert(f.Flush() == PointsProcessor::FlushResult::kRestartStream && sink.got.empty(), "three passes are needed");
    f.Process(Batch(p, true, o, "f"));
    symx_assert(f.Flush() == PointsProcessor::FlushResult::kRestartStream && sink.got.empty() && sink.flushed == 0, "three passes are needed");
    for (int i = 0; i < kN; ++i) {
      int hits = 0, rays = 0;
      for (int j = 0; j < kN; ++j) { hits += cell[j] == cell[i]; rays += cell[j] > cell[i]; }
      keep[i] = rays < 1.5 * hits;
    }
    f.Process(Batch(p, true, o, "f"));
    Expect(*sink.got.at(0), p, true, keep);
    symx_assert(f.Flush() == PointsProcessor::FlushResult::kFinished && sink.flushed == 1, "the end is passed on");
  }
  symx_reach("end");
}
