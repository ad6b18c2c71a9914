//@ time=150,600 parts=intensities:2;accumulate:2;online:2;sg:4 skip=cartographer/mapping/pose_extrapolator.cc,cartographer/mapping/pose_extrapolator_interface.cc,cartographer/mapping/3d/submap_3d.cc,cartographer/mapping/3d/range_data_inserter_3d.cc,cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc,cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.cc,cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc,cartographer/sensor/internal/voxel_filter.cc
//# Local SLAM in 3D. Returns nearer than the minimum range are dropped and those beyond the maximum range become misses at the maximum range, every point is placed with the pose predicted for its own time, the configured number of scans is put together, with their intensities where these are used. The scan is matched from the prediction, in the frame of the older submap and against its grids of both resolutions; the resulting pose is fed to the motion estimate and everything inserted is placed by it. A scan is inserted exactly if the motion filter lets it through; the node holds what was matched and the histogram of the levelled scan. Nothing is matched before the first IMU data, which start the motion estimate together with the configured initial data.
//b five scans (six in the thorough tier) of one or two points at symbolic ranges 0 to 12 m (raster 0.25 m), on a straight motion, tracking frame in four attitudes (the limits of the range themselves in two), ranges 1 to 10 m; scans put together one by one or in pairs; matches at symbolic offsets, turned or not
//s extrapolator, submaps, scan matchers, histogram and voxel filters are stand-ins that record; collator and motion filter are real
#define LS3
#include "localslam.h"
using namespace ls;
extern "C" void symx_main() {
  State state; w = &state;
  const bool intensities = symx_choose("intensities", 2), online = symx_choose("online", 2);
  const int num = 1 + symx_choose("accumulate", 2), sg = symx_choose("sg", 4);
  static const int kS[4] = {0, 2, 0, 1}, kG[4] = {0, 2, 1, 4};
  state.s = kS[sg]; state.g = kG[sg];
  state.vx = 0.5; state.vy = -0.25; state.vz = 0.125;
  mapping::proto::LocalTrajectoryBuilderOptions3D o;
  o.set_min_range(1.f); o.set_max_range(10.f);
  o.set_num_accumulated_range_data(num); o.set_voxel_filter_size(0.25f);
  o.set_use_intensities(intensities); o.set_use_online_correlative_scan_matching(online);
  o.set_rotational_histogram_size(3);
  o.mutable_high_resolution_adaptive_voxel_filter_options()->set_max_length(2.f);
  o.mutable_low_resolution_adaptive_voxel_filter_options()->set_max_length(4.f);
  o.mutable_real_time_correlative_scan_matcher_options()->set_linear_search_window(5.);
  o.mutable_ceres_scan_matcher_options()->set_translation_weight(3.);
  o.mutable_motion_filter_options()->set_max_time_seconds(100.);
  o.mutable_motion_filter_options()->set_max_distance_meters(1.1);
  o.mutable_motion_filter_options()->set_max_angle_radians(1.);
  o.mutable_pose_extrapolator_options()->mutable_constant_velocity()->set_pose_queue_duration(0.25);
  o.mutable_pose_extrapolator_options()->mutable_constant_velocity()->set_imu_gravity_time_constant(7.);
  o.mutable_submaps_options()->set_num_range_data(9);
  auto* const initial_pose = o.add_initial_poses();
  initial_pose->set_time(common::ToUniversal(At(0.5))); initial_pose->mutable_transform()->mutable_translation()->set_x(8.); initial_pose->mutable_transform()->mutable_rotation()->set_w(1.);
  auto* const initial_imu = o.add_initial_imu_data();
  initial_imu->set_timestamp(common::ToUniversal(At(0.75))); initial_imu->mutable_linear_acceleration()->set_z(9.75); initial_imu->mutable_angular_velocity()->set_x(0.);
  // submaps with a frame of their own
  const Vector3d submap_at(1., -2., 0.5);
  state.make_submap = [&]() { return std::make_shared<Submap3D>(0.1f, 0.5f, Rigid3d(submap_at, Turn(1, 0)), Eigen::VectorXf::Zero(3)); };
  auto in_submap = [&](const Vector3d& p) { return TurnedBack(1, 0, p - submap_at); };
  Builder builder(o, {"laser"});
  sensor::OdometryData odometry{At(0.), Rigid3d::Translation(Vector3d(3., 4., 5.))};
  builder.AddOdometryData(odometry);
  symx_assert(state.odometry.empty() && !state.created, "odometry before the start is of no use");

  std::vector<Vector3d> returns, misses;   // placed by prediction, of the scans put together so far
  std::vector<double> shine;
  int accumulated = 0, results = 0, nodes = 0;
  Vector3d last_inserted(0, 0, 0); int last_turn = 0;
  bool started = false;
  const double start_time = 1.25;
  const int scans = TIER ? 6 : 5;
  for (int k = 0; k < scans; ++k) {
    const double T = 1. + k;
    if (k == 1) {
      const sensor::ImuData d{At(start_time), Vector3d(0, 0, 9.8), Vector3d(0.1, 0.2, 0.3)};
      builder.AddImuData(d);
      symx_assert(state.created && state.first_imu.size() == 2 && state.first_imu[1].time == d.time && state.first_imu[1].angular_velocity == d.angular_velocity && state.first_imu[0].time == At(0.75) && state.first_imu[0].linear_acceleration.z() == 9.75, "the motion estimate starts with the initial and the first IMU data");
      symx_assert(state.first_poses.size() == 1 && state.first_poses[0].time == At(0.5) && state.first_poses[0].transform.translation().x() == 8., "the motion estimate starts with the initial poses");
      symx_assert(state.imu.empty(), "the first IMU data are used once");
      started = true;
    }
    if (k == 2) {
      builder.AddOdometryData(odometry);
      symx_assert(int(state.odometry.size()) == 1 && state.odometry[0].time == odometry.time && Near(state.odometry[0].pose.translation(), odometry.pose.translation()), "odometry is used once started");
      const sensor::ImuData d{At(2.25), Vector3d(0, 0.5, 9.8), Vector3d(0.1, 0.2, 0.3)};
      builder.AddImuData(d);
      symx_assert(state.imu.size() == 1 && state.imu[0].time == d.time && state.imu[0].linear_acceleration == d.linear_acceleration, "IMU data are used");
    }
    // the scan
    const int count = k == 0 ? 1 : k == 1 ? 2 : 1;
    sensor::TimedPointCloudData data;
    data.time = At(T);
    data.origin = Eigen::Vector3f(0.25f, 0.f, 0.5f);
    std::vector<Vector3d> points; std::vector<double> when; std::vector<int> range; std::vector<double> bright;
    for (int i = 0; i < count; ++i) {
      const double dt = i + 1 == count ? 0. : k == 1 ? -0.5 : -0.25;
      const int quarters = symx_irange("range", 0, 48);
      Vector3d p(0.25, 0., 0.5);
      if (k == 0) p.x() += quarters * 0.25; else if (k == 1) p.y() += quarters * 0.25; else if (k == 2) p.z() -= quarters * 0.25; else p.x() -= quarters * 0.25;
      points.push_back(p); when.push_back(T + dt); range.push_back(quarters); bright.push_back(10. * k + i + 1);
      data.ranges.push_back({p.cast<float>(), float(dt)});
      if (intensities) data.intensities.push_back(float(bright.back()));
    }
    // inexact rotations: keep away from the limits of the range
    if (sg >= 2) for (int i = 0; i < count; ++i) symx_assume((range[i] != 4) & (range[i] != 40));
    // what the model expects
    const bool used = started && when[0] >= start_time;
    bool full = false;
    if (used) {
      if (accumulated == 0) { returns.clear(); misses.clear(); shine.clear(); }
      for (int i = 0; i < count; ++i) {
        const Vector3d pos = state.Position(when[i]);
        const Vector3d at = pos + Turned(state.s, state.g, points[i]);
        if (range[i] < 4) continue;
        if (range[i] <= 40) { returns.push_back(at); shine.push_back(bright[i]); continue; }
        const Vector3d origin = pos + Turned(state.s, state.g, Vector3d(0.25, 0., 0.5));
        misses.push_back(origin + (at - origin) * (10. / (range[i] * 0.25)));
      }
      full = ++accumulated == num;
    }
    const Vector3d position = state.Position(T);
    auto tracking = [&](const std::vector<Vector3d>& c) {
      std::vector<Vector3d> r;
      for (const Vector3d& p : c) r.push_back(TurnedBack(state.s, state.g, p - position));
      return r;
    };
    std::vector<Vector3d> near_returns, near_misses, high, low;
    if (full) { near_returns = tracking(returns); near_misses = tracking(misses); accumulated = 0; }
    const int drop = k >= 3 ? symx_choose("drop", 3) : 0;
    state.drop_high = drop == 1; state.drop_low = drop == 2;
    for (size_t i = state.drop_high; i < near_returns.size(); ++i) high.push_back(near_returns[i]);
    for (size_t i = state.drop_low; i < near_returns.size(); ++i) low.push_back(near_returns[i]);
    const bool result_expected = full && !high.empty() && !low.empty();
    const bool matched = result_expected && nodes > 0;
    Vector3d match = position; int turn = state.s;
    const int offset = symx_irange("offset", -5, 5);
    if (matched) {
      const int m = symx_choose("turn", k == 3 ? 2 : 1);
      match.x() += offset * 0.25; turn = state.s + m;
    }
    const int asked = state.asked, correlated = state.correlated;
    const Vector3d prediction = in_submap(position);
    Vector3d refined = prediction; if (online) refined.y() += 0.75;
    state.correlate = [&](const Rigid3d& initial, const Cloud& cloud, const void* grid, Rigid3d* result) {
      symx_assert(Near(initial.translation(), prediction) && IsTurn(initial.rotation(), state.s - 1, state.g), "the search starts at the prediction, seen from the submap");
      Same(cloud, high, "the search uses the scan in high resolution");
      symx_assert(grid == &state.submaps.front()->high_resolution_hybrid_grid(), "scans are matched against the older submap");
      *result = Rigid3d(refined, Turn(state.s - 1, state.g));
    };
    state.match = [&](const Vector3d& target, const Rigid3d& initial, const Cloud& h, const void* high_grid, const Cloud& l, const void* low_grid, bool use_intensities, Rigid3d* result) {
      symx_assert(Near(target, prediction), "the match stays close to the prediction");
      symx_assert(Near(initial.translation(), refined) && IsTurn(initial.rotation(), state.s - 1, state.g), "the match starts at the best guess");
      Same(h, high, "the scan in high resolution is matched");
      Same(l, low, "the scan in low resolution is matched");
      symx_assert(high_grid == &state.submaps.front()->high_resolution_hybrid_grid() && low_grid == &state.submaps.front()->low_resolution_hybrid_grid(), "each resolution is matched against that of the older submap");
      symx_assert(use_intensities == intensities, "intensities are matched when configured");
      *result = Rigid3d(in_submap(match), Turn(turn - 1, state.g));
    };
    state.histogram = [&](const Cloud& c) {
      std::vector<Vector3d> level;
      for (const Vector3d& p : near_returns) level.push_back(Turned(0, state.g, p));
      Same(c, level, "the histogram is that of the levelled scan");
    };
    const size_t poses = state.poses.size(), inserted = state.inserted.size();
    const auto result = builder.AddRangeData("laser", data);
    symx_assert((result != nullptr) == result_expected, "a result is given when enough scans with something to match have come");
    symx_assert(state.asked - asked == matched, "a scan is matched once, and not while there is no submap");
    symx_assert(state.correlated - correlated == (matched && online), "the search is run when configured");
    symx_assert(state.created == started, "the motion estimate starts with the first IMU data");
    if (result == nullptr) {
      symx_assert(state.poses.size() == poses && state.inserted.size() == inserted, "without a result nothing changes");
      continue;
    }
    ++results;
    symx_assert(result->time == At(T), "a result has the time of its scan");
    symx_assert(Near(result->local_pose.translation(), match) && IsTurn(result->local_pose.rotation(), turn, state.g), "the pose is the match, seen from the map");
    symx_assert(state.poses.size() == poses + 1 && state.poses.back().time == At(T) && Near(state.poses.back().pose.translation(), match) && IsTurn(state.poses.back().pose.rotation(), turn, state.g), "the pose is fed to the motion estimate");
    auto place = [&](const std::vector<Vector3d>& c) { std::vector<Vector3d> r; for (const Vector3d& p : c) r.push_back(match + Turned(turn, state.g, p)); return r; };
    auto placed = [&](const sensor::RangeData& d) {
      symx_assert(Near(d.origin.cast<double>(), match), "rays start where the match says");
      const Cloud c = Copy(d.returns);
      Same(c, place(near_returns), "returns are placed by the match");
      Same(Copy(d.misses), place(near_misses), "misses are placed by the match");
      symx_assert(c.intensity.size() == (intensities ? shine.size() : 0), "intensities go with the returns");
      for (size_t i = 0; i < c.intensity.size() && i < shine.size(); ++i) symx_assert(c.intensity[i] == shine[i], "every return keeps its intensity");
    };
    placed(result->range_data_in_local);
    const Vector3d step = match - last_inserted;
    const bool similar = nodes > 0 && step.x() * step.x() + step.y() * step.y() + step.z() * step.z() <= 1.21 && turn == last_turn;
    symx_assert((result->insertion_result == nullptr) == similar, "scans that hardly moved are not inserted, others are");
    symx_assert(state.inserted.size() == inserted + (similar ? 0 : 1), "inserted scans go into the submaps once");
    if (similar) continue;
    ++nodes; last_inserted = match; last_turn = turn;
    placed(state.inserted.back());
    symx_assert(IsTurn(state.inserted_rotation.back(), turn, 0), "submaps get the rotation of the levelled frame");
    if (result->insertion_result == nullptr) continue;
    const TrajectoryNode::Data& d = *result->insertion_result->constant_data;
    symx_assert(d.time == At(T) && IsTurn(d.gravity_alignment, 0, state.g), "a node has its time and its levelling");
    Same(Copy(d.high_resolution_point_cloud), high, "a node has the scan in high resolution");
    Same(Copy(d.low_resolution_point_cloud), low, "a node has the scan in low resolution");
    symx_assert(d.filtered_gravity_aligned_point_cloud.empty(), "a 3D node has no 2D data");
    symx_assert(d.rotational_scan_matcher_histogram.size() == 3 && d.rotational_scan_matcher_histogram[2] == 11.f, "a node has the histogram of its scan");
    symx_assert(Near(d.local_pose.translation(), match) && IsTurn(d.local_pose.rotation(), turn, state.g), "a node has its pose");
    symx_assert(result->insertion_result->insertion_submaps.size() == state.submaps.size() && result->insertion_result->insertion_submaps.front() == state.submaps.front() && result->insertion_result->insertion_submaps.back() == state.submaps.back(), "the submaps a node went into are named");
  }
  symx_reach("end");
  if (nodes > 1) symx_reach("second node");
  if (results > nodes) symx_reach("similar");
  if (intensities) {
    sensor::TimedPointCloudData data;
    data.time = At(50.); data.origin = Eigen::Vector3f::Zero();
    data.ranges.push_back({Eigen::Vector3f(2.f, 0.f, 0.f), 0.f});
    symx_expect_crash_begin("a scan without its intensities is refused");
    builder.AddRangeData("laser", data);
    symx_expect_crash_end("a scan without its intensities is refused");
  }
}
