//@ time=150,600 parts=imu:2;accumulate:2;online:2;sg:4 skip=cartographer/mapping/pose_extrapolator.cc,cartographer/mapping/2d/submap_2d.cc,cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc,cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc,cartographer/sensor/internal/voxel_filter.cc
//# Local SLAM in 2D. Returns nearer than the minimum range are dropped and those beyond the maximum range become misses of the configured length along the same ray, every point is placed with the pose predicted for its own time, the configured number of scans is put together, levelled by gravity and cropped in height. The scan is matched from the prediction against the older submap, the resulting pose is the match levelled back, it is fed to the motion estimate, and everything inserted is placed by it. A scan is inserted exactly if the motion filter lets it through, and the node holds what was matched. Nothing is matched before the motion estimate has started.
//b five scans (six in the thorough tier) of one or two points at symbolic ranges 0 to 12 m (raster 0.25 m) in symbolic height, on a straight motion, tracking frame in four attitudes (the limits of the range themselves in two); ranges 1 to 10 m, rays of 5 m; scans put together one by one or in pairs; matches at symbolic offsets, turned or not
//s extrapolator, submaps, scan matchers and voxel filters are stand-ins that record; collator and motion filter are real
#include "localslam.h"
using namespace ls;
extern "C" void symx_main() {
  State state; w = &state;
  const bool imu = symx_choose("imu", 2), online = symx_choose("online", 2);
  const int num = 1 + symx_choose("accumulate", 2), sg = symx_choose("sg", 4);
  static const int kS[4] = {0, 2, 0, 1}, kG[4] = {0, 2, 1, 4};
  state.s = kS[sg]; state.g = kG[sg];
  state.vx = 0.5; state.vy = -0.25; state.vz = 0.125;
  mapping::proto::LocalTrajectoryBuilderOptions2D o;
  o.set_min_range(1.f); o.set_max_range(10.f); o.set_missing_data_ray_length(5.f);
  o.set_min_z(-0.8f); o.set_max_z(2.05f);
  o.set_num_accumulated_range_data(num); o.set_voxel_filter_size(0.25f);
  o.set_use_imu_data(imu); o.set_use_online_correlative_scan_matching(online);
  o.mutable_adaptive_voxel_filter_options()->set_max_length(2.f);
  o.mutable_real_time_correlative_scan_matcher_options()->set_linear_search_window(5.);
  o.mutable_ceres_scan_matcher_options()->set_translation_weight(3.);
  o.mutable_motion_filter_options()->set_max_time_seconds(100.);
  o.mutable_motion_filter_options()->set_max_distance_meters(1.1);
  o.mutable_motion_filter_options()->set_max_angle_radians(1.);
  o.mutable_pose_extrapolator_options()->mutable_constant_velocity()->set_pose_queue_duration(0.25);
  o.mutable_pose_extrapolator_options()->mutable_constant_velocity()->set_imu_gravity_time_constant(7.);
  o.mutable_submaps_options()->set_num_range_data(9);
  ValueConversionTables tables;
  state.make_submap = [&]() { return std::make_shared<Submap2D>(Eigen::Vector2f(0.f, 0.f), absl::make_unique<ProbabilityGrid>(MapLimits(1., Eigen::Vector2d(2., 2.), CellLimits(1, 1)), &tables), &tables); };
  Builder builder(o, {"laser"});
  sensor::OdometryData odometry{At(0.), Rigid3d::Translation(Vector3d(3., 4., 5.))};
  builder.AddOdometryData(odometry);
  symx_assert(state.odometry.empty() && !state.created, "odometry before the start is of no use");

  std::vector<Vector3d> returns, misses;   // placed by prediction, of the scans put together so far
  int accumulated = 0, results = 0, nodes = 0;
  Vector3d last_inserted(0, 0, 0); int last_turn = 0;
  bool started = false;
  double start_time = 0;
  const int scans = TIER ? 6 : 5;
  for (int k = 0; k < scans; ++k) {
    const double T = 1. + k;
    if (k == 1 && imu) {
      // before, there is no attitude
      const sensor::ImuData d{At(1.25), Vector3d(0, 0, 9.8), Vector3d(0.1, 0.2, 0.3)};
      builder.AddImuData(d);
      symx_assert(state.created && state.imu.size() == 1 && state.imu[0].time == d.time && state.imu[0].angular_velocity == d.angular_velocity && state.imu[0].linear_acceleration == d.linear_acceleration, "IMU data are used");
      symx_assert(state.poses.size() == 1 && state.poses[0].time == d.time && Near(state.poses[0].pose.translation(), Vector3d(0, 0, 0)), "the trajectory starts at the origin with the first IMU data");
      started = true; start_time = 1.25;
    }
    if (k == 2) { builder.AddOdometryData(odometry); symx_assert(int(state.odometry.size()) == 1 && state.odometry[0].time == odometry.time && Near(state.odometry[0].pose.translation(), odometry.pose.translation()), "odometry is used once started"); }
    // the scan
    const int count = k == 0 ? 1 : k == 1 ? 2 : 1;
    sensor::TimedPointCloudData data;
    data.time = At(T);
    data.origin = Eigen::Vector3f(0.25f, 0.f, 0.5f);
    std::vector<Vector3d> points; std::vector<double> when; std::vector<int> range;
    for (int i = 0; i < count; ++i) {
      const double dt = i + 1 == count ? 0. : -0.5;
      const int quarters = symx_irange("range", 0, 48), z = k == 2 ? symx_irange("z", -1, 1) : 0;
      // towards +x, +y or -x seen from the sensor, level or not
      Vector3d p(0.25, 0., 0.5);
      if (k == 0) p.x() += quarters * 0.25; else if (k == 1) p.y() += quarters * 0.25; else p.x() -= quarters * 0.25;
      p.z() = 0.5 + z;
      points.push_back(p); when.push_back(T + dt); range.push_back(quarters);
      data.ranges.push_back({p.cast<float>(), float(dt)});
    }
    // inexact rotations: keep away from the limits of the range
    if (sg >= 2) for (int i = 0; i < count; ++i) symx_assume((range[i] != 4) & (range[i] != 40));
    if (k == 2) for (int i = 0; i < count; ++i) symx_assume((range[i] > 8) & (range[i] != 40));   // slanted rays: keep away from the limits of the range
    // what the model expects
    if (!imu && !started) { started = true; start_time = T; }
    const bool used = started && when[0] >= start_time;
    bool full = false;
    if (used) {
      if (accumulated == 0) { returns.clear(); misses.clear(); }
      for (int i = 0; i < count; ++i) {
        const Vector3d pos = state.Position(when[i]);
        const Vector3d at = pos + Turned(state.s, state.g, points[i]);
        if (range[i] < 4) continue;
        const bool far = k == 2 ? range[i] >= 40 : range[i] > 40;
        if (!far) { returns.push_back(at); continue; }
        const Vector3d origin = pos + Turned(state.s, state.g, Vector3d(0.25, 0., 0.5));
        const double length = k == 2 ? std::sqrt(range[i] * range[i] * 0.0625 + (points[i].z() - 0.5) * (points[i].z() - 0.5)) : range[i] * 0.25;
        misses.push_back(origin + (at - origin) * (5. / length));
      }
      full = ++accumulated == num;
    }
    // levelled and cropped
    const Vector3d position = state.Position(T);
    auto level = [&](const std::vector<Vector3d>& c) {
      std::vector<Vector3d> r;
      for (const Vector3d& p : c) { const Vector3d q = TurnedBack(state.s, 0, p - position); if (q.z() >= -0.8 && q.z() <= 2.05) r.push_back(q); }
      return r;
    };
    std::vector<Vector3d> level_returns, level_misses, filtered;
    if (full) { level_returns = level(returns); level_misses = level(misses); accumulated = 0; }
    state.drop_high = k == 3 ? symx_choose("drop", 2) : 0;
    for (size_t i = state.drop_high; i < level_returns.size(); ++i) filtered.push_back(level_returns[i]);
    const bool result_expected = full && !filtered.empty();
    const bool matched = result_expected && nodes > 0;
    Vector3d match = Vector3d(position.x(), position.y(), 0); int turn = state.s;
    const int offset = symx_irange("offset", -5, 5);
    if (matched) {
      const int m = symx_choose("turn", k >= 2 ? 2 : 1);
      match.x() += offset * 0.25; turn = state.s + m;
    }
    const int asked = state.asked, correlated = state.correlated;
    Vector3d refined = Vector3d(position.x(), position.y(), 0); if (online) refined.y() += 0.75;
    state.correlate = [&](const Rigid3d& initial, const Cloud& cloud, const void* grid, Rigid3d* result) {
      symx_assert(Near(initial.translation(), Vector3d(position.x(), position.y(), 0)) && IsTurn(initial.rotation(), state.s, 0), "the search starts at the prediction");
      Same(cloud, filtered, "the levelled and filtered scan is matched");
      symx_assert(grid == state.submaps.front()->grid(), "scans are matched against the older submap");
      *result = Rigid3d(refined, Turn(state.s, 0));
    };
    state.match = [&](const Vector3d& target, const Rigid3d& initial, const Cloud& cloud, const void* grid, const Cloud&, const void*, bool, Rigid3d* result) {
      symx_assert(Near(target, Vector3d(position.x(), position.y(), 0)), "the match stays close to the prediction");
      symx_assert(Near(initial.translation(), refined) && IsTurn(initial.rotation(), state.s, 0), "the match starts at the best guess");
      Same(cloud, filtered, "the levelled and filtered scan is matched");
      symx_assert(grid == state.submaps.front()->grid(), "scans are matched against the older submap");
      *result = Rigid3d(match, Turn(turn, 0));
    };
    const size_t poses = state.poses.size() + (!imu && k == 0 ? 1 : 0), inserted = state.inserted.size();
    const auto result = builder.AddRangeData("laser", data);
    symx_assert((result != nullptr) == result_expected, "a result is given when enough scans with something to match have come");
    symx_assert(state.asked - asked == matched, "a scan is matched once, and not while there is no submap");
    symx_assert(state.correlated - correlated == (matched && online), "the search is run when configured");
    symx_assert(state.created == started, "the motion estimate starts with the first data it can use");
    if (!imu && k == 0) symx_assert(state.poses.size() >= 1 && state.poses[0].time == At(T) && Near(state.poses[0].pose.translation(), Vector3d(0, 0, 0)), "the trajectory starts at the origin");
    if (result == nullptr) {
      symx_assert(state.poses.size() == poses && state.inserted.size() == inserted, "without a result nothing changes");
      continue;
    }
    ++results;
    symx_assert(result->time == At(T), "a result has the time of its scan");
    symx_assert(Near(result->local_pose.translation(), match) && IsTurn(result->local_pose.rotation(), turn, state.g), "the pose is the match levelled back");
    symx_assert(state.poses.size() == poses + 1 && state.poses.back().time == At(T) && Near(state.poses.back().pose.translation(), match) && IsTurn(state.poses.back().pose.rotation(), turn, state.g), "the pose is fed to the motion estimate");
    auto place = [&](const std::vector<Vector3d>& c) { std::vector<Vector3d> r; for (const Vector3d& p : c) r.push_back(match + Turned(turn, 0, p)); return r; };
    auto placed = [&](const sensor::RangeData& d) {
      symx_assert(Near(d.origin.cast<double>(), match), "rays start where the match says");
      Same(Copy(d.returns), place(level_returns), "returns are placed by the match");
      Same(Copy(d.misses), place(level_misses), "misses are placed by the match");
    };
    placed(result->range_data_in_local);
    const double dx = match.x() - last_inserted.x(), dy = match.y() - last_inserted.y();
    const bool similar = nodes > 0 && dx * dx + dy * dy <= 1.21 && turn == last_turn;
    symx_assert((result->insertion_result == nullptr) == similar, "scans that hardly moved are not inserted, others are");
    symx_assert(state.inserted.size() == inserted + (similar ? 0 : 1), "inserted scans go into the submaps once");
    if (similar) continue;
    ++nodes; last_inserted = match; last_turn = turn;
    placed(state.inserted.back());
    if (result->insertion_result == nullptr) continue;
    const TrajectoryNode::Data& d = *result->insertion_result->constant_data;
    symx_assert(d.time == At(T) && IsTurn(d.gravity_alignment, 0, state.g), "a node has its time and its levelling");
    Same(Copy(d.filtered_gravity_aligned_point_cloud), filtered, "a node has the levelled and filtered scan");
    symx_assert(d.high_resolution_point_cloud.empty() && d.low_resolution_point_cloud.empty(), "a 2D node has no 3D data");
    symx_assert(Near(d.local_pose.translation(), match) && IsTurn(d.local_pose.rotation(), turn, state.g), "a node has its pose");
    symx_assert(result->insertion_result->insertion_submaps.size() == state.submaps.size() && result->insertion_result->insertion_submaps.front() == state.submaps.front() && result->insertion_result->insertion_submaps.back() == state.submaps.back(), "the submaps a node went into are named");
  }
  symx_reach("end");
  if (nodes > 1) symx_reach("second node");
  if (results > nodes) symx_reach("similar");
  if (!imu) {
    symx_expect_crash_begin("IMU data without use for them are refused");
    builder.AddImuData(sensor::ImuData{At(50.), Vector3d(0, 0, 9.8), Vector3d(0, 0, 0)});
    symx_expect_crash_end("IMU data without use for them are refused");
  }
}
