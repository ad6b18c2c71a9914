//@ time=100,400 parts=three:2;trimmer:5 skip=cartographer/mapping/map_builder.cc,cartographer/mapping/internal/2d/pose_graph_2d.cc,cartographer/mapping/internal/3d/pose_graph_3d.cc
//# Adding trajectories: consecutive numbers, options and sensors recorded exactly as given, the configured trimmer and initial pose handed to the pose graph under the trajectory's own number. A query for a submap gives its contents and global pose, or says that trajectory or submap do not exist.
//b up to two trajectories, each with none to three sensors of symbolic kinds, the five ways to configure localisation, initial pose with symbolic time and reference or none; queries for any submap id
//s pose graph, local SLAM and trajectory builders are recording stand-ins
#include "mapbuilder.h"
using namespace cartographer;
using namespace cartographer::mapping;
using SensorId = TrajectoryBuilderInterface::SensorId;
struct OneSubmap : public Submap {
  OneSubmap() : Submap(transform::Rigid3d::Identity()) {}
  proto::Submap ToProto(bool) const override { return {}; }
  void UpdateFromProto(const proto::Submap&) override {}
  void ToResponseProto(const transform::Rigid3d& pose, proto::SubmapQuery::Response* r) const override { r->set_submap_version(int(pose.translation().x())); }
};
struct FakeTrimmable : public Trimmable {
  std::vector<SubmapId> ids, trimmed; int asked = -1; bool finished = false;
  int num_submaps(int) const override { return ids.size(); }
  std::vector<SubmapId> GetSubmapIds(int t) const override { const_cast<FakeTrimmable*>(this)->asked = t; return ids; }
  MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override { return {}; }
  const MapById<NodeId, TrajectoryNode>& GetTrajectoryNodes() const override { static const auto* const m = new MapById<NodeId, TrajectoryNode>; return *m; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override { static const auto* const c = new std::vector<PoseGraphInterface::Constraint>; return *c; }
  void TrimSubmap(const SubmapId& id) override { trimmed.push_back(id); }
  bool IsFinished(int) const override { return finished; }
  void SetTrajectoryState(int, PoseGraphInterface::TrajectoryState) override {}
};
extern "C" void symx_main() {
  const int three = symx_choose("three", 2), trimmer = symx_choose("trimmer", 5), existing = symx_choose("existing", 2), num_sensors = symx_choose("sensors", 4), initial = symx_choose("initial", 2);
  proto::MapBuilderOptions options;
  options.set_use_trajectory_builder_2d(!three); options.set_use_trajectory_builder_3d(three); options.set_num_background_threads(1);
  MapBuilder map_builder(options);
  auto* const graph = static_cast<StateGraph*>(map_builder.pose_graph());
  if (existing) map_builder.AddTrajectoryBuilder({}, {}, nullptr);
  static const char* const kNames[3] = {"a", "b", "c"};
  int type[3];
  std::set<SensorId> sensors;
  for (int i = 0; i < num_sensors; ++i) { const int k = symx_choose("type", 6); type[i] = k; sensors.insert(SensorId{static_cast<SensorId::SensorType>(k), kNames[i]}); }
  proto::TrajectoryBuilderOptions t;
  if (three) t.mutable_trajectory_builder_3d_options(); else t.mutable_trajectory_builder_2d_options();
  const int keep = 2 + symx_choose("keep", 3);
  // 0 mapping, 1 trimmer, 2 old flag, 3 both, 4 old flag off
  if (trimmer == 1 || trimmer == 3) t.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(keep);
  if (trimmer >= 2) t.set_pure_localization(trimmer != 4);
  const int64_t time = symx_i64("time");
  symx_assume(time > -(int64_t(1) << 60) && time < (int64_t(1) << 60));
  const int to = symx_irange("to", 0, 5), x = symx_irange("x", -50, 50);
  if (initial) {
    auto* const p = t.mutable_initial_trajectory_pose();
    p->set_to_trajectory_id(to); p->set_timestamp(time);
    p->mutable_relative_pose()->mutable_translation()->set_x(x); p->mutable_relative_pose()->mutable_rotation()->set_w(1.);
  }
  const int id = map_builder.AddTrajectoryBuilder(sensors, t, nullptr);
  symx_assert(id == existing && map_builder.num_trajectory_builders() == existing + 1, "trajectories get consecutive numbers");
  const auto& all = map_builder.GetAllTrajectoryBuilderOptions();
  symx_assert(int(all.size()) == existing + 1, "options are recorded for every trajectory");
  symx_assert(all[id].sensor_id_size() == num_sensors, "all sensors are recorded");
  for (int i = 0; i < num_sensors; ++i) {
    int found = 0;
    for (const auto& s : all[id].sensor_id()) if (s.id() == kNames[i]) { ++found; symx_assert(FromProto(s).type == static_cast<SensorId::SensorType>(type[i]), "sensors are recorded with their kind"); }
    symx_assert(found == 1, "every sensor is recorded");
  }
  const auto& o = all[id].trajectory_builder_options();
  symx_assert(o.has_initial_trajectory_pose() == bool(initial) && o.pure_localization() == (trimmer == 2 || trimmer == 3) && o.has_trajectory_builder_2d_options() == !three && o.has_trajectory_builder_3d_options() == bool(three), "options are recorded as given");
  symx_assert(graph->initial.size() == size_t(initial), "an initial pose is set if and only if one is given");
  if (initial) symx_assert((graph->initial[0].from == id) & (graph->initial[0].to == to) & (graph->initial[0].pose.translation().x() == double(x)) & (graph->initial[0].time == common::FromUniversal(time)), "the initial pose of the trajectory is relative to the given one at the given time");
  const auto* const collated = static_cast<const CollatedTrajectoryBuilder*>(map_builder.GetTrajectoryBuilder(id));
  const auto* const wrapped = static_cast<const StandInBuilder*>(collated->wrapped.get());
  symx_assert(collated->trajectory_id == id && wrapped->trajectory_id == id && wrapped->graph == graph && wrapped->local, "data go to the trajectory's own part of the pose graph");
  symx_assert(collated->sensor_ids.size() == size_t(num_sensors), "the collator expects all sensors");
  size_t ranges = 0;
  for (int i = 0; i < num_sensors; ++i) if (type[i] == 0) { symx_assert(ranges < wrapped->range_ids.size() && wrapped->range_ids[ranges] == kNames[i], "local SLAM expects the range sensors"); ++ranges; }
  symx_assert(wrapped->range_ids.size() == ranges, "local SLAM expects only range sensors");
  // localisation
  const int want = trimmer == 0 || trimmer == 4 ? 0 : 1;
  symx_assert(graph->trimmers == want, "a trimmer is added if and only if the trajectory is for localisation");
  if (want) {
    FakeTrimmable f;
    for (int i = 0; i < 6; ++i) f.ids.push_back(SubmapId{id, i});
    graph->trimmer_list[0]->Trim(&f);
    symx_assert(f.asked == id && int(f.trimmed.size()) == 6 - (trimmer == 1 ? keep : 3), "the trimmer keeps the configured number of submaps of the trajectory");
  }
  // submap queries
  graph->submaps.Insert(SubmapId{id, 2}, {std::make_shared<const OneSubmap>(), transform::Rigid3d::Translation(Eigen::Vector3d(7., 0., 0.))});
  const int qt = symx_irange("query_trajectory", -2, 3), qs = symx_irange("query_submap", -1, 3);
  proto::SubmapQuery::Response response;
  const std::string error = map_builder.SubmapToProto(SubmapId{qt, qs}, &response);
  const bool known = (qt == id) & (qs == 2);
  symx_assert(error.empty() == known, "a query fails if and only if there is no such submap");
  symx_assert(response.submap_version() == (known ? 7 : 0), "a query gives the submap at its global pose");
  symx_observe("error", error.size() != 0);
  symx_reach("end");
}
