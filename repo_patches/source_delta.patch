From 20700d97a7fb2e48711b01e67dfe05fcef16c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:39 +0000
Subject: [PATCH 01/13] fix: grow the TSDF grid by the full 2D truncation
 distance

Rays are cast in 2D and reach the truncation distance behind a hit in the
xy-plane, but the grid was grown along the 3D ray. For hits above or below
the origin the ray could leave the grid and the insertion aborted.
---
 .../internal/2d/tsdf_range_data_inserter_2d.cc       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc b/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
index 7e6bd3f..4236f20 100644
--- a/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
+++ b/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
@@ -34,11 +34,13 @@ void GrowAsNeeded(const sensor::RangeData& range_data,
                   const float truncation_distance, TSDF2D* const tsdf) {
   Eigen::AlignedBox2f bounding_box(range_data.origin.head<2>());
   for (const sensor::RangefinderPoint& hit : range_data.returns) {
-    const Eigen::Vector3f direction =
-        (hit.position - range_data.origin).normalized();
-    const Eigen::Vector3f end_position =
-        hit.position + truncation_distance * direction;
-    bounding_box.extend(end_position.head<2>());
+    // Rays are cast in 2D, so they extend by the full truncation distance in the
+    // xy-plane regardless of their slope.
+    const Eigen::Vector2f direction =
+        (hit.position - range_data.origin).head<2>().normalized();
+    const Eigen::Vector2f end_position =
+        hit.position.head<2>() + truncation_distance * direction;
+    bounding_box.extend(end_position);
   }
   // Padding around bounding box to avoid numerical issues at cell boundaries.
   constexpr float kPadding = 1e-6f;
-- 
2.43.0


From 357aec72d730d675a64a728dcc961ca8b5ceb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:33 +0000
Subject: [PATCH 02/13] fix: forget the extrapolated pose when a pose is added

ExtrapolatePose caches its last result by time. AddPose did not invalidate the
cache, so asking for the time of a pose that had been predicted before returned
the prediction instead of the added pose.
---
 cartographer/mapping/pose_extrapolator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..9ea1f56 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -76,6 +76,9 @@ void PoseExtrapolator::AddPose(const common::Time time,
         absl::make_unique<ImuTracker>(gravity_time_constant_, tracker_start);
   }
   timed_pose_queue_.push_back(TimedPose{time, pose});
+  // A pose extrapolated from the previous poses must not be returned anymore.
+  cached_extrapolated_pose_ =
+      TimedPose{common::Time::min(), transform::Rigid3d::Identity()};
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
     timed_pose_queue_.pop_front();
-- 
2.43.0


From 3b2182e969ffcbb3ea3cfa1b2ec7cfb8556dd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:44 +0000
Subject: [PATCH 03/13] fix: count covered cells of a submap without 16-bit
 overflow

A finished submap covering 65536 cells or more was counted modulo 65536 and
could be trimmed although it covers far more than the configured minimum area;
a minimum area of more than 65535 cells overflowed as well.
---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..f1e7641 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -145,8 +145,8 @@ std::map<SubmapId, common::Time> ComputeSubmapFreshness(
 std::vector<SubmapId> FindSubmapIdsToTrim(
     const SubmapCoverageGrid2D& coverage_grid,
     const std::set<SubmapId>& all_submap_ids, uint16 fresh_submaps_count,
-    uint16 min_covered_cells_count) {
-  std::map<SubmapId, uint16> submap_to_covered_cells_count;
+    int min_covered_cells_count) {
+  std::map<SubmapId, int> submap_to_covered_cells_count;
   for (const auto& cell : coverage_grid.cells()) {
     std::vector<std::pair<SubmapId, common::Time>> submaps_per_cell(
         cell.second);
-- 
2.43.0


From 3e28a639260f289786e025560baa4893235ba02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 04/13] fix: report failed opening and closing of output files

std::ofstream signals both with failbit only, so checking bad() let the file
writer claim success for a file that could not be opened or whose buffered data
could not be written when closing it.
---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From de38744fa76e41950a2bca9ae6bcc9fbbb0593dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 05/13] fix: never write PCD points that do not match the
 header

Whether points carry a color was decided per batch while the header follows the
first batch, so a stream mixing batches with and without colors silently gave a
corrupt file. Do as the PLY writer does.
---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From 91d93a2831a91a4d663f92cfa053ecde242994b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 06/13] fix: initialize has_intensities_ of the PLY writer

Without any points Flush() wrote a header depending on uninitialized memory.
---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From af633f1d1d78732b9f9ed7092dd4c73d9e8c44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:21 +0000
Subject: [PATCH 07/13] fix: save trajectories without submaps and nodes with
 the pose graph

The trajectory options were saved for all trajectories that were not deleted, but
the pose graph only listed those with data, so that such a state could not be
loaded.
---
 cartographer/mapping/pose_graph.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cartographer/mapping/pose_graph.cc b/cartographer/mapping/pose_graph.cc
index 097e8db..48aafd0 100644
--- a/cartographer/mapping/pose_graph.cc
+++ b/cartographer/mapping/pose_graph.cc
@@ -146,6 +146,13 @@ proto::PoseGraph PoseGraph::ToProto(bool include_unfinished_submaps) const {
     return trajectory_protos.at(trajectory_id);
   };
 
+  // Trajectories without submaps and nodes are part of the state as well.
+  for (const auto& trajectory_id_state : GetTrajectoryStates()) {
+    if (trajectory_id_state.second != TrajectoryState::DELETED) {
+      trajectory(trajectory_id_state.first);
+    }
+  }
+
   std::set<mapping::SubmapId> unfinished_submaps;
   for (const auto& submap_id_data : GetAllSubmapData()) {
     proto::Trajectory* trajectory_proto =
-- 
2.43.0


From aa9acabfe31b627eb8e8b9709ac25394d069f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:46 +0000
Subject: [PATCH 08/13] fix: save sensor data only of trajectories that are
 part of the state

IMU, odometry, fixed-frame pose and landmark data of a deleted or not yet
registered trajectory made the saved state impossible to load.
---
 .../internal/mapping_state_serialization.cc   | 39 ++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 8305e7a..c54bf8a 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -16,6 +16,8 @@
 
 #include "cartographer/io/internal/mapping_state_serialization.h"
 
+#include <algorithm>
+
 #include "cartographer/mapping/proto/serialization.pb.h"
 #include "cartographer/transform/transform.h"
 
@@ -140,8 +142,10 @@ void SerializeTrajectoryData(
 }
 
 void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
+                      const std::vector<int>& trajectory_ids_to_serialize,
                       ProtoStreamWriterInterface* const writer) {
-  for (const int trajectory_id : all_imu_data.trajectory_ids()) {
+  for (const int trajectory_id : trajectory_ids_to_serialize) {
+    if (!all_imu_data.HasTrajectory(trajectory_id)) continue;
     for (const auto& imu_data : all_imu_data.trajectory(trajectory_id)) {
       SerializedData proto;
       auto* const imu_data_proto = proto.mutable_imu_data();
@@ -154,8 +158,10 @@ void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
 
 void SerializeOdometryData(
     const sensor::MapByTime<sensor::OdometryData>& all_odometry_data,
+    const std::vector<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
-  for (const int trajectory_id : all_odometry_data.trajectory_ids()) {
+  for (const int trajectory_id : trajectory_ids_to_serialize) {
+    if (!all_odometry_data.HasTrajectory(trajectory_id)) continue;
     for (const auto& odometry_data :
          all_odometry_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -171,8 +177,10 @@ void SerializeOdometryData(
 void SerializeFixedFramePoseData(
     const sensor::MapByTime<sensor::FixedFramePoseData>&
         all_fixed_frame_pose_data,
+    const std::vector<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
-  for (const int trajectory_id : all_fixed_frame_pose_data.trajectory_ids()) {
+  for (const int trajectory_id : trajectory_ids_to_serialize) {
+    if (!all_fixed_frame_pose_data.HasTrajectory(trajectory_id)) continue;
     for (const auto& fixed_frame_pose_data :
          all_fixed_frame_pose_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -189,9 +197,16 @@ void SerializeFixedFramePoseData(
 void SerializeLandmarkNodes(
     const std::map<std::string, PoseGraphInterface::LandmarkNode>&
         all_landmark_nodes,
+    const std::vector<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& node : all_landmark_nodes) {
     for (const auto& observation : node.second.landmark_observations) {
+      if (std::find(trajectory_ids_to_serialize.begin(),
+                    trajectory_ids_to_serialize.end(),
+                    observation.trajectory_id) ==
+          trajectory_ids_to_serialize.end()) {
+        continue;
+      }
       SerializedData proto;
       auto* landmark_data_proto = proto.mutable_landmark_data();
       landmark_data_proto->set_trajectory_id(observation.trajectory_id);
@@ -216,21 +231,27 @@ void WritePbStream(
     const std::vector<mapping::proto::TrajectoryBuilderOptionsWithSensorIds>&
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
+  const std::vector<int> trajectory_ids_to_serialize =
+      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates());
   writer->WriteProto(CreateHeader());
   writer->WriteProto(
       SerializePoseGraph(pose_graph, include_unfinished_submaps));
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
-      trajectory_builder_options,
-      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates())));
+      trajectory_builder_options, trajectory_ids_to_serialize));
 
   SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
                    writer);
   SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
   SerializeTrajectoryData(pose_graph.GetTrajectoryData(), writer);
-  SerializeImuData(pose_graph.GetImuData(), writer);
-  SerializeOdometryData(pose_graph.GetOdometryData(), writer);
-  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(), writer);
-  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), writer);
+  // Sensor data of other trajectories, e.g. deleted ones, could not be loaded.
+  SerializeImuData(pose_graph.GetImuData(), trajectory_ids_to_serialize,
+                   writer);
+  SerializeOdometryData(pose_graph.GetOdometryData(),
+                        trajectory_ids_to_serialize, writer);
+  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(),
+                              trajectory_ids_to_serialize, writer);
+  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(),
+                         trajectory_ids_to_serialize, writer);
 }
 
 }  // namespace io
-- 
2.43.0


From 00365d7772a666779e80da862984c24cb25b9adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 09/13] fix: keep the picture of an empty 3D submap empty and
 at the submap

Submap3D::ToResponseProto computed the extent of no voxels at all from its
initial limits, which overflows and puts the slice far away.
---
 cartographer/mapping/3d/submap_3d.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cartographer/mapping/3d/submap_3d.cc b/cartographer/mapping/3d/submap_3d.cc
index 9facbe4..0c0d0e9 100644
--- a/cartographer/mapping/3d/submap_3d.cc
+++ b/cartographer/mapping/3d/submap_3d.cc
@@ -157,6 +157,14 @@ void AddToTextureProto(
   const std::vector<Eigen::Array4i> voxel_indices_and_probabilities =
       ExtractVoxelData(hybrid_grid, global_submap_pose.cast<float>(),
                        &min_index, &max_index);
+  if (voxel_indices_and_probabilities.empty()) {
+    // Without obstructed cells, the texture is a single unobserved pixel at the
+    // origin of the submap.
+    min_index = Eigen::Array2i(
+        common::RoundToInt(global_submap_pose.translation().x() / resolution),
+        common::RoundToInt(global_submap_pose.translation().y() / resolution));
+    max_index = min_index;
+  }
 
   const int width = max_index.y() - min_index.y() + 1;
   const int height = max_index.x() - min_index.x() + 1;
-- 
2.43.0


From 5d912eee82b44a611ed8e2d3486a8e358e07b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 10/13] fix: forget the pose of a trimmed submap of the last
 optimisation

PoseGraphTrimmer left the last submap of a trajectory in the optimised poses, so
later conversions from local to global looked up submaps that no longer exist.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 3 +++
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..c451605 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1279,6 +1279,9 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  if (parent_->data_.global_submap_poses_2d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_2d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..9c3841c 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1259,6 +1259,9 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  if (parent_->data_.global_submap_poses_3d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_3d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
-- 
2.43.0


From d53f02759da61f45efdf54013605a3fccc6ecc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 11/13] fix: read the trajectory state under the mutex when
 adding a submap

AddSubmapFromProto looked up whether its trajectory is frozen without holding
the mutex, racing with work items that change trajectory states.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 14 +++++++-------
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index c451605..1dff406 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -709,14 +709,14 @@ void PoseGraph2D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_2d.Insert(
         submap_id, optimization::SubmapSpec2D{global_submap_pose_2d});
-  }
 
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
+    // so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem(
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 9c3841c..1ec02d8 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -693,14 +693,14 @@ void PoseGraph3D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_3d.Insert(
         submap_id, optimization::SubmapSpec3D{global_submap_pose});
-  }
 
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
+    // so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem([this, submap_id, global_submap_pose]() LOCKS_EXCLUDED(mutex_) {
-- 
2.43.0


From 075cc92efa08382ed1a244caf5ab184b615ae81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 12/13] fix: guard the samplers of the constraint builders by
 their mutex

MaybeAddConstraint changed per_submap_sampler_ before locking, so concurrent
calls of these thread-safe classes raced.
---
 .../mapping/internal/constraints/constraint_builder_2d.cc      | 2 +-
 .../mapping/internal/constraints/constraint_builder_2d.h       | 3 ++-
 .../mapping/internal/constraints/constraint_builder_3d.cc      | 2 +-
 .../mapping/internal/constraints/constraint_builder_3d.h       | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cartographer/mapping/internal/constraints/constraint_builder_2d.cc b/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
index ad3dfb7..4c1f240 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
+++ b/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
@@ -82,6 +82,7 @@ void ConstraintBuilder2D::MaybeAddConstraint(
       options_.max_constraint_distance()) {
     return;
   }
+  absl::MutexLock locker(&mutex_);
   if (!per_submap_sampler_
            .emplace(std::piecewise_construct, std::forward_as_tuple(submap_id),
                     std::forward_as_tuple(options_.sampling_ratio()))
@@ -89,7 +90,6 @@ void ConstraintBuilder2D::MaybeAddConstraint(
     return;
   }
 
-  absl::MutexLock locker(&mutex_);
   if (when_done_) {
     LOG(WARNING)
         << "MaybeAddConstraint was called while WhenDone was scheduled.";
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_2d.h b/cartographer/mapping/internal/constraints/constraint_builder_2d.h
index 6667fdb..3256edc 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_2d.h
+++ b/cartographer/mapping/internal/constraints/constraint_builder_2d.h
@@ -161,7 +161,8 @@ class ConstraintBuilder2D {
   // Map of dispatched or constructed scan matchers by 'submap_id'.
   std::map<SubmapId, SubmapScanMatcher> submap_scan_matchers_
       GUARDED_BY(mutex_);
-  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_;
+  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_
+      GUARDED_BY(mutex_);
 
   scan_matching::CeresScanMatcher2D ceres_scan_matcher_;
 
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_3d.cc b/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
index 87b3742..12fe0b9 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
+++ b/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
@@ -85,6 +85,7 @@ void ConstraintBuilder3D::MaybeAddConstraint(
           .norm() > options_.max_constraint_distance()) {
     return;
   }
+  absl::MutexLock locker(&mutex_);
   if (!per_submap_sampler_
            .emplace(std::piecewise_construct, std::forward_as_tuple(submap_id),
                     std::forward_as_tuple(options_.sampling_ratio()))
@@ -92,7 +93,6 @@ void ConstraintBuilder3D::MaybeAddConstraint(
     return;
   }
 
-  absl::MutexLock locker(&mutex_);
   if (when_done_) {
     LOG(WARNING)
         << "MaybeAddConstraint was called while WhenDone was scheduled.";
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_3d.h b/cartographer/mapping/internal/constraints/constraint_builder_3d.h
index 247a9da..f48659b 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_3d.h
+++ b/cartographer/mapping/internal/constraints/constraint_builder_3d.h
@@ -170,7 +170,8 @@ class ConstraintBuilder3D {
   // Map of dispatched or constructed scan matchers by 'submap_id'.
   std::map<SubmapId, SubmapScanMatcher> submap_scan_matchers_
       GUARDED_BY(mutex_);
-  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_;
+  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_
+      GUARDED_BY(mutex_);
 
   scan_matching::CeresScanMatcher3D ceres_scan_matcher_;
 
-- 
2.43.0


From e95e5b86f60580588bd73a06c5403295e4ac9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:48 +0000
Subject: [PATCH 13/13] fix: landmark observations of trajectories with fewer
 than two nodes crashed the optimisation

A landmark seen exactly at the time of the only node of its trajectory, or in
a trajectory that has no node yet, made AddLandmarkCostFunctions dereference
the end of the nodes (or use a node of another trajectory).
---
 .../mapping/internal/optimization/optimization_problem_2d.cc  | 4 ++++
 .../mapping/internal/optimization/optimization_problem_3d.cc  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 3faf255..92e94f7 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -115,6 +115,10 @@ void AddLandmarkCostFunctions(
   for (const auto& landmark_node : landmark_nodes) {
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // There are no two trajectory nodes yet to interpolate between.
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) < 2) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index fca36d1..d1eb012 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -131,6 +131,10 @@ void AddLandmarkCostFunctions(
     // Do not use landmarks that were not optimized for localization.
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // There are no two trajectory nodes yet to interpolate between.
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) < 2) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
-- 
2.43.0

