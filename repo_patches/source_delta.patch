From 2ad5b89f7f3300655a54b4f60bffc71b0a1c4f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 01/25] fix: guard the per-submap constraint sampler with the
 builder's mutex

ConstraintBuilder2D/3D are documented as thread-safe, but
MaybeAddConstraint() inserted into per_submap_sampler_ without holding
mutex_, racing with other callers and with DeleteScanMatcher().
---
 .../mapping/internal/constraints/constraint_builder_2d.cc      | 3 +--
 .../mapping/internal/constraints/constraint_builder_2d.h       | 3 ++-
 .../mapping/internal/constraints/constraint_builder_3d.cc      | 3 +--
 .../mapping/internal/constraints/constraint_builder_3d.h       | 3 ++-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cartographer/mapping/internal/constraints/constraint_builder_2d.cc b/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
index ad3dfb7..ae5208b 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
+++ b/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
@@ -82,14 +82,13 @@ void ConstraintBuilder2D::MaybeAddConstraint(
       options_.max_constraint_distance()) {
     return;
   }
+  absl::MutexLock locker(&mutex_);
   if (!per_submap_sampler_
            .emplace(std::piecewise_construct, std::forward_as_tuple(submap_id),
                     std::forward_as_tuple(options_.sampling_ratio()))
            .first->second.Pulse()) {
     return;
   }
-
-  absl::MutexLock locker(&mutex_);
   if (when_done_) {
     LOG(WARNING)
         << "MaybeAddConstraint was called while WhenDone was scheduled.";
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_2d.h b/cartographer/mapping/internal/constraints/constraint_builder_2d.h
index 6667fdb..3256edc 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_2d.h
+++ b/cartographer/mapping/internal/constraints/constraint_builder_2d.h
@@ -161,7 +161,8 @@ class ConstraintBuilder2D {
   // Map of dispatched or constructed scan matchers by 'submap_id'.
   std::map<SubmapId, SubmapScanMatcher> submap_scan_matchers_
       GUARDED_BY(mutex_);
-  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_;
+  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_
+      GUARDED_BY(mutex_);
 
   scan_matching::CeresScanMatcher2D ceres_scan_matcher_;
 
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_3d.cc b/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
index 87b3742..04459c1 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
+++ b/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
@@ -85,14 +85,13 @@ void ConstraintBuilder3D::MaybeAddConstraint(
           .norm() > options_.max_constraint_distance()) {
     return;
   }
+  absl::MutexLock locker(&mutex_);
   if (!per_submap_sampler_
            .emplace(std::piecewise_construct, std::forward_as_tuple(submap_id),
                     std::forward_as_tuple(options_.sampling_ratio()))
            .first->second.Pulse()) {
     return;
   }
-
-  absl::MutexLock locker(&mutex_);
   if (when_done_) {
     LOG(WARNING)
         << "MaybeAddConstraint was called while WhenDone was scheduled.";
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_3d.h b/cartographer/mapping/internal/constraints/constraint_builder_3d.h
index 247a9da..f48659b 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_3d.h
+++ b/cartographer/mapping/internal/constraints/constraint_builder_3d.h
@@ -170,7 +170,8 @@ class ConstraintBuilder3D {
   // Map of dispatched or constructed scan matchers by 'submap_id'.
   std::map<SubmapId, SubmapScanMatcher> submap_scan_matchers_
       GUARDED_BY(mutex_);
-  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_;
+  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_
+      GUARDED_BY(mutex_);
 
   scan_matching::CeresScanMatcher3D ceres_scan_matcher_;
 
-- 
2.43.0


From 26cc0a951db8113359143ef7b31767aa9c4786ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 02/25] fix: landmarks observed by trajectories without
 (enough) nodes

Observations of a trajectory without any nodes (not added yet, trimmed or
deleted), or at the time of its only node, made the solver dereference
the end iterator of the trajectory's nodes.
---
 .../internal/optimization/optimization_problem_2d.cc      | 8 ++++++++
 .../internal/optimization/optimization_problem_3d.cc      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 3faf255..4e22ac9 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -115,6 +115,10 @@ void AddLandmarkCostFunctions(
   for (const auto& landmark_node : landmark_nodes) {
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The trajectory does not have any nodes (yet or anymore).
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) == 0) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
@@ -131,6 +135,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // The trajectory only has a single node so far.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index fca36d1..4fe61e6 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -131,6 +131,10 @@ void AddLandmarkCostFunctions(
     // Do not use landmarks that were not optimized for localization.
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The trajectory does not have any nodes (yet or anymore).
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) == 0) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
@@ -147,6 +151,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // The trajectory only has a single node so far.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
-- 
2.43.0


From bd6715e63917aa0571b6d72da8a51c406c88b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 03/25] fix: forget the optimized poses of trimmed submaps

GetLocalToGlobalTransform() looked up a submap which no longer exists,
and threw std::out_of_range, once all submaps of a trajectory had been
trimmed or deleted.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 3 +++
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..28410a1 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1281,6 +1281,9 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   parent_->data_.submap_data.Trim(submap_id);
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
+  if (parent_->data_.global_submap_poses_2d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_2d.Trim(submap_id);
+  }
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..45ac9b7 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1261,6 +1261,9 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   parent_->data_.submap_data.Trim(submap_id);
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
+  if (parent_->data_.global_submap_poses_3d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_3d.Trim(submap_id);
+  }
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
-- 
2.43.0


From 95e722450512f926404bff11e08b7ddafa0df0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 04/25] fix: keep the poses of submaps loaded during an
 optimization

An optimization which was running while submaps were loaded replaced all
global submap poses by those in the optimization problem, so that the
loaded submaps jumped to extrapolated poses until the next optimization.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 10 +++++++++-
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 28410a1..ad40589 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -905,7 +905,15 @@ void PoseGraph2D::RunOptimization() {
   for (const auto& landmark : optimization_problem_->landmark_data()) {
     data_.landmark_nodes[landmark.first].global_landmark_pose = landmark.second;
   }
-  data_.global_submap_poses_2d = submap_data;
+  // Keep the poses of submaps which were loaded, but are not included in the
+  // 'optimization_problem_' yet.
+  auto global_submap_poses = submap_data;
+  for (const auto& submap_id_data : data_.global_submap_poses_2d) {
+    if (!submap_data.Contains(submap_id_data.id)) {
+      global_submap_poses.Insert(submap_id_data.id, submap_id_data.data);
+    }
+  }
+  data_.global_submap_poses_2d = std::move(global_submap_poses);
 }
 
 bool PoseGraph2D::CanAddWorkItemModifying(int trajectory_id) {
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 45ac9b7..093d5d8 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -897,7 +897,15 @@ void PoseGraph3D::RunOptimization() {
   for (const auto& landmark : optimization_problem_->landmark_data()) {
     data_.landmark_nodes[landmark.first].global_landmark_pose = landmark.second;
   }
-  data_.global_submap_poses_3d = submap_data;
+  // Keep the poses of submaps which were loaded, but are not included in the
+  // 'optimization_problem_' yet.
+  auto global_submap_poses = submap_data;
+  for (const auto& submap_id_data : data_.global_submap_poses_3d) {
+    if (!submap_data.Contains(submap_id_data.id)) {
+      global_submap_poses.Insert(submap_id_data.id, submap_id_data.data);
+    }
+  }
+  data_.global_submap_poses_3d = std::move(global_submap_poses);
 
   // Log the histograms for the pose residuals.
   if (options_.log_residual_histograms()) {
-- 
2.43.0


From ef2273fd85f9c24ad9e44a1b60677bcb922cc6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:59 +0000
Subject: [PATCH 05/25] fix: execute work items added before a trajectory's
 deletion was scheduled

DeleteTrajectory() marks the trajectory right away, so that sensor data
and loaded nodes whose work items were still queued ran into a LOG(FATAL),
depending on how far the work queue had been drained.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 6 ++++--
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index ad40589..c16a7af 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -928,8 +928,10 @@ bool PoseGraph2D::CanAddWorkItemModifying(int trajectory_id) {
                   "but modification is requested, skipping.";
     return false;
   }
-  if (it->second.deletion_state !=
-      InternalTrajectoryState::DeletionState::NORMAL) {
+  // Work items that were added before the deletion was scheduled still have to
+  // be executed, the trajectory is complete once it is waiting for deletion.
+  if (it->second.deletion_state ==
+      InternalTrajectoryState::DeletionState::WAIT_FOR_DELETION) {
     LOG(FATAL) << "trajectory_id " << trajectory_id
                << " has been scheduled for deletion "
                   "but modification is requested, skipping.";
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 093d5d8..98d7793 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -925,8 +925,10 @@ bool PoseGraph3D::CanAddWorkItemModifying(int trajectory_id) {
                   "but modification is requested, skipping.";
     return false;
   }
-  if (it->second.deletion_state !=
-      InternalTrajectoryState::DeletionState::NORMAL) {
+  // Work items that were added before the deletion was scheduled still have to
+  // be executed, the trajectory is complete once it is waiting for deletion.
+  if (it->second.deletion_state ==
+      InternalTrajectoryState::DeletionState::WAIT_FOR_DELETION) {
     LOG(FATAL) << "trajectory_id " << trajectory_id
                << " has been scheduled for deletion "
                   "but modification is requested, skipping.";
-- 
2.43.0


From a487ae53fa7ea9f3ef32d23bcf1ae1a72b93ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:53 +0000
Subject: [PATCH 06/25] fix: read the trajectory state under the mutex when
 adding a loaded submap

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 15 +++++++--------
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index c16a7af..95618d0 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -709,14 +709,13 @@ void PoseGraph2D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_2d.Insert(
         submap_id, optimization::SubmapSpec2D{global_submap_pose_2d});
-  }
-
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
+    // so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem(
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 98d7793..0840fe3 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -693,14 +693,13 @@ void PoseGraph3D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_3d.Insert(
         submap_id, optimization::SubmapSpec3D{global_submap_pose});
-  }
-
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
+    // so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem([this, submap_id, global_submap_pose]() LOCKS_EXCLUDED(mutex_) {
-- 
2.43.0


From 33e48ba72889cc1b626efb7fb0573f76751c8416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 07/25] fix: do not modify trajectory data during Solve() while
 it can be read

GetTrajectoryData(), e.g. when serializing, read the fixed frame origin,
IMU calibration and gravity constant while the solver, which runs without
holding the pose graph's mutex, was writing them.
---
 .../optimization/optimization_problem_2d.cc       |  1 +
 .../optimization/optimization_problem_2d.h        |  9 +++++++--
 .../optimization/optimization_problem_3d.cc       | 15 +++++++++++----
 .../optimization/optimization_problem_3d.h        |  9 +++++++--
 4 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 4e22ac9..2e73088 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -426,6 +426,7 @@ void OptimizationProblem2D::Solve(
     node_data_.at(C_node_id_data.id).global_pose_2d =
         ToPose(C_node_id_data.data);
   }
+  absl::MutexLock locker(&trajectory_data_mutex_);
   for (const auto& C_fixed_frame : C_fixed_frames) {
     trajectory_data_.at(C_fixed_frame.first).fixed_frame_origin_in_map =
         transform::Embed3D(ToPose(C_fixed_frame.second));
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.h b/cartographer/mapping/internal/optimization/optimization_problem_2d.h
index 0a1e39d..92f8f1d 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.h
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.h
@@ -25,6 +25,7 @@
 
 #include "Eigen/Core"
 #include "Eigen/Geometry"
+#include "absl/synchronization/mutex.h"
 #include "cartographer/common/port.h"
 #include "cartographer/common/time.h"
 #include "cartographer/mapping/id.h"
@@ -111,8 +112,9 @@ class OptimizationProblem2D
       const {
     return fixed_frame_pose_data_;
   }
-  const std::map<int, PoseGraphInterface::TrajectoryData>& trajectory_data()
-      const {
+  std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data() const
+      LOCKS_EXCLUDED(trajectory_data_mutex_) {
+    absl::MutexLock locker(&trajectory_data_mutex_);
     return trajectory_data_;
   }
 
@@ -132,6 +134,9 @@ class OptimizationProblem2D
   sensor::MapByTime<sensor::OdometryData> odometry_data_;
   sensor::MapByTime<sensor::FixedFramePoseData> fixed_frame_pose_data_;
   std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data_;
+  // Held while Solve() stores its results, as trajectory_data() may be called
+  // in the meantime.
+  mutable absl::Mutex trajectory_data_mutex_;
 };
 
 }  // namespace optimization
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 4fe61e6..a547b1d 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -290,6 +290,9 @@ void OptimizationProblem3D::Solve(
                : nullptr;
   };
 
+  // We optimize a copy since trajectory_data() may be called in the meantime.
+  auto all_trajectory_data = trajectory_data_;
+
   // Set the starting point.
   CHECK(!submap_data_.empty());
   MapById<SubmapId, CeresPose> C_submaps;
@@ -368,7 +371,7 @@ void OptimizationProblem3D::Solve(
         node_it = trajectory_end;
         continue;
       }
-      TrajectoryData& trajectory_data = trajectory_data_.at(trajectory_id);
+      TrajectoryData& trajectory_data = all_trajectory_data.at(trajectory_id);
 
       problem.AddParameterBlock(trajectory_data.imu_calibration.data(), 4,
                                 new ceres::QuaternionParameterization());
@@ -519,7 +522,7 @@ void OptimizationProblem3D::Solve(
       continue;
     }
 
-    const TrajectoryData& trajectory_data = trajectory_data_.at(trajectory_id);
+    const TrajectoryData& trajectory_data = all_trajectory_data.at(trajectory_id);
     bool fixed_frame_pose_initialized = false;
     for (; node_it != trajectory_end; ++node_it) {
       const NodeId node_id = node_it->id;
@@ -577,7 +580,7 @@ void OptimizationProblem3D::Solve(
       &problem, &summary);
   if (options_.log_solver_summary()) {
     LOG(INFO) << summary.FullReport();
-    for (const auto& trajectory_id_and_data : trajectory_data_) {
+    for (const auto& trajectory_id_and_data : all_trajectory_data) {
       const int trajectory_id = trajectory_id_and_data.first;
       const TrajectoryData& trajectory_data = trajectory_id_and_data.second;
       if (trajectory_id != 0) {
@@ -604,9 +607,13 @@ void OptimizationProblem3D::Solve(
         C_node_id_data.data.ToRigid();
   }
   for (const auto& C_fixed_frame : C_fixed_frames) {
-    trajectory_data_.at(C_fixed_frame.first).fixed_frame_origin_in_map =
+    all_trajectory_data.at(C_fixed_frame.first).fixed_frame_origin_in_map =
         C_fixed_frame.second.ToRigid();
   }
+  {
+    absl::MutexLock locker(&trajectory_data_mutex_);
+    trajectory_data_ = std::move(all_trajectory_data);
+  }
   for (const auto& C_landmark : C_landmarks) {
     landmark_data_[C_landmark.first] = C_landmark.second.ToRigid();
   }
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.h b/cartographer/mapping/internal/optimization/optimization_problem_3d.h
index 721fde9..c6273a0 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.h
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.h
@@ -25,6 +25,7 @@
 #include "Eigen/Core"
 #include "Eigen/Geometry"
 #include "absl/types/optional.h"
+#include "absl/synchronization/mutex.h"
 #include "cartographer/common/port.h"
 #include "cartographer/common/time.h"
 #include "cartographer/mapping/id.h"
@@ -111,8 +112,9 @@ class OptimizationProblem3D
       const {
     return fixed_frame_pose_data_;
   }
-  const std::map<int, PoseGraphInterface::TrajectoryData>& trajectory_data()
-      const {
+  std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data() const
+      LOCKS_EXCLUDED(trajectory_data_mutex_) {
+    absl::MutexLock locker(&trajectory_data_mutex_);
     return trajectory_data_;
   }
 
@@ -130,6 +132,9 @@ class OptimizationProblem3D
   sensor::MapByTime<sensor::OdometryData> odometry_data_;
   sensor::MapByTime<sensor::FixedFramePoseData> fixed_frame_pose_data_;
   std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data_;
+  // Held while Solve() stores its results, as trajectory_data() may be called
+  // in the meantime.
+  mutable absl::Mutex trajectory_data_mutex_;
 };
 
 }  // namespace optimization
-- 
2.43.0


From 49a1931a522c69398ce6c114a3d2b534da23eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:16 +0000
Subject: [PATCH 08/25] fix: optimize 3D trajectories with fewer than three
 consecutive nodes

The gravity constant is only part of the problem if there is an
acceleration residual; setting its lower bound aborted otherwise.
---
 .../internal/optimization/optimization_problem_3d.cc      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index a547b1d..74843ad 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -453,8 +453,12 @@ void OptimizationProblem3D::Solve(
             trajectory_data.imu_calibration.data());
       }
 
-      // Force gravity constant to be positive.
-      problem.SetParameterLowerBound(&trajectory_data.gravity_constant, 0, 0.0);
+      // Force gravity constant to be positive. It is only part of the problem
+      // if there are at least three consecutive nodes.
+      if (problem.HasParameterBlock(&trajectory_data.gravity_constant)) {
+        problem.SetParameterLowerBound(&trajectory_data.gravity_constant, 0,
+                                       0.0);
+      }
     }
   }
 
-- 
2.43.0


From bebb82b0b377710984e40000267e1d42b0793088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:04 +0000
Subject: [PATCH 09/25] fix: serialize options and sensor data of exactly the
 saved trajectories

The trajectory builder options were written for every trajectory that has a
state, the trajectories of the pose graph for those with nodes or submaps, and
sensor data for all others as well. A state with a trajectory that has no node
yet, or was deleted, could be saved but not be loaded again.
---
 .../internal/mapping_state_serialization.cc   | 57 ++++++++++++-------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 8305e7a..2f232b6 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -16,6 +16,8 @@
 
 #include "cartographer/io/internal/mapping_state_serialization.h"
 
+#include <set>
+
 #include "cartographer/mapping/proto/serialization.pb.h"
 #include "cartographer/transform/transform.h"
 
@@ -42,17 +44,14 @@ CreateAllTrajectoryBuilderOptionsProto(
   return all_options_proto;
 }
 
-// Will return all trajectory ids, that have `state != DELETED`.
-std::vector<int> GetValidTrajectoryIds(
-    const std::map<int, PoseGraphInterface::TrajectoryState>&
-        trajectory_states) {
-  std::vector<int> valid_trajectories;
-  for (const auto& t : trajectory_states) {
-    if (t.second != PoseGraphInterface::TrajectoryState::DELETED) {
-      valid_trajectories.push_back(t.first);
-    }
+// Returns the ids of the trajectories in 'pose_graph', in the same order. A
+// trajectory without nodes and submaps is not part of it.
+std::vector<int> GetTrajectoryIds(const mapping::proto::PoseGraph& pose_graph) {
+  std::vector<int> trajectory_ids;
+  for (const auto& trajectory : pose_graph.trajectory()) {
+    trajectory_ids.push_back(trajectory.trajectory_id());
   }
-  return valid_trajectories;
+  return trajectory_ids;
 }
 
 mapping::proto::SerializationHeader CreateHeader() {
@@ -118,8 +117,10 @@ void SerializeTrajectoryNodes(
 void SerializeTrajectoryData(
     const std::map<int, PoseGraphInterface::TrajectoryData>&
         all_trajectory_data,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& trajectory_data : all_trajectory_data) {
+    if (trajectory_ids_to_serialize.count(trajectory_data.first) == 0) continue;
     SerializedData proto;
     auto* const trajectory_data_proto = proto.mutable_trajectory_data();
     trajectory_data_proto->set_trajectory_id(trajectory_data.first);
@@ -140,8 +141,10 @@ void SerializeTrajectoryData(
 }
 
 void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
+                      const std::set<int>& trajectory_ids_to_serialize,
                       ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_imu_data.trajectory_ids()) {
+    if (trajectory_ids_to_serialize.count(trajectory_id) == 0) continue;
     for (const auto& imu_data : all_imu_data.trajectory(trajectory_id)) {
       SerializedData proto;
       auto* const imu_data_proto = proto.mutable_imu_data();
@@ -154,8 +157,10 @@ void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
 
 void SerializeOdometryData(
     const sensor::MapByTime<sensor::OdometryData>& all_odometry_data,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_odometry_data.trajectory_ids()) {
+    if (trajectory_ids_to_serialize.count(trajectory_id) == 0) continue;
     for (const auto& odometry_data :
          all_odometry_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -171,8 +176,10 @@ void SerializeOdometryData(
 void SerializeFixedFramePoseData(
     const sensor::MapByTime<sensor::FixedFramePoseData>&
         all_fixed_frame_pose_data,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_fixed_frame_pose_data.trajectory_ids()) {
+    if (trajectory_ids_to_serialize.count(trajectory_id) == 0) continue;
     for (const auto& fixed_frame_pose_data :
          all_fixed_frame_pose_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -189,9 +196,13 @@ void SerializeFixedFramePoseData(
 void SerializeLandmarkNodes(
     const std::map<std::string, PoseGraphInterface::LandmarkNode>&
         all_landmark_nodes,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& node : all_landmark_nodes) {
     for (const auto& observation : node.second.landmark_observations) {
+      if (trajectory_ids_to_serialize.count(observation.trajectory_id) == 0) {
+        continue;
+      }
       SerializedData proto;
       auto* landmark_data_proto = proto.mutable_landmark_data();
       landmark_data_proto->set_trajectory_id(observation.trajectory_id);
@@ -217,20 +228,28 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  writer->WriteProto(
-      SerializePoseGraph(pose_graph, include_unfinished_submaps));
+  const SerializedData pose_graph_proto =
+      SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  writer->WriteProto(pose_graph_proto);
+  const std::vector<int> trajectory_ids =
+      GetTrajectoryIds(pose_graph_proto.pose_graph());
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
-      trajectory_builder_options,
-      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates())));
+      trajectory_builder_options, trajectory_ids));
 
   SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
                    writer);
   SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
-  SerializeTrajectoryData(pose_graph.GetTrajectoryData(), writer);
-  SerializeImuData(pose_graph.GetImuData(), writer);
-  SerializeOdometryData(pose_graph.GetOdometryData(), writer);
-  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(), writer);
-  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), writer);
+  const std::set<int> trajectory_id_set(trajectory_ids.begin(),
+                                        trajectory_ids.end());
+  SerializeTrajectoryData(pose_graph.GetTrajectoryData(), trajectory_id_set,
+                          writer);
+  SerializeImuData(pose_graph.GetImuData(), trajectory_id_set, writer);
+  SerializeOdometryData(pose_graph.GetOdometryData(), trajectory_id_set,
+                        writer);
+  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(),
+                              trajectory_id_set, writer);
+  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), trajectory_id_set,
+                         writer);
 }
 
 }  // namespace io
-- 
2.43.0


From 57471b142f71c1412d7abee27b8fa251e488adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:31 +0000
Subject: [PATCH 10/25] fix: save a consistent state while the pose graph is
 being modified

Nodes, submaps and constraints were collected at different times. A state that
was saved while a trajectory was trimmed, deleted or added to could refer to
nodes and submaps which it did not contain, and could not be loaded again.
---
 .../internal/mapping_state_serialization.cc   | 116 +++++++++++++-----
 1 file changed, 88 insertions(+), 28 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 2f232b6..afbcbdc 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -16,6 +16,7 @@
 
 #include "cartographer/io/internal/mapping_state_serialization.h"
 
+#include <algorithm>
 #include <set>
 
 #include "cartographer/mapping/proto/serialization.pb.h"
@@ -78,39 +79,94 @@ SerializedData SerializeTrajectoryBuilderOptions(
   return proto;
 }
 
+// Removes from 'pose_graph' what is not in 'submap_data' and
+// 'trajectory_nodes', and constraints which refer to something that is not
+// there. Nodes and submaps may be added and trimmed while we are serializing.
+void RemoveMissingData(
+    const MapById<SubmapId, PoseGraphInterface::SubmapData>& submap_data,
+    const MapById<NodeId, TrajectoryNode>& trajectory_nodes,
+    mapping::proto::PoseGraph* const pose_graph) {
+  std::set<SubmapId> submap_ids;
+  std::set<NodeId> node_ids;
+  for (auto& trajectory : *pose_graph->mutable_trajectory()) {
+    const int trajectory_id = trajectory.trajectory_id();
+    auto* const submaps = trajectory.mutable_submap();
+    submaps->erase(
+        std::remove_if(
+            submaps->begin(), submaps->end(),
+            [&](const mapping::proto::Trajectory::Submap& submap) {
+              return !submap_data.Contains(
+                  SubmapId{trajectory_id, submap.submap_index()});
+            }),
+        submaps->end());
+    for (const auto& submap : *submaps) {
+      submap_ids.insert(SubmapId{trajectory_id, submap.submap_index()});
+    }
+    auto* const nodes = trajectory.mutable_node();
+    nodes->erase(std::remove_if(
+                     nodes->begin(), nodes->end(),
+                     [&](const mapping::proto::Trajectory::Node& node) {
+                       return !trajectory_nodes.Contains(
+                           NodeId{trajectory_id, node.node_index()});
+                     }),
+                 nodes->end());
+    for (const auto& node : *nodes) {
+      node_ids.insert(NodeId{trajectory_id, node.node_index()});
+    }
+  }
+  auto* const constraints = pose_graph->mutable_constraint();
+  constraints->erase(
+      std::remove_if(
+          constraints->begin(), constraints->end(),
+          [&](const mapping::proto::PoseGraph::Constraint& constraint) {
+            return submap_ids.count(
+                       SubmapId{constraint.submap_id().trajectory_id(),
+                                constraint.submap_id().submap_index()}) == 0 ||
+                   node_ids.count(
+                       NodeId{constraint.node_id().trajectory_id(),
+                              constraint.node_id().node_index()}) == 0;
+          }),
+      constraints->end());
+}
+
+// Serializes the submaps which are in 'pose_graph'.
 void SerializeSubmaps(
     const MapById<SubmapId, PoseGraphInterface::SubmapData>& submap_data,
-    bool include_unfinished_submaps, ProtoStreamWriterInterface* const writer) {
-  // Next serialize all submaps.
-  for (const auto& submap_id_data : submap_data) {
-    if (!include_unfinished_submaps &&
-        !submap_id_data.data.submap->insertion_finished()) {
-      continue;
+    const mapping::proto::PoseGraph& pose_graph,
+    ProtoStreamWriterInterface* const writer) {
+  for (const auto& trajectory : pose_graph.trajectory()) {
+    for (const auto& submap : trajectory.submap()) {
+      const SubmapId submap_id{trajectory.trajectory_id(),
+                               submap.submap_index()};
+      SerializedData proto;
+      auto* const submap_proto = proto.mutable_submap();
+      *submap_proto = submap_data.at(submap_id).submap->ToProto(
+          /*include_probability_grid_data=*/true);
+      submap_proto->mutable_submap_id()->set_trajectory_id(
+          submap_id.trajectory_id);
+      submap_proto->mutable_submap_id()->set_submap_index(
+          submap_id.submap_index);
+      writer->WriteProto(proto);
     }
-    SerializedData proto;
-    auto* const submap_proto = proto.mutable_submap();
-    *submap_proto = submap_id_data.data.submap->ToProto(
-        /*include_probability_grid_data=*/true);
-    submap_proto->mutable_submap_id()->set_trajectory_id(
-        submap_id_data.id.trajectory_id);
-    submap_proto->mutable_submap_id()->set_submap_index(
-        submap_id_data.id.submap_index);
-    writer->WriteProto(proto);
   }
 }
 
+// Serializes the nodes which are in 'pose_graph'.
 void SerializeTrajectoryNodes(
     const MapById<NodeId, TrajectoryNode>& trajectory_nodes,
+    const mapping::proto::PoseGraph& pose_graph,
     ProtoStreamWriterInterface* const writer) {
-  for (const auto& node_id_data : trajectory_nodes) {
-    SerializedData proto;
-    auto* const node_proto = proto.mutable_node();
-    node_proto->mutable_node_id()->set_trajectory_id(
-        node_id_data.id.trajectory_id);
-    node_proto->mutable_node_id()->set_node_index(node_id_data.id.node_index);
-    *node_proto->mutable_node_data() =
-        ToProto(*node_id_data.data.constant_data);
-    writer->WriteProto(proto);
+  for (const auto& trajectory : pose_graph.trajectory()) {
+    for (const auto& node : trajectory.node()) {
+      const NodeId node_id{trajectory.trajectory_id(), node.node_index()};
+      SerializedData proto;
+      auto* const node_proto = proto.mutable_node();
+      node_proto->mutable_node_id()->set_trajectory_id(node_id.trajectory_id);
+      node_proto->mutable_node_id()->set_node_index(node_id.node_index);
+      *node_proto->mutable_node_data() =
+          ToProto(*trajectory_nodes.at(node_id).constant_data);
+      writer->WriteProto(proto);
+    }
   }
 }
 
@@ -228,17 +284,21 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  const SerializedData pose_graph_proto =
+  const auto submap_data = pose_graph.GetAllSubmapData();
+  const auto trajectory_nodes = pose_graph.GetTrajectoryNodes();
+  SerializedData pose_graph_proto =
       SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  RemoveMissingData(submap_data, trajectory_nodes,
+                    pose_graph_proto.mutable_pose_graph());
   writer->WriteProto(pose_graph_proto);
   const std::vector<int> trajectory_ids =
       GetTrajectoryIds(pose_graph_proto.pose_graph());
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
       trajectory_builder_options, trajectory_ids));
 
-  SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
-                   writer);
-  SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
+  SerializeSubmaps(submap_data, pose_graph_proto.pose_graph(), writer);
+  SerializeTrajectoryNodes(trajectory_nodes, pose_graph_proto.pose_graph(),
+                           writer);
   const std::set<int> trajectory_id_set(trajectory_ids.begin(),
                                         trajectory_ids.end());
   SerializeTrajectoryData(pose_graph.GetTrajectoryData(), trajectory_id_set,
-- 
2.43.0


From e4d5bd98e352adf3447a004d566ade77a2ccb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:46 +0000
Subject: [PATCH 11/25] fix: optimize 3D trajectories which were frozen when
 the state was saved

Their IMU data is not kept, so that loading them without freezing them aborted
in the next optimization.
---
 .../internal/optimization/optimization_problem_3d.cc       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 74843ad..1d4c809 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -371,6 +371,12 @@ void OptimizationProblem3D::Solve(
         node_it = trajectory_end;
         continue;
       }
+      if (!imu_data_.HasTrajectory(trajectory_id)) {
+        // The IMU data of frozen trajectories is not kept, so there is none if
+        // such a trajectory was saved and is no longer frozen.
+        node_it = trajectory_end;
+        continue;
+      }
       TrajectoryData& trajectory_data = all_trajectory_data.at(trajectory_id);
 
       problem.AddParameterBlock(trajectory_data.imu_calibration.data(), 4,
@@ -379,7 +385,6 @@ void OptimizationProblem3D::Solve(
         problem.SetParameterBlockConstant(
             trajectory_data.imu_calibration.data());
       }
-      CHECK(imu_data_.HasTrajectory(trajectory_id));
       const auto imu_data = imu_data_.trajectory(trajectory_id);
       CHECK(imu_data.begin() != imu_data.end());
 
-- 
2.43.0


From a7026dbee6af9eb78ca7b7d84e6fedf2b12de571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:13 +0000
Subject: [PATCH 12/25] fix: save the sensor data of all saved nodes

While the pose graph is trimmed, the IMU data of a node could be gone when it
was collected after the node; such a state could not be optimized (3D).
---
 .../io/internal/mapping_state_serialization.cc       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index afbcbdc..b5ec6bb 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -284,6 +284,10 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
+  // Sensor data is trimmed together with nodes, it has to be collected first.
+  const auto imu_data = pose_graph.GetImuData();
+  const auto odometry_data = pose_graph.GetOdometryData();
+  const auto fixed_frame_pose_data = pose_graph.GetFixedFramePoseData();
   const auto submap_data = pose_graph.GetAllSubmapData();
   const auto trajectory_nodes = pose_graph.GetTrajectoryNodes();
   SerializedData pose_graph_proto =
@@ -303,11 +307,9 @@ void WritePbStream(
                                         trajectory_ids.end());
   SerializeTrajectoryData(pose_graph.GetTrajectoryData(), trajectory_id_set,
                           writer);
-  SerializeImuData(pose_graph.GetImuData(), trajectory_id_set, writer);
-  SerializeOdometryData(pose_graph.GetOdometryData(), trajectory_id_set,
-                        writer);
-  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(),
-                              trajectory_id_set, writer);
+  SerializeImuData(imu_data, trajectory_id_set, writer);
+  SerializeOdometryData(odometry_data, trajectory_id_set, writer);
+  SerializeFixedFramePoseData(fixed_frame_pose_data, trajectory_id_set, writer);
   SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), trajectory_id_set,
                          writer);
 }
-- 
2.43.0


From 076ce4c5e6b33ed42c72af6851f86e9a35b41457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 13/25] fix: report failure of opening and flushing files in
 StreamFileWriter

---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From 0fd11cca856d213959e6c617ccdea753e27a693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 14/25] fix: initialize has_intensities_ of the PLY writer

---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From 464c4f17c7f017ac815d0dbb5f356f99363f63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 15/25] fix: write colors to PCD files only if announced in the
 header

---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From c5fcb1f2183a3ead77875d5496d5bba749c61d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 16/25] fix: track untracked trajectories when they are
 connected

---
 cartographer/mapping/internal/trajectory_connectivity_state.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/mapping/internal/trajectory_connectivity_state.cc b/cartographer/mapping/internal/trajectory_connectivity_state.cc
index 73ddf46..8d28ced 100644
--- a/cartographer/mapping/internal/trajectory_connectivity_state.cc
+++ b/cartographer/mapping/internal/trajectory_connectivity_state.cc
@@ -26,6 +26,8 @@ void TrajectoryConnectivityState::Add(const int trajectory_id) {
 void TrajectoryConnectivityState::Connect(const int trajectory_id_a,
                                           const int trajectory_id_b,
                                           const common::Time time) {
+  Add(trajectory_id_a);
+  Add(trajectory_id_b);
   if (TransitivelyConnected(trajectory_id_a, trajectory_id_b)) {
     // The trajectories are transitively connected, i.e. they belong to the same
     // connected component. In this case we only update the last connection time
-- 
2.43.0


From e1b741bf9527be6a8f6a172359d94f895dd9a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 17/25] fix: do not return a pose extrapolated before the last
 pose was added

---
 cartographer/mapping/pose_extrapolator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..9bf77e7 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -86,6 +86,7 @@ void PoseExtrapolator::AddPose(const common::Time time,
   TrimOdometryData();
   odometry_imu_tracker_ = absl::make_unique<ImuTracker>(*imu_tracker_);
   extrapolation_imu_tracker_ = absl::make_unique<ImuTracker>(*imu_tracker_);
+  cached_extrapolated_pose_ = timed_pose_queue_.back();
 }
 
 void PoseExtrapolator::AddImuData(const sensor::ImuData& imu_data) {
-- 
2.43.0


From 36f169133a81f091e9421410c462edd8b8bbfe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 18/25] fix: do not divide by zero for odometry data of the
 same time

---
 cartographer/mapping/pose_extrapolator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 9bf77e7..ee4b925 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -100,6 +100,11 @@ void PoseExtrapolator::AddOdometryData(
     const sensor::OdometryData& odometry_data) {
   CHECK(timed_pose_queue_.empty() ||
         odometry_data.time >= timed_pose_queue_.back().time);
+  if (!odometry_data_.empty() &&
+      odometry_data_.back().time == odometry_data.time) {
+    // There is no velocity between odometry data of the same time.
+    odometry_data_.pop_back();
+  }
   odometry_data_.push_back(odometry_data);
   TrimOdometryData();
   if (odometry_data_.size() < 2) {
-- 
2.43.0


From a2b9a4e3070d27158e4d74359162af3baf3f5a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 19/25] fix: do not round cell centers at cell boundaries in
 the submaps trimmer

---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..d1cde38 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -35,8 +35,9 @@ class SubmapCoverageGrid2D {
 
   void AddPoint(const Eigen::Vector2d& point, const SubmapId& submap_id,
                 const common::Time& time) {
-    CellId cell_id{common::RoundToInt64((offset_(0) - point(0)) / resolution_),
-                   common::RoundToInt64((offset_(1) - point(1)) / resolution_)};
+    CellId cell_id{
+        common::RoundToInt64((offset_(0) - point(0)) / resolution_ - 0.5),
+        common::RoundToInt64((offset_(1) - point(1)) / resolution_ - 0.5)};
     cells_[cell_id].emplace_back(submap_id, time);
   }
 
-- 
2.43.0


From 362d64f1fcc2263284aded570981125af3c5697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 20/25] fix: handle submaps deleted elsewhere in the submaps
 trimmer

---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index d1cde38..1e8bd7d 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -186,7 +186,9 @@ std::vector<SubmapId> FindSubmapIdsToTrim(
 
 void OverlappingSubmapsTrimmer2D::Trim(Trimmable* pose_graph) {
   const auto submap_data = pose_graph->GetOptimizedSubmapData();
-  if (submap_data.size() - current_submap_count_ <= min_added_submaps_count_) {
+  // There can be less submaps than before if some were deleted elsewhere.
+  if (submap_data.size() <=
+      std::size_t{current_submap_count_} + min_added_submaps_count_) {
     return;
   }
 
-- 
2.43.0


From 241ae1e603e230d767c88d2633767e0570280fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 21/25] fix: do not overflow the number of covered cells in the
 submaps trimmer

---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index 1e8bd7d..5fc7976 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -146,8 +146,8 @@ std::map<SubmapId, common::Time> ComputeSubmapFreshness(
 std::vector<SubmapId> FindSubmapIdsToTrim(
     const SubmapCoverageGrid2D& coverage_grid,
     const std::set<SubmapId>& all_submap_ids, uint16 fresh_submaps_count,
-    uint16 min_covered_cells_count) {
-  std::map<SubmapId, uint16> submap_to_covered_cells_count;
+    int64 min_covered_cells_count) {
+  std::map<SubmapId, int64> submap_to_covered_cells_count;
   for (const auto& cell : coverage_grid.cells()) {
     std::vector<std::pair<SubmapId, common::Time>> submaps_per_cell(
         cell.second);
-- 
2.43.0


From 2fc0bb89fe05a6d818a091e425e747b25033b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:25 +0000
Subject: [PATCH 22/25] fix: do not place the image of a 3D submap without
 obstacles far away

Without obstructed cells the bounding box of the texture stayed inverted, so
that its size overflowed and its pose was 2^31 pixels away.
---
 cartographer/mapping/3d/submap_3d.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cartographer/mapping/3d/submap_3d.cc b/cartographer/mapping/3d/submap_3d.cc
index 9facbe4..a3a736a 100644
--- a/cartographer/mapping/3d/submap_3d.cc
+++ b/cartographer/mapping/3d/submap_3d.cc
@@ -157,6 +157,15 @@ void AddToTextureProto(
   const std::vector<Eigen::Array4i> voxel_indices_and_probabilities =
       ExtractVoxelData(hybrid_grid, global_submap_pose.cast<float>(),
                        &min_index, &max_index);
+  if (voxel_indices_and_probabilities.empty()) {
+    // There is nothing to show, so we use a single transparent pixel at the
+    // origin of the submap.
+    const Eigen::Vector3d origin =
+        global_submap_pose.translation() / resolution;
+    min_index = Eigen::Array2i(common::RoundToInt(origin.x()),
+                               common::RoundToInt(origin.y()));
+    max_index = min_index;
+  }
 
   const int width = max_index.y() - min_index.y() + 1;
   const int height = max_index.x() - min_index.x() + 1;
-- 
2.43.0


From 7917664db43a42c16ffae34b5af8784980a50dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:25 +0000
Subject: [PATCH 23/25] fix: paint all submaps if one of them has no image yet

A submap slice without a surface ended painting, so that the slices after it
were missing.
---
 cartographer/io/submap_painter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cartographer/io/submap_painter.cc b/cartographer/io/submap_painter.cc
index 49b0046..6cf779d 100644
--- a/cartographer/io/submap_painter.cc
+++ b/cartographer/io/submap_painter.cc
@@ -36,7 +36,7 @@ void CairoPaintSubmapSlices(
   for (auto& pair : submaps) {
     const auto& submap_slice = pair.second;
     if (submap_slice.surface == nullptr) {
-      return;
+      continue;
     }
     const Eigen::Matrix4d homo =
         ToEigen(submap_slice.pose * submap_slice.slice_pose).matrix();
-- 
2.43.0


From e18cc884c819d9e0717055b9024397f9722ee2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:02 +0000
Subject: [PATCH 24/25] fix: DetectFloors() accessed node -1 if the height
 changes after the first node

The span of the first node was left empty if the second node started
another span.
---
 cartographer/mapping/detect_floors.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cartographer/mapping/detect_floors.cc b/cartographer/mapping/detect_floors.cc
index 8ec605d..009d82e 100644
--- a/cartographer/mapping/detect_floors.cc
+++ b/cartographer/mapping/detect_floors.cc
@@ -82,7 +82,7 @@ std::vector<Span> SliceByAltitudeChange(const proto::Trajectory& trajectory) {
   CHECK_GT(trajectory.node_size(), 0);
 
   std::vector<Span> spans;
-  spans.push_back(Span{0, 0, {trajectory.node(0).pose().translation().z()}});
+  spans.push_back(Span{0, 1, {trajectory.node(0).pose().translation().z()}});
   for (int i = 1; i < trajectory.node_size(); ++i) {
     const auto& node = trajectory.node(i);
     const double z = node.pose().translation().z();
-- 
2.43.0


From a1f87595c425e31dd4fe53494da784dd6efa6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:02 +0000
Subject: [PATCH 25/25] fix: DetectFloors() lost the second of two short spans
 on intermediate levels

A short span counted as a long one of its level if the short span before
it had been added to this level.
---
 cartographer/mapping/detect_floors.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/detect_floors.cc b/cartographer/mapping/detect_floors.cc
index 009d82e..5e4d357 100644
--- a/cartographer/mapping/detect_floors.cc
+++ b/cartographer/mapping/detect_floors.cc
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <set>
 #include <vector>
 
 #include "Eigen/Core"
@@ -130,12 +131,14 @@ std::vector<Floor> FindFloors(const proto::Trajectory& trajectory,
                               const std::vector<Span>& spans,
                               const Levels& levels) {
   std::map<int, std::vector<Span>> level_spans;
+  std::set<int> levels_with_long_spans;
 
   // Initialize the levels to start out with only long spans.
   for (size_t i = 0; i < spans.size(); ++i) {
     const Span& span = spans[i];
     if (!IsShort(trajectory, span)) {
       level_spans[LevelFind(i, levels)].push_back(span);
+      levels_with_long_spans.insert(LevelFind(i, levels));
     }
   }
 
@@ -148,7 +151,7 @@ std::vector<Floor> FindFloors(const proto::Trajectory& trajectory,
     // If we have a long piece on this floor already, merge this short piece
     // into it.
     int level = LevelFind(i, levels);
-    if (!level_spans[level].empty()) {
+    if (levels_with_long_spans.count(level) != 0) {
       level_spans[level].push_back(span);
       continue;
     }
-- 
2.43.0

