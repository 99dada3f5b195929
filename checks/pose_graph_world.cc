#include "pose_graph_world.h"

#include "absl/memory/memory.h"
#include "cartographer/mapping/trajectory_node.h"
#include "cartographer/transform/transform.h"
#ifndef CHECK_3D
#include "cartographer/mapping/2d/probability_grid.h"
#endif

namespace world {

namespace pb = cartographer::mapping::proto;

pb::PoseGraphOptions Options(const int optimize_every_n_nodes) {
  pb::PoseGraphOptions options;
  options.set_optimize_every_n_nodes(optimize_every_n_nodes);
  options.set_matcher_translation_weight(500.);
  options.set_matcher_rotation_weight(1600.);
  options.set_max_num_final_iterations(100);
  options.set_global_sampling_ratio(1.);
  options.set_log_residual_histograms(false);
  options.set_global_constraint_search_after_n_seconds(15.);
  auto* const problem = options.mutable_optimization_problem_options();
  problem->set_huber_scale(10.);
  problem->set_acceleration_weight(1e-2);
  problem->set_rotation_weight(1.);
  problem->set_local_slam_pose_translation_weight(1e3);
  problem->set_local_slam_pose_rotation_weight(1e3);
  problem->set_odometry_translation_weight(1.);
  problem->set_odometry_rotation_weight(1.);
  problem->set_fixed_frame_pose_translation_weight(1.);
  problem->set_fixed_frame_pose_rotation_weight(1.);
  problem->set_log_solver_summary(false);
  problem->mutable_ceres_solver_options()->set_max_num_iterations(50);
  problem->mutable_ceres_solver_options()->set_num_threads(1);
  problem->mutable_ceres_solver_options()->set_use_nonmonotonic_steps(false);
  auto* const builder = options.mutable_constraint_builder_options();
  builder->set_sampling_ratio(1.);
  builder->set_max_constraint_distance(5.);
  builder->set_min_score(0.7);
  builder->set_global_localization_min_score(0.7);
  builder->set_loop_closure_translation_weight(100.);
  builder->set_loop_closure_rotation_weight(120.);
  builder->set_log_matches(false);
  auto* const fast = builder->mutable_fast_correlative_scan_matcher_options();
  fast->set_linear_search_window(0.6);
  fast->set_angular_search_window(0.1);
  fast->set_branch_and_bound_depth(3);
  auto* const ceres = builder->mutable_ceres_scan_matcher_options();
  ceres->set_occupied_space_weight(1.);
  ceres->set_translation_weight(1e3);
  ceres->set_rotation_weight(1e3);
  ceres->mutable_ceres_solver_options()->set_max_num_iterations(1);
  ceres->mutable_ceres_solver_options()->set_num_threads(1);
  auto* const fast3 = builder->mutable_fast_correlative_scan_matcher_options_3d();
  fast3->set_branch_and_bound_depth(7);
  fast3->set_full_resolution_depth(1);
  fast3->set_min_rotational_score(0.);
  fast3->set_min_low_resolution_score(0.);
  fast3->set_linear_xy_search_window(0.6);
  fast3->set_linear_z_search_window(0.1);
  fast3->set_angular_search_window(0.1);
  auto* const ceres3 = builder->mutable_ceres_scan_matcher_options_3d();
  ceres3->add_occupied_space_weight(1.);
  ceres3->add_occupied_space_weight(1.);
  ceres3->set_translation_weight(1e3);
  ceres3->set_rotation_weight(1e3);
  ceres3->set_only_optimize_yaw(false);
  ceres3->mutable_ceres_solver_options()->set_max_num_iterations(1);
  ceres3->mutable_ceres_solver_options()->set_num_threads(1);
  return options;
}

std::unique_ptr<Graph> MakeGraph(const pb::PoseGraphOptions& options, common::ThreadPool* pool) {
  return absl::make_unique<Graph>(
      options, absl::make_unique<Problem>(options.optimization_problem_options()), pool);
}

namespace {

// Centers of cells, in the scene.
std::vector<Eigen::Vector3f> Scene() {
#ifdef CHECK_3D
  return {{1.f, 0.5f, 0.f}, {-0.5f, 1.f, 0.f}, {0.5f, -1.f, 0.f}};
#else
  return {{0.75f, 0.25f, 0.f}, {-0.75f, 0.75f, 0.f}, {0.25f, -1.25f, 0.f}};
#endif
}

Eigen::Quaterniond Gravity(const int trajectory) {
#ifdef CHECK_3D
  return Eigen::Quaterniond::Identity();
#else
  if (trajectory > 1) return Eigen::Quaterniond::Identity();
  return Eigen::Quaterniond(
      Eigen::AngleAxisd(trajectory == 1 ? 0.4 : -0.5, Eigen::Vector3d::UnitZ()) *
      Eigen::AngleAxisd(trajectory == 1 ? 0.2 : 0.1, Eigen::Vector3d::UnitX()));
#endif
}

}  // namespace

common::Time NodeTime(const int trajectory, const int index) {
  return common::FromUniversal(0) + common::FromSeconds(1000. + trajectory + 10. * index);
}

Rigid3d LocalFrame(const int trajectory) {
  return Rigid3d::Translation(
      trajectory == 0 ? Eigen::Vector3d(0., 0., 0.) : Eigen::Vector3d(5. * trajectory, 3., 0.));
}

Rigid3d TrueNodePose(const int trajectory, const int index) {
  return Rigid3d::Translation(Eigen::Vector3d(0.05 * index + 0.03 * trajectory, 0.02 * index, 0.));
}

Rigid3d LocalSubmapPose(const int trajectory, const int index) {
  return LocalFrame(trajectory).inverse() * TrueNodePose(trajectory, index);
}

Rigid3d LocalNodePose(const int trajectory, const int index) {
  return LocalSubmapPose(trajectory, index) * Rigid3d::Rotation(Gravity(trajectory));
}

std::shared_ptr<const TrajectoryNode::Data> MakeNode(const int trajectory, const int index) {
  auto data = std::make_shared<TrajectoryNode::Data>();
  data->time = NodeTime(trajectory, index);
  data->gravity_alignment = Gravity(trajectory);
  data->local_pose = LocalNodePose(trajectory, index);
  sensor::PointCloud cloud;
  const Eigen::Vector3f position = TrueNodePose(trajectory, index).translation().cast<float>();
  for (const auto& p : Scene()) cloud.push_back({Eigen::Vector3f(p - position)});
  data->filtered_gravity_aligned_point_cloud = cloud;
  data->high_resolution_point_cloud = cloud;
  data->low_resolution_point_cloud = cloud;
  data->rotational_scan_matcher_histogram = Eigen::VectorXf::Ones(1);
  return data;
}

#ifdef CHECK_3D
std::shared_ptr<Submap3D> MakeSubmap(const int trajectory, const int index) {
  pb::Submap3D data;
  *data.mutable_local_pose() = transform::ToProto(LocalSubmapPose(trajectory, index));
  data.set_num_range_data(1);
  data.set_finished(false);
  HybridGrid high(0.5f), low(1.f);
  // Grids are in the frame of the submap; its origin is not on a cell center.
  const Rigid3d submap_in_scene = TrueNodePose(trajectory, index);
  for (const auto& p : Scene()) {
    const Eigen::Vector3f q = submap_in_scene.inverse().cast<float>() * p;
    high.SetProbability(high.GetCellIndex(q), 0.9f);
    low.SetProbability(low.GetCellIndex(q), 0.9f);
  }
  *data.mutable_high_resolution_hybrid_grid() = high.ToProto();
  *data.mutable_low_resolution_hybrid_grid() = low.ToProto();
  data.add_rotational_scan_matcher_histogram(1.f);
  return std::make_shared<Submap3D>(data);
}
void FinishSubmap(Submap3D* submap) { submap->Finish(); }
#else
ValueConversionTables* Tables() {
  static auto* const tables = new ValueConversionTables;
  return tables;
}
std::shared_ptr<Submap2D> MakeSubmap(const int trajectory, const int index) {
  const Rigid3d local_from_scene = LocalFrame(trajectory).inverse();
  const Eigen::Vector2d center = local_from_scene.translation().head<2>();
  auto grid = std::make_unique<ProbabilityGrid>(
      MapLimits(0.5, center + Eigen::Vector2d(2., 2.), CellLimits(8, 8)), Tables());
  for (const auto& p : Scene()) {
    const Eigen::Vector3f q = local_from_scene.cast<float>() * p;
    grid->SetProbability(grid->limits().GetCellIndex(q.head<2>()), 0.9f);
  }
  auto submap = std::make_shared<Submap2D>(
      LocalSubmapPose(trajectory, index).translation().head<2>().cast<float>(), std::move(grid),
      Tables());
  submap->set_num_range_data(1);
  return submap;
}
void FinishSubmap(Submap2D* submap) { submap->Finish(); }
#endif

pb::Submap SubmapProto(const int trajectory, const int index) {
  auto submap = MakeSubmap(trajectory, index);
  FinishSubmap(submap.get());
  pb::Submap proto = submap->ToProto(true);
  proto.mutable_submap_id()->set_trajectory_id(trajectory);
  proto.mutable_submap_id()->set_submap_index(index);
  return proto;
}

pb::Node NodeProto(const int trajectory, const int index) {
  pb::Node proto;
  proto.mutable_node_id()->set_trajectory_id(trajectory);
  proto.mutable_node_id()->set_node_index(index);
  *proto.mutable_node_data() = ToProto(*MakeNode(trajectory, index));
  return proto;
}

double Difference(const Rigid3d& a, const Rigid3d& b) {
  return (a.translation() - b.translation()).norm() + transform::GetAngle(a.inverse() * b);
}

}  // namespace world
