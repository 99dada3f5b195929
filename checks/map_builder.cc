// Whole maps: sensor data goes in through MapBuilder, and what comes out is
// compared with the simulated world.
#include <unistd.h>

#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_options_3d.h"
#include "cartographer/mapping/map_builder.h"
#include "cartographer/transform/transform.h"
#include "mc.h"
#include "mc_sched.h"

namespace {

using namespace cartographer;
namespace pb = mapping::proto;
using Eigen::Vector3d;
using mapping::MapBuilder;
using mapping::NodeId;
using mapping::SubmapId;
using mapping::TrajectoryBuilderInterface;
using transform::Rigid3d;
using SensorId = TrajectoryBuilderInterface::SensorId;
using Constraint = mapping::PoseGraphInterface::Constraint;
using State = mapping::PoseGraphInterface::TrajectoryState;

struct NoFiles : public common::FileResolver {
  std::string GetFullPathOrDie(const std::string&) override { mc::fail("no files"); }
  std::string GetFileContentOrDie(const std::string&) override { mc::fail("no files"); }
};

#ifdef CHECK_3D
constexpr bool k3D = true;
#else
constexpr bool k3D = false;
#endif

// Nodes are made after 5 s, 0.2 m or 0.1 rad.
pb::TrajectoryBuilderOptions LocalOptions() {
  static const auto* const options = [] {
    const std::string common_options = R"(
  min_range = 0., max_range = 30., num_accumulated_range_data = 1,
  use_online_correlative_scan_matching = false,
  imu_gravity_time_constant = 10.,
  pose_extrapolator = {
    use_imu_based = false,
    constant_velocity = { imu_gravity_time_constant = 10., pose_queue_duration = 0.001 },
    imu_based = {
      pose_queue_duration = 5., gravity_constant = 9.806, pose_translation_weight = 1.,
      pose_rotation_weight = 1., imu_acceleration_weight = 1., imu_rotation_weight = 1.,
      odometry_translation_weight = 1., odometry_rotation_weight = 1.,
      solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 10, num_threads = 1 },
    },
  },
  real_time_correlative_scan_matcher = {
    linear_search_window = 0.1, angular_search_window = math.rad(4.),
    translation_delta_cost_weight = 1e-1, rotation_delta_cost_weight = 1e-1,
  },
  motion_filter = { max_time_seconds = 5., max_distance_meters = 0.2, max_angle_radians = 0.1 },
)";
#ifdef CHECK_3D
    const std::string code = "return { " + common_options + R"(
  voxel_filter_size = 0.1,
  high_resolution_adaptive_voxel_filter = { max_length = 2., min_num_points = 150, max_range = 15. },
  low_resolution_adaptive_voxel_filter = { max_length = 4., min_num_points = 200, max_range = 60. },
  ceres_scan_matcher = {
    occupied_space_weight_0 = 1., occupied_space_weight_1 = 6.,
    intensity_cost_function_options_0 = { weight = 0.5, huber_scale = 0.3, intensity_threshold = 40 },
    translation_weight = 1e3, rotation_weight = 1e3, only_optimize_yaw = false,
    ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 3, num_threads = 1 },
  },
  rotational_histogram_size = 60,
  submaps = {
    high_resolution = 0.20, high_resolution_max_range = 20., low_resolution = 0.6, num_range_data = 2,
    range_data_inserter = { hit_probability = 0.9, miss_probability = 0.45,
      num_free_space_voxels = 2, intensity_threshold = 40 },
  },
  use_intensities = false,
})";
#else
    const std::string code = "return { " + common_options + R"(
  voxel_filter_size = 0.025, use_imu_data = true,
  min_z = -0.8, max_z = 0.7, missing_data_ray_length = 5.,
  adaptive_voxel_filter = { max_length = 0.5, min_num_points = 150, max_range = 50. },
  loop_closure_adaptive_voxel_filter = { max_length = 0.9, min_num_points = 150, max_range = 50. },
  ceres_scan_matcher = {
    occupied_space_weight = 1., translation_weight = 1e3, rotation_weight = 1e3,
    ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 5, num_threads = 1 },
  },
  submaps = {
    num_range_data = 2,
    grid_options_2d = { grid_type = "PROBABILITY_GRID", resolution = 0.10 },
    range_data_inserter = {
      range_data_inserter_type = "PROBABILITY_GRID_INSERTER_2D",
      probability_grid_range_data_inserter = {
        insert_free_space = true, hit_probability = 0.9, miss_probability = 0.45,
      },
      tsdf_range_data_inserter = {
        truncation_distance = 0.3, maximum_weight = 10., update_free_space = false,
        normal_estimation_options = { num_normal_samples = 4, sample_radius = 0.5 },
        project_sdf_distance_to_scan_normal = true, update_weight_range_exponent = 0,
        update_weight_angle_scan_normal_to_ray_kernel_bandwidth = 0.5,
        update_weight_distance_cell_to_hit_kernel_bandwidth = 0.5,
      },
    },
  },
})";
#endif
    common::LuaParameterDictionary dictionary(code, absl::make_unique<NoFiles>());
    auto* const result = new pb::TrajectoryBuilderOptions;
#ifdef CHECK_3D
    *result->mutable_trajectory_builder_3d_options() =
        mapping::CreateLocalTrajectoryBuilderOptions3D(&dictionary);
#else
    *result->mutable_trajectory_builder_2d_options() =
        mapping::CreateLocalTrajectoryBuilderOptions2D(&dictionary);
#endif
    return result;
  }();
  return *options;
}

pb::MapBuilderOptions BuilderOptions(const bool collate_by_trajectory, const int optimize_every) {
  pb::MapBuilderOptions result;
  result.set_use_trajectory_builder_2d(!k3D);
  result.set_use_trajectory_builder_3d(k3D);
  result.set_num_background_threads(1);
  result.set_collate_by_trajectory(collate_by_trajectory);
  pb::PoseGraphOptions& options = *result.mutable_pose_graph_options();
  options.set_optimize_every_n_nodes(optimize_every);
  options.set_matcher_translation_weight(5e2);
  options.set_matcher_rotation_weight(1.6e3);
  options.set_max_num_final_iterations(100);
  options.set_global_sampling_ratio(1.);
  options.set_log_residual_histograms(false);
  options.set_global_constraint_search_after_n_seconds(50.);
  auto* const problem = options.mutable_optimization_problem_options();
  problem->set_huber_scale(10.);
  problem->set_acceleration_weight(1e-1);
  problem->set_rotation_weight(1.);
  problem->set_local_slam_pose_translation_weight(1e3);
  problem->set_local_slam_pose_rotation_weight(1e3);
  problem->set_odometry_translation_weight(10.);
  problem->set_odometry_rotation_weight(10.);
  problem->set_fixed_frame_pose_translation_weight(1.);
  problem->set_fixed_frame_pose_rotation_weight(1.);
  problem->set_log_solver_summary(false);
  problem->mutable_ceres_solver_options()->set_max_num_iterations(50);
  problem->mutable_ceres_solver_options()->set_num_threads(1);
  auto* const builder = options.mutable_constraint_builder_options();
  builder->set_sampling_ratio(1.);
  builder->set_max_constraint_distance(5.);
  builder->set_min_score(k3D ? 0.35 : 0.5);
  builder->set_global_localization_min_score(k3D ? 0.4 : 0.55);
  builder->set_loop_closure_translation_weight(500.);
  builder->set_loop_closure_rotation_weight(500.);
  builder->set_log_matches(false);
  auto* const fast = builder->mutable_fast_correlative_scan_matcher_options();
  fast->set_linear_search_window(0.5);
  fast->set_angular_search_window(0.2);
  fast->set_branch_and_bound_depth(6);
  auto* const ceres = builder->mutable_ceres_scan_matcher_options();
  ceres->set_occupied_space_weight(20.);
  ceres->set_translation_weight(10.);
  ceres->set_rotation_weight(1.);
  ceres->mutable_ceres_solver_options()->set_max_num_iterations(10);
  ceres->mutable_ceres_solver_options()->set_num_threads(1);
  auto* const fast3 = builder->mutable_fast_correlative_scan_matcher_options_3d();
  fast3->set_branch_and_bound_depth(6);
  fast3->set_full_resolution_depth(2);
  fast3->set_min_rotational_score(0.3);
  fast3->set_min_low_resolution_score(0.3);
  fast3->set_linear_xy_search_window(0.5);
  fast3->set_linear_z_search_window(0.2);
  fast3->set_angular_search_window(0.2);
  auto* const ceres3 = builder->mutable_ceres_scan_matcher_options_3d();
  ceres3->add_occupied_space_weight(5.);
  ceres3->add_occupied_space_weight(30.);
  ceres3->set_translation_weight(10.);
  ceres3->set_rotation_weight(1.);
  ceres3->set_only_optimize_yaw(false);
  ceres3->mutable_ceres_solver_options()->set_max_num_iterations(10);
  ceres3->mutable_ceres_solver_options()->set_num_threads(1);
  return result;
}

// The room: the inside of one box, in which others stand.
struct Box {
  Vector3d min, max;
};
const Box kRoom = {{-2.2, -1.4, -1.27}, {3.1, 2.3, 1.72}};
const Box kObstacles[] = {{{1.9, 0.9, -1.27}, {2.5, 1.5, 1.72}},
                          {{-1.6, -1.0, -1.27}, {-0.9, -0.7, 1.72}},
                          {{-2.3, 1.1, -1.27}, {-0.3, 2.4, 1.72}}};

double Cast(const Vector3d& o, const Vector3d& d) {
  double t = 1e9;
  for (int i = 0; i != 3; ++i) {
    if (d[i] > 1e-9) t = std::min(t, (kRoom.max[i] - o[i]) / d[i]);
    if (d[i] < -1e-9) t = std::min(t, (kRoom.min[i] - o[i]) / d[i]);
  }
  for (const Box& box : kObstacles) {
    double enter = 0., leave = 1e9;
    for (int i = 0; i != 3; ++i) {
      if (std::abs(d[i]) < 1e-9) {
        if (o[i] < box.min[i] || o[i] > box.max[i]) enter = 2e9;
        continue;
      }
      const double a = (box.min[i] - o[i]) / d[i], b = (box.max[i] - o[i]) / d[i];
      enter = std::max(enter, std::min(a, b));
      leave = std::min(leave, std::max(a, b));
    }
    if (enter < leave && enter > 0.) t = std::min(t, enter);
  }
  return t;
}

Rigid3d Pose(const double x, const double y, const double yaw) {
  return Rigid3d(Vector3d(x, y, 0.),
                 Eigen::Quaterniond(Eigen::AngleAxisd(yaw, Vector3d::UnitZ())));
}
double Distance(const Rigid3d& a, const Rigid3d& b) {
  return (a.translation() - b.translation()).norm();
}
double Angle(const Rigid3d& a, const Rigid3d& b) {
  return a.rotation().angularDistance(b.rotation());
}

common::Time ToTime(const double t) {
  return common::FromUniversal(987654321) + common::FromSeconds(t);
}

sensor::TimedPointCloudData TakeScan(const Rigid3d& pose, const double t) {
  sensor::TimedPointCloudData data;
  data.time = ToTime(t);
  data.origin = Eigen::Vector3f::Zero();
  const int num_beams = k3D ? 600 : 270;
  for (int i = 0; i != num_beams; ++i) {
    const double angle = 2. * M_PI * (i + 0.3) / num_beams - M_PI;
    const double elevations[] = {-0.5, -0.25, 0.017, 0.2, 0.45};
    const double elevation = k3D ? elevations[i % 5] : 0.;
    const Vector3d d(std::cos(angle) * std::cos(elevation), std::sin(angle) * std::cos(elevation),
                     std::sin(elevation));
    const double range = Cast(pose.translation(), pose.rotation() * d);
    data.ranges.push_back({(range * d).cast<float>(), 0.f});
  }
  return data;
}

// One robot: where it is at 0, 1, 2, ... seconds after its start. It moves
// straight in between.
struct Robot {
  double start;
  std::vector<Rigid3d> poses;
  Rigid3d At(const double t) const {
    const int i = std::min<int>(std::max<int>(std::floor(t), 0), poses.size() - 1);
    if (i + 1 >= static_cast<int>(poses.size())) return poses.back();
    const double f = t - i;
    return Rigid3d((1. - f) * poses[i].translation() + f * poses[i + 1].translation(),
                   poses[i].rotation().slerp(f, poses[i + 1].rotation()));
  }
  // Just before and after a change, the one that follows.
  double YawRate(const double t) const {
    const Rigid3d delta = At(t + 1e-3).inverse() * At(t + 2e-3);
    return transform::GetYaw(delta) / 1e-3;
  }
};

const Rigid3d kLandmark = Rigid3d::Translation(Vector3d(0.7, -0.3, 0.4));

enum Kind { kScan, kOdometry, kImu, kLandmarks, kFixedFrame };
struct Message {
  Kind kind;
  double time;  // since the start of the robot
};

struct Result {
  common::Time time;
  Rigid3d local_pose;
  bool inserted;
  NodeId node_id{0, 0};
  std::shared_ptr<const mapping::TrajectoryNode::Data> data;
  std::vector<std::shared_ptr<const mapping::Submap>> submaps;
};

// A trajectory being built, and what is expected of it.
class Trajectory {
 public:
  Trajectory(MapBuilder* builder, const Robot& robot, const std::set<Kind>& kinds,
             pb::TrajectoryBuilderOptions options)
      : builder_(builder), robot_(robot), options_(options) {
    const std::map<Kind, SensorId> all = {
        {kScan, {SensorId::SensorType::RANGE, "scan"}},
        {kOdometry, {SensorId::SensorType::ODOMETRY, "odom"}},
        {kImu, {SensorId::SensorType::IMU, "imu"}},
        {kLandmarks, {SensorId::SensorType::LANDMARK, "landmarks"}},
        {kFixedFrame, {SensorId::SensorType::FIXED_FRAME_POSE, "gps"}}};
    for (const Kind kind : kinds) ids_.insert(all.at(kind));
    id_ = builder->AddTrajectoryBuilder(
        ids_, options,
        [this](const int id, const common::Time time, const Rigid3d local_pose,
               sensor::RangeData range_data,
               std::unique_ptr<const TrajectoryBuilderInterface::InsertionResult> insertion) {
          MC_CHECK(id == id_, "result for trajectory " << id);
          MC_CHECK(!range_data.returns.empty(), "no points");
          Result result{time, local_pose, insertion != nullptr};
          if (insertion != nullptr) {
            result.node_id = insertion->node_id;
            result.data = insertion->constant_data;
            result.submaps = insertion->insertion_submaps;
          }
          results_.push_back(result);
        });
  }

  int id() const { return id_; }
  double latest_time() const { return latest_time_; }
  const std::set<SensorId>& ids() const { return ids_; }
  const pb::TrajectoryBuilderOptions& options() const { return options_; }
  const Robot& robot() const { return robot_; }
  const std::vector<Result>& results() const { return results_; }

  void Send(const Message& message) {
    mc::step();
    const double t = robot_.start + message.time;
    latest_time_ = t;
    const Rigid3d pose = robot_.At(message.time);
    auto* const to = builder_->GetTrajectoryBuilder(id_);
    ++sent_[message.kind];
    switch (message.kind) {
      case kScan:
        MC_LOG("trajectory " << id_ << ": scan at " << message.time);
        to->AddSensorData("scan", TakeScan(pose, t));
        scans_.push_back(message.time);
        break;
      case kOdometry:
        MC_LOG("trajectory " << id_ << ": odometry at " << message.time);
        odometry_.push_back(message.time);
        to->AddSensorData("odom", sensor::OdometryData{ToTime(t), OdometryFrame() * pose});
        break;
      case kImu:
        to->AddSensorData("imu", sensor::ImuData{ToTime(t), Vector3d(0., 0., 9.8),
                                                 Vector3d(0., 0., robot_.YawRate(message.time))});
        break;
      case kLandmarks: {
        MC_LOG("trajectory " << id_ << ": landmark at " << message.time);
        landmarks_.push_back(message.time);
        to->AddSensorData(
            "landmarks",
            sensor::LandmarkData{ToTime(t), {{"landmark", pose.inverse() * kLandmark, 10., 10.}}});
        break;
      }
      case kFixedFrame:
        MC_LOG("trajectory " << id_ << ": fixed frame pose at " << message.time);
        to->AddSensorData("gps", sensor::FixedFramePoseData{
                                     ToTime(t), Rigid3d::Translation(Vector3d(30., 20., 0.)) * pose});
        break;
    }
  }
  static Rigid3d OdometryFrame() { return Pose(3., -7., 0.8); }
  // From the local frame, in which the robot starts, to the room.
  Rigid3d LocalFrame() const { return robot_.poses[0]; }

  // The scans which become nodes, by their time.
  std::vector<double> ExpectedNodes() const {
    std::vector<double> nodes;
    for (const double t : scans_) {
      if (!nodes.empty() && t - nodes.back() <= 5. &&
          Distance(robot_.At(t), robot_.At(nodes.back())) <= 0.2 &&
          Angle(robot_.At(t), robot_.At(nodes.back())) <= 0.1) {
        continue;
      }
      nodes.push_back(t);
    }
    return nodes;
  }

  // What was delivered up to now, when the first 'num' scans had to be.
  void CheckResults(const bool complete) const {
    MC_CHECK(results_.size() <= scans_.size() && (!complete || results_.size() == scans_.size()),
             results_.size() << " results for " << scans_.size() << " scans");
    const std::vector<double> nodes = ExpectedNodes();
    int num_nodes = 0;
    std::vector<std::shared_ptr<const mapping::Submap>> submaps;
    for (size_t i = 0; i != results_.size(); ++i) {
      const Result& result = results_[i];
      MC_CHECK(result.time == ToTime(robot_.start + scans_[i]), "time of result " << i);
      const Rigid3d expected = LocalFrame().inverse() * robot_.At(scans_[i]);
      MC_CHECK(Distance(result.local_pose, expected) < 0.03 &&
                   Angle(result.local_pose, expected) < 0.02,
               "local pose of scan " << i << ": " << result.local_pose << ", expected "
                                     << expected);
      const bool inserted = std::find(nodes.begin(), nodes.end(), scans_[i]) != nodes.end();
      MC_CHECK(result.inserted == inserted,
               "scan " << i << (inserted ? " did not become" : " became") << " a node");
      if (!inserted) continue;
      MC_CHECK(result.node_id == (NodeId{id_, num_nodes}), "node id " << result.node_id);
      ++num_nodes;
      MC_CHECK(result.data->time == result.time &&
                   Distance(result.data->local_pose, result.local_pose) < 1e-6,
               "data of node " << result.node_id);
      // The first submap gets all of the first scans, then there are two.
      MC_CHECK(!result.submaps.empty() && result.submaps.size() <= 2, "insertion submaps");
    }
  }

  void CheckGraph(const Rigid3d& global_frame, const double tolerance, const bool trimmed) const {
    auto* const graph = builder_->pose_graph();
    std::map<NodeId, const Result*> expected;
    for (const Result& result : results_) {
      if (result.inserted) expected[result.node_id] = &result;
    }
    std::set<std::shared_ptr<const mapping::Submap>> submaps;
    for (const auto& e : expected) submaps.insert(e.second->submaps.begin(), e.second->submaps.end());
    size_t num = 0;
    for (const auto& node : graph->GetTrajectoryNodes()) {
      if (node.id.trajectory_id != id_) continue;
      ++num;
      MC_CHECK(expected.count(node.id), "node " << node.id << " was not announced");
      const Result& result = *expected.at(node.id);
      MC_CHECK(node.data.constant_data == result.data, "data of node " << node.id);
      const double t = common::ToSeconds(result.time - ToTime(robot_.start));
      const Rigid3d pose = global_frame * robot_.At(t);
      MC_CHECK(Distance(pose, node.data.global_pose) < tolerance &&
                   Angle(pose, node.data.global_pose) < tolerance,
               "node " << node.id << " is at " << node.data.global_pose << ", expected " << pose);
    }
    MC_CHECK(trimmed ? num <= expected.size() : num == expected.size(),
             num << " of " << expected.size() << " nodes");
    size_t num_submaps = 0;
    for (const auto& submap : graph->GetAllSubmapData()) {
      if (submap.id.trajectory_id != id_) continue;
      ++num_submaps;
      MC_CHECK(submaps.count(submap.data.submap), "submap " << submap.id << " was not announced");
      const Rigid3d pose = global_frame * LocalFrame() * submap.data.submap->local_pose();
      MC_CHECK(Distance(pose, submap.data.pose) < tolerance &&
                   Angle(pose, submap.data.pose) < tolerance,
               "submap " << submap.id << " is at " << submap.data.pose << ", expected " << pose);
      pb::SubmapQuery::Response response;
      MC_CHECK(builder_->SubmapToProto(submap.id, &response).empty(), "no image of " << submap.id);
      MC_CHECK(response.submap_version() == submap.data.submap->num_range_data() &&
                   response.textures_size() >= 1,
               "image of " << submap.id);
      pb::SubmapQuery::Response unchanged;
      for (const SubmapId& wrong :
           {SubmapId{-1, 0}, SubmapId{builder_->num_trajectory_builders(), 0},
            SubmapId{id_, 1000}}) {
        MC_CHECK(!builder_->SubmapToProto(wrong, &unchanged).empty() &&
                     unchanged.textures_size() == 0,
                 "there is an image of submap " << wrong);
      }
    }
    MC_CHECK(trimmed ? num_submaps <= submaps.size() : num_submaps == submaps.size(),
             num_submaps << " of " << submaps.size() << " submaps");
  }

  // All sensor data is in the graph.
  void CheckSensors(const bool odometry_filter) const {
    auto* const graph = builder_->pose_graph();
    std::vector<double> odometry;
    for (const double t : odometry_) {
      if (odometry_filter && !odometry.empty() && t - odometry.back() <= 1.5 &&
          Distance(robot_.At(t), robot_.At(odometry.back())) <= 0.35 &&
          Angle(robot_.At(t), robot_.At(odometry.back())) <= 0.3) {
        continue;
      }
      odometry.push_back(t);
    }
    std::vector<double> actual;
    const auto data = static_cast<mapping::PoseGraph*>(graph)->GetOdometryData();
    if (data.HasTrajectory(id_)) {
      for (const auto& d : data.trajectory(id_)) {
        actual.push_back(common::ToSeconds(d.time - ToTime(robot_.start)));
        MC_CHECK(Distance(d.pose, OdometryFrame() * robot_.At(actual.back())) < 1e-4, "odometry");
      }
    }
    MC_CHECK(actual.size() == odometry.size(),
             actual.size() << " odometry data, expected " << odometry.size());
    for (size_t i = 0; i != actual.size(); ++i) {
      MC_CHECK(std::abs(actual[i] - odometry[i]) < 1e-4, "time of odometry");
    }
    int imu = 0;
    const auto imu_data = static_cast<mapping::PoseGraph*>(graph)->GetImuData();
    if (imu_data.HasTrajectory(id_)) {
      for (const auto& d : imu_data.trajectory(id_)) {
        const double t = common::ToSeconds(d.time - ToTime(robot_.start));
        MC_CHECK(std::abs(d.angular_velocity.z() - robot_.YawRate(t)) < 1e-3, "IMU data");
        ++imu;
      }
    }
    // In 2D only local SLAM uses them.
    MC_CHECK(!k3D || imu == sent_.at(kImu), imu << " IMU data");
    int fixed = 0;
    const auto fixed_data = static_cast<mapping::PoseGraph*>(graph)->GetFixedFramePoseData();
    if (fixed_data.HasTrajectory(id_)) {
      for (const auto& d : fixed_data.trajectory(id_)) {
        MC_CHECK(d.pose.has_value(), "fixed frame pose");
        ++fixed;
      }
    }
    MC_CHECK(fixed == sent_.at(kFixedFrame), fixed << " fixed frame poses");
    int observations = 0;
    for (const auto& node : static_cast<mapping::PoseGraph*>(graph)->GetLandmarkNodes()) {
      for (const auto& o : node.second.landmark_observations) {
        if (o.trajectory_id == id_) ++observations;
      }
    }
    MC_CHECK(observations == sent_.at(kLandmarks), observations << " landmark observations");
    const std::vector<double> nodes = ExpectedNodes();
    for (const double t : landmarks_) {
      if (nodes.size() < 2 || t < nodes.front() || t > nodes.back()) continue;
      const auto poses = graph->GetLandmarkPoses();
      MC_CHECK(poses.count("landmark"), "there is no landmark");
      const Rigid3d expected = LocalFrame().inverse() * kLandmark;
      MC_CHECK(Distance(poses.at("landmark"), expected) < 0.1,
               "landmark at " << poses.at("landmark") << ", expected " << expected);
    }
  }

 private:
  MapBuilder* const builder_;
  const Robot robot_;
  const pb::TrajectoryBuilderOptions options_;
  std::set<SensorId> ids_;
  int id_ = -1;
  double latest_time_ = 0.;
  std::vector<Result> results_;
  std::vector<double> scans_, odometry_, landmarks_;
  std::map<Kind, int> sent_ = {{kScan, 0}, {kOdometry, 0}, {kImu, 0}, {kLandmarks, 0}, {kFixedFrame, 0}};
};

sched::Options SchedulerOptions(const int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  options.stack_size = 8 << 20;
  return options;
}

// Moves of a second each.
Rigid3d Move(const Rigid3d& pose, const int kind) {
  switch (kind) {
    case 0:
      return pose;
    case 1:
      return pose * Pose(0.08, 0., 0.);
    case 2:
      return pose * Pose(0.3, 0.05, 0.);
    case 3:
      return pose * Pose(0., 0., 0.07);
    case 4:
      return pose * Pose(0.25, 0., 0.15);
    default:
      return pose * Pose(0., 0., 0.17);
  }
}
Robot MakeRobot(const Rigid3d& start, const std::vector<int>& moves, const double time) {
  Robot robot{time, {start}};
  for (const int move : moves) robot.poses.push_back(Move(robot.poses.back(), move));
  return robot;
}

// Sensor data of a robot in the order of time.
std::vector<Message> Messages(const Robot& robot) {
  std::vector<Message> messages;
  for (size_t i = 0; i != robot.poses.size(); ++i) {
    for (const double t : {i - 0.5, i + 0.}) {
      if (t < 0.) continue;
      messages.push_back({kImu, t});
      messages.push_back({kOdometry, t});
    }
    messages.push_back({kScan, i + 0.});
  }
  return messages;
}
std::set<Kind> Sensors() {
  return {kScan, kOdometry, kImu};
}

void CheckOptions(const MapBuilder& builder, const std::vector<const Trajectory*>& trajectories) {
  const auto all = builder.GetAllTrajectoryBuilderOptions();
  MC_CHECK(builder.num_trajectory_builders() == static_cast<int>(all.size()), "options");
  for (const Trajectory* trajectory : trajectories) {
    const auto& options = all.at(trajectory->id());
    MC_CHECK(options.trajectory_builder_options().SerializeAsString() ==
                     trajectory->options().SerializeAsString() &&
                 options.sensor_id_size() == static_cast<int>(trajectory->ids().size()),
             "options of trajectory " << trajectory->id());
  }
}

// All orders in which the data of several sensors may arrive.
void Arrivals(const bool all_imu) {
  const int num_scans = 2;
  sched::Run(SchedulerOptions(0), [&] {
    auto options = LocalOptions();
    const bool by_trajectory = mc::flip();
    const int collate = mc::choose(3);
    options.set_collate_landmarks(collate != 0);
    options.set_collate_fixed_frame(collate == 2);
    MapBuilder builder(BuilderOptions(by_trajectory, 2));
    Robot robot = MakeRobot(Pose(-0.4, 0.2, 0.3), std::vector<int>(num_scans - 1, 2), 100.);
    auto sensors = Sensors();
    sensors.insert({kLandmarks, kFixedFrame});
    Trajectory trajectory(&builder, robot, sensors, options);
    std::map<Kind, std::vector<double>> queues = {{kLandmarks, {0.}}, {kFixedFrame, {0.}}};
    std::vector<Message> fixed;
    for (const Message& m : Messages(robot)) {
      if (m.kind == kImu && m.time > 0. && !all_imu) continue;
      queues[m.kind].push_back(m.time);
    }
    std::map<Kind, size_t> next;
    while (true) {
      std::vector<Kind> kinds;
      for (const auto& q : queues) {
        if (next[q.first] < q.second.size()) kinds.push_back(q.first);
      }
      if (kinds.empty()) break;
      const Kind kind = mc::pick(kinds);
      trajectory.Send({kind, queues[kind][next[kind]++]});
      trajectory.CheckResults(false);
    }
    builder.FinishTrajectory(trajectory.id());
    trajectory.CheckResults(true);
    builder.pose_graph()->RunFinalOptimization();
    trajectory.CheckGraph(trajectory.LocalFrame().inverse(), 0.05, false);
    trajectory.CheckSensors(false);
    CheckOptions(builder, {&trajectory});
  });
}

// All motions.
void Motions(const int num_moves) {
  sched::Run(SchedulerOptions(0), [&] {
    auto options = LocalOptions();
    const bool filter = mc::flip();
    if (filter) {
      auto* const f = options.mutable_pose_graph_odometry_motion_filter();
      f->set_max_time_seconds(1.5);
      f->set_max_distance_meters(0.35);
      f->set_max_angle_radians(0.3);
    }
    MapBuilder builder(BuilderOptions(mc::flip(), 2));
    std::vector<int> moves;
    for (int i = 0; i != num_moves; ++i) moves.push_back(mc::choose(5));
    const Robot robot = MakeRobot(Pose(-0.4, 0.2, 0.3), moves, 100.);
    Trajectory trajectory(&builder, robot, Sensors(), options);
    for (const Message& message : Messages(robot)) trajectory.Send(message);
    builder.FinishTrajectory(trajectory.id());
    trajectory.CheckResults(true);
    builder.pose_graph()->RunFinalOptimization();
    trajectory.CheckGraph(trajectory.LocalFrame().inverse(), 0.05, false);
    trajectory.CheckSensors(filter);
  });
}

// Two robots in the same room: one map.
void TwoRobots(const int num_moves, const int preemptions) {
  sched::Run(SchedulerOptions(preemptions), [&] {
    // With preemptions, the robots take turns.
    const bool by_trajectory = preemptions != 0 || mc::flip();
    MapBuilder builder(BuilderOptions(by_trajectory, 2));
    const Robot robots[2] = {
        MakeRobot(Pose(-0.4, 0.2, 0.3), std::vector<int>(num_moves, 2), 100.),
        MakeRobot(Pose(0.3, 0.5, 0.2 + mc::choose(preemptions != 0 ? 1 : 2) * 1.3), std::vector<int>(num_moves, 4), 100.5)};
    Trajectory first(&builder, robots[0], Sensors(), LocalOptions());
    Trajectory second(&builder, robots[1], Sensors(), LocalOptions());
    Trajectory* const trajectories[] = {&first, &second};
    std::vector<Message> messages[] = {Messages(robots[0]), Messages(robots[1])};
    size_t next[] = {0, 0};
    bool finished[] = {false, false};
    while (!finished[0] || !finished[1]) {
      std::vector<int> ready;
      for (const int i : {0, 1}) {
        if (finished[i]) continue;
        // Data of this robot waits for data of the other one.
        if (next[i] == messages[i].size() && !by_trajectory && !finished[1 - i] &&
            trajectories[1 - i]->latest_time() < trajectories[i]->latest_time() &&
            mc::known("finish_while_held_back")) {
          continue;
        }
        ready.push_back(i);
      }
      const int i = preemptions == 0 ? mc::pick(ready)
                    : ready.size() == 1 || next[0] <= next[1] ? ready[0]
                                                              : ready[1];
      if (next[i] == messages[i].size()) {
        {
          // The order in which the queues are finished is arbitrary.
          sched::NoPreempt atomic;
          builder.FinishTrajectory(trajectories[i]->id());
        }
        finished[i] = true;
        trajectories[i]->CheckResults(true);
        continue;
      }
      while (true) {
        const Message message = messages[i][next[i]++];
        trajectories[i]->Send(message);
        if (message.kind == kScan) break;
      }
    }
    for (const Trajectory* t : trajectories) t->CheckResults(true);
    builder.pose_graph()->RunFinalOptimization();
    for (const Trajectory* t : trajectories) {
      t->CheckGraph(first.LocalFrame().inverse(), k3D ? 0.3 : 0.15, false);
      t->CheckSensors(false);
    }
    CheckOptions(builder, {&first, &second});
    MC_CHECK(builder.pose_graph()->GetTrajectoryStates() ==
                 (std::map<int, State>{{0, State::FINISHED}, {1, State::FINISHED}}),
             "trajectory states");
  });
}

// In memory, or in a file which is removed afterwards.
class SavedMap {
 public:
  SavedMap(MapBuilder* builder, const bool in_file, const bool include_unfinished) {
    if (in_file) {
      char name[] = "/tmp/map_builder_XXXXXX";
      MC_CHECK(mkdtemp(name) != nullptr, "no scratch directory");
      directory_ = name;
      const bool written = builder->SerializeStateToFile(include_unfinished, directory_ + "/map.pbstream");
      MC_CHECK(written, "the map was not written");
      return;
    }
    io::ForwardingProtoStreamWriter writer([this](const google::protobuf::Message* message) {
      if (message != nullptr) messages_.push_back(message->SerializeAsString());
      return true;
    });
    builder->SerializeState(include_unfinished, &writer);
    writer.Close();
  }
  ~SavedMap() {
    if (directory_.empty()) return;
    unlink((directory_ + "/map.pbstream").c_str());
    rmdir(directory_.c_str());
  }
  std::map<int, int> Load(MapBuilder* builder, const bool frozen) {
    if (!directory_.empty()) {
      return builder->LoadStateFromFile(directory_ + "/map.pbstream", frozen);
    }
    struct Reader : public io::ProtoStreamReaderInterface {
      bool ReadProto(google::protobuf::Message* message) override {
        return next != messages->size() && message->ParseFromString((*messages)[next++]);
      }
      bool eof() const override { return next == messages->size(); }
      const std::vector<std::string>* messages;
      size_t next = 0;
    } reader;
    reader.messages = &messages_;
    return builder->LoadState(&reader, frozen);
  }

 private:
  std::string directory_;
  std::vector<std::string> messages_;
};

// A robot finds its position in a map which was built before.
void Localization(const int num_moves) {
  sched::Run(SchedulerOptions(0), [&] {
    const Robot mapper = MakeRobot(Pose(-0.4, 0.2, 0.3), {2, 4, 2}, 100.);
    const Rigid3d map_frame = mapper.poses[0].inverse();
    std::unique_ptr<SavedMap> map;
    std::map<NodeId, Rigid3d> map_nodes;
    std::set<SubmapId> map_submaps;
    {
      MapBuilder builder(BuilderOptions(true, 2));
      Trajectory trajectory(&builder, mapper, Sensors(), LocalOptions());
      for (const Message& message : Messages(mapper)) trajectory.Send(message);
      builder.FinishTrajectory(trajectory.id());
      builder.pose_graph()->RunFinalOptimization();
      const bool in_file = mc::flip();
      const bool include_unfinished = !in_file || mc::flip();
      map = absl::make_unique<SavedMap>(&builder, in_file, include_unfinished);
      for (const auto& submap : builder.pose_graph()->GetAllSubmapData()) {
        if (include_unfinished || submap.data.submap->insertion_finished()) {
          map_submaps.insert(submap.id);
        }
      }
      for (const auto& node : builder.pose_graph()->GetTrajectoryNodes()) {
        map_nodes[node.id] = node.data.global_pose;
      }
    }

    MapBuilder builder(BuilderOptions(true, 2));
    auto options = LocalOptions();
    const int keep = mc::pick(std::vector<int>{0, 2, 3});
    if (keep == 2) options.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(2);
    if (keep == 3) options.set_pure_localization(true);
    const bool frozen = keep != 0 || mc::flip();
    MC_CHECK(map->Load(&builder, frozen) == (std::map<int, int>{{0, 0}}), "trajectory ids");
    MC_CHECK(builder.num_trajectory_builders() == 1 && builder.GetTrajectoryBuilder(0) == nullptr,
             "the loaded trajectory");
    std::vector<int> moves;
    for (int i = 0; i != num_moves; ++i) moves.push_back(mc::flip() ? 4 : 2);
    for (int i = 0; i != 4; ++i) moves.push_back(5);
    const Rigid3d start = mc::pick(
        std::vector<Rigid3d>{Pose(0.3, 0.5, 0.2), Pose(0., 0., 1.5), Pose(0.9, -0.2, -2.5)});
    const Robot robot = MakeRobot(start, moves, 500.);
    const bool initial = mc::flip();
    if (initial) {
      auto* const pose = options.mutable_initial_trajectory_pose();
      pose->set_to_trajectory_id(0);
      *pose->mutable_relative_pose() = transform::ToProto(mapper.poses[1].inverse() * start);
      pose->set_timestamp(common::ToUniversal(ToTime(mapper.start + 1.)));
    }
    Trajectory trajectory(&builder, robot, Sensors(), options);
    MC_CHECK(trajectory.id() == 1 && builder.num_trajectory_builders() == 2, "trajectory id");
    for (const Message& message : Messages(robot)) {
      trajectory.Send(message);
      if (initial && message.kind == kScan) {
        trajectory.CheckGraph(map_frame, k3D ? 0.3 : 0.15, keep != 0);
      }
    }
    const bool finish = mc::flip();
    if (finish) builder.FinishTrajectory(trajectory.id());
    trajectory.CheckResults(finish);
    builder.pose_graph()->RunFinalOptimization();
    if (finish && keep != 0) {
      for (const auto& node : builder.pose_graph()->GetTrajectoryNodes()) {
        MC_CHECK(node.id.trajectory_id == 0, "a trajectory used for localization remained");
      }
      MC_CHECK(builder.pose_graph()->GetTrajectoryStates().at(1) == State::DELETED, "state");
    } else {
      trajectory.CheckGraph(map_frame, k3D ? 0.3 : 0.15, keep != 0);
      int num_submaps = 0;
      for (const auto& submap : builder.pose_graph()->GetAllSubmapPoses()) {
        if (submap.id.trajectory_id == 1) ++num_submaps;
      }
      MC_CHECK(num_submaps >= 2 && (keep == 0 || num_submaps <= keep),
               num_submaps << " submaps of the localization");
    }
    size_t num = 0;
    for (const auto& node : builder.pose_graph()->GetTrajectoryNodes()) {
      if (node.id.trajectory_id != 0) continue;
      ++num;
      const Rigid3d expected = map_nodes.at(node.id);
      const double tolerance = frozen ? 1e-6 : 0.1;
      MC_CHECK(Distance(expected, node.data.global_pose) < tolerance &&
                   Angle(expected, node.data.global_pose) < tolerance,
               "node " << node.id << " of the map was moved to " << node.data.global_pose
                       << " from " << expected);
    }
    MC_CHECK(num == map_nodes.size(), "nodes of the map were lost");
    std::set<SubmapId> submaps;
    for (const auto& submap : builder.pose_graph()->GetAllSubmapPoses()) {
      if (submap.id.trajectory_id == 0) submaps.insert(submap.id);
    }
    MC_CHECK(submaps == map_submaps, submaps.size() << " submaps of the map, expected "
                                                    << map_submaps.size());
    MC_CHECK(builder.pose_graph()->GetTrajectoryStates().at(0) ==
                 (frozen ? State::FROZEN : State::ACTIVE),
             "state of the map");
    CheckOptions(builder, {&trajectory});
    if (!finish) builder.FinishTrajectory(trajectory.id());
  });
}

}  // namespace

int main(int argc, char** argv) {
  std::cout.setstate(std::ios::failbit);
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"arrivals", [] { Arrivals(mc::thorough()); }, 3, UINT64_MAX,
                       "all orders of arrival of the data of all sensors around 2 scans"});
  scenarios.push_back({"motions", [] { Motions(mc::thorough() ? 6 - k3D : 4 - k3D); }, 3, UINT64_MAX,
                       "all sequences of 4 (6) of 5 motions, one less in 3D"});
  scenarios.push_back({"two_robots", [] { TwoRobots(mc::thorough() ? 4 : 3, 0); }, 3, UINT64_MAX,
                       "all interleavings of two robots with 4 (5) scans each"});
  scenarios.push_back({"schedules", [] { TwoRobots(3, 1); }, k3D ? 2 : 3, UINT64_MAX,
                       "two robots with 4 scans each which take turns, 1 preemption"});
  scenarios.push_back({"localization", [] { Localization(mc::thorough() ? 4 - k3D : 3 - k3D); }, 3, UINT64_MAX,
                       "localization in a saved map: 3 starts, all sequences of 3 (4; one less in 3D) of 2 motions, "
                       "with and without trimming, initial pose, frozen map"});
  return mc::Main(argc, argv, scenarios,
                  {"stateless model checking under a controlled scheduler",
                   {"sequential consistency (races are reported)"}});
}
