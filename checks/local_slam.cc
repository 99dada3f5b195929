// Local SLAM in a simulated room: for all bounded motions, configurations and
// event sequences, scans are placed where they were taken.
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#ifdef CHECK_3D
#include "cartographer/mapping/internal/3d/local_trajectory_builder_3d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_options_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "cartographer/sensor/internal/voxel_filter.h"
#else
#include "cartographer/mapping/internal/2d/local_trajectory_builder_2d.h"
#include "cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.h"
#endif
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using transform::Rigid3d;

#ifdef CHECK_3D
using Builder = mapping::LocalTrajectoryBuilder3D;
using Options = mapping::proto::LocalTrajectoryBuilderOptions3D;
constexpr double kVoxel = 0.15;
// It is filtered twice.
constexpr double kFilter = 1.5 * kVoxel;
constexpr int kLess = 1;
#else
using Builder = mapping::LocalTrajectoryBuilder2D;
using Options = mapping::proto::LocalTrajectoryBuilderOptions2D;
constexpr double kVoxel = 0.025;
constexpr double kFilter = kVoxel;
constexpr int kLess = 0;
#endif

struct NoFiles : public common::FileResolver {
  std::string GetFullPathOrDie(const std::string&) override { mc::fail("no files"); }
  std::string GetFileContentOrDie(const std::string&) override { mc::fail("no files"); }
};

// Settings which vary; all others are the defaults.
struct Settings {
  bool use_imu = true;
  int num_accumulated = 1;
  double min_range = 0.;
  double max_range = 30.;
  bool correlative = false;
  int submap_size = 90;
  // The prediction is trusted, which makes the result exact if it is.
  bool trust = true;
  bool intensities = false;  // in 3D
  double pose_tolerance = 2e-3;
#ifdef CHECK_3D
  double angle_tolerance = 3e-3;  // numerical drift
#else
  double angle_tolerance = 5e-4;
#endif
  // Number of results until the motion is known.
  int settle = 0;
};

Options MakeOptions(const Settings& s) {
  const auto flag = [](const bool b) { return std::string(b ? "true" : "false"); };
  const auto number = [](const double d) { return std::to_string(d); };
#ifdef CHECK_3D
  const std::string translation_weight = number(s.trust ? 1e3 : 1.);
  const std::string rotation_weight = number(s.trust ? 1e3 : 1.);
#else
  const std::string translation_weight = number(s.trust ? 1e3 : 1.);
  const std::string rotation_weight = number(s.trust ? 1e3 : 1.);
#endif
  const std::string hit = number(s.trust ? 0.55 : 0.9);
  const std::string common_options =
      "min_range = " + number(s.min_range) + ", max_range = " + number(s.max_range) +
      ", num_accumulated_range_data = " + std::to_string(s.num_accumulated) +
      ", voxel_filter_size = " + number(kVoxel) +
      ", use_online_correlative_scan_matching = " + flag(s.correlative) +
      R"(, imu_gravity_time_constant = 10.,
  pose_extrapolator = {
    use_imu_based = false,
    constant_velocity = { imu_gravity_time_constant = 10., pose_queue_duration = 0.001 },
    imu_based = {
      pose_queue_duration = 5., gravity_constant = 9.806, pose_translation_weight = 1.,
      pose_rotation_weight = 1., imu_acceleration_weight = 1., imu_rotation_weight = 1.,
      odometry_translation_weight = 1., odometry_rotation_weight = 1.,
      solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 10, num_threads = 1 },
    },
  },
)";
#ifdef CHECK_3D
  const std::string code = "return { " + common_options + R"(
  high_resolution_adaptive_voxel_filter = { max_length = 2., min_num_points = 150, max_range = 15. },
  low_resolution_adaptive_voxel_filter = { max_length = 4., min_num_points = 200, max_range = 60. },
  real_time_correlative_scan_matcher = {
    linear_search_window = 0.15, angular_search_window = math.rad(1.),
    translation_delta_cost_weight = 1e-1, rotation_delta_cost_weight = 1e-1,
  },
  ceres_scan_matcher = {
    occupied_space_weight_0 = 1., occupied_space_weight_1 = 6.,
    intensity_cost_function_options_0 = { weight = 0.5, huber_scale = 0.3, intensity_threshold = 40 },
    translation_weight = )" + translation_weight + R"(, rotation_weight = )" + rotation_weight + R"(, only_optimize_yaw = false,
    ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 12, num_threads = 1 },
  },
  motion_filter = { max_time_seconds = 0.5, max_distance_meters = 0.1, max_angle_radians = 0.004 },
  rotational_histogram_size = 120,
  submaps = {
    high_resolution = 0.10, high_resolution_max_range = 20., low_resolution = 0.45,
    num_range_data = )" + std::to_string(s.submap_size) + R"(,
    range_data_inserter = { hit_probability = )" + hit + R"(, miss_probability = 0.45,
      num_free_space_voxels = 2, intensity_threshold = 40 },
  },
  use_intensities = )" + flag(s.intensities) + R"(,
})";
#else
  const std::string code = "return { " + common_options + R"(
  use_imu_data = )" + flag(s.use_imu) + R"(,
  min_z = -0.8, max_z = 0.7, missing_data_ray_length = 5.,
  adaptive_voxel_filter = { max_length = 0.5, min_num_points = 200, max_range = 50. },
  loop_closure_adaptive_voxel_filter = { max_length = 0.9, min_num_points = 100, max_range = 50. },
  real_time_correlative_scan_matcher = {
    linear_search_window = 0.1, angular_search_window = math.rad(4.),
    translation_delta_cost_weight = 1e-1, rotation_delta_cost_weight = 1e-1,
  },
  ceres_scan_matcher = {
    occupied_space_weight = 1., translation_weight = )" + translation_weight + R"(, rotation_weight = )" + rotation_weight + R"(,
    ceres_solver_options = { use_nonmonotonic_steps = false, max_num_iterations = 20, num_threads = 1 },
  },
  motion_filter = { max_time_seconds = 5., max_distance_meters = 0.2, max_angle_radians = math.rad(1.) },
  submaps = {
    num_range_data = )" + std::to_string(s.submap_size) + R"(,
    grid_options_2d = { grid_type = "PROBABILITY_GRID", resolution = 0.05 },
    range_data_inserter = {
      range_data_inserter_type = "PROBABILITY_GRID_INSERTER_2D",
      probability_grid_range_data_inserter = {
        insert_free_space = true, hit_probability = )" + hit + R"(, miss_probability = 0.45,
      },
      tsdf_range_data_inserter = {
        truncation_distance = 0.3, maximum_weight = 10., update_free_space = false,
        normal_estimation_options = { num_normal_samples = 4, sample_radius = 0.5 },
        project_sdf_distance_to_scan_normal = true, update_weight_range_exponent = 0,
        update_weight_angle_scan_normal_to_ray_kernel_bandwidth = 0.5,
        update_weight_distance_cell_to_hit_kernel_bandwidth = 0.5,
      },
    },
  },
})";
#endif
  static auto* const cache = new std::map<std::string, Options>;
  const auto it = cache->find(code);
  if (it != cache->end()) return it->second;
  common::LuaParameterDictionary dictionary(code, absl::make_unique<NoFiles>());
#ifdef CHECK_3D
  const Options options = mapping::CreateLocalTrajectoryBuilderOptions3D(&dictionary);
#else
  const Options options = mapping::CreateLocalTrajectoryBuilderOptions2D(&dictionary);
#endif
  return cache->emplace(code, options).first->second;
}

// The room: the inside of one box, in which others stand.
struct Box {
  Vector3d min, max;
};
const Box kRoom = {{-3.2, -2.4, -1.27}, {4.1, 3.3, 1.72}};
const Box kObstacles[] = {{{2.1, 0.6, -1.27}, {2.9, 1.5, 1.72}}, {{-2.3, -1.9, -1.27}, {-1.1, -1.2, 1.72}}};

// Distance along 'd' from inside of the room.
double Cast(const Vector3d& o, const Vector3d& d) {
  double t = 1e9;
  for (int i = 0; i != 3; ++i) {
    if (d[i] > 1e-9) t = std::min(t, (kRoom.max[i] - o[i]) / d[i]);
    if (d[i] < -1e-9) t = std::min(t, (kRoom.min[i] - o[i]) / d[i]);
  }
  for (const Box& box : kObstacles) {
    double enter = 0., leave = 1e9;
    for (int i = 0; i != 3; ++i) {
      if (std::abs(d[i]) < 1e-9) {
        if (o[i] < box.min[i] || o[i] > box.max[i]) enter = 2e9;
        continue;
      }
      const double a = (box.min[i] - o[i]) / d[i], b = (box.max[i] - o[i]) / d[i];
      enter = std::max(enter, std::min(a, b));
      leave = std::min(leave, std::max(a, b));
    }
    if (enter < leave && enter > 0.) t = std::min(t, enter);
  }
  return t;
}

Quaterniond Exp(const Vector3d& w) {
  const double angle = w.norm();
  if (angle == 0.) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(angle, w / angle));
}

// A motion with constant velocity and turning rate, around the vertical.
struct Motion {
  Rigid3d start;
  Vector3d velocity = Vector3d::Zero();
  double yaw_rate = 0.;
  double since = 0.;

  Rigid3d At(const double t) const {
    return Rigid3d(start.translation() + velocity * (t - since),
                   Exp(Vector3d(0., 0., yaw_rate * (t - since))) * start.rotation());
  }
  void Change(const double t, const Vector3d& v, const double rate) {
    start = At(t);
    since = t;
    velocity = v;
    yaw_rate = rate;
  }
};

common::Time ToTime(const double t) {
  return common::FromUniversal(987654321) + common::FromSeconds(t);
}

// A scan taken until 't' and what is expected of it.
struct Expected {
  Vector3d origin, hit;  // in the world
  double range;
  float intensity;
};
struct Scan {
  sensor::TimedPointCloudData data;
  std::vector<Expected> points;
  bool instantaneous;
};

// 'sensor' 0 looks around, from the front; 1 only backwards, from behind.
Scan TakeScan(const Motion& motion, const double t, const double duration, const int sensor,
              const bool dense = false, const bool intensities = false) {
  Scan scan;
  const Vector3d mount = sensor == 0 ? Vector3d(0.1, 0.05, 0.) : Vector3d(-0.2, 0., 0.);
  scan.data.time = ToTime(t);
  scan.data.origin = mount.cast<float>();
  scan.instantaneous = duration == 0.;
#ifdef CHECK_3D
  const int num_beams = dense ? 1200 : 360;
#else
  const int num_beams = dense ? 720 : 120;
#endif
  for (int i = 0; i != num_beams; ++i) {
    const double angle = (sensor == 0 ? 2. : 1.) * M_PI * (i + 0.3) / num_beams +
                         (sensor == 0 ? -M_PI : 0.5 * M_PI);
    double elevation = 0.;
#ifdef CHECK_3D
    const double elevations[] = {-0.5, -0.25, 0.017, 0.2, 0.45};
    elevation += elevations[i % 5];
#endif
    const Vector3d d = Vector3d(std::cos(angle) * std::cos(elevation),
                                std::sin(angle) * std::cos(elevation), std::sin(elevation));
    const double offset = -duration * (num_beams - 1 - i) / num_beams;
    const Rigid3d pose = motion.At(t + offset);
    Expected e;
    e.origin = pose * mount;
    const Vector3d direction = pose.rotation() * d;
    e.range = Cast(e.origin, direction);
    e.hit = e.origin + e.range * direction;
    e.intensity = 10.f + i;
    scan.points.push_back(e);
    if (intensities) scan.data.intensities.push_back(e.intensity);
    scan.data.ranges.push_back(
        {(pose.inverse() * e.hit).cast<float>(), static_cast<float>(offset)});
  }
  return scan;
}

class Run {
 public:
  Run(const Settings& settings, const std::vector<std::string>& sensors)
      : settings_(settings), builder_(MakeOptions(settings), sensors) {}

  Builder* builder() { return &builder_; }
  int num_results() const { return num_results_; }

  // 'points' went into the result; 'motion' at that time.
  void Check(const Builder::MatchingResult& result, const double t, const Rigid3d& pose,
             const std::vector<Expected>& points) {
    ++num_results_;
    MC_CHECK(result.time == ToTime(t), "time of the result");
    const bool settled = num_results_ > settings_.settle;
    if (num_results_ <= 1 + settings_.settle) {
      // This is where the local frame is.
      local_ = result.local_pose * pose.inverse();
      const Vector3d up = local_.rotation() * Vector3d::UnitZ();
      MC_CHECK((up - Vector3d::UnitZ()).norm() < 2e-3, "the local frame is tilted");
    }
    const Rigid3d expected = local_ * pose;
    const double error = (expected.translation() - result.local_pose.translation()).norm();
    const double angle = expected.rotation().angularDistance(result.local_pose.rotation());
    max_error_ = std::max(max_error_, error);
    max_angle_ = std::max(max_angle_, angle);
    MC_LOG("result at " << t << ": error " << error << " m, " << angle << " rad");
    MC_CHECK(error < settings_.pose_tolerance && angle < settings_.angle_tolerance,
             "the pose is off by " << error << " m, " << angle << " rad at " << t);

    // The points, where they are in the world.
    std::vector<Vector3d> returns, misses;
    std::vector<Vector3d> maybe;
    std::vector<float> intensities;
    for (const Expected& e : points) {
      if (e.range < settings_.min_range) continue;
      const Vector3d hit = local_ * e.hit;
#ifdef CHECK_3D
      if (e.range <= settings_.max_range) {
        returns.push_back(hit);
        intensities.push_back(e.intensity);
      } else {
        misses.push_back(local_ * (e.origin + settings_.max_range / e.range * (e.hit - e.origin)));
      }
#else
      const bool is_return = e.range <= settings_.max_range;
      const Vector3d end = is_return ? hit
                                     : Vector3d(local_ * (e.origin + 5. / e.range * (e.hit - e.origin)));
      const double z = end.z() - expected.translation().z();
      const double margin = std::min(std::abs(z + 0.8), std::abs(z - 0.7));
      if (margin < 0.08) {
        maybe.push_back(end);
      } else if (z > -0.8 && z < 0.7) {
        (is_return ? returns : misses).push_back(end);
      }
#endif
    }
    const double tolerance = !settled ? 1. : settings_.pose_tolerance + 4. * settings_.angle_tolerance;
    CheckCloud(result.range_data_in_local.returns, returns, maybe, tolerance, "return");
    if (settings_.intensities && settled) {
      const auto& cloud = result.range_data_in_local.returns;
      MC_CHECK(cloud.intensities().size() == cloud.size(), "intensities");
      for (size_t i = 0; i != cloud.size(); ++i) {
        bool found = false;
        for (size_t k = 0; k != returns.size(); ++k) {
          found |= (returns[k] - cloud[i].position.cast<double>()).norm() < tolerance &&
                   intensities[k] == cloud.intensities()[i];
        }
        MC_CHECK(found, "a return with an intensity of another one");
      }
    }
    CheckCloud(result.range_data_in_local.misses, misses, maybe, tolerance, "miss");
    MC_CHECK((result.range_data_in_local.origin.cast<double>() -
              result.local_pose.translation()).norm() < 1e-3,
             "the origin of the range data");

    // Only scans from somewhere else (or much later) are inserted.
    const double moved = (result.local_pose.translation() - last_pose_.translation()).norm();
    const double turned = result.local_pose.rotation().angularDistance(last_pose_.rotation());
#ifdef CHECK_3D
    const double max_moved = 0.1, max_turned = 0.004, max_time = 0.5;
#else
    const double max_moved = 0.2, max_turned = M_PI / 180., max_time = 5.;
#endif
    const bool close_call = num_inserted_ > 0 && (std::abs(moved - max_moved) < 1e-6 ||
                                                  std::abs(turned - max_turned) < 1e-6);
    const bool insert = num_inserted_ == 0 || moved > max_moved || turned > max_turned ||
                        t - last_time_ > max_time + 1e-6;
    if (close_call) mc::prune();
    MC_CHECK((result.insertion_result != nullptr) == insert,
             "moved " << moved << " m, turned " << turned << " rad, "
                      << (insert ? "not inserted" : "inserted"));
    if (!insert) return;
    last_pose_ = result.local_pose;
    last_time_ = t;
    ++num_inserted_;
    const auto& insertion = *result.insertion_result;
    const auto& node = *insertion.constant_data;
    MC_CHECK(node.time == result.time, "time of the node");
    MC_CHECK((node.local_pose.translation() - result.local_pose.translation()).norm() < 1e-9 &&
                 node.local_pose.rotation().angularDistance(result.local_pose.rotation()) < 1e-7,
             "pose of the node");
    const Vector3d up = node.gravity_alignment * (pose.rotation().conjugate() * Vector3d::UnitZ());
    MC_CHECK((up - Vector3d::UnitZ()).norm() < 2e-3, "gravity alignment of the node");
    // Its points are in the frame in which later matching happens.
#ifdef CHECK_3D
    CheckNodeCloud(node.high_resolution_point_cloud, node.local_pose, returns, tolerance);
    CheckNodeCloud(node.low_resolution_point_cloud, node.local_pose, returns, tolerance);
    // The filtered clouds and the histogram are those of all points.
    const auto in_tracking = sensor::TransformPointCloud(
        result.range_data_in_local.returns, node.local_pose.inverse().cast<float>());
    const Options options = MakeOptions(settings_);
    const int num_high = sensor::AdaptiveVoxelFilter(
        in_tracking, options.high_resolution_adaptive_voxel_filter_options()).size();
    const int num_low = sensor::AdaptiveVoxelFilter(
        in_tracking, options.low_resolution_adaptive_voxel_filter_options()).size();
    const int num_node_high = node.high_resolution_point_cloud.size();
    const int num_node_low = node.low_resolution_point_cloud.size();
    MC_CHECK(std::abs(num_high - num_node_high) <= 3 + num_high / 20 &&
                 std::abs(num_low - num_node_low) <= 3 + num_low / 20,
             "node with " << num_node_high << " and " << num_node_low << " points, not " << num_high
                          << " and " << num_low);
    const Eigen::VectorXf histogram =
        mapping::scan_matching::RotationalScanMatcher::ComputeHistogram(
            sensor::TransformPointCloud(
                in_tracking, transform::Rigid3f::Rotation(node.gravity_alignment.cast<float>())),
            120);
    MC_CHECK(node.rotational_scan_matcher_histogram.size() == 120 && histogram.sum() > 0.f,
             "histogram");
    const float difference = (histogram - node.rotational_scan_matcher_histogram).lpNorm<1>();
    max_difference_ = std::max<double>(max_difference_, difference / histogram.sum());
    MC_CHECK(difference < 0.6f * histogram.sum(),
             "the histogram is off by " << difference << " of " << histogram.sum());
#else
    std::vector<Vector3d> all = returns;
    all.insert(all.end(), maybe.begin(), maybe.end());
    CheckNodeCloud(node.filtered_gravity_aligned_point_cloud,
                   node.local_pose * Rigid3d::Rotation(node.gravity_alignment.conjugate()), all,
                   tolerance);
#endif
    CheckSubmaps(insertion.insertion_submaps, result.range_data_in_local);
#ifdef CHECK_3D
    // A new submap begins here, horizontally.
    const auto& newest = *insertion.insertion_submaps.back();
    if (newest.num_range_data() == 1) {
      const Rigid3d begin(node.local_pose.translation(),
                          node.local_pose.rotation() * node.gravity_alignment.conjugate());
      MC_CHECK((begin.translation() - newest.local_pose().translation()).norm() < 1e-3 &&
                   begin.rotation().angularDistance(newest.local_pose().rotation()) < 1e-3,
               "the pose of the new submap");
    }
#endif
  }

  void Done() {
    mc::sample("errors up to " + std::to_string(max_error_) + " m, " + std::to_string(max_angle_) +
               " rad, histogram " + std::to_string(max_difference_));
  }

 private:
  static void CheckCloud(const sensor::PointCloud& cloud, const std::vector<Vector3d>& expected,
                         const std::vector<Vector3d>& maybe, const double tolerance,
                         const std::string& what) {
    std::vector<bool> seen(expected.size(), false);
    for (const auto& point : cloud) {
      const Vector3d p = point.position.cast<double>();
      double best = 1e9;
      for (size_t i = 0; i != expected.size(); ++i) {
        const double d = (expected[i] - p).norm();
        best = std::min(best, d);
        // The voxel filter may have kept this one instead.
        if (d < tolerance + kFilter * std::sqrt(3.)) seen[i] = true;
      }
      for (const Vector3d& e : maybe) best = std::min(best, (e - p).norm());
      MC_CHECK(best < tolerance, what << " at " << p.transpose() << " is off by " << best);
    }
    for (size_t i = 0; i != expected.size(); ++i) {
      MC_CHECK(seen[i], what << " at " << expected[i].transpose() << " is missing");
    }
  }
  static void CheckNodeCloud(const sensor::PointCloud& cloud, const Rigid3d& local_from_cloud,
                             const std::vector<Vector3d>& expected, const double tolerance) {
    MC_CHECK(!cloud.empty(), "the node has no points");
    for (const auto& point : cloud) {
      const Vector3d p = local_from_cloud * point.position.cast<double>();
      double best = 1e9;
      for (const Vector3d& e : expected) best = std::min(best, (e - p).norm());
      MC_CHECK(best < tolerance, "a point of the node is off by " << best);
    }
  }
  template <typename Submaps>
  void CheckSubmaps(const Submaps& submaps, const sensor::RangeData& range_data) {
    // A new one is begun every 'submap_size' insertions.
    const int size = settings_.submap_size;
    const int begun = (num_inserted_ - 1) / size;  // index of the newest one
    std::vector<int> counts;
    if (begun > 0) counts.push_back(num_inserted_ - (begun - 1) * size);
    counts.push_back(num_inserted_ - begun * size);
    MC_CHECK(submaps.size() == counts.size(),
             "inserted into " << submaps.size() << " submaps, not " << counts.size());
    for (size_t i = 0; i != counts.size(); ++i) {
      MC_CHECK(submaps[i]->num_range_data() == counts[i],
               "submap with " << submaps[i]->num_range_data() << " range data, not " << counts[i]);
      MC_CHECK(submaps[i]->insertion_finished() == (counts[i] == 2 * size), "finished");
#ifdef CHECK_3D
      const auto& grid = submaps[i]->high_resolution_hybrid_grid();
      const auto to_submap = submaps[i]->local_pose().inverse().template cast<float>();
      for (const auto& point : range_data.returns) {
        MC_CHECK(grid.value(grid.GetCellIndex(to_submap * point.position)) != 0,
                 "a return was not inserted");
      }
#else
      const auto& grid = *submaps[i]->grid();
      for (const auto& point : range_data.returns) {
        const auto cell = grid.limits().GetCellIndex(point.position.template head<2>());
        MC_CHECK(grid.limits().Contains(cell) && grid.IsKnown(cell), "a return was not inserted");
      }
#endif
    }
  }

  const Settings settings_;
  Builder builder_;
  Rigid3d local_;
  int num_results_ = 0;
  int num_inserted_ = 0;
  Rigid3d last_pose_;
  double last_time_ = 0.;
  double max_error_ = 0., max_angle_ = 0., max_difference_ = 0.;
};

const Vector3d kVelocities[] = {{0., 0., 0.}, {0.8, 0.3, 0.}, {-0.5, 0.6, 0.}, {0., -1.2, 0.}};
const double kYawRates[] = {0., 0.5, -0.9};

sensor::ImuData Imu(const Motion& motion, const double t) {
  const Quaterniond q = motion.At(t).rotation();
  return sensor::ImuData{ToTime(t), q.conjugate() * Vector3d(0., 0., 9.8),
                         q.conjugate() * Vector3d(0., 0., motion.yaw_rate)};
}

std::string Describe(const Settings& s, const Motion& m) {
  std::ostringstream os;
  os << (s.use_imu ? "imu, " : "") << (s.correlative ? "correlative, " : "") << s.num_accumulated
     << " accumulated, range " << s.min_range << ".." << s.max_range << ", submap size "
     << s.submap_size << ", velocity " << m.velocity.transpose() << ", yaw rate " << m.yaw_rate;
  return os.str();
}

// A uniform motion with exact odometry: points of a scan are taken at different
// times and places. What is sent is chosen for each scan if 'events' are given.
void Uniform(const int num_scans, const int num_events) {
  Settings settings;
  Motion motion;
  bool tilted = false, rear = false;
#ifdef CHECK_3D
  tilted = mc::choose(2) != 0;
  settings.intensities = tilted;
#else
  // Being tilted is only known after a while.
  settings.use_imu = mc::choose(2) == 0;
#endif
  settings.num_accumulated = 1 + mc::choose(2);
  if (num_events == 0) {
    switch (mc::choose(3)) {
      case 1:
        settings.min_range = 1.83;
        break;
      case 2:
        settings.max_range = 3.41;
        break;
    }
    settings.submap_size = mc::choose(2) == 0 ? 2 : 90;
    motion.velocity = kVelocities[mc::choose(4)];
    motion.yaw_rate = kYawRates[mc::choose(3)];
  } else {
    settings.min_range = 0.3;
    settings.submap_size = 2;
    motion.velocity = kVelocities[1];
    motion.yaw_rate = settings.use_imu ? kYawRates[2] : 0.;
    rear = mc::choose(2) != 0;
    if (rear) settings.max_range = 3.22;
  }
  if (!settings.use_imu) {
    settings.settle = motion.yaw_rate != 0. ? 2 : settings.num_accumulated == 2 ? 1 : 0;
  }
  if (tilted) motion.start = Rigid3d::Rotation(Exp(Vector3d(0.06, -0.04, 0.)));
  MC_LOG(Describe(settings, motion) << (tilted ? ", tilted" : "") << (rear ? ", rear" : ""));
  std::vector<std::string> sensors = {"front"};
  if (rear) sensors.push_back("rear");
  Run run(settings, sensors);
  const Rigid3d odometry_frame(Vector3d(1., 2., 0.), Exp(Vector3d(0., 0., -0.4)));
  const auto odometry = [&](const double t) {
    run.builder()->AddOdometryData({ToTime(t), odometry_frame * motion.At(t)});
  };

  std::vector<Expected> accumulated;
  int num_accumulated = 0;
  // 'points' is what is complete with this scan, if 'complete'.
  const auto add_scan = [&](const int sensor, const Scan& scan, const double t,
                            const bool complete, const std::vector<Expected>& points) {
    const auto result = run.builder()->AddRangeData(sensors[sensor], scan.data);
    if (!complete) {
      MC_CHECK(result == nullptr, "a result of incomplete range data");
      return;
    }
    accumulated.insert(accumulated.end(), points.begin(), points.end());
    if (++num_accumulated < settings.num_accumulated) {
      MC_CHECK(result == nullptr, "a result before enough range data was accumulated");
      return;
    }
    bool any = false;
    for (const Expected& e : accumulated) any |= e.range >= settings.min_range;
    MC_CHECK((result != nullptr) == any, (any ? "no result at " : "a result without points at ") << t);
    if (any) run.Check(*result, t, motion.At(t), accumulated);
    accumulated.clear();
    num_accumulated = 0;
  };

  double t = 0.;
  if (settings.use_imu) {
    // Before it is initialized, range data is not used.
    MC_CHECK(run.builder()->AddRangeData("front", TakeScan(motion, -0.1, 0., 0, false, settings.intensities).data) == nullptr,
             "a result without IMU data");
    if (rear) {
      MC_CHECK(run.builder()->AddRangeData("rear", TakeScan(motion, -0.1, 0., 1, false, settings.intensities).data) == nullptr,
               "a result without IMU data");
    }
    odometry(-0.05);
    run.builder()->AddImuData(Imu(motion, t));
    odometry(t);
    t = 0.05;
  }
  for (int i = 0; i != num_scans; ++i) {
    // Until two odometry data were used the motion is not known.
    const bool known = settings.use_imu ? i > 0 : run.num_results() > 0;
    const double duration = known ? 0.08 : 0.;
    const int event = num_events == 0 ? 0 : mc::choose(num_events);
    if (num_events != 0) MC_LOG(t << ": event " << event);
    if (settings.use_imu) {
      run.builder()->AddImuData(Imu(motion, t - 0.03));
      if (event != 4) run.builder()->AddImuData(Imu(motion, t - 0.01));
    }
    if (event != 3 || run.num_results() < 2) odometry(t - 0.02);
    Scan scan = TakeScan(motion, t, duration, 0, false, settings.intensities);
    if (event == 1) {
      // Everything is too close.
      for (size_t k = 0; k != scan.points.size(); ++k) {
        const Eigen::Vector3f origin = scan.data.origin;
        scan.data.ranges[k].position = origin + 0.1f * (scan.data.ranges[k].position - origin).normalized();
        scan.points[k].range = 0.1;
      }
    }
    if (event == 2 && !rear) {
      // Nothing was seen.
      scan.data.ranges.clear();
      scan.data.intensities.clear();
      scan.points.clear();
      add_scan(0, scan, t, false, {});
    } else if (!rear) {
      add_scan(0, scan, t, true, scan.points);
    } else {
      const Scan other = TakeScan(motion, t, duration, 1, false, settings.intensities);
      std::vector<Expected> both = scan.points;
      both.insert(both.end(), other.points.begin(), other.points.end());
      // In any order.
      if (event == 2) {
        add_scan(1, other, t, false, {});
        add_scan(0, scan, t, true, both);
      } else {
        add_scan(0, scan, t, false, {});
        add_scan(1, other, t, true, both);
      }
    }
    if (run.num_results() == 1 && !settings.use_imu) odometry(t + 0.01);
    mc::step();
    t += 0.1;
  }
  run.Done();
}

// The robot turns on the spot, at a rate that changes after each scan, which
// only the IMU knows.
void Turning(const int num_scans) {
  Settings settings;
  settings.submap_size = 2;
  settings.num_accumulated = 1 + mc::choose(3);
  // How often there is IMU data during a scan.
  const int num_imu = mc::choose(2) * 2;
  Motion motion;
  Run run(settings, {"front"});
  MC_LOG(Describe(settings, motion));
  double t = 0.;
  run.builder()->AddImuData(Imu(motion, t));
  std::vector<Expected> accumulated;
  for (int i = 0; i != num_scans; ++i) {
    const double rates[] = {0.3, 0., -0.4};
    motion.Change(t, Vector3d::Zero(), rates[mc::choose(3)]);
    MC_LOG(t << ": turning with " << motion.yaw_rate);
    run.builder()->AddImuData(Imu(motion, t));
    for (int k = 0; k != num_imu; ++k) run.builder()->AddImuData(Imu(motion, t + 0.03 * (k + 1)));
    t += 0.1;
    const Scan scan = TakeScan(motion, t, 0.08, 0);
    accumulated.insert(accumulated.end(), scan.points.begin(), scan.points.end());
    const auto result = run.builder()->AddRangeData("front", scan.data);
    MC_CHECK((result != nullptr) == ((i + 1) % settings.num_accumulated == 0),
             (result ? "a result" : "no result") << " after " << i + 1 << " scans");
    if (result) {
      run.Check(*result, t, motion.At(t), accumulated);
      accumulated.clear();
    }
    mc::step();
  }
  run.Done();
}

// Without odometry, and with a motion that changes all the time, so that scan
// matching has to find out.
void Matching(const int num_scans, const bool correlative) {
  Settings settings;
  settings.trust = false;
  settings.correlative = correlative;
  settings.pose_tolerance = correlative ? 0.08 : 0.12;
  settings.angle_tolerance = 0.03;
  settings.submap_size = mc::choose(2) == 0 ? 2 : 90;
#ifndef CHECK_3D
  settings.use_imu = mc::choose(2) == 0;
#endif
  Motion motion;
  Run run(settings, {"front"});
  double t = 0.;
  MC_LOG(Describe(settings, motion));
  if (settings.use_imu) run.builder()->AddImuData(Imu(motion, t));
  for (int i = 0; i != num_scans; ++i) {
    t += 0.1;
    const Scan scan = TakeScan(motion, t, 0., 0, true);
    if (settings.use_imu) run.builder()->AddImuData(Imu(motion, t));
    const auto result = run.builder()->AddRangeData("front", scan.data);
    MC_CHECK(result != nullptr, "no result");
    run.Check(*result, t, motion.At(t), scan.points);
    mc::step();
    if (i + 1 == num_scans) break;
    const Vector3d velocities[] = {{0., 0., 0.}, {0.4, 0.2, 0.}, {-0.2, -0.4, 0.}};
    const double rates[] = {0., 0.2, -0.2};
    // Without correlative matching only small corrections are possible.
    const double scale = correlative ? 1. : 0.5;
    motion.Change(t, scale * velocities[mc::choose(3)], scale * rates[mc::choose(3)]);
    if (settings.use_imu) run.builder()->AddImuData(Imu(motion, t));
  }
  run.Done();
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"uniform", [] { Uniform(mc::thorough() ? 16 : 8, 0); }, 3, UINT64_MAX,
                       "uniform motions with exact odometry, 8 (thorough: 16) scans"});
  scenarios.push_back({"events", [] { Uniform((mc::thorough() ? 6 : 5) - kLess, 5); }, 3, UINT64_MAX,
                       "5 (6; in 3D one less) times one of 5 events, 1 or 2 sensors"});
  scenarios.push_back({"turning", [] { Turning(mc::thorough() ? 8 - kLess : 6 - kLess); }, 3, UINT64_MAX,
                       "6 (8; in 3D one less) scans, turning at one of 3 rates during each, known "
                       "from the IMU only, 1 to 3 of them accumulated"});
  scenarios.push_back({"matching", [] { Matching(3, false); }, 3, UINT64_MAX,
                       "3 scans, a motion out of 9 between each two"});
  scenarios.push_back({"correlative", [] { Matching(mc::thorough() ? 5 : 4, true); }, 3, UINT64_MAX,
                       "4 (5) scans, with correlative matching"});
  return mc::Main(argc, argv, scenarios,
                  {"explicit enumeration of motions, configurations and events", {}});
}
