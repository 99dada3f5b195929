// The poses found by the optimization problems have the least weighted error,
// with the error evaluated independently.
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "Eigen/Dense"
#ifdef CHECK_3D
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#else
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#endif
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using mapping::NodeId;
using mapping::SubmapId;
using transform::Rigid3d;
using Constraint = mapping::PoseGraphInterface::Constraint;
using LandmarkNode = mapping::PoseGraphInterface::LandmarkNode;
using State = mapping::PoseGraphInterface::TrajectoryState;

#ifdef CHECK_3D
constexpr bool k3D = true;
using Problem = mapping::optimization::OptimizationProblem3D;
using NodeSpec = mapping::optimization::NodeSpec3D;
#else
constexpr bool k3D = false;
using Problem = mapping::optimization::OptimizationProblem2D;
using NodeSpec = mapping::optimization::NodeSpec2D;
#endif

common::Time ToTime(const double t) {
  return common::FromUniversal(987654321) + common::FromSeconds(t);
}

Quaterniond Exp(const Vector3d& v) {
  const double angle = v.norm();
  if (angle < 1e-12) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(angle, v / angle));
}
Vector3d Log(Quaterniond q) {
  if (q.w() < 0.) q.coeffs() = -q.coeffs();
  const double n = q.vec().norm();
  if (n < 1e-12) return 2. * q.vec();
  return 2. * std::atan2(n, q.w()) / n * q.vec();
}
Quaterniond RotationZ(const double yaw) { return Exp(Vector3d(0., 0., yaw)); }

// Only the part in the plane matters in 2D.
Rigid3d Flat(const Rigid3d& pose) {
  if (k3D) return pose;
  const Vector3d x = pose.rotation() * Vector3d::UnitX();
  return Rigid3d(Vector3d(pose.translation().x(), pose.translation().y(), 0.),
                 RotationZ(std::atan2(x.y(), x.x())));
}

// Fixed numbers in [-1, 1] which have nothing to do with each other.
double Noise(const int k) {
  const double x = std::sin(12.9898 * k + 78.233) * 43758.5453;
  return 2. * (x - std::floor(x)) - 1.;
}
// A pose nearby.
Rigid3d Disturb(const Rigid3d& pose, const double scale, const int k) {
  const Vector3d t(Noise(7 * k), Noise(7 * k + 1), k3D ? Noise(7 * k + 2) : 0.);
  const Vector3d r(k3D ? Noise(7 * k + 3) : 0., k3D ? Noise(7 * k + 4) : 0., Noise(7 * k + 5));
  return Rigid3d(pose.translation() + scale * t, pose.rotation() * Exp(scale * r));
}

struct Variables {
  std::map<SubmapId, Rigid3d> submaps;
  std::map<NodeId, Rigid3d> nodes;
  std::map<std::string, Rigid3d> landmarks;
  std::map<int, Rigid3d> fixed_frames;
  std::map<int, double> gravity;
  std::map<int, Quaterniond> calibration;
};

struct Loss {
  enum { kNone, kHuber, kTolerant } kind;
  double a, b;
  double operator()(const double s) const {
    switch (kind) {
      case kNone:
        return s;
      case kHuber:
        return s <= a * a ? s : 2. * a * std::sqrt(s) - a * a;
      default:
        return b * std::log(1. + std::exp((s - a) / b)) - b * std::log(1. + std::exp(-a / b));
    }
  }
};

// Everything that is known.
struct World {
  mapping::optimization::proto::OptimizationProblemOptions options;
  std::map<NodeId, double> node_times;
  std::map<NodeId, Rigid3d> local_poses;
  std::map<NodeId, Quaterniond> gravity_alignment;
  std::vector<Constraint> constraints;
  std::map<int, std::vector<std::pair<double, Rigid3d>>> odometry;
  std::map<int, std::vector<std::pair<double, absl::optional<Rigid3d>>>> fixed_frame_poses;
  std::map<std::string, LandmarkNode> landmarks;
  struct Imu {
    double time;
    Vector3d acceleration, angular_velocity;
  };
  std::map<int, std::vector<Imu>> imu;
  std::set<int> frozen;

  template <typename T>
  static const T* Before(const std::vector<T>& data, const double t) {
    const T* result = nullptr;
    for (const T& d : data) {
      if (d.first <= t + 1e-9) result = &d;
    }
    return result;
  }
  template <typename T>
  static const T* After(const std::vector<T>& data, const double t) {
    for (const T& d : data) {
      if (d.first >= t - 1e-9) return &d;
    }
    return nullptr;
  }
  static Rigid3d Between(const Rigid3d& a, const Rigid3d& b, const double f) {
    return Rigid3d((1. - f) * a.translation() + f * b.translation(),
                   a.rotation() * Exp(f * Log(a.rotation().conjugate() * b.rotation())));
  }
  absl::optional<Rigid3d> Odometry(const int trajectory_id, const double t) const {
    if (!odometry.count(trajectory_id)) return absl::nullopt;
    const auto* a = Before(odometry.at(trajectory_id), t);
    const auto* b = After(odometry.at(trajectory_id), t);
    if (a == nullptr || b == nullptr) return absl::nullopt;
    if (a == b) return a->second;
    return Between(a->second, b->second, (t - a->first) / (b->first - a->first));
  }
  absl::optional<Rigid3d> FixedFrame(const int trajectory_id, const double t) const {
    if (!fixed_frame_poses.count(trajectory_id)) return absl::nullopt;
    const auto* a = Before(fixed_frame_poses.at(trajectory_id), t);
    const auto* b = After(fixed_frame_poses.at(trajectory_id), t);
    if (a == nullptr || b == nullptr) return absl::nullopt;
    if (!a->second.has_value() || !b->second.has_value()) return absl::nullopt;
    if (a == b) return a->second;
    return Between(a->second.value(), b->second.value(), (t - a->first) / (b->first - a->first));
  }

  // Rotation and change of velocity (in the frame at the beginning), with each
  // measurement valid until the next one.
  std::pair<Quaterniond, Vector3d> Integrate(const int trajectory_id, const double begin,
                                             const double end) const {
    Quaterniond rotation = Quaterniond::Identity();
    Vector3d velocity = Vector3d::Zero();
    const auto& data = imu.at(trajectory_id);
    for (size_t i = 0; i != data.size(); ++i) {
      const double from = std::max(begin, data[i].time);
      const double to = i + 1 == data.size() ? end : std::min(end, data[i + 1].time);
      if (to <= from) continue;
      rotation = rotation * Exp((to - from) * data[i].angular_velocity);
      velocity += rotation * ((to - from) * data[i].acceleration);
    }
    return {rotation, velocity};
  }

  // Nodes of a trajectory in order.
  std::vector<NodeId> Nodes(const int trajectory_id) const {
    std::vector<NodeId> result;
    for (const auto& node : node_times) {
      if (node.first.trajectory_id == trajectory_id) result.push_back(node.first);
    }
    return result;
  }

  Eigen::VectorXd Residuals(const Variables& v) const {
    std::vector<double> all;
    const auto add = [&](const Loss& loss, const Eigen::VectorXd& r) {
      const double s = r.squaredNorm();
      const double scale = s < 1e-20 ? 1. : std::sqrt(loss(s) / s);
      for (int i = 0; i != r.size(); ++i) all.push_back(scale * r[i]);
    };
    const auto relative = [&](const Loss& loss, const Rigid3d& from, const Rigid3d& to,
                              const Rigid3d& expected, const double translation_weight,
                              const double rotation_weight) {
      const Rigid3d actual = from.inverse() * to;
      Eigen::VectorXd r(6);
      r << translation_weight * (actual.translation() - expected.translation()),
          rotation_weight * Log(actual.rotation().conjugate() * expected.rotation());
      add(loss, r);
    };
    const Loss none{Loss::kNone, 0., 0.};
    const Loss huber{Loss::kHuber, options.huber_scale(), 0.};
    for (const Constraint& c : constraints) {
      relative(c.tag == Constraint::INTER_SUBMAP ? huber : none, v.submaps.at(c.submap_id),
               v.nodes.at(c.node_id), c.pose.zbar_ij, c.pose.translation_weight,
               c.pose.rotation_weight);
    }
    for (const auto& landmark : landmarks) {
      for (const auto& o : landmark.second.landmark_observations) {
        const auto nodes = Nodes(o.trajectory_id);
        const double t = common::ToSeconds(o.time - ToTime(0.));
        for (size_t i = 0; i + 1 < nodes.size(); ++i) {
          const double from = node_times.at(nodes[i]), to = node_times.at(nodes[i + 1]);
          if (i == 0 ? t < from - 1e-9 : t <= from + 1e-9) continue;
          if (t > to + 1e-9) continue;
          const auto full = [&](const NodeId& id) {
            return v.nodes.at(id) * Rigid3d::Rotation(gravity_alignment.at(id));
          };
          const Rigid3d pose = Between(full(nodes[i]), full(nodes[i + 1]), (t - from) / (to - from));
          relative(huber, pose, v.landmarks.at(landmark.first), o.landmark_to_tracking_transform,
                   o.translation_weight, o.rotation_weight);
        }
      }
    }
    for (const int trajectory_id : {0, 1}) {
      const auto nodes = Nodes(trajectory_id);
      for (const NodeId& id : nodes) {
        const auto pose = FixedFrame(trajectory_id, node_times.at(id));
        if (!pose.has_value()) continue;
        const Loss tolerant{Loss::kTolerant, options.fixed_frame_pose_tolerant_loss_param_a(),
                            options.fixed_frame_pose_tolerant_loss_param_b()};
        relative(options.fixed_frame_pose_use_tolerant_loss() ? tolerant : none,
                 v.fixed_frames.at(trajectory_id), v.nodes.at(id), Flat(pose.value()),
                 options.fixed_frame_pose_translation_weight(),
                 options.fixed_frame_pose_rotation_weight());
      }
      if (frozen.count(trajectory_id)) continue;
      for (size_t i = 0; i + 1 < nodes.size(); ++i) {
        const NodeId& a = nodes[i];
        const NodeId& b = nodes[i + 1];
        if (a.node_index + 1 != b.node_index) continue;
        const double ta = node_times.at(a), tb = node_times.at(b);
        if (!k3D || options.fix_z_in_3d()) {
          const auto odometry_a = Odometry(trajectory_id, ta), odometry_b = Odometry(trajectory_id, tb);
          if (odometry_a.has_value() && odometry_b.has_value()) {
            relative(none, v.nodes.at(a), v.nodes.at(b),
                     Flat(Rigid3d::Rotation(gravity_alignment.at(a)) *
                          odometry_a.value().inverse() * odometry_b.value() *
                          Rigid3d::Rotation(gravity_alignment.at(b).conjugate())),
                     options.odometry_translation_weight(), options.odometry_rotation_weight());
          }
          relative(none, v.nodes.at(a), v.nodes.at(b),
                   local_poses.at(a).inverse() * local_poses.at(b),
                   options.local_slam_pose_translation_weight(),
                   options.local_slam_pose_rotation_weight());
        } else if (imu.count(trajectory_id)) {
          const Quaterniond calibration = v.calibration.at(trajectory_id);
          const Quaterniond delta = Integrate(trajectory_id, ta, tb).first;
          Quaterniond error = v.nodes.at(b).rotation().conjugate() * v.nodes.at(a).rotation() *
                              calibration * delta * calibration.conjugate();
          add(none, options.rotation_weight() / (tb - ta) * error.vec());
          if (i + 2 < nodes.size() && b.node_index + 1 == nodes[i + 2].node_index) {
            const NodeId& c = nodes[i + 2];
            const double tc = node_times.at(c);
            const double center_1 = 0.5 * (ta + tb), center_2 = 0.5 * (tb + tc);
            // From the first center, expressed at b.
            const Quaterniond to_b = Integrate(trajectory_id, center_1, tb).first;
            const Vector3d measured =
                to_b.conjugate() * Integrate(trajectory_id, center_1, center_2).second;
            const Vector3d expected =
                v.nodes.at(b).rotation() * (calibration * measured) -
                v.gravity.at(trajectory_id) * 0.5 * (tc - ta) * Vector3d::UnitZ();
            const Vector3d actual =
                (v.nodes.at(c).translation() - v.nodes.at(b).translation()) / (tc - tb) -
                (v.nodes.at(b).translation() - v.nodes.at(a).translation()) / (tb - ta);
            add(none, options.acceleration_weight() / (tc - ta) * (expected - actual));
          }
        }
      }
    }
    return Eigen::Map<Eigen::VectorXd>(all.data(), all.size());
  }

  // Ways to change the variables, each with one degree of freedom.
  std::vector<std::function<void(Variables*, double)>> Directions(const Variables& v) const {
    std::vector<std::function<void(Variables*, double)>> result;
    const bool fix_z = k3D && options.fix_z_in_3d();
    const auto pose = [&](const std::function<Rigid3d&(Variables*)>& get, const bool translation,
                          const int rotation) {
      for (int i = 0; translation && i != (k3D && !fix_z ? 3 : 2); ++i) {
        result.push_back([=](Variables* v, const double d) {
          Rigid3d& p = get(v);
          p = Rigid3d(p.translation() + d * Vector3d::Unit(i), p.rotation());
        });
      }
      if (rotation == 1 || rotation == 3) {
        result.push_back([=](Variables* v, const double d) {
          Rigid3d& p = get(v);
          p = Rigid3d(p.translation(), RotationZ(d) * p.rotation());
        });
      }
      for (int i = 0; rotation >= 2 && i != 2; ++i) {
        // Does not turn the map, the submaps being aligned with gravity.
        result.push_back([=](Variables* v, const double d) {
          Rigid3d& p = get(v);
          p = Rigid3d(p.translation(), p.rotation() * Exp(d * Vector3d::Unit(i)));
        });
      }
    };
    for (const auto& submap : v.submaps) {
      const SubmapId id = submap.first;
      if (frozen.count(id.trajectory_id)) continue;
      const bool first = id == v.submaps.begin()->first;
      if (first && !k3D) continue;
      pose([id](Variables* v) -> Rigid3d& { return v->submaps.at(id); }, !first,
           first ? 2 : k3D ? 3 : 1);
    }
    for (const auto& node : v.nodes) {
      const NodeId id = node.first;
      if (frozen.count(id.trajectory_id)) continue;
      pose([id](Variables* v) -> Rigid3d& { return v->nodes.at(id); }, true, k3D ? 3 : 1);
    }
    for (const auto& landmark : v.landmarks) {
      const std::string id = landmark.first;
      if (landmarks.at(id).frozen) continue;
      for (int i = 0; i != 3; ++i) {
        result.push_back([=](Variables* v, const double d) {
          Rigid3d& p = v->landmarks.at(id);
          p = Rigid3d(p.translation() + d * Vector3d::Unit(i), p.rotation());
        });
        result.push_back([=](Variables* v, const double d) {
          Rigid3d& p = v->landmarks.at(id);
          p = Rigid3d(p.translation(), p.rotation() * Exp(d * Vector3d::Unit(i)));
        });
      }
    }
    for (const auto& fixed : v.fixed_frames) {
      const int id = fixed.first;
      for (int i = 0; i != (k3D ? 3 : 2); ++i) {
        result.push_back([=](Variables* v, const double d) {
          Rigid3d& p = v->fixed_frames.at(id);
          p = Rigid3d(p.translation() + d * Vector3d::Unit(i), p.rotation());
        });
      }
      result.push_back([=](Variables* v, const double d) {
        Rigid3d& p = v->fixed_frames.at(id);
        p = Rigid3d(p.translation(), RotationZ(d) * p.rotation());
      });
    }
    for (const auto& gravity : v.gravity) {
      const int id = gravity.first;
      result.push_back([=](Variables* v, const double d) { v->gravity.at(id) += d; });
    }
    if (options.use_online_imu_extrinsics_in_3d()) {
      for (const auto& calibration : v.calibration) {
        const int id = calibration.first;
        for (int i = 0; i != 3; ++i) {
          result.push_back([=](Variables* v, const double d) {
            v->calibration.at(id) = v->calibration.at(id) * Exp(d * Vector3d::Unit(i));
          });
        }
      }
    }
    return result;
  }
};

double Distance(const Rigid3d& a, const Rigid3d& b) {
  return (a.inverse() * b).translation().norm() +
         Log(a.rotation().conjugate() * b.rotation()).norm();
}

#ifdef CHECK_3D
Rigid3d ToRigid3(const Rigid3d& pose) { return pose; }
Rigid3d FromRigid3(const Rigid3d& pose) { return pose; }
NodeSpec MakeNode(const common::Time time, const Rigid3d& local, const Rigid3d& global,
                  const Quaterniond&) {
  return NodeSpec{time, local, global};
}
Rigid3d GlobalPose(const NodeSpec& node) { return node.global_pose; }
#else
Rigid3d ToRigid3(const transform::Rigid2d& pose) { return transform::Embed3D(pose); }
transform::Rigid2d FromRigid3(const Rigid3d& pose) { return transform::Project2D(pose); }
NodeSpec MakeNode(const common::Time time, const Rigid3d& local, const Rigid3d& global,
                  const Quaterniond& gravity_alignment) {
  return NodeSpec{time, transform::Project2D(local), transform::Project2D(global),
                  gravity_alignment};
}
Rigid3d GlobalPose(const NodeSpec& node) { return transform::Embed3D(node.global_pose_2d); }
#endif

struct Choices {
  double yaw = 0.3;
  int inter = 0;    // a set of loop closures
  int outlier = 0;  // 1 + the one which is wrong
  int frozen = 0;   // 1 + the trajectory which is frozen
  int gap = 0;      // a missing node
  bool flip = false;  // the sign of quaternions
  bool fix_z = false;
  int odometry[2] = {0, 0};
  int fixed[2] = {0, 0};
  bool tolerant = false;
  int landmark = 0;
  int imu = 0;
  bool imu_extrinsics = false;
  bool trim = false;
};

void Check(const Choices& choices) {
  World world;
  auto& options = world.options;
  options.set_huber_scale(0.8);
  options.set_acceleration_weight(1.1);
  options.set_rotation_weight(2.2);
  options.set_local_slam_pose_translation_weight(1.5);
  options.set_local_slam_pose_rotation_weight(2.5);
  options.set_odometry_translation_weight(2.);
  options.set_odometry_rotation_weight(3.);
  options.set_fixed_frame_pose_translation_weight(0.7);
  options.set_fixed_frame_pose_rotation_weight(0.4);
  options.set_fixed_frame_pose_use_tolerant_loss(choices.tolerant);
  options.set_fixed_frame_pose_tolerant_loss_param_a(0.05);
  options.set_fixed_frame_pose_tolerant_loss_param_b(0.4);
  options.set_log_solver_summary(false);
  options.set_use_online_imu_extrinsics_in_3d(choices.imu_extrinsics);
  options.set_fix_z_in_3d(choices.fix_z);
  options.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(false);
  options.mutable_ceres_solver_options()->set_max_num_iterations(200);
  options.mutable_ceres_solver_options()->set_num_threads(1);
  if (choices.frozen != 0) world.frozen.insert(choices.frozen - 1);

  // The truth.
  const auto truth = [&](const int trajectory_id, const double t) {
    const double yaw = choices.yaw + 0.4 * t;
    const Vector3d position(1.1 * t, 0.2 * t * t + 0.7 * trajectory_id,
                            k3D ? 0.2 * std::sin(t) : 0.);
    const Quaterniond tilt = k3D ? Exp(Vector3d(0.1, 0.05 * t, 0.)) : Quaterniond::Identity();
    return Rigid3d(RotationZ(choices.yaw) * position, RotationZ(yaw) * tilt);
  };
  // In 2D, poses of nodes are aligned with gravity.
  const auto tilt = [](const double t) { return Exp(Vector3d(0.1, -0.05 * t, 0.)); };
  const Rigid3d offset = Rigid3d(Vector3d(4., -3., 0.), RotationZ(0.5));
  Variables initial;
  Problem problem(options);
  int k = 1;
  const std::map<SubmapId, Rigid3d> true_submaps = {
      {{0, 0}, truth(0, 1.1)}, {{0, 1}, truth(0, 3.2)}, {{1, 0}, truth(1, 1.2)}};
  for (const auto& submap : true_submaps) {
    initial.submaps.emplace(submap.first, Disturb(submap.second, 0.05, k++));
    problem.InsertSubmap(submap.first, FromRigid3(initial.submaps.at(submap.first)));
  }
  const std::map<NodeId, double> times = {{{0, 0}, 1.},  {{0, 1}, 2.1}, {{0, 2}, 3.},
                                          {{0, 3}, 4.2}, {{1, 0}, 1.5}, {{1, 1}, 2.5}};
  for (const auto& node : times) {
    const NodeId& id = node.first;
    if (choices.gap != 0 && id == (NodeId{0, choices.gap}) && !choices.trim) continue;
    const Rigid3d pose = truth(id.trajectory_id, node.second);
    world.node_times.emplace(id, node.second);
    world.local_poses.emplace(id, offset.inverse() * Disturb(pose, 0.06, k++));
    world.gravity_alignment.emplace(id, k3D ? Quaterniond::Identity()
                                            : tilt(node.second));
    Rigid3d global_pose = Disturb(pose, 0.05, k++);
    if (choices.flip && id.node_index % 2 == 1) {
      global_pose = Rigid3d(global_pose.translation(),
                            Quaterniond(-global_pose.rotation().w(), -global_pose.rotation().x(),
                                        -global_pose.rotation().y(), -global_pose.rotation().z()));
    }
    initial.nodes.emplace(id, global_pose);
    problem.InsertTrajectoryNode(id, MakeNode(ToTime(node.second), world.local_poses.at(id),
                                              initial.nodes.at(id),
                                              world.gravity_alignment.at(id)));
  }

  // Odometry: around all nodes, or starting in the middle.
  for (const int trajectory_id : {0, 1}) {
    const int kind = choices.odometry[trajectory_id];
    if (kind == 0) continue;
    for (double t = kind == 1 ? 0.8 : 1.9; t < 5.; t += kind == 1 ? 0.65 : 1.05) {
      Rigid3d pose = offset * Disturb(truth(trajectory_id, t), 0.07, k++);
      if (!k3D) pose = pose * Rigid3d::Rotation(tilt(t));
      world.odometry[trajectory_id].emplace_back(t, pose);
      problem.AddOdometryData(trajectory_id, sensor::OdometryData{ToTime(t), pose});
    }
  }
  // Fixed frame poses: at and between nodes, with missing ones, or starting late.
  for (const int trajectory_id : {0, 1}) {
    const int kind = choices.fixed[trajectory_id];
    if (kind == 0) continue;
    int i = 0;
    for (const double t : {1., 1.6, 2.3, 3., 3.7, 4.4}) {
      ++i;
      if (kind == 3 && t < 1.5) continue;
      absl::optional<Rigid3d> pose;
      if (kind != 2 || (i != 2 && i != 6)) {
        pose = offset * Disturb(truth(trajectory_id, t), 0.2, k++);
        if (!k3D) pose = Rigid3d::Translation(Vector3d(0., 0., t)) * pose.value();
      }
      world.fixed_frame_poses[trajectory_id].emplace_back(t, pose);
      problem.AddFixedFramePoseData(trajectory_id, sensor::FixedFramePoseData{ToTime(t), pose});
    }
  }
  if (choices.trim) {
    problem.TrimTrajectoryNode(NodeId{0, choices.gap});
    world.node_times.erase(NodeId{0, choices.gap});
    initial.nodes.erase(NodeId{0, choices.gap});
  }

  const auto constrain = [&](const SubmapId& submap, const NodeId& node,
                             const Constraint::Tag tag, const bool wrong) {
    if (!world.node_times.count(node)) return;
    Rigid3d pose = Disturb(true_submaps.at(submap).inverse() *
                               truth(node.trajectory_id, world.node_times.at(node)),
                           0.06, k++);
    if (wrong) pose = pose * Rigid3d(Vector3d(2., -1., 0.), RotationZ(0.4));
    world.constraints.push_back(
        Constraint{submap, node, {pose, 2. + 0.3 * k / 10., 3. + 0.2 * k / 10.}, tag});
  };
  for (const int i : {0, 1, 2}) constrain({0, 0}, {0, i}, Constraint::INTRA_SUBMAP, false);
  for (const int i : {2, 3}) constrain({0, 1}, {0, i}, Constraint::INTRA_SUBMAP, false);
  for (const int i : {0, 1}) constrain({1, 0}, {1, i}, Constraint::INTRA_SUBMAP, false);
  const std::pair<SubmapId, NodeId> loops[] = {{{0, 0}, {0, 3}}, {{0, 0}, {1, 0}},
                                               {{1, 0}, {0, 2}}, {{0, 1}, {1, 1}}};
  for (int i = 0; i != 4; ++i) {
    if (choices.inter & (1 << i)) {
      constrain(loops[i].first, loops[i].second, Constraint::INTER_SUBMAP, choices.outlier == i + 1);
    }
  }

  // Landmarks.
  const Rigid3d landmark(Vector3d(1.5, 0.5, 0.4), Exp(Vector3d(0.2, -0.1, 0.3)));
  if (choices.landmark != 0) {
    LandmarkNode& node = world.landmarks["a"];
    const auto observe = [&](LandmarkNode& node, const int trajectory_id, const double t,
                             const bool wrong) {
      // As seen from between the nodes.
      const auto nodes = world.Nodes(trajectory_id);
      Rigid3d pose = truth(trajectory_id, t);
      for (size_t i = 0; i + 1 < nodes.size(); ++i) {
        const double a = world.node_times.at(nodes[i]), b = world.node_times.at(nodes[i + 1]);
        if (t < a || t > b) continue;
        pose = World::Between(truth(trajectory_id, a) * Rigid3d::Rotation(world.gravity_alignment.at(nodes[i])),
                              truth(trajectory_id, b) * Rigid3d::Rotation(world.gravity_alignment.at(nodes[i + 1])),
                              (t - a) / (b - a));
      }
      Rigid3d relative = pose.inverse() * landmark;
      relative = Rigid3d(relative.translation() + 0.05 * Vector3d(Noise(k), Noise(k + 1), Noise(k + 2)),
                         relative.rotation() * Exp(0.05 * Vector3d(Noise(k + 3), Noise(k + 4), Noise(k + 5))));
      k += 6;
      if (wrong) relative = relative * Rigid3d::Translation(Vector3d(1., -2., 0.5));
      node.landmark_observations.push_back(LandmarkNode::LandmarkObservation{
          trajectory_id, ToTime(t), relative, 1.3 + 0.01 * k, 0.8 + 0.01 * k});
    };
    observe(node, 0, 2.4, false);
    if (choices.landmark >= 2) {
      observe(node, 1, 1.7, choices.landmark == 4);
      observe(node, 0, 0.9, false);  // Before the first node.
      observe(node, 0, 4.3, false);  // After the last node.
      observe(node, 1, 1.5, false);  // At a node.
      observe(node, 0, 3., false);
      observe(node, 0, 4.2, false);
      observe(world.landmarks["b"], 1, 2.2, false);
      // Never seen between nodes.
      observe(world.landmarks["c"], 1, 0.8, false);
      observe(world.landmarks["c"], 1, 2.8, false);
    }
    if (choices.landmark == 3) {
      node.frozen = true;
      node.global_landmark_pose = Disturb(landmark, 0.05, k++);
    }
  }

  // IMU data.
  for (const int trajectory_id : {0, 1}) {
    if (!(choices.imu & (1 << trajectory_id))) continue;
    for (double t = 0.3; t < 4.5; t += 0.23) {
      const Rigid3d a = truth(trajectory_id, t), b = truth(trajectory_id, t + 1e-3);
      const Vector3d v1 = (b.translation() - a.translation()) / 1e-3;
      const Vector3d v2 = (truth(trajectory_id, t + 2e-3).translation() - b.translation()) / 1e-3;
      Vector3d acceleration = a.rotation().conjugate() * ((v2 - v1) / 1e-3 + Vector3d(0., 0., 9.7));
      Vector3d angular_velocity = Log(a.rotation().conjugate() * b.rotation()) / 1e-3;
      acceleration += 0.2 * Vector3d(Noise(k), Noise(k + 1), Noise(k + 2));
      angular_velocity += 0.1 * Vector3d(Noise(k + 3), Noise(k + 4), Noise(k + 5));
      k += 6;
      world.imu[trajectory_id].push_back({t, acceleration, angular_velocity});
      problem.AddImuData(trajectory_id, sensor::ImuData{ToTime(t), acceleration, angular_velocity});
    }
  }

  std::map<int, State> states = {{0, State::ACTIVE}, {1, State::FINISHED}};
  if (choices.frozen != 0) states[choices.frozen - 1] = State::FROZEN;
  auto landmarks = world.landmarks;
  for (int i = 0; i != 5; ++i) {
    mc::step();
    problem.Solve(world.constraints, states, landmarks);
    for (auto& node : landmarks) {
      if (problem.landmark_data().count(node.first)) {
        node.second.global_landmark_pose = problem.landmark_data().at(node.first);
      }
    }
  }

  // The result.
  Variables result;
  for (const auto& submap : problem.submap_data()) {
    result.submaps.emplace(submap.id, ToRigid3(submap.data.global_pose));
    MC_CHECK(initial.submaps.count(submap.id), "unknown submap " << submap.id);
  }
  for (const auto& node : problem.node_data()) {
    result.nodes.emplace(node.id, GlobalPose(node.data));
    MC_CHECK(initial.nodes.count(node.id), "unknown node " << node.id);
  }
  MC_CHECK(result.submaps.size() == initial.submaps.size() &&
               result.nodes.size() == initial.nodes.size(),
           "nodes or submaps were lost");
  MC_CHECK(!problem.landmark_data().count("c"), "a landmark which was not seen");
  world.landmarks.erase("c");
  for (const auto& node : world.landmarks) {
    MC_CHECK(problem.landmark_data().count(node.first), "no landmark " << node.first);
    result.landmarks.emplace(node.first, problem.landmark_data().at(node.first));
    if (node.second.frozen) {
      MC_CHECK(Distance(node.second.global_landmark_pose.value(), result.landmarks.at(node.first)) < 1e-9,
               "a frozen landmark moved");
    }
  }
  const auto trajectory_data = problem.trajectory_data();
  for (const int trajectory_id : {0, 1}) {
    const auto& data = trajectory_data.at(trajectory_id);
    bool used = false;
    for (const NodeId& id : world.Nodes(trajectory_id)) {
      used = used || world.FixedFrame(trajectory_id, world.node_times.at(id)).has_value();
    }
    MC_CHECK(data.fixed_frame_origin_in_map.has_value() == used, "fixed frame");
    if (used) result.fixed_frames.emplace(trajectory_id, data.fixed_frame_origin_in_map.value());
    if (k3D && world.imu.count(trajectory_id) && !choices.fix_z &&
        !world.frozen.count(trajectory_id)) {
      result.calibration.emplace(
          trajectory_id, Quaterniond(data.imu_calibration[0], data.imu_calibration[1],
                                     data.imu_calibration[2], data.imu_calibration[3]));
      // There are at least three consecutive nodes.
      if (trajectory_id == 0 && choices.gap == 0) {
        result.gravity.emplace(trajectory_id, data.gravity_constant);
      }
    }
  }
  for (const auto& submap : result.submaps) {
    const Rigid3d& before = initial.submaps.at(submap.first);
    if (world.frozen.count(submap.first.trajectory_id) ||
        (!k3D && submap.first == (SubmapId{0, 0}))) {
      MC_CHECK(Distance(before, submap.second) < 1e-9, "submap " << submap.first << " moved");
    } else if (submap.first == (SubmapId{0, 0})) {
      // Several rotations around the other axes make a small one.
      const Vector3d rotation = Log(before.rotation().conjugate() * submap.second.rotation());
      MC_CHECK((before.translation() - submap.second.translation()).norm() < 1e-9 &&
                   std::abs(rotation.z()) < 0.02 + rotation.head<2>().squaredNorm(),
               "the first submap moved");
    }
    MC_CHECK(!choices.fix_z || std::abs(before.translation().z() - submap.second.translation().z()) < 1e-9,
             "the height of submap " << submap.first << " changed");
  }
  for (const auto& node : result.nodes) {
    const Rigid3d& before = initial.nodes.at(node.first);
    if (world.frozen.count(node.first.trajectory_id)) {
      MC_CHECK(Distance(before, node.second) < 1e-9, "node " << node.first << " moved");
    }
    MC_CHECK(!choices.fix_z || std::abs(before.translation().z() - node.second.translation().z()) < 1e-9,
             "the height of node " << node.first << " changed");
  }

  // A Gauss-Newton step must not change anything.
  const Eigen::VectorXd residuals = world.Residuals(result);
  const auto directions = world.Directions(result);
  Eigen::MatrixXd jacobian(residuals.size(), directions.size());
  for (size_t i = 0; i != directions.size(); ++i) {
    Variables plus = result, minus = result;
    directions[i](&plus, 1e-5);
    directions[i](&minus, -1e-5);
    jacobian.col(i) = (world.Residuals(plus) - world.Residuals(minus)) / 2e-5;
  }
  const Eigen::MatrixXd hessian =
      jacobian.transpose() * jacobian +
      1e-4 * Eigen::MatrixXd::Identity(directions.size(), directions.size());
  const Eigen::VectorXd step = hessian.ldlt().solve(jacobian.transpose() * residuals);
  Eigen::VectorXd::Index worst = 0;
  const double size = directions.empty() ? 0. : step.cwiseAbs().maxCoeff(&worst);
  // The solver ends when the error becomes less by less than a millionth.
  if (size < 1e-3) return;
  const double cost = residuals.squaredNorm();
  double least = cost;
  for (double alpha = 1.; alpha > 1e-3; alpha /= 2.) {
    Variables moved = result;
    for (size_t i = 0; i != directions.size(); ++i) directions[i](&moved, -alpha * step[i]);
    least = std::min(least, world.Residuals(moved).squaredNorm());
  }
  MC_CHECK(cost - least < 1e-5 * std::max(1e-3, cost), "not at the minimum of the error, in direction "
                            << worst << " of " << directions.size() << " by " << size
                            << " (squared error " << residuals.squaredNorm() << ")");
}

std::string Print(const Choices& c) {
  std::ostringstream os;
  os << "yaw " << c.yaw << " loops " << c.inter << " wrong " << c.outlier << " frozen " << c.frozen
     << " gap " << c.gap << " trimmed " << c.trim << " fixed z " << c.fix_z << " odometry "
     << c.odometry[0] << c.odometry[1] << " fixed frame " << c.fixed[0] << c.fixed[1]
     << " tolerant " << c.tolerant << " landmark " << c.landmark << " IMU " << c.imu
     << " extrinsics " << c.imu_extrinsics << " sign " << c.flip;
  return os.str();
}

// All sets of loop closures.
void Loops() {
  Choices c;
  c.yaw = mc::pick<double>({0.3, 1.9, 3.});
  c.inter = mc::choose(16);
  c.outlier = mc::choose(5);
  if (c.outlier != 0 && !(c.inter & (1 << (c.outlier - 1)))) mc::prune();
  c.frozen = mc::choose(3);
  c.gap = mc::choose(3);
  if (k3D) c.fix_z = mc::flip();
  if (k3D) c.imu = mc::pick<int>({0, 3});
  MC_LOG(Print(c));
  Check(c);
}

// All combinations of sensors.
void Sensors(const bool thorough) {
  Choices c;
  c.yaw = thorough ? mc::pick<double>({0.3, 1.9, 2.4, 3.}) : 2.4;
  c.inter = thorough ? mc::choose(16) : mc::pick<int>({0, 3, 12});
  c.frozen = mc::choose(3);
  c.gap = mc::choose(3);
  if (c.gap != 0) c.trim = mc::flip();
  if (k3D) c.fix_z = mc::flip();
  if (!k3D || c.fix_z) {
    c.odometry[0] = mc::choose(3);
    c.odometry[1] = mc::choose(3);
  }
  c.fixed[0] = mc::choose(4);
  c.fixed[1] = mc::choose(4);
  if (c.fixed[0] + c.fixed[1] != 0) c.tolerant = mc::flip();
  c.landmark = mc::choose(5);
  if (k3D && c.landmark != 0) c.flip = mc::flip();
  if (k3D && !c.fix_z) {
    c.imu = mc::choose(4);
    if (c.imu != 0) c.imu_extrinsics = mc::flip();
  }
  MC_LOG(Print(c));
  Check(c);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all small problems, the result judged by the error evaluated independently";
  return mc::Main(
      argc, argv,
      {{"loops", [] { Loops(); }, 3, UINT64_MAX,
        "two trajectories with 4 and 2 nodes and 3 submaps, all sets of 4 loop closures, wrong ones, "
        "frozen trajectories, missing nodes"},
       {"sensors", [] { Sensors(mc::thorough()); }, 3, UINT64_MAX,
        "all combinations of odometry, fixed frame poses, landmarks, IMU data, frozen "
        "trajectories, missing and trimmed nodes"}},
      config);
}
