// Pose extrapolation, for all bounded interleavings of poses, IMU data,
// odometry and queries, against the motion the data was made from.
#include <memory>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using mapping::PoseExtrapolator;
using transform::Rigid3d;

constexpr double kTick = 0.05;
constexpr int kQueueTicks = 2;

common::Time At(const int ticks) {
  return common::FromUniversal(12345678) + common::FromSeconds(kTick) * ticks;
}
Quaterniond Exp(const Vector3d& w) {
  const double angle = w.norm();
  if (angle == 0.) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(angle, w / angle));
}

std::string Show(const Rigid3d& p) {
  std::ostringstream os;
  os << p.translation().transpose() << " / " << p.rotation().coeffs().transpose();
  return os.str();
}
void CheckSame(const Rigid3d& actual, const Rigid3d& expected, const std::string& what) {
  MC_CHECK((actual.translation() - expected.translation()).norm() < 1e-6 &&
               actual.rotation().angularDistance(expected.rotation()) < 1e-6,
           what << ": " << Show(actual) << ", expected " << Show(expected));
}

// The real motion: a constant velocity in the world (or steps from pose to
// pose), with a piecewise constant angular velocity in the tracking frame.
class Motion {
 public:
  Motion(const Quaterniond& start, const Vector3d& velocity) : velocity_(velocity) {
    rotations_.push_back(start);
  }
  void SetStart(const Rigid3d& pose) {
    start_ = pose.translation();
    rotations_ = {pose.rotation()};
  }
  void SetRate(const Vector3d& rate) { rate_ = rate; }
  const Vector3d& rate() const { return rate_; }
  Quaterniond RotationAt(const int tick) const {
    if (tick < static_cast<int>(rotations_.size())) return rotations_[tick];
    return rotations_.back() * Exp(rate_ * (kTick * (tick + 1. - rotations_.size())));
  }
  void AdvanceTo(const int tick) {
    while (static_cast<int>(rotations_.size()) <= tick) {
      rotations_.push_back(rotations_.back() * Exp(rate_ * kTick));
    }
  }
  Rigid3d PoseAt(const int tick) const {
    return Rigid3d(start_ + velocity_ * (tick * kTick), RotationAt(tick));
  }
  sensor::ImuData Imu(const int tick) const {
    return sensor::ImuData{At(tick), RotationAt(tick).conjugate() * Vector3d(0., 0., 9.8), rate_};
  }

 private:
  const Vector3d velocity_;
  Vector3d start_ = Vector3d(1., -2., 0.5);
  Vector3d rate_ = Vector3d::Zero();
  std::vector<Quaterniond> rotations_;
};

enum { kPose, kOdometry, kQuery, kQueryLater, kImu0, kImu1, kImu2, kImu3 };
const char* const kOpNames[] = {"pose", "odometry", "query", "query later",
                                "imu 0", "imu 1", "imu 2", "imu 3"};

// 'changing': the angular velocity and the velocity between poses change, which
// the IMU resp. the poses tell; otherwise the motion is uniform and poses, IMU
// and odometry all agree on it.
void Run(const bool changing, const bool use_imu, const bool use_odometry, const int depth) {
  const Vector3d rates[] = {Vector3d(0., 0., 0.8), Vector3d(0.6, 0., 0.), Vector3d(0., -0.5, 0.3),
                            Vector3d(0., 0., 0.)};
  const Vector3d velocities[] = {Vector3d(1., 0.5, 0.), Vector3d(-0.4, 0.3, 0.2),
                                 Vector3d::Zero()};
  const bool tilted = use_imu && mc::choose(2) != 0;
  const int velocity = changing ? 2 : mc::choose(3);
  Motion motion(tilted ? Exp(Vector3d(0.3, -0.2, 0.)) : Quaterniond::Identity(),
                velocities[velocity]);
  int num_rates = 0;
  if (changing) {
    num_rates = 3;
  } else if (use_imu) {
    motion.SetRate(rates[mc::choose(4)]);
    num_rates = 1;
  } else {
    const double yaw_rates[] = {0., 0.8, -1.5};
    motion.SetRate(Vector3d(0., 0., yaw_rates[mc::choose(3)]));
  }
  const bool turning = motion.rate().norm() > 0.;
  const Rigid3d odometry_frame(Vector3d(3., 4., 0.), Exp(Vector3d(0., 0., 1.)));

  struct TimedPose {
    int tick;
    Rigid3d pose;
  };
  std::vector<TimedPose> poses;
  std::unique_ptr<PoseExtrapolator> extrapolator;
  if (use_imu) {
    extrapolator = PoseExtrapolator::InitializeWithImu(
        common::FromSeconds(kTick) * kQueueTicks, 10., motion.Imu(0));
    // What was estimated from gravity is how the map is oriented.
    const Rigid3d first = extrapolator->ExtrapolatePose(At(0));
    CheckSame(Rigid3d::Translation(first.rotation() * motion.RotationAt(0).conjugate() *
                                   Vector3d::UnitZ()),
              Rigid3d::Translation(Vector3d::UnitZ()), "the first pose is not upright");
    motion.SetStart(first);
    poses.push_back({0, first});
    MC_CHECK(extrapolator->GetLastPoseTime() == At(0), "time of the first pose");
  } else {
    extrapolator =
        absl::make_unique<PoseExtrapolator>(common::FromSeconds(kTick) * kQueueTicks, 10.);
    MC_CHECK(extrapolator->GetLastPoseTime() == common::Time::min(), "no pose yet");
  }
  MC_LOG("tilted " << tilted << " velocity " << velocity << " rate " << motion.rate().transpose());

  int now = 0, num_odometry = 0, last_odometry = -1, num_given_poses = 0;
  Vector3d pose_velocity = Vector3d::Zero();
  bool velocity_from_poses = false;
  // Whether the rotation is known from the last pose on.
  bool rotation_known = use_imu;
  bool odometry_velocity_known = false;
  int asked = -1;
  Rigid3d answer;

  const auto expect = [&](const int tick, Rigid3d* const expected) {
    const TimedPose& last = poses.back();
    if (tick == last.tick) {
      *expected = last.pose;
      return true;
    }
    if (tick == asked) {
      // The same question has the same answer.
      *expected = answer;
      return true;
    }
    const double dt = kTick * (tick - last.tick);
    const Quaterniond turned = motion.RotationAt(last.tick).conjugate() * motion.RotationAt(tick);
    if (changing) {
      *expected = Rigid3d(last.pose.translation() + dt * pose_velocity,
                          last.pose.rotation() * turned);
      return true;
    }
    // Nothing is known about the motion.
    if (!use_imu && poses.size() == 1 && num_odometry == 0) {
      *expected = last.pose;
      return true;
    }
    if (turning && !rotation_known) return false;
    if (num_odometry >= 2 ? !odometry_velocity_known : !velocity_from_poses) return false;
    *expected =
        Rigid3d(last.pose.translation() + dt * velocities[velocity], last.pose.rotation() * turned);
    return true;
  };
  const auto query = [&](const int tick) {
    Rigid3d expected;
    const bool known = expect(tick, &expected);
    const Rigid3d actual = extrapolator->ExtrapolatePose(At(tick));
    if (known) CheckSame(actual, expected, "extrapolated pose");
    MC_CHECK(extrapolator->GetLastExtrapolatedTime() <= At(tick), "last extrapolated time");
    asked = tick;
    answer = actual;
  };

  for (int i = 0; i != depth; ++i) {
    const int op = mc::choose(4 + num_rates);
    const int dt = mc::choose(2);
    if (op == kOdometry && !use_odometry) mc::prune();
    if ((op == kQuery || op == kQueryLater) && poses.empty()) mc::prune();
    now += dt;
    motion.AdvanceTo(now);
    MC_LOG(now << ": " << kOpNames[op]);
    switch (op) {
      case kPose: {
        Rigid3d pose = motion.PoseAt(now);
        if (changing) {
          // Matched poses differ from the prediction.
          const Vector3d steps[] = {Vector3d(0.05, 0., 0.), Vector3d(0., -0.1, 0.02)};
          const Vector3d step = steps[num_given_poses % 2];
          pose = Rigid3d(poses.back().pose.translation() + step,
                         Exp(Vector3d(0., 0., 0.01 * num_given_poses)) * pose.rotation());
        }
        ++num_given_poses;
        extrapolator->AddPose(At(now), pose);
        poses.push_back({now, pose});
        for (int k = static_cast<int>(poses.size()) - 2; k >= 0; --k) {
          if (poses[k].tick > now - kQueueTicks) continue;
          pose_velocity = (pose.translation() - poses[k].pose.translation()) /
                          (kTick * (now - poses[k].tick));
          velocity_from_poses = true;
          break;
        }
        if (velocity_from_poses || num_odometry >= 2) rotation_known = true;
        asked = -1;
        MC_CHECK(extrapolator->GetLastPoseTime() == At(now), "time of the last pose");
        MC_CHECK(extrapolator->GetLastExtrapolatedTime() == At(now), "last extrapolated time");
        break;
      }
      case kOdometry:
        extrapolator->AddOdometryData({At(now), odometry_frame * motion.PoseAt(now)});
        // Another one at the same time replaces it.
        if (now != last_odometry) ++num_odometry;
        last_odometry = now;
        odometry_velocity_known =
            num_odometry >= 2 && !poses.empty() && (!turning || rotation_known);
        break;
      case kQuery:
        query(now);
        break;
      case kQueryLater:
        now += 1;
        query(now);
        break;
      default:
        if (changing) motion.SetRate(rates[op - kImu0]);
        extrapolator->AddImuData(motion.Imu(now));
    }
    mc::step();
  }
  if (poses.empty()) return;

  // Finally, several times at once.
  std::vector<common::Time> times;
  // Data may be newer than what is asked for.
  std::vector<int> ticks;
  for (int tick = std::max(asked, poses.back().tick); tick <= now; ++tick) ticks.push_back(tick);
  ticks.push_back(now + 1);
  ticks.push_back(now + 3);
  const int num = ticks.size();
  MC_CHECK(extrapolator->GetLastExtrapolatedTime() <= At(ticks[0]), "last extrapolated time");
  std::vector<Rigid3d> expected(num);
  std::vector<bool> known;
  for (int i = 0; i != num; ++i) {
    known.push_back(expect(ticks[i], &expected[i]));
    times.push_back(At(ticks[i]));
  }
  const auto result = extrapolator->ExtrapolatePosesWithGravity(times);
  MC_CHECK(result.previous_poses.size() == ticks.size() - 1, "one pose for each time");
  for (int i = 0; i != num - 1; ++i) {
    if (known[i]) {
      MC_CHECK((result.previous_poses[i].translation() -
                expected[i].translation().cast<float>()).norm() < 1e-5 &&
                   result.previous_poses[i].rotation().angularDistance(
                       expected[i].rotation().cast<float>()) < 2e-3,
               "pose " << i << " of several: "
                       << Show(result.previous_poses[i].cast<double>()) << ", expected "
                       << Show(expected[i]));
    }
  }
  if (known[num - 1]) CheckSame(result.current_pose, expected[num - 1], "last of several poses");
  if (changing) {
    MC_CHECK((result.current_velocity - pose_velocity).norm() < 1e-6, "velocity");
  } else if (num_odometry >= 2 ? odometry_velocity_known : velocity_from_poses) {
    MC_CHECK((result.current_velocity - velocities[velocity]).norm() < 1e-6,
             "velocity " << result.current_velocity.transpose());
  }
  const Vector3d up =
      result.gravity_from_tracking * (motion.RotationAt(now + 3).conjugate() * Vector3d::UnitZ());
  MC_CHECK((up - Vector3d::UnitZ()).norm() < 1e-6, "gravity points to " << up.transpose());
  const Vector3d up_now = extrapolator->EstimateGravityOrientation(At(now)) *
                          (motion.RotationAt(now).conjugate() * Vector3d::UnitZ());
  MC_CHECK((up_now - Vector3d::UnitZ()).norm() < 1e-6,
           "gravity points to " << up_now.transpose());
}

// What is up follows the measured accelerations like an exponential moving
// average, in a frame that turns as measured.
void Gravity(const int depth) {
  constexpr double kTimeConstant = 1.7;
  const Vector3d accelerations[] = {{0., 0., 9.8}, {0.7, 0., 9.7}, {-0.2, 0.5, 9.9}};
  const Vector3d rates[] = {{0., 0., 0.}, {0.2, -0.1, 0.6}};
  mapping::ImuTracker tracker(kTimeConstant, At(0));
  Vector3d up = Vector3d::UnitZ(), rate = Vector3d::Zero();
  bool any = false;
  int now = 0, last = 0;
  const auto check = [&] {
    MC_CHECK(tracker.time() == At(now), "time");
    MC_CHECK((tracker.orientation() * up.normalized() - Vector3d::UnitZ()).norm() < 1e-6,
             "up is " << (tracker.orientation().conjugate() * Vector3d::UnitZ()).transpose()
                      << ", expected " << up.normalized().transpose());
  };
  for (int i = 0; i != depth; ++i) {
    const int op = mc::choose(6);
    MC_LOG(now << ": " << op);
    if (op < 3) {
      tracker.AddImuLinearAccelerationObservation(accelerations[op]);
      const double keep = any ? std::exp(-kTick * (now - last) / kTimeConstant) : 0.;
      up = keep * up + (1. - keep) * accelerations[op];
      any = true;
      last = now;
      check();
    } else if (op < 5) {
      rate = rates[op - 3];
      tracker.AddImuAngularVelocityObservation(rate);
    } else {
      const int ticks = 1 + mc::choose(3) * 3;
      const Quaterniond before = tracker.orientation();
      now += ticks;
      tracker.Advance(At(now));
      const Quaterniond turn = Exp(rate * (kTick * ticks));
      up = turn.conjugate() * up;
      MC_CHECK((before * turn).angularDistance(tracker.orientation()) < 1e-6, "turned");
    }
    mc::step();
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"imu", [] { Run(true, true, false, mc::thorough() ? 7 : 6); }, 3, UINT64_MAX,
                       "6 (thorough: 7) poses, queries and IMU data of 3 angular velocities"});
  scenarios.push_back({"poses_and_odometry",
                       [] { Run(false, false, true, mc::thorough() ? 8 : 7); }, 3, UINT64_MAX,
                       "7 (8) poses, odometry data and queries, 9 uniform motions"});
  scenarios.push_back({"poses_odometry_and_imu",
                       [] { Run(false, true, true, mc::thorough() ? 7 : 5); }, 3, UINT64_MAX,
                       "5 (7) poses, IMU and odometry data and queries, 24 uniform motions"});
  scenarios.push_back({"gravity", [] { Gravity(mc::thorough() ? 8 : 6); }, 3, UINT64_MAX,
                       "6 (8) accelerations, angular velocities and steps"});
  return mc::Main(argc, argv, scenarios,
                  {"explicit enumeration of histories against the real motion",
                   {"IMU and odometry data are free of noise"}});
}
