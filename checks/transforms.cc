// Transforms: composition, conversions and interpolation over time, against
// matrices.
#include <cmath>
#include <deque>
#include <limits>
#include <string>
#include <vector>

#include "Eigen/Dense"
#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/common/time.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "cartographer/transform/rigid_transform.h"
#include "cartographer/transform/timestamped_transform.h"
#include "cartographer/transform/transform.h"
#include "cartographer/transform/transform_interpolation_buffer.h"
#include "mc.h"

namespace {

using namespace cartographer;
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using Eigen::Quaterniond;
using Eigen::Vector2d;
using Eigen::Vector3d;
using transform::Rigid2d;
using transform::Rigid3d;

// Rodrigues' formula.
Matrix3d Turn(const Vector3d& v) {
  const double angle = v.norm();
  if (angle == 0.) return Matrix3d::Identity();
  const Vector3d a = v / angle;
  Matrix3d cross;
  cross << 0., -a.z(), a.y(), a.z(), 0., -a.x(), -a.y(), a.x(), 0.;
  return Matrix3d::Identity() + std::sin(angle) * cross + (1. - std::cos(angle)) * cross * cross;
}
Quaterniond ToQuaternion(const Vector3d& v) {
  const double angle = v.norm();
  if (angle == 0.) return Quaterniond(1., 0., 0., 0.);
  const Vector3d a = std::sin(angle / 2.) / angle * v;
  return Quaterniond(std::cos(angle / 2.), a.x(), a.y(), a.z());
}
template <typename Q>
Matrix3d ToMatrix(const Q& quaternion) {
  const double w = quaternion.w(), x = quaternion.x(), y = quaternion.y(), z = quaternion.z();
  Matrix3d m;
  m << 1. - 2. * (y * y + z * z), 2. * (x * y - w * z), 2. * (x * z + w * y),  //
      2. * (x * y + w * z), 1. - 2. * (x * x + z * z), 2. * (y * z - w * x),   //
      2. * (x * z - w * y), 2. * (y * z + w * x), 1. - 2. * (x * x + y * y);
  return m;
}
template <typename R>
Matrix4d ToMatrix4(const R& rigid) {
  Matrix4d m = Matrix4d::Identity();
  m.block<3, 3>(0, 0) = ToMatrix(rigid.rotation());
  m.block<3, 1>(0, 3) = rigid.translation().template cast<double>();
  return m;
}
template <typename R>
Matrix3d ToMatrix3(const R& rigid) {
  const double angle = rigid.rotation().angle();
  Matrix3d m;
  m << std::cos(angle), -std::sin(angle), rigid.translation().x(),  //
      std::sin(angle), std::cos(angle), rigid.translation().y(),    //
      0., 0., 1.;
  return m;
}

const std::vector<Vector3d>& Turns() {
  static const std::vector<Vector3d> turns = {
      {0., 0., 0.},   {0., 0., 1.2},    {0., 0., -3.1},      {0.7, 0., 0.},  {0., -2.9, 0.},
      {1., 1.5, 0.5}, {-2., 1., -1.5},  {1e-5, -2e-5, 1e-5}, {0., 3e-9, 0.}, {0.02, 0.01, -0.03},
      {3.1415, 0., 0}, {-0.3, 0.2, 2.5}};
  return turns;
}
const std::vector<Vector3d>& Places() {
  static const std::vector<Vector3d> places = {{0., 0., 0.}, {1., -2., 0.5}, {-30., 0.25, 7.}};
  return places;
}
Rigid3d Choose3(const bool more) {
  const Vector3d turn = Turns()[mc::choose(more ? Turns().size() : 7)];
  Quaterniond q = ToQuaternion(turn);
  // Both quaternions are the same rotation.
  if (more && mc::flip()) q.coeffs() = -q.coeffs();
  return Rigid3d(Places()[mc::choose(Places().size())], q);
}
Rigid2d Choose2() {
  const double angle =
      mc::pick<double>({0., 1.2, -0.7, 3.1, -3.1, 6.9, -14.2, M_PI / 2., 1e-7});
  const Vector3d place = Places()[mc::choose(Places().size())];
  return Rigid2d(Vector2d(place.x(), place.y()), angle);
}

#define SAME(a, b, what) \
  MC_CHECK(((a) - (b)).norm() < 1e-9, what << ": " << (a) << " instead of " << (b))
#define SAMEF(a, b, what) \
  MC_CHECK(((a) - (b)).norm() < 1e-4, what << ": " << (a) << " instead of " << (b))

void Products3() {
  const Rigid3d a = Choose3(true), b = Choose3(false), c = Choose3(false);
  const Matrix4d ma = ToMatrix4(a), mb = ToMatrix4(b), mc_ = ToMatrix4(c);
  SAME(ToMatrix4(a * b), ma * mb, "product");
  SAME(ToMatrix4(a * (b * c)), ma * mb * mc_, "product");
  SAME(ToMatrix4((a * b) * c), ma * mb * mc_, "product");
  SAME(ToMatrix4((a * b).inverse()), (ma * mb).inverse(), "inverse");
  SAME(ToMatrix4(b.inverse() * a), mb.inverse() * ma, "relative pose");
  SAME(a * (b * c.translation()), (ma * mb * mc_.col(3)).eval().head<3>(), "transformed point");
  SAMEF(ToMatrix4(a.cast<float>() * b.cast<float>()), ma * mb, "product of floats");
  SAMEF((a.cast<float>() * b.translation().cast<float>()).cast<double>(),
        (ma * mb.col(3)).eval().head<3>(), "point of floats");
  MC_CHECK((a * b).IsValid() && a.inverse().IsValid(), "valid");
}

void Products2() {
  const Rigid2d a = Choose2(), b = Choose2(), c = Choose2();
  const Matrix3d ma = ToMatrix3(a), mb = ToMatrix3(b), mc_ = ToMatrix3(c);
  SAME(ToMatrix3(a * b), ma * mb, "product");
  SAME(ToMatrix3(a * (b * c)), ma * mb * mc_, "product");
  SAME(ToMatrix3((a * b).inverse()), (ma * mb).inverse(), "inverse");
  SAME(a * (b * c.translation()), (ma * mb * mc_.col(2)).eval().head<2>(), "transformed point");
  SAMEF(ToMatrix3(a.cast<float>() * b.cast<float>()), ma * mb, "product of floats");
  const double angle = (a * b).normalized_angle();
  MC_CHECK(angle >= -M_PI - 1e-9 && angle <= M_PI + 1e-9, "angle " << angle);
  SAME(Vector2d(std::cos(angle), std::sin(angle)), (ma * mb).col(0).head<2>(), "angle");
}

class NoFiles : public common::FileResolver {
 public:
  std::string GetFullPathOrDie(const std::string&) override { abort(); }
  std::string GetFileContentOrDie(const std::string&) override { abort(); }
};

void Conversions() {
  const Rigid3d a = Choose3(true);
  const Matrix4d m = ToMatrix4(a);
  const Matrix3d r = m.block<3, 3>(0, 0);
  // The angle of rotation.
  const double cosine = std::max(-1., std::min(1., (r.trace() - 1.) / 2.));
  MC_CHECK(std::abs(transform::GetAngle(a) - std::acos(cosine)) < 1e-6, "angle");
  const Vector3d v = transform::RotationQuaternionToAngleAxisVector(a.rotation());
  MC_CHECK(v.norm() < M_PI + 1e-9, "angle " << v.norm());
  SAME(Turn(v), r, "angle-axis vector");
  SAME(ToMatrix(transform::AngleAxisVectorToRotationQuaternion(v)), r, "from angle-axis vector");
  for (const Vector3d& turn : Turns()) {
    SAME(ToMatrix(transform::AngleAxisVectorToRotationQuaternion(turn)), Turn(turn),
         "from angle-axis vector");
  }
  const double yaw = transform::GetYaw(a);
  const Vector3d x = r.col(0);
  SAME(Vector2d(std::cos(yaw), std::sin(yaw)) * std::hypot(x.x(), x.y()),
       Vector2d(x.head<2>()), "yaw");
  const Rigid2d projected = transform::Project2D(a);
  SAME(projected.translation(), a.translation().head<2>(), "projection");
  MC_CHECK(std::abs(std::remainder(projected.rotation().angle() - yaw, 2. * M_PI)) < 1e-9,
           "projection");
  const Rigid3d embedded = transform::Embed3D(projected);
  SAME(embedded.translation(), Vector3d(a.translation().x(), a.translation().y(), 0.),
       "embedding");
  SAME(ToMatrix(embedded.rotation()), Turn(Vector3d(0., 0., yaw)), "embedding");
  // Dictionaries.
  const auto read = [](const std::string& code) {
    common::LuaParameterDictionary dictionary(code, absl::make_unique<NoFiles>());
    return transform::FromDictionary(&dictionary);
  };
  char text[400];
  snprintf(text, sizeof(text),
           "return { translation = { %.17g, %.17g, %.17g }, "
           "rotation = { w = %.17g, x = %.17g, y = %.17g, z = %.17g } }",
           a.translation().x(), a.translation().y(), a.translation().z(), a.rotation().w(),
           a.rotation().x(), a.rotation().y(), a.rotation().z());
  SAME(ToMatrix4(read(text)), m, "dictionary");
  const Vector3d angles(mc::pick<double>({0., 0.4, -2.}), mc::pick<double>({0., -0.7, 1.2}),
                        mc::pick<double>({0., 1.1, 3.}));
  const Matrix3d turned = Turn(Vector3d(0., 0., angles.z())) * Turn(Vector3d(0., angles.y(), 0.)) *
                          Turn(Vector3d(angles.x(), 0., 0.));
  SAME(ToMatrix(transform::RollPitchYaw(angles.x(), angles.y(), angles.z())), turned,
       "roll, pitch, yaw");
  snprintf(text, sizeof(text),
           "return { translation = { %.17g, %.17g, %.17g }, rotation = { %.17g, %.17g, %.17g } }",
           a.translation().x(), a.translation().y(), a.translation().z(), angles.x(), angles.y(),
           angles.z());
  SAME(ToMatrix(read(text).rotation()), turned, "dictionary of angles");
  SAME(read(text).translation(), a.translation(), "dictionary of angles");
  // Protos keep everything.
  SAME(ToMatrix4(transform::ToRigid3(transform::ToProto(a))), m, "3D proto");
  SAME(transform::ToRigid3(transform::ToProto(a)).rotation().coeffs(), a.rotation().coeffs(),
       "3D proto");
  SAME(ToMatrix3(transform::ToRigid2(transform::ToProto(projected))), ToMatrix3(projected),
       "2D proto");
  const auto proto_f = transform::ToProto(a.cast<float>());
  SAMEF(Vector3d(proto_f.translation().x(), proto_f.translation().y(), proto_f.translation().z()),
        a.translation(), "float proto");
  SAMEF(Eigen::Vector4d(proto_f.rotation().x(), proto_f.rotation().y(), proto_f.rotation().z(),
                        proto_f.rotation().w()),
        a.rotation().coeffs(), "float proto");
  const auto proto_2f = transform::ToProto(projected.cast<float>());
  SAMEF(Vector3d(proto_2f.translation().x(), proto_2f.translation().y(), proto_2f.rotation()),
        Vector3d(projected.translation().x(), projected.translation().y(),
                 projected.rotation().angle()),
        "float proto");
  SAME(transform::ToEigen(transform::ToProto(a.translation())), a.translation(), "vector proto");
  SAME(transform::ToEigen(transform::ToProto(projected.translation())), projected.translation(),
       "vector proto");
  const Eigen::Vector3f f3 = a.translation().cast<float>();
  const Eigen::Vector4f f4(1.f, f3.x(), f3.y(), f3.z());
  SAME(transform::ToEigen(transform::ToProto(f3)), f3, "vector proto");
  SAME(transform::ToEigen(transform::ToProto(f4)), f4, "vector proto");
  SAME(transform::ToEigen(transform::ToProto(a.rotation())).coeffs(), a.rotation().coeffs(),
       "quaternion proto");
  const double roll = mc::pick<double>({0., 0.4, -2.}), pitch = mc::pick<double>({0., -0.3, 1.1});
  SAME(ToMatrix(transform::RollPitchYaw(roll, pitch, yaw)),
       Turn({0., 0., yaw}) * Turn({0., pitch, 0.}) * Turn({roll, 0., 0.}), "roll, pitch, yaw");
  Rigid3d invalid(Vector3d(0., 0., 0.), Quaterniond(1.1, 0., 0., 0.));
  MC_CHECK(!invalid.IsValid(), "scaled rotation");
  for (int i = 0; i != 3; ++i) {
    Vector3d nan = a.translation();
    nan[i] = std::numeric_limits<double>::quiet_NaN();
    MC_CHECK(!Rigid3d(nan, a.rotation()).IsValid(), "NaN");
  }
}

common::Time ToTime(const int t) {
  // Long after the epoch, in steps of 0.1 us.
  return common::FromUniversal(630000000000000000ll + t);
}

Matrix4d Between(const Rigid3d& a, const Rigid3d& b, const double f) {
  const Matrix3d ra = ToMatrix(a.rotation()), rb = ToMatrix(b.rotation());
  const Eigen::AngleAxisd relative(Matrix3d(ra.transpose() * rb));
  Matrix4d m = Matrix4d::Identity();
  m.block<3, 3>(0, 0) = ra * Turn(f * relative.angle() * relative.axis());
  m.block<3, 1>(0, 3) = (1. - f) * a.translation() + f * b.translation();
  return m;
}

void Interpolation() {
  const Rigid3d a = Choose3(true), b = Choose3(true);
  const double angle = transform::GetAngle(a.inverse() * b);
  if (angle > 3.13) return;  // either way round
  const int duration = mc::pick<int>({1, 7, 10000000, 2000000001});
  for (const double part : {0., 0.1, 0.5, 0.99, 1.}) {
    const int t = std::floor(part * duration);
    const auto result = transform::Interpolate({ToTime(-1000), a},
                                               {ToTime(-1000 + duration), b}, ToTime(-1000 + t));
    MC_CHECK(result.time == ToTime(-1000 + t), "time");
    const Matrix4d want = Between(a, b, 1. * t / duration);
    MC_CHECK((ToMatrix4(result.transform) - want).norm() < 1e-6,
             "interpolated " << ToMatrix4(result.transform) << " instead of " << want);
    const auto copy = transform::FromProto(transform::ToProto(result));
    MC_CHECK(copy.time == result.time, "proto");
    SAME(ToMatrix4(copy.transform), ToMatrix4(result.transform), "proto");
  }
}

struct Known {
  int time;
  Rigid3d pose;
};

void CheckBuffer(const transform::TransformInterpolationBuffer& buffer,
                 const std::deque<Known>& model, const int last) {
  MC_CHECK(buffer.size() == model.size(), buffer.size() << " instead of " << model.size());
  MC_CHECK(buffer.empty() == model.empty(), "empty");
  if (!model.empty()) {
    MC_CHECK(buffer.earliest_time() == ToTime(model.front().time), "earliest");
    MC_CHECK(buffer.latest_time() == ToTime(model.back().time), "latest");
  }
  for (int t = -1; t <= last + 1; ++t) {
    const bool has = !model.empty() && model.front().time <= t && t <= model.back().time;
    MC_CHECK(buffer.Has(ToTime(t)) == has, "has " << t);
    if (!has) continue;
    const Matrix4d found = ToMatrix4(buffer.Lookup(ToTime(t)));
    bool good = false;
    for (size_t i = 0; i != model.size(); ++i) {
      // If there are several poses of that time, any of them.
      if (model[i].time == t) good |= (found - ToMatrix4(model[i].pose)).norm() < 1e-9;
      if (i != 0 && model[i - 1].time < t && t < model[i].time) {
        good |= (found - Between(model[i - 1].pose, model[i].pose,
                                 1. * (t - model[i - 1].time) / (model[i].time - model[i - 1].time)))
                    .norm() < 1e-6;
      }
    }
    MC_CHECK(good, "wrong pose at " << t << ": " << found);
  }
}

void Buffer(const int length) {
  std::deque<Known> model;
  size_t limit = std::numeric_limits<size_t>::max();
  std::unique_ptr<transform::TransformInterpolationBuffer> buffer;
  int time = 0;
  int k = 0;
  const auto next = [&] {
    ++k;
    return Rigid3d(Vector3d(k, -2. * k, 0.5 * k * k),
                   ToQuaternion(Vector3d(0.3 * k, 0.2, -0.7 * k)));
  };
  if (mc::flip()) {
    mapping::proto::Trajectory trajectory;
    for (int i = 0; i != 3; ++i) {
      const Known known{time, next()};
      model.push_back(known);
      auto* const node = trajectory.add_node();
      node->set_timestamp(common::ToUniversal(ToTime(time)));
      *node->mutable_pose() = transform::ToProto(known.pose);
      time += 2 + i;
    }
    time -= 4;
    buffer.reset(new transform::TransformInterpolationBuffer(trajectory));
  } else {
    buffer.reset(new transform::TransformInterpolationBuffer());
  }
  CheckBuffer(*buffer, model, time);
  for (int i = 0; i != length; ++i) {
    const int op = mc::choose(8);
    if (op < 4) {
      // The same time is possible.
      time += op == 3 ? 5 : op;
      const Known known{time, next()};
      MC_LOG("push at " << time);
      model.push_back(known);
      buffer->Push(ToTime(time), known.pose);
    } else if (op < 7) {
      limit = op == 4 ? 1 : op == 5 ? 3 : 100;
      MC_LOG("limit " << limit);
      buffer->SetSizeLimit(limit);
    } else {
      MC_LOG("clear");
      model.clear();
      buffer->Clear();
      // Time may start again.
      time = 0;
    }
    while (model.size() > limit) model.pop_front();
    CheckBuffer(*buffer, model, time);
    mc::step();
  }
  if (limit != std::numeric_limits<size_t>::max()) {
    MC_CHECK(buffer->size_limit() == limit, "limit");
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "explicit enumeration of transforms and of all histories of a buffer, compared with matrices";
  return mc::Main(
      argc, argv,
      {{"products_3d", [] { Products3(); }, 3, UINT64_MAX, "24 x 7 x 7 rotations at 27 places"},
       {"products_2d", [] { Products2(); }, 3, UINT64_MAX, "9 angles at 3 places, three times"},
       {"conversions", [] { Conversions(); }, 3, UINT64_MAX, "24 rotations at 3 places"},
       {"interpolation", [] { Interpolation(); }, 3, UINT64_MAX,
        "all pairs of 24 rotations and 3 places, 4 durations, 5 times"},
       {"buffer", [] { Buffer(mc::thorough() ? 7 : 6); }, 3, UINT64_MAX,
        "all histories of 6 (thorough: 7) of 8 operations, all times looked up after each"}},
      config);
}
