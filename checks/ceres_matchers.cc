// The pose found by non-linear scan matching has the least cost around, with
// the cost evaluated independently.
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

#include "Eigen/Dense"
#ifdef CHECK_3D
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.h"
#else
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#endif
#include "ceres/ceres.h"
#include "mc.h"

namespace {

using namespace cartographer;
namespace sm = mapping::scan_matching;
using Eigen::Quaterniond;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;
using Eigen::MatrixXd;

// The least value of 'f' found by a careful search starting at 0.
double Descend(const std::function<double(const VectorXd&)>& f, const int dims) {
  constexpr double kH = 1e-4;
  VectorXd x = VectorXd::Zero(dims);
  double best = f(x);
  for (int iteration = 0; iteration != 3; ++iteration) {
    VectorXd g(dims);
    MatrixXd h(dims, dims);
    const auto at = [&](const int i, const double a, const int j, const double b) {
      VectorXd y = x;
      y[i] += a;
      y[j] += b;
      return f(y);
    };
    const double here = f(x);
    for (int i = 0; i != dims; ++i) {
      const double plus = at(i, kH, i, 0.), minus = at(i, -kH, i, 0.);
      g[i] = (plus - minus) / (2. * kH);
      h(i, i) = (plus - 2. * here + minus) / (kH * kH);
      for (int j = 0; j != i; ++j) {
        h(i, j) = h(j, i) = (at(i, kH, j, kH) - at(i, kH, j, -kH) - at(i, -kH, j, kH) +
                             at(i, -kH, j, -kH)) /
                            (4. * kH * kH);
      }
    }
    Eigen::SelfAdjointEigenSolver<MatrixXd> solver(h);
    const double largest = std::max(1e-9, solver.eigenvalues().cwiseAbs().maxCoeff());
    const VectorXd inverse =
        solver.eigenvalues().cwiseAbs().cwiseMax(1e-3 * largest).cwiseInverse();
    const VectorXd newton =
        -(solver.eigenvectors() * inverse.asDiagonal() * solver.eigenvectors().transpose() * g);
    VectorXd next = x;
    for (const VectorXd& direction : {newton, VectorXd(-g / largest)}) {
      for (const double step : {1., 0.5, 0.2, 0.05, 0.01}) {
        VectorXd d = step * direction;
        if (d.norm() > 0.003) d *= 0.003 / d.norm();
        const double value = f(x + d);
        if (value < best) {
          best = value;
          next = x + d;
        }
      }
    }
    if (next == x) break;
    x = next;
  }
  return best;
}

// How much better than the found pose another may be: the solver stops when
// progress is slow.
constexpr double kRelative = 2e-2;
constexpr double kAbsolute = 1e-5;
// Very rarely it stops early nevertheless, but not from all poses around the
// initial one.
constexpr int kAttempts = 6;

void CheckCosts(const ceres::Solver::Summary& summary, const double initial, const double found,
                const bool found_certain) {
  MC_LOG("initial " << initial << " (reported " << summary.initial_cost << "), found " << found
                    << " (reported " << summary.final_cost << "), " << summary.message);
  MC_CHECK(std::abs(summary.initial_cost - initial) < 1e-5 + 1e-5 * initial,
           "the initial pose has cost " << initial << ", not " << summary.initial_cost);
  if (found_certain) {
    // The least cost reported may be that of a step not taken.
    bool reported = std::abs(summary.final_cost - found) < 1e-5 + 1e-5 * found;
    for (const auto& iteration : summary.iterations) {
      reported |= iteration.step_is_successful &&
                  std::abs(iteration.cost - found) < 1e-5 + 1e-5 * found;
    }
    MC_CHECK(reported, "the found pose has cost " << found << ", not " << summary.final_cost);
    MC_CHECK(found <= initial * (1. + 1e-5) + 1e-5,
             "the found pose has cost " << found << ", the initial one " << initial);
  }
}

template <typename Options>
void SetSolverOptions(const bool nonmonotonic, Options* const options) {
  options->set_use_nonmonotonic_steps(nonmonotonic);
  options->set_max_num_iterations(300);
  options->set_num_threads(1);
}

#ifndef CHECK_3D

struct Map {
  double resolution;
  Vector2d max;
  int num_x, num_y;
  const mapping::Grid2D* grid;
  const mapping::TSDF2D* tsdf = nullptr;

  // Cell (i, j) has its center i cells below max.x() and j below max.y().
  bool Contains(const int i, const int j) const {
    return i >= 0 && j >= 0 && i < num_y && j < num_x;
  }
  double At(const int i, const int j) const {
    if (!Contains(i, j)) return 0.9;
    return grid->GetCorrespondenceCost(Eigen::Array2i(j, i));
  }
  double Weight(const int i, const int j) const {
    if (!Contains(i, j)) return 0.;
    return tsdf->GetWeight(Eigen::Array2i(j, i));
  }
  double Distance(const int i, const int j) const {
    return tsdf->GetTSD(Eigen::Array2i(j, i));
  }
  static double Cubic(const double p[4], const double t) {
    const double m1 = 0.5 * (p[2] - p[0]), m2 = 0.5 * (p[3] - p[1]);
    return p[1] * (1. + 2. * t) * (1. - t) * (1. - t) + m1 * t * (1. - t) * (1. - t) +
           p[2] * t * t * (3. - 2. * t) + m2 * t * t * (t - 1.);
  }
  double Smooth(const Vector2d& p) const {
    const double u = (max.x() - p.x()) / resolution - 0.5;
    const double v = (max.y() - p.y()) / resolution - 0.5;
    const int i = std::floor(u), j = std::floor(v);
    double rows[4];
    for (int a = 0; a != 4; ++a) {
      double values[4];
      for (int b = 0; b != 4; ++b) values[b] = At(i - 1 + a, j - 1 + b);
      rows[a] = Cubic(values, v - j);
    }
    return Cubic(rows, u - i);
  }
  // Bilinear distance and weight; false if rounding decides.
  bool Bilinear(const Vector2d& p, double* const distance, double* const weight) const {
    const double u = (max.x() - p.x()) / resolution - 0.5;
    const double v = (max.y() - p.y()) / resolution - 0.5;
    const int i = std::floor(u), j = std::floor(v);
    double d = 0., w = 0.;
    bool unknown = false;
    for (const int a : {0, 1}) {
      for (const int b : {0, 1}) {
        const double f = (a ? u - i : 1. - (u - i)) * (b ? v - j : 1. - (v - j));
        if (Weight(i + a, j + b) == 0.) {
          unknown = true;
        } else {
          d += f * Distance(i + a, j + b);
          w += f * Weight(i + a, j + b);
        }
      }
    }
    *distance = unknown ? tsdf->GetMaxCorrespondenceCost() : d;
    *weight = w;
    const double kEps = 1e-4;
    return u - i > kEps && u - i < 1. - kEps && v - j > kEps && v - j < 1. - kEps;
  }
};

struct Setting {
  sm::proto::CeresScanMatcherOptions2D options;
  Map map;
  sensor::PointCloud cloud;
  Vector2d target;
  double yaw;

  // The sum of squares, halved; negative if there is none.
  double Cost(const Vector3d& pose, bool* const certain) const {
    *certain = true;
    const Eigen::Rotation2Dd rotation(pose[2]);
    double sum = 0., weights = 0.;
    for (const sensor::RangefinderPoint& point : cloud) {
      const Vector2d world = rotation * Vector2d(point.position.x(), point.position.y()) +
                             Vector2d(pose.x(), pose.y());
      if (map.tsdf == nullptr) {
        const double c = map.Smooth(world);
        sum += c * c / cloud.size();
      } else {
        double d, w;
        if (!map.Bilinear(world, &d, &w)) *certain = false;
        sum += d * d * w * w * cloud.size();
        weights += w;
      }
    }
    if (map.tsdf != nullptr) {
      if (weights == 0.) return -1.;
      sum /= weights * weights;
    }
    return 0.5 * (std::pow(options.occupied_space_weight(), 2) * sum +
                  std::pow(options.translation_weight(), 2) *
                      (Vector2d(pose.x(), pose.y()) - target).squaredNorm() +
                  std::pow(options.rotation_weight() * (pose[2] - yaw), 2));
  }
};

const std::vector<std::vector<Vector3d>>& Clouds() {
  static const std::vector<std::vector<Vector3d>> clouds = {
      {{0.6, 0.1, 0.}},
      {{0.6, 0.1, 3.}, {-0.2, 0.5, -1.}},
      {{0.7, -0.3, 0.}, {0.7, 0.2, 0.2}, {0.65, 0.6, 0.}, {-0.3, 0.7, 0.}},
      {{4.1, 0.2, 0.}, {0.5, 0.5, 0.}, {-0.5, -0.6, 0.}},
      {{0.4, 0.9, 0.}, {0.41, 0.92, 0.}, {0.1, 0.93, 0.}},
      // Around the borders of the map.
      {{1.93, 0.3, 0.}, {0.2, 1.75, 0.}, {-1.38, 0.35, 0.}, {0.43, -1.26, 0.}}};
  return clouds;
}

// The outline of something in the world, by its distance.
double DistanceTo(const int kind, const Vector2d& p) {
  switch (kind) {
    case 0:  // a wall
      return 0.73 - p.x();
    case 1:  // a slanted wall
      return 0.9 - 0.8 * p.x() - 0.6 * p.y();
    case 2: {  // a corner
      return std::min(0.8 - p.x(), 0.75 - p.y());
    }
    default:  // a column
      return (p - Vector2d(0.3, 0.4)).norm() - 0.35;
  }
}

// Returns whether the found pose is a minimum.
bool TryMatch(const Setting& s, const sm::CeresScanMatcher2D& matcher, const mapping::Grid2D& grid,
              const Vector3d& start, std::ostringstream* const failures) {
  transform::Rigid2d found({100., 100.}, 2.);
  ceres::Solver::Summary summary;
  matcher.Match(s.target, transform::Rigid2d({start.x(), start.y()}, start.z()), s.cloud, grid,
                &found, &summary);
  // Yaw is continuous.
  const double turned = std::remainder(found.rotation().angle() - s.yaw, 2. * M_PI) + s.yaw;
  const Vector3d result(found.translation().x(), found.translation().y(), turned);
  bool initial_certain, found_certain;
  const double initial_cost = s.Cost(start, &initial_certain);
  const double found_cost = s.Cost(result, &found_certain);
  MC_LOG("from " << start.transpose() << " to " << result.transpose());
  if (initial_cost < 0.) {
    MC_CHECK((start - result).norm() < 1e-9, "the pose changed without a map around");
    return true;
  }
  if (!initial_certain) return true;
  CheckCosts(summary, initial_cost, found_cost, found_certain);
  if (s.options.ceres_solver_options().use_nonmonotonic_steps()) return true;
  if (s.map.tsdf != nullptr) {
    // Interpolation has kinks: there is a minimum where it is smooth.
    bool smooth = found_certain;
    for (int i = 0; i != 27; ++i) {
      bool certain;
      const Vector3d d(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1);
      const double cost = s.Cost(result + 2e-3 * d, &certain);
      smooth = smooth && certain && cost >= 0. && std::abs(cost - found_cost) < 0.1;
    }
    if (!smooth) return true;
  }
  const double best = Descend(
      [&](const VectorXd& d) {
        bool certain;
        const double cost = s.Cost(result + Vector3d(d), &certain);
        return cost < 0. ? 1e9 : cost;
      },
      3);
  if (found_cost <= best * (1. + kRelative) + kAbsolute) return true;
  *failures << "cost " << found_cost << " at " << result.transpose() << ", " << best << " nearby; ";
  return false;
}

void CheckMatch(const bool tsdf) {
  Setting s;
  s.options.set_occupied_space_weight(mc::pick<double>({1., 3.}));
  s.options.set_translation_weight(mc::thorough() ? mc::pick<double>({0.7, 2., 6.})
                                                  : mc::pick<double>({0.7, 6.}));
  s.options.set_rotation_weight(mc::pick<double>({1.1, 6.}));
  SetSolverOptions(mc::flip(), s.options.mutable_ceres_solver_options());
  const int kind = mc::choose(4);
  const bool partial = mc::flip();  // parts of the map are not known
  const auto& points = Clouds()[mc::choose(Clouds().size())];
  const double initial_yaw = mc::thorough() ? mc::pick<double>({0.013, 0.11, -0.21, 3.05})
                                            : mc::pick<double>({0.013, -0.21, 3.05});
  const Vector2d start(0.031 + mc::pick<double>({0., -0.12, 0.09}),
                       0.017 + mc::pick<double>({0., 0.083}));
  const Vector2d offset(mc::pick<double>({0., 0.05}), mc::pick<double>({0., -0.07}));
  s.map.resolution = mc::thorough() ? mc::pick<double>({0.1, 0.23}) : 0.1;

  s.map.max = Vector2d(2.01, 1.83);
  s.map.num_y = std::floor(3.4 / s.map.resolution);
  s.map.num_x = std::floor(3.1 / s.map.resolution);
  const mapping::MapLimits limits(s.map.resolution, s.map.max,
                                  mapping::CellLimits(s.map.num_x, s.map.num_y));
  mapping::ValueConversionTables tables;
  std::unique_ptr<mapping::Grid2D> grid;
  if (tsdf) {
    auto real = std::unique_ptr<mapping::TSDF2D>(new mapping::TSDF2D(limits, 0.4f, 10.f, &tables));
    for (int i = 0; i != s.map.num_y; ++i) {
      for (int j = 0; j != s.map.num_x; ++j) {
        const Vector2d center = s.map.max - s.map.resolution * Vector2d(i + 0.5, j + 0.5);
        const double distance = DistanceTo(kind, center);
        if (std::abs(distance) > 0.37) continue;
        if (partial && (3 * i + 5 * j) % 7 == 0) continue;
        real->SetCell(Eigen::Array2i(j, i), distance, 1.5 + std::sin(1. * i + 2. * j));
      }
    }
    s.map.tsdf = real.get();
    grid = std::move(real);
  } else {
    auto real =
        std::unique_ptr<mapping::ProbabilityGrid>(new mapping::ProbabilityGrid(limits, &tables));
    for (int i = 0; i != s.map.num_y; ++i) {
      for (int j = 0; j != s.map.num_x; ++j) {
        const Vector2d center = s.map.max - s.map.resolution * Vector2d(i + 0.5, j + 0.5);
        const double distance = DistanceTo(kind, center) / 0.25;
        if (partial && ((3 * i + 5 * j) % 7 == 0 || distance < -1.)) continue;
        real->SetProbability(Eigen::Array2i(j, i), 0.15 + 0.7 * std::exp(-distance * distance));
      }
    }
    grid = std::move(real);
  }
  s.map.grid = grid.get();
  for (const Vector3d& p : points) s.cloud.push_back({p.cast<float>()});
  if (initial_yaw > 1.) {
    // The scan seen from the other side.
    s.cloud = sensor::PointCloud();
    for (const Vector3d& p : points) {
      s.cloud.push_back({Eigen::Vector3f(-p.x(), -p.y(), p.z())});
    }
  }
  s.target = start + offset;
  s.yaw = initial_yaw;

  const sm::CeresScanMatcher2D matcher(s.options);
  std::ostringstream failures;
  for (int attempt = 0; attempt != kAttempts; ++attempt) {
    if (TryMatch(s, matcher, *grid,
                 Vector3d(start.x() + 2e-3 * attempt, start.y() - 1e-3 * attempt, initial_yaw),
                 &failures)) {
      return;
    }
  }
  MC_CHECK(false, "the found poses are not the best ones around: " << failures.str());
}

#else

using Voxel = std::array<int, 3>;

Quaterniond Exp(const Vector3d& v) {
  const double angle = v.norm();
  if (angle < 1e-12) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(angle, v / angle));
}

struct Layer {
  double resolution;
  std::shared_ptr<const mapping::HybridGrid> grid;
  std::shared_ptr<const mapping::IntensityHybridGrid> intensities;
  sensor::PointCloud cloud;

  double At(const Voxel& v, const bool intensity) const {
    const Eigen::Array3i index(v[0], v[1], v[2]);
    return intensity ? intensities->GetIntensity(index) : grid->GetProbability(index);
  }
  // Voxel centers are at multiples of the resolution.
  double Smooth(const Vector3d& p, const bool intensity) const {
    Voxel low;
    double f[3];
    for (int i = 0; i != 3; ++i) {
      const double u = p[i] / resolution;
      low[i] = std::floor(u);
      const double t = u - low[i];
      f[i] = t * t * (3. - 2. * t);
    }
    double sum = 0.;
    for (int corner = 0; corner != 8; ++corner) {
      double w = 1.;
      Voxel v = low;
      for (int i = 0; i != 3; ++i) {
        const bool high = (corner >> i) & 1;
        w *= high ? f[i] : 1. - f[i];
        v[i] += high ? 1 : 0;
      }
      sum += w * At(v, intensity);
    }
    return sum;
  }
};

struct Setting {
  sm::proto::CeresScanMatcherOptions3D options;
  std::vector<Layer> layers;
  Vector3d target;

  double Cost(const transform::Rigid3d& pose, const Quaterniond& initial_rotation) const {
    double sum = 0.;
    for (size_t k = 0; k != layers.size(); ++k) {
      const Layer& layer = layers[k];
      double occupied = 0., intensity = 0.;
      for (size_t i = 0; i != layer.cloud.size(); ++i) {
        const Vector3d world =
            pose.rotation() * layer.cloud[i].position.cast<double>() + pose.translation();
        occupied += std::pow(1. - layer.Smooth(world, false), 2);
        if (layer.intensities != nullptr) {
          const double measured = layer.cloud.intensities()[i];
          if (measured <= options.intensity_cost_function_options(k).intensity_threshold()) {
            intensity += std::pow(layer.Smooth(world, true) - measured, 2);
          }
        }
      }
      sum += std::pow(options.occupied_space_weight(k), 2) * occupied / layer.cloud.size();
      if (layer.intensities != nullptr) {
        const auto& o = options.intensity_cost_function_options(k);
        const double squares = std::pow(o.weight(), 2) * intensity / layer.cloud.size();
        const double a = o.huber_scale();
        sum += squares <= a * a ? squares : 2. * a * std::sqrt(squares) - a * a;
      }
    }
    const double sine = (initial_rotation.conjugate() * pose.rotation()).vec().norm();
    return 0.5 * (sum +
                  std::pow(options.translation_weight(), 2) *
                      (pose.translation() - target).squaredNorm() +
                  std::pow(options.rotation_weight() * sine, 2));
  }
};

bool TryMatch(const Setting& s, const sm::CeresScanMatcher3D& matcher,
              const transform::Rigid3d& start, std::ostringstream* const failures) {
  std::vector<sm::PointCloudAndHybridGridsPointers> pointers;
  for (const Layer& layer : s.layers) {
    pointers.push_back({&layer.cloud, layer.grid.get(), layer.intensities.get()});
  }
  transform::Rigid3d found(Vector3d(100., 100., 100.), Exp(Vector3d(1., 2., 3.)));
  ceres::Solver::Summary summary;
  matcher.Match(s.target, start, pointers, &found, &summary);
  MC_LOG("from " << start.DebugString() << " to " << found.DebugString());
  const double initial_cost = s.Cost(start, start.rotation());
  const double found_cost = s.Cost(found, start.rotation());
  MC_CHECK(std::abs(found.rotation().norm() - 1.) < 1e-6, "not a rotation");
  CheckCosts(summary, initial_cost, found_cost, true);
  const bool only_yaw = s.options.only_optimize_yaw();
  if (only_yaw) {
    const Vector3d up = Vector3d::UnitZ();
    MC_CHECK((found.rotation().conjugate() * up - start.rotation().conjugate() * up).norm() < 1e-6,
             "the direction of gravity changed");
  }
  if (s.options.ceres_solver_options().use_nonmonotonic_steps()) return true;
  const double best = Descend(
      [&](const VectorXd& d) {
        const Vector3d turn = only_yaw ? Vector3d(0., 0., d[3]) : Vector3d(d[3], d[4], d[5]);
        return s.Cost(transform::Rigid3d(found.translation() + Vector3d(d[0], d[1], d[2]),
                                         Exp(turn) * found.rotation()),
                      start.rotation());
      },
      only_yaw ? 4 : 6);
  if (found_cost <= best * (1. + kRelative) + kAbsolute) return true;
  *failures << "cost " << found_cost << " at " << found.DebugString() << ", " << best
            << " nearby; ";
  return false;
}

// The outline of something in the world, by its distance.
double DistanceTo(const int kind, const Vector3d& p) {
  switch (kind) {
    case 0:  // a slanted wall
      return 0.9 - 0.8 * p.x() - 0.48 * p.y() + 0.36 * p.z();
    case 1:  // a corner
      return std::min({0.8 - p.x(), 0.75 - p.y(), 0.4 + p.z()});
    default:  // a column
      return (p - Vector3d(0.3, 0.4, p.z())).norm() - 0.35;
  }
}

using Grids = std::pair<std::shared_ptr<const mapping::HybridGrid>,
                        std::shared_ptr<const mapping::IntensityHybridGrid>>;
Grids GridsOf(const double resolution, const int kind, const bool partial) {
  // Matching does not change grids.
  static std::map<std::tuple<double, int, bool>, Grids> cache;
  const auto key = std::make_tuple(resolution, kind, partial);
  if (cache.count(key)) return cache[key];
  auto grid = std::make_shared<mapping::HybridGrid>(resolution);
  auto intensities = std::make_shared<mapping::IntensityHybridGrid>(resolution);
  const int n = std::ceil(1.4 / resolution);
  for (int x = -n; x <= n; ++x) {
    for (int y = -n; y <= n; ++y) {
      for (int z = -n / 2; z <= n / 2; ++z) {
        const Vector3d center = resolution * Vector3d(x, y, z);
        const double distance = DistanceTo(kind, center) / 0.25;
        if (partial && ((3 * x + 5 * y + 2 * z + 1000) % 7 == 0 || distance < -1.)) continue;
        grid->SetProbability(Eigen::Array3i(x, y, z), 0.15 + 0.7 * std::exp(-distance * distance));
        if (std::abs(distance) < 1.5) {
          intensities->AddIntensity(Eigen::Array3i(x, y, z),
                                    0.5 + 0.4 * std::sin(2. * center.x() + 3. * center.z()));
        }
      }
    }
  }
  cache[key] = {grid, intensities};
  return cache[key];
}

const std::vector<std::vector<Vector3d>>& Clouds() {
  static const std::vector<std::vector<Vector3d>> clouds = {
      {{0.6, 0.1, 0.3}},
      {{0.7, -0.3, -0.1}, {0.7, 0.2, 0.2}, {0.65, 0.6, -0.3}, {-0.3, 0.7, -0.3}},
      {{4.1, 0.2, 0.}, {0.5, 0.5, 0.5}, {-0.5, -0.6, -0.35}}};
  return clouds;
}

void CheckMatch(const bool with_intensities) {
  Setting s;
  const bool thorough = mc::thorough();
  const int num_layers = 1 + mc::choose(2);
  const double weight = mc::pick<double>({1., 3.});
  s.options.set_translation_weight(mc::pick<double>({0.7, 6.}));
  s.options.set_rotation_weight(mc::pick<double>({1.1, 6.}));
  s.options.set_only_optimize_yaw(mc::flip());
  SetSolverOptions((!with_intensities || thorough) && mc::flip(),
                   s.options.mutable_ceres_solver_options());
  const int kind = mc::choose(3);
  const bool partial = mc::flip();  // parts of the map are not known
  const int cloud = mc::choose(Clouds().size());
  const double yaw = with_intensities && !thorough ? mc::pick<double>({0.013, 3.05})
                                                   : mc::pick<double>({0.013, -0.21, 3.05});
  const Vector3d tilt = mc::flip() ? Vector3d(0.11, -0.07, 0.) : Vector3d::Zero();
  const Vector3d position(0.031 + mc::pick<double>({0., 0.09}),
                          0.017 + (thorough ? mc::pick<double>({0., 0.083}) : 0.083),
                          -0.013 + (thorough ? mc::pick<double>({0., -0.1}) : 0.));
  s.target = position + (mc::flip() ? Vector3d(0.05, -0.07, 0.04) : Vector3d::Zero());
  // Which scans have intensities, the Huber scale and the threshold.
  const int which = with_intensities ? 1 + mc::choose(num_layers == 2 ? 3 : 1) : 0;
  const double huber = with_intensities ? mc::pick<double>({0.3, 20.}) : 1.;
  const double threshold = with_intensities ? mc::pick<double>({0.7, 100.}) : 1.;

  for (int k = 0; k != num_layers; ++k) {
    s.options.add_occupied_space_weight(weight + 0.5 * k);
    auto* const o = s.options.add_intensity_cost_function_options();
    o->set_weight(0.6 + 0.5 * k);
    o->set_huber_scale(huber * (1. + k));
    o->set_intensity_threshold(threshold * (1. + 0.2 * k));
    Layer layer;
    layer.resolution = k == 0 ? 0.1 : 0.23;
    const auto grids = GridsOf(layer.resolution, kind, partial);
    layer.grid = grids.first;
    if ((which >> k) & 1) layer.intensities = grids.second;
    std::vector<sensor::RangefinderPoint> points;
    std::vector<float> values;
    // The other scan has other points, fewer or more.
    const auto& positions = Clouds()[(cloud + k) % Clouds().size()];
    const double turn = yaw > 1. ? M_PI : 0.;
    for (size_t i = 0; i != positions.size(); ++i) {
      points.push_back({(Exp(Vector3d(0., 0., turn)) * positions[i]).cast<float>()});
      values.push_back(0.35 + 0.45 * i);
    }
    layer.cloud = layer.intensities != nullptr ? sensor::PointCloud(points, values)
                                               : sensor::PointCloud(points);
    s.layers.push_back(std::move(layer));
  }

  const sm::CeresScanMatcher3D matcher(s.options);
  const Quaterniond rotation = Exp(Vector3d(0., 0., yaw)) * Exp(tilt);
  std::ostringstream failures;
  for (int attempt = 0; attempt != kAttempts; ++attempt) {
    if (TryMatch(s, matcher,
                 transform::Rigid3d(position + 1e-3 * attempt * Vector3d(2., -1., 1.), rotation),
                 &failures)) {
      return;
    }
  }
  MC_CHECK(false, "the found poses are not the best ones around: " << failures.str());
}

#endif

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "explicit enumeration of maps, scans, initial poses and weights with the real matcher";
  config.assumptions = {
      "the cost of a pose is evaluated by separately written interpolation",
      "the found pose may be better by what the solver gains in its last steps"};
  std::vector<mc::Scenario> scenarios;
#ifdef CHECK_3D
  scenarios.push_back({"occupied", [] { CheckMatch(false); }, 3, UINT64_MAX,
                       "1 or 2 scans and grids x 3 maps, known or partially known x 3 scans x 12 poses "
                       "x 2 targets x 8 weights, yaw only or not, monotonic or not; thorough 48 poses"});
  scenarios.push_back({"intensities", [] { CheckMatch(true); }, 3, UINT64_MAX,
                       "the same with intensities in one or both scans x 4 thresholds and scales"});
#else
  scenarios.push_back({"probability", [] { CheckMatch(false); }, 3, UINT64_MAX,
                       "4 maps, known or partially known x 6 scans x 18 poses x 4 targets x 8 "
                       "weights, monotonic or not; thorough also 2 resolutions, more poses"});
  scenarios.push_back({"tsdf", [] { CheckMatch(true); }, 3, UINT64_MAX,
                       "4 maps, known or partially known x 6 scans x 18 poses x 4 targets x 8 "
                       "weights, monotonic or not; thorough also 2 resolutions, more poses"});
#endif
  return mc::Main(argc, argv, scenarios, config);
}
