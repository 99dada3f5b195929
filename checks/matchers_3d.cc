// Correlative scan matching in 3D: every small hybrid grid, cloud, pose and
// search window of the alphabet; the matcher's answer is compared with scoring
// every candidate of the window one by one.
#include <cmath>
#include <map>
#include <memory>
#include <vector>

#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.h"
#include "mc.h"

namespace {

using namespace cartographer::mapping;
namespace sm = cartographer::mapping::scan_matching;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using transform::Rigid3d;

using Voxel = std::array<int, 3>;

struct Map {
  double resolution;
  std::map<Voxel, double> cells;
  std::unique_ptr<HybridGrid> real;

  explicit Map(double resolution) : resolution(resolution), real(new HybridGrid(resolution)) {}
  void Set(const Voxel& v, double p) {
    cells[v] = p;
    real->SetProbability(Eigen::Array3i(v[0], v[1], v[2]), p);
  }
  double At(const Voxel& v) const {
    const auto it = cells.find(v);
    return it == cells.end() ? 0.1 : it->second;
  }
};

struct Interval {
  double lo, hi;
};

// Mean probability of the points, with an allowance for points so close to a
// voxel border that rounding decides.
Interval ScoreOf(const Map& map, const std::vector<Vector3d>& points) {
  constexpr double kEps = 2e-4;
  Interval sum{0., 0.};
  for (const Vector3d& p : points) {
    double lo = 1e9, hi = -1e9;
    Voxel center;
    bool clear = true;
    for (int i = 0; i < 3; ++i) {
      const double f = p[i] / map.resolution + 0.5;
      center[i] = std::floor(f);
      if (f - center[i] < kEps / map.resolution || center[i] + 1 - f < kEps / map.resolution) {
        clear = false;
      }
    }
    if (clear) {
      lo = hi = map.At(center);
    } else {
      for (int corner = 0; corner < 8; ++corner) {
        Voxel v;
        for (int i = 0; i < 3; ++i) {
          v[i] = std::floor((p[i] + ((corner >> i) & 1 ? kEps : -kEps)) / map.resolution + 0.5);
        }
        lo = std::min(lo, map.At(v));
        hi = std::max(hi, map.At(v));
      }
    }
    sum.lo += lo;
    sum.hi += hi;
  }
  return {sum.lo / points.size(), sum.hi / points.size()};
}

std::vector<Vector3d> Apply(const Rigid3d& pose, const std::vector<Vector3d>& points) {
  std::vector<Vector3d> result;
  for (const Vector3d& p : points) result.push_back(pose * p);
  return result;
}

sensor::PointCloud ToCloud(const std::vector<Vector3d>& points) {
  sensor::PointCloud cloud;
  for (const Vector3d& p : points) cloud.push_back({p.cast<float>()});
  return cloud;
}

const std::vector<Voxel>& Voxels() {
  static const auto* const voxels = new std::vector<Voxel>{
      {0, 0, 0}, {-1, 0, 0}, {2, -1, 1}, {1, 3, -2}, {-4, 2, 0}, {3, -3, -1}, {0, -1, 3}, {-63, 62, -50}};
  return *voxels;
}

const std::vector<std::vector<Vector3d>>& Clouds() {
  static const auto* const clouds = new std::vector<std::vector<Vector3d>>{
      {{0.11, 0.07, -0.06}},
      {{0.61, 0.13, 0.21}, {-0.42, 0.33, 0.13}},
      {{0.61, 0.13, 0.21}, {-0.42, 0.33, -0.63}, {0.18, -0.93, 0.1}},
      {{2.13, 0.18, 0.07}, {1.62, 0.71, 0.41}}};
  return *clouds;
}

Quaterniond Turn(double yaw, double pitch = 0., double roll = 0.) {
  return Eigen::AngleAxisd(yaw, Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Vector3d::UnitY()) *
         Eigen::AngleAxisd(roll, Vector3d::UnitX());
}

constexpr double kResolution = 0.5;

// Fills a map with up to 'max_cells' of the first 'num_voxels' voxels.
void FillMap(Map* map, int num_voxels, int max_cells) {
  int next = 0;
  for (int i = 0; i < max_cells && next < num_voxels; ++i) {
    const int c = mc::choose(num_voxels - next + 1);
    if (c == 0) break;
    const Voxel v = Voxels()[next + c - 1];
    map->Set(v, i == 0 ? 0.85 : i == 1 ? 0.6 : 0.3);
    next += c;
  }
}

double Mod(double a, double m) { return a - m * std::floor(a / m); }

// Similarity of the scan's histogram, rotated, with that of the submap.
double RotationalScore(const Eigen::VectorXf& submap, const Eigen::VectorXf& scan, double angle) {
  const int n = scan.size();
  Eigen::VectorXd rotated(n);
  for (int i = 0; i < n; ++i) {
    // Bucket i of the result is found at i - angle of the original.
    const double source = Mod(i - angle * n / M_PI, n);
    const int first = static_cast<int>(std::floor(source)) % n;
    const double fraction = source - std::floor(source);
    rotated[i] = (1. - fraction) * scan[first] + fraction * scan[(first + 1) % n];
  }
  const double norm = rotated.norm() * submap.cast<double>().norm();
  if (norm < 1e-3) return 1.;
  return rotated.dot(submap.cast<double>()) / norm;
}

double Yaw(const Quaterniond& q) {
  const Vector3d d = q * Vector3d::UnitX();
  return std::atan2(d.y(), d.x());
}

void Fast(int num_voxels, int max_cells, int num_clouds, bool full, bool filters, int min_depth,
          int max_depth) {
  Map map(kResolution), low(2. * kResolution);
  FillMap(&map, num_voxels, max_cells);
  const std::vector<Vector3d> points = Clouds()[mc::choose(num_clouds)];
  const int node_case = mc::choose(3);
  const int submap_case = mc::choose(2);
  TrajectoryNode::Data data;
  data.time = cartographer::common::FromUniversal(0);
  data.gravity_alignment = Turn(0., node_case == 1 ? 0.2 : 0.);
  data.high_resolution_point_cloud = ToCloud(points);
  data.local_pose = Rigid3d::Identity();
  Rigid3d node(Vector3d(0.13, -0.21, 0.09), Turn(0.05));
  if (node_case == 1) node = Rigid3d(Vector3d(-0.77, 0.52, 0.31), Turn(0.9, 0.2));
  if (node_case == 2) node = Rigid3d(Vector3d(1.43, -1.62, -0.81), Turn(-2.2, 0., 0.1));
  Rigid3d submap = Rigid3d::Identity();
  if (submap_case == 1) submap = Rigid3d(Vector3d(0.4, 0.33, -0.12), Turn(0.4, 0.05));
  int xy = 0, z = 0;
  double angular_window = M_PI;
  double min_rotational = -1., min_low = 0.;
  std::vector<Vector3d> low_points = {{0.31, 0.17, 0.05}};
  Eigen::VectorXf submap_histogram = Eigen::VectorXf::Zero(4);
  data.rotational_scan_matcher_histogram = Eigen::VectorXf::Zero(4);
  if (full) {
    node = Rigid3d::Rotation(node.rotation());
    submap = Rigid3d::Rotation(submap.rotation());
  } else {
    const int window = mc::choose(4);
    xy = window == 0 ? 0 : window == 1 ? 1 : window == 2 ? 3 : 2;
    z = window == 0 ? 0 : window == 1 ? 2 : window == 2 ? 1 : 3;
    angular_window = mc::pick<double>({0., 0.45});
  }
  if (filters) {
    min_rotational = mc::pick<double>({0.6, 0.9});
    submap_histogram << 1.f, 0.2f, 0.f, 0.5f;
    data.rotational_scan_matcher_histogram << 0.1f, 1.f, 0.3f, 0.f;
    if (mc::flip()) data.rotational_scan_matcher_histogram << 1.f, 0.3f, 0.f, 0.4f;
    min_low = mc::pick<double>({0.3, 0.7});
    low.Set({0, 0, 0}, 0.8);
    low.Set({1, -1, 0}, 0.5);
    low.Set({-1, 0, 1}, 0.75);
    if (mc::flip()) low_points.push_back({-0.9, 0.4, 0.3});
  }
  data.low_resolution_point_cloud = ToCloud(low_points);

  double range = 3. * kResolution;
  for (const Vector3d& p : points) range = std::max(range, p.norm());
  const double step =
      0.99 * std::acos(1. - kResolution * kResolution / (2. * range * range));
  const int angular = std::lround(angular_window / step);
  const Rigid3d node_to_submap = submap.inverse() * node;
  const double initial_yaw = Yaw(node_to_submap.rotation() * data.gravity_alignment.inverse());
  const auto pose_of = [&](int a, const Vector3d& offset) {
    return Rigid3d(node_to_submap.translation() + offset,
                   submap.rotation().inverse() * Turn(a * step) * node.rotation());
  };
  constexpr double kTolerance = 1e-3;
  double best = -1e9;
  for (int a = -angular; a <= angular; ++a) {
    if (filters && RotationalScore(submap_histogram, data.rotational_scan_matcher_histogram,
                                   initial_yaw + a * step) < min_rotational + kTolerance) {
      continue;
    }
    if (full) {
      best = std::max(best, 0.1);
      for (const Vector3d& p : Apply(pose_of(a, Vector3d::Zero()), points)) {
        for (const auto& cell : map.cells) {
          Vector3d offset;
          for (int i = 0; i < 3; ++i) {
            offset[i] = kResolution * (cell.first[i] - std::floor(p[i] / kResolution + 0.5));
          }
          best = std::max(best, ScoreOf(map, Apply(pose_of(a, offset), points)).lo);
          mc::step();
        }
      }
      continue;
    }
    for (int x = -xy; x <= xy; ++x) {
      for (int y = -xy; y <= xy; ++y) {
        for (int dz = -z; dz <= z; ++dz) {
          const Rigid3d pose = pose_of(a, kResolution * Vector3d(x, y, dz));
          mc::step();
          const double score = ScoreOf(map, Apply(pose, points)).lo;
          if (score <= best) continue;
          if (filters && ScoreOf(low, Apply(pose, low_points)).lo < min_low + kTolerance) continue;
          best = score;
        }
      }
    }
  }
  const double quantum = 0.8 / 255. * 0.51 + 1e-4;
  for (int depth = min_depth; depth <= max_depth; ++depth) {
    for (int full_resolution_depth = 1; full_resolution_depth <= depth + 1;
         ++full_resolution_depth) {
      if (full && full_resolution_depth % 3 != 1) continue;
      if (filters && full_resolution_depth > 1 && full_resolution_depth < depth) continue;
      sm::proto::FastCorrelativeScanMatcherOptions3D options;
      options.set_branch_and_bound_depth(depth);
      options.set_full_resolution_depth(full_resolution_depth);
      options.set_min_rotational_score(min_rotational);
      options.set_min_low_resolution_score(min_low);
      options.set_linear_xy_search_window(kResolution * xy + 0.01);
      options.set_linear_z_search_window(kResolution * z + 0.01);
      options.set_angular_search_window(angular_window);
      const sm::FastCorrelativeScanMatcher3D matcher(*map.real, low.real.get(), &submap_histogram,
                                                     options);
      for (const double min_score : {0.01, best - 3. * quantum, best + 3. * quantum}) {
        if (best < 0. && min_score != 0.01) continue;  // nothing passes the filters
        if (full && min_score > 0.01 && min_score < 0.15) continue;
        const auto result =
            full ? matcher.MatchFullSubmap(node.rotation(), submap.rotation(), data, min_score)
                 : matcher.Match(node, submap, data, min_score);
        mc::step();
        MC_LOG("depth " << depth << " full resolution depth " << full_resolution_depth
                        << " min score " << min_score << " best " << best << " -> "
                        << (result ? result->score : -1.f));
        if (result == nullptr) {
          MC_CHECK(best <= min_score + quantum,
                   "no match found although the score " << best << " is possible");
          continue;
        }
        // The pose must belong to the window.
        const Rigid3d& pose = result->pose_estimate;
        MC_LOG("pose " << pose);
        int a = -angular;
        while (a <= angular &&
               pose_of(a, Vector3d::Zero()).rotation().angularDistance(pose.rotation()) > 5e-3) {
          ++a;
        }
        MC_CHECK(a <= angular, "the rotation is none of the candidates");
        const Vector3d cells = (pose.translation() - node_to_submap.translation()) / kResolution;
        for (int i = 0; i < 3; ++i) {
          MC_CHECK(std::abs(cells[i] - std::round(cells[i])) < 1e-3,
                   "offset " << cells.transpose() << " is not a whole number of voxels");
          if (!full) {
            MC_CHECK(std::abs(std::round(cells[i])) <= (i == 2 ? z : xy),
                     "offset " << cells.transpose() << " is beyond the window");
          }
        }
        const Interval at = ScoreOf(map, Apply(pose, points));
        MC_CHECK(result->score > min_score, "the score must be above the minimum");
        MC_CHECK(result->score >= at.lo - quantum && result->score <= at.hi + quantum,
                 "score " << result->score << ", but the pose has " << at.lo);
        MC_CHECK(result->score >= best - 2. * quantum,
                 "score " << result->score << ", but " << best << " is possible");
        const double rotational = RotationalScore(
            submap_histogram, data.rotational_scan_matcher_histogram, initial_yaw + a * step);
        MC_CHECK(std::abs(result->rotational_score - rotational) < 1e-3,
                 "rotational score " << result->rotational_score << ", expected " << rotational);
        MC_CHECK(result->rotational_score >= min_rotational, "rotational score is too low");
        const Interval low_score = ScoreOf(low, Apply(pose, low_points));
        MC_CHECK(result->low_resolution_score >= low_score.lo - 1e-3 &&
                     result->low_resolution_score <= low_score.hi + 1e-3,
                 "low resolution score " << result->low_resolution_score << ", expected "
                                         << low_score.lo);
        MC_CHECK(result->low_resolution_score >= min_low, "low resolution score is too low");
      }
    }
  }
  mc::sample("best score " + std::to_string(best));
}

void RealTime(int num_voxels, int max_cells, int num_clouds) {
  Map map(kResolution);
  FillMap(&map, num_voxels, max_cells);
  const std::vector<Vector3d> points = Clouds()[mc::choose(num_clouds)];
  const int node_case = mc::choose(3);
  Rigid3d initial(Vector3d(0.13, -0.21, 0.09), Turn(0.05));
  if (node_case == 1) initial = Rigid3d(Vector3d(-0.77, 0.52, 0.31), Turn(0.9, 0.2));
  if (node_case == 2) initial = Rigid3d(Vector3d(1.43, -1.62, -0.81), Turn(-2.2, 0., 0.1));
  const int linear = mc::choose(3);
  const double angular_window = mc::pick<double>({0., 0.3});
  const double translation_weight = mc::pick<double>({0., 0.8});
  const double rotation_weight = mc::pick<double>({0., 1.1});
  double range = 3. * kResolution;
  for (const Vector3d& p : points) range = std::max(range, p.norm());
  const double step = 0.999 * std::acos(1. - kResolution * kResolution / (2. * range * range));
  const int angular = std::lround(angular_window / step);
  const auto penalty = [&](double distance, double angle) {
    const double d = distance * translation_weight + angle * rotation_weight;
    return std::exp(-d * d);
  };
  double best = -1e9;
  std::vector<Quaterniond> rotations;
  for (int i = -angular; i <= angular; ++i) {
    for (int j = -angular; j <= angular; ++j) {
      for (int k = -angular; k <= angular; ++k) {
        const Vector3d v = step * Vector3d(i, j, k);
        rotations.push_back(v.norm() == 0. ? Quaterniond::Identity()
                                           : Quaterniond(Eigen::AngleAxisd(v.norm(), v.normalized())));
        for (int x = -linear; x <= linear; ++x) {
          for (int y = -linear; y <= linear; ++y) {
            for (int z = -linear; z <= linear; ++z) {
              const Rigid3d candidate(kResolution * Vector3d(x, y, z), rotations.back());
              mc::step();
              best = std::max(best, ScoreOf(map, Apply(initial * candidate, points)).lo *
                                        penalty(candidate.translation().norm(), v.norm()));
            }
          }
        }
      }
    }
  }
  sm::proto::RealTimeCorrelativeScanMatcherOptions options;
  options.set_linear_search_window(kResolution * linear + 0.01);
  options.set_angular_search_window(angular_window);
  options.set_translation_delta_cost_weight(translation_weight);
  options.set_rotation_delta_cost_weight(rotation_weight);
  Rigid3d pose(Vector3d(77., 78., 79.), Turn(1.));
  const float score = sm::RealTimeCorrelativeScanMatcher3D(options).Match(initial, ToCloud(points),
                                                                          *map.real, &pose);
  MC_LOG("best " << best << " score " << score << " pose " << pose);
  const Rigid3d offset = initial.inverse() * pose;
  for (int i = 0; i < 3; ++i) {
    const double cells = offset.translation()[i] / kResolution;
    MC_CHECK(std::abs(cells - std::round(cells)) < 1e-3 && std::abs(std::round(cells)) <= linear,
             "offset of " << cells << " voxels");
  }
  bool valid = false;
  for (const Quaterniond& r : rotations) valid |= r.angularDistance(offset.rotation()) < 5e-3;
  MC_CHECK(valid, "the rotation is none of the candidates");
  const Interval at = ScoreOf(map, Apply(pose, points));
  const double factor = penalty(offset.translation().norm(), transform::GetAngle(offset));
  MC_CHECK(score >= at.lo * factor - 2e-3 && score <= at.hi * factor + 2e-3,
           "score " << score << ", but the pose has " << at.lo * factor);
  MC_CHECK(score >= best - 1e-3, "score " << score << ", but " << best << " is possible");
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
#ifdef CHECK_REAL_TIME
  scenarios.push_back({"real_time", [] { RealTime(7, 3, 4); }, 1, UINT64_MAX,
                       "all maps with up to 3 of 7 voxels, 4 clouds, 3 poses, 24 options"});
  scenarios.push_back({"real_time_3", [] { RealTime(8, 3, 4); }, 2, UINT64_MAX,
                       "all maps with up to 3 of 8 voxels, 4 clouds, 3 poses, 24 options"});
#else
  scenarios.push_back({"window", [] { Fast(7, 3, 4, false, false, 1, 4); }, 1, UINT64_MAX,
                       "all maps with up to 3 of 7 voxels, 4 clouds, 6 poses, 8 windows, depths 1-4 with all full resolution depths"});
  scenarios.push_back({"filters", [] { Fast(5, 2, 3, false, true, 1, 3); }, 1, UINT64_MAX,
                       "all maps with up to 2 of 5 voxels, 3 clouds, 6 poses, 8 windows, 16 filter settings, depths 1-3"});
  scenarios.push_back({"full_submap", [] { Fast(8, 2, 3, true, false, 7, 7); }, 1, UINT64_MAX,
                       "full submap search: all maps with up to 2 of 8 voxels, 3 clouds, 6 poses, depth 7"});
  scenarios.push_back({"window_3", [] { Fast(8, 3, 4, false, false, 1, 5); }, 2, UINT64_MAX,
                       "all maps with up to 3 of 8 voxels, 4 clouds, 6 poses, 8 windows, depths 1-5 with all full resolution depths"});
  scenarios.push_back({"filters_3", [] { Fast(7, 3, 4, false, true, 1, 4); }, 2, UINT64_MAX,
                       "all maps with up to 3 of 7 voxels, 4 clouds, 6 poses, 8 windows, 16 filter settings, depths 1-4"});
  scenarios.push_back({"full_submap_3", [] { Fast(8, 3, 4, true, false, 5, 8); }, 2, UINT64_MAX,
                       "full submap search: all maps with up to 3 of 8 voxels, 4 clouds, 6 poses, depths 5-8"});
#endif
  return mc::Main(argc, argv, scenarios,
                  {"exhaustive enumeration on the real code, compared with brute force scoring",
                   {"scores are compared within the resolution of the 8 bit precomputation grids"}});
}
