// Correlative scan matching in 2D: for every small grid, cloud, initial pose
// and search window in the alphabet, the matcher's answer is compared with
// scoring every candidate of the window one by one.
#include <cmath>
#include <map>
#include <memory>
#include <vector>

#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "mc.h"

namespace {

using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
using Eigen::Vector2d;

ValueConversionTables* Tables() {
  static auto* const tables = new ValueConversionTables;
  return tables;
}

// The map as the oracle sees it.
struct Map {
  bool tsdf = false;
  double resolution = 0.5;
  Vector2d max;
  int nx = 0, ny = 0;  // cells along world -y and world -x
  std::map<std::pair<int, int>, std::pair<double, double>> cells;  // value, weight
  double truncation = 0.4;
  std::unique_ptr<Grid2D> real;

  // (value, weight) at a cell; value is the probability or the distance.
  std::pair<double, double> At(int ix, int iy) const {
    const auto it = cells.find({ix, iy});
    if (it != cells.end()) return it->second;
    return tsdf ? std::make_pair(truncation, 0.) : std::make_pair(0.1, 0.);
  }
};

Map MakeMap(bool tsdf, int nx, int ny, const std::vector<int>& content) {
  Map map;
  map.tsdf = tsdf;
  map.nx = nx;
  map.ny = ny;
  map.max = Vector2d(1.03, 0.87);
  const MapLimits limits(map.resolution, map.max, CellLimits(nx, ny));
  std::unique_ptr<ProbabilityGrid> probability;
  std::unique_ptr<TSDF2D> distance;
  if (tsdf) {
    distance = std::make_unique<TSDF2D>(limits, map.truncation, 10.f, Tables());
  } else {
    probability = std::make_unique<ProbabilityGrid>(limits, Tables());
  }
  for (int iy = 0; iy < ny; ++iy) {
    for (int ix = 0; ix < nx; ++ix) {
      const int c = content[iy * nx + ix];
      if (c == 0) continue;  // unknown
      const Eigen::Array2i index(ix, iy);
      if (tsdf) {
        const double d = c == 1 ? 0.02 : c == 2 ? -0.25 : 0.3;
        const double w = c == 1 ? 4. : c == 2 ? 9. : 1.;
        distance->SetCell(index, d, w);
        map.cells[{ix, iy}] = {distance->GetTSD(index), distance->GetWeight(index)};
      } else {
        const double p = c == 1 ? 0.85 : c == 2 ? 0.5 : 0.2;
        probability->SetProbability(index, p);
        map.cells[{ix, iy}] = {p, 0.};
      }
    }
  }
  if (tsdf) {
    map.real = std::move(distance);
  } else {
    map.real = std::move(probability);
  }
  return map;
}

struct Interval {
  double lo, hi;
};

// Score of the cloud (already in the map frame), with an allowance for points
// so close to a cell border that rounding decides.
Interval ScoreOf(const Map& map, const std::vector<Vector2d>& points, bool fast) {
  constexpr double kEps = 2e-4;
  double lo = 0., hi = 0.;
  double weighted_lo = 0., weighted_hi = 0.;
  bool ambiguous = false;
  double weight = 0.;
  for (const Vector2d& p : points) {
    double p_lo = 1e9, p_hi = -1e9;
    std::pair<double, double> first;
    bool have = false;
    for (double sx : {-kEps, kEps}) {
      for (double sy : {-kEps, kEps}) {
        const int ix = std::floor((map.max.y() - p.y() - sy) / map.resolution);
        const int iy = std::floor((map.max.x() - p.x() - sx) / map.resolution);
        const auto v = map.At(ix, iy);
        if (have && v != first) ambiguous = true;
        if (!have) first = v;
        have = true;
        double s;
        if (!map.tsdf) {
          s = v.first;
        } else if (fast) {
          s = 1. - std::abs(v.first);
        } else {
          s = (map.truncation - std::abs(v.first)) / map.truncation;
        }
        p_lo = std::min(p_lo, s);
        p_hi = std::max(p_hi, s);
      }
    }
    lo += p_lo;
    hi += p_hi;
    weighted_lo += first.second * p_lo;
    weighted_hi += first.second * p_hi;
    weight += first.second;
  }
  if (map.tsdf && !fast) {
    if (ambiguous) return {0., 1.};
    if (weight == 0.) return {0., 0.};
    return {weighted_lo / weight, weighted_hi / weight};
  }
  return {lo / points.size(), hi / points.size()};
}

struct Query {
  std::vector<Vector2d> points;
  sensor::PointCloud cloud;
  transform::Rigid2d initial;
  double linear_window = 0., angular_window = 0.;
};

double AngularStep(const Query& query, double resolution) {
  double range = 3. * resolution;
  for (const Vector2d& p : query.points) range = std::max(range, p.norm());
  return 0.999 * std::acos(1. - resolution * resolution / (2. * range * range));
}

std::vector<Vector2d> Placed(const Query& query, double angle, double dx, double dy) {
  const double c = std::cos(query.initial.rotation().angle() + angle);
  const double s = std::sin(query.initial.rotation().angle() + angle);
  std::vector<Vector2d> result;
  for (const Vector2d& p : query.points) {
    result.emplace_back(c * p.x() - s * p.y() + query.initial.translation().x() + dx,
                        s * p.x() + c * p.y() + query.initial.translation().y() + dy);
  }
  return result;
}

void SetPoints(Query* query, const std::vector<Vector2d>& points) {
  query->points = points;
  for (const Vector2d& p : points) {
    query->cloud.push_back({Eigen::Vector3f(p.x(), p.y(), 0.3f)});
  }
}

const std::vector<std::vector<Vector2d>>& Clouds() {
  static const auto* const clouds = new std::vector<std::vector<Vector2d>>{
      {{0.11, 0.07}},
      {{0.61, 0.13}, {-0.42, 0.33}},
      {{0.61, 0.13}, {-0.42, 0.33}, {0.18, -0.93}},
      {{2.13, 0.18}, {1.62, 0.71}},
      {{0.11, 0.07}, {0.12, 0.08}, {1.21, 0.09}, {1.19, 1.13}}};
  return *clouds;
}

const std::vector<transform::Rigid2d>& Poses() {
  static const auto* const poses = new std::vector<transform::Rigid2d>{
      {{0.29, 0.14}, 0.},        // inside
      {{-0.21, -0.33}, 0.7},     // inside, turned
      {{1.83, 0.21}, -1.1},      // beyond the upper border in x
      {{-1.37, -1.81}, 2.9},     // beyond the lower borders
      {{0.21, 9.12}, 0.2}};      // far away
  return *poses;
}

// Checks a claimed result; quantum: precision of the matcher's scores.
void CheckPose(const Map& map, const Query& query, const transform::Rigid2d& pose, int linear,
               int angular, double step, bool fast, double* angle, double* dx, double* dy,
               Interval* score) {
  *dx = pose.translation().x() - query.initial.translation().x();
  *dy = pose.translation().y() - query.initial.translation().y();
  *angle = (query.initial.rotation().inverse() * pose.rotation()).smallestAngle();
  const double cx = *dx / map.resolution, cy = *dy / map.resolution, ca = *angle / step;
  if (linear >= 0) {
    MC_CHECK(std::abs(cx - std::round(cx)) < 1e-3 && std::abs(cy - std::round(cy)) < 1e-3,
             "offset " << cx << " " << cy << " is not a whole number of cells");
    MC_CHECK(std::abs(std::round(cx)) <= linear && std::abs(std::round(cy)) <= linear,
             "offset " << cx << " " << cy << " is beyond the window of " << linear);
    MC_CHECK(std::abs(ca - std::round(ca)) < 1e-2 && std::abs(std::round(ca)) <= angular,
             "rotation by " << ca << " steps, window " << angular);
  }
  *score = ScoreOf(map, Placed(query, *angle, *dx, *dy), fast);
}

void Fast(const std::vector<std::pair<int, int>>& sizes, int values, bool tsdf, int num_clouds,
          int num_poses, int max_depth, bool full) {
  const auto size = mc::pick(sizes);
  std::vector<int> content;
  for (int i = 0; i < size.first * size.second; ++i) content.push_back(mc::choose(values));
  const Map map = MakeMap(tsdf, size.first, size.second, content);
  Query query;
  SetPoints(&query, Clouds()[mc::choose(num_clouds)]);
  if (!full) {
    query.initial = Poses()[mc::choose(num_poses)];
    query.linear_window = mc::pick<double>({0.45, 1.3, 2.4});
    query.angular_window = mc::pick<double>({0., 0.45});
  } else {
    query.initial = transform::Rigid2d(
        {map.max.x() - 0.5 * map.resolution * map.ny, map.max.y() - 0.5 * map.resolution * map.nx},
        0.);
  }
  const double step = AngularStep(query, map.resolution);
  const int angular = std::ceil((full ? M_PI : query.angular_window) / step);
  const int linear = full ? -1 : static_cast<int>(std::ceil(query.linear_window / map.resolution));
  // Scores of all candidates.
  double best = -1e9;
  for (int a = -angular; a <= angular; ++a) {
    if (full) {
      // Only offsets at which some point meets a known cell can beat the
      // score of unknown space.
      const auto placed = Placed(query, a * step, 0., 0.);
      best = std::max(best, ScoreOf(map, {Vector2d(1e5, 1e5)}, true).lo);
      for (const auto& cell : map.cells) {
        for (const Vector2d& p : placed) {
          const int ix = std::floor((map.max.y() - p.y()) / map.resolution);
          const int iy = std::floor((map.max.x() - p.x()) / map.resolution);
          best = std::max(best,
                          ScoreOf(map,
                                  Placed(query, a * step, -(cell.first.second - iy) * map.resolution,
                                         -(cell.first.first - ix) * map.resolution),
                                  true)
                              .lo);
        }
      }
    } else {
      for (int x = -linear; x <= linear; ++x) {
        for (int y = -linear; y <= linear; ++y) {
          best = std::max(
              best,
              ScoreOf(map, Placed(query, a * step, x * map.resolution, y * map.resolution), true)
                  .lo);
          mc::step();
        }
      }
    }
  }
  const double quantum = (map.tsdf ? 2. * map.truncation : 0.8) / 255. * 0.51 + 1e-4;
  // The answer must be the same for every depth of the search tree.
  for (int depth = 1; depth <= max_depth; ++depth) {
    scan_matching::proto::FastCorrelativeScanMatcherOptions2D options;
    options.set_linear_search_window(query.linear_window);
    options.set_angular_search_window(query.angular_window);
    options.set_branch_and_bound_depth(depth);
    const FastCorrelativeScanMatcher2D matcher(*map.real, options);
    for (const double min_score : {0.01, best - 3. * quantum, best + 3. * quantum}) {
      float score = -7.f;
      transform::Rigid2d pose({77., 78.}, 0.5);
      const bool found = full ? matcher.MatchFullSubmap(query.cloud, min_score, &score, &pose)
                              : matcher.Match(query.initial, query.cloud, min_score, &score, &pose);
      mc::step();
      MC_LOG("depth " << depth << " min score " << min_score << " best " << best << " -> " << found
                      << " score " << score << " pose " << pose);
      if (!found) {
        MC_CHECK(best <= min_score + quantum,
                 "no match found although the score " << best << " is possible");
        MC_CHECK(score == -7.f && pose.translation().x() == 77., "output without a match");
        continue;
      }
      double angle, dx, dy;
      Interval at;
      CheckPose(map, query, pose, linear, angular, step, true, &angle, &dx, &dy, &at);
      MC_CHECK(score > min_score, "the score must be above the minimum");
      MC_CHECK(score >= at.lo - quantum && score <= at.hi + quantum,
               "score " << score << ", but the pose has " << at.lo);
      MC_CHECK(score >= best - 2 * quantum,
               "score " << score << ", but " << best << " is possible");
    }
  }
  mc::sample("map " + std::to_string(size.first) + "x" + std::to_string(size.second) + ", best " +
             std::to_string(best));
}

void RealTime(const std::vector<std::pair<int, int>>& sizes, int values, bool tsdf, int num_clouds,
              int num_poses) {
  const auto size = mc::pick(sizes);
  std::vector<int> content;
  for (int i = 0; i < size.first * size.second; ++i) content.push_back(mc::choose(values));
  const Map map = MakeMap(tsdf, size.first, size.second, content);
  Query query;
  SetPoints(&query, Clouds()[mc::choose(num_clouds)]);
  query.initial = Poses()[mc::choose(num_poses)];
  query.linear_window = mc::pick<double>({0.3, 0.7});
  query.angular_window = mc::pick<double>({0., 0.35});
  const double translation_weight = mc::pick<double>({0., 0.8});
  const double rotation_weight = mc::pick<double>({0., 1.1});
  const double step = AngularStep(query, map.resolution);
  const int angular = std::ceil(query.angular_window / step);
  const int linear = std::ceil(query.linear_window / map.resolution);
  const auto penalty = [&](double dx, double dy, double angle) {
    const double d = std::hypot(dx, dy) * translation_weight + std::abs(angle) * rotation_weight;
    return std::exp(-d * d);
  };
  double best = -1e9;
  for (int a = -angular; a <= angular; ++a) {
    for (int x = -linear; x <= linear; ++x) {
      for (int y = -linear; y <= linear; ++y) {
        const double dx = x * map.resolution, dy = y * map.resolution;
        best = std::max(best, ScoreOf(map, Placed(query, a * step, dx, dy), false).lo *
                                  penalty(dx, dy, a * step));
        mc::step();
      }
    }
  }
  scan_matching::proto::RealTimeCorrelativeScanMatcherOptions options;
  options.set_linear_search_window(query.linear_window);
  options.set_angular_search_window(query.angular_window);
  options.set_translation_delta_cost_weight(translation_weight);
  options.set_rotation_delta_cost_weight(rotation_weight);
  const RealTimeCorrelativeScanMatcher2D matcher(options);
  transform::Rigid2d pose({77., 78.}, 0.5);
  const double score = matcher.Match(query.initial, query.cloud, *map.real, &pose);
  MC_LOG("best " << best << " -> score " << score << " pose " << pose);
  double angle, dx, dy;
  Interval at;
  CheckPose(map, query, pose, linear, angular, step, false, &angle, &dx, &dy, &at);
  const double factor = penalty(dx, dy, angle);
  MC_CHECK(score >= at.lo * factor - 1e-3 && score <= at.hi * factor + 1e-3,
           "score " << score << ", but the pose has " << at.lo * factor);
  MC_CHECK(score >= best - 1e-3, "score " << score << ", but " << best << " is possible");
}

}  // namespace

int main(int argc, char** argv) {
  using Sizes = std::vector<std::pair<int, int>>;
  const Sizes quick_sizes = {{1, 1}, {3, 1}, {1, 3}, {2, 2}, {3, 2}, {2, 4}, {3, 3}, {5, 2}};
  std::vector<mc::Scenario> scenarios;
#ifdef CHECK_REAL_TIME
  scenarios.push_back({"probability", [=] { RealTime({{1, 1}, {3, 1}, {2, 2}}, 4, false, 5, 4); }, 1,
                       UINT64_MAX, "all maps of 1x1, 3x1, 2x2 cells with 4 values, 5 clouds, 4 poses, 16 options"});
  scenarios.push_back({"probability_2x3", [=] { RealTime({{3, 2}, {2, 3}}, 3, false, 5, 5); }, 2,
                       UINT64_MAX, "all maps of 3x2 and 2x3 cells with 3 values, 5 clouds, 5 poses, 16 options"});
  scenarios.push_back({"tsdf", [=] { RealTime({{1, 1}, {3, 1}, {2, 2}}, 3, true, 5, 4); }, 3,
                       UINT64_MAX, "all TSDFs of 1x1, 3x1, 2x2 cells with 3 values, 5 clouds, 4 poses, 16 options"});
#else
  scenarios.push_back({"probability", [=] { Fast(quick_sizes, 2, false, 5, 5, 5, false); }, 3,
                       UINT64_MAX,
                       "all maps of up to 2x4, 3x3 and 5x2 cells with 2 values, 5 clouds, 5 poses, 6 windows, depths 1-5"});
  scenarios.push_back({"values", [=] { Fast({{1, 1}, {2, 1}, {2, 2}}, 4, false, 5, 5, 3, false); },
                       3, UINT64_MAX,
                       "all maps of up to 2x2 cells with 4 values, 5 clouds, 5 poses, 6 windows, depths 1-3"});
  scenarios.push_back({"tsdf", [=] { Fast({{1, 1}, {2, 1}, {2, 2}}, 3, true, 5, 4, 3, false); }, 3,
                       UINT64_MAX,
                       "all TSDFs of up to 2x2 cells with 3 values, 5 clouds, 4 poses, 6 windows, depths 1-3"});
  scenarios.push_back({"full_submap", [=] { Fast(quick_sizes, 2, false, 5, 1, 6, true); }, 3,
                       UINT64_MAX,
                       "full submap search: all maps of up to 2x4, 3x3 and 5x2 cells, 5 clouds, depths 1-6"});
  scenarios.push_back({"large", [=] { Fast({{4, 3}, {6, 2}}, 2, false, 5, 5, 6, false); },
                       2, UINT64_MAX,
                       "all maps of 4x3, 6x2 cells with 2 values, 5 clouds, 5 poses, 6 windows, depths 1-6"});
  scenarios.push_back({"full_submap_large", [=] { Fast({{4, 3}}, 2, false, 5, 1, 6, true); },
                       2, UINT64_MAX, "full submap search: all maps of 4x3 cells, 5 clouds, depths 1-6"});
#endif
  return mc::Main(argc, argv, scenarios,
                  {"exhaustive enumeration on the real code, compared with brute force scoring",
                   {"scores are compared within the resolution of the 8 bit precomputation grids"}});
}
