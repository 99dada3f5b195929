// Inserting range data into 2D grids: all small scans over a lattice of
// positions, each cell's change compared with plane geometry.
#include <cmath>
#include <map>
#include <set>
#include <vector>

#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "mc.h"

namespace {

using namespace cartographer::mapping;
namespace sensor = cartographer::sensor;
using World = std::pair<int, int>;
using Eigen::Vector2d;

ValueConversionTables* Tables() {
  static auto* const tables = new ValueConversionTables;
  return tables;
}

// Length of the part of the segment a-b which lies in the axis-aligned square
// around 'center' with the given half edge; negative if there is none.
double Chord(const Vector2d& a, const Vector2d& b, const Vector2d& center, double half) {
  double t0 = 0., t1 = 1.;
  for (int i = 0; i < 2; ++i) {
    const double d = b[i] - a[i];
    const double lo = center[i] - half - a[i], hi = center[i] + half - a[i];
    if (std::abs(d) < 1e-12) {
      if (lo > 0. || hi < 0.) return -1.;
      continue;
    }
    t0 = std::max(t0, std::min(lo / d, hi / d));
    t1 = std::min(t1, std::max(lo / d, hi / d));
  }
  if (t0 > t1) return -1.;
  return (t1 - t0) * (b - a).norm();
}

enum class Crossed { kNo, kMaybe, kYes };
// With a tolerance of a hundredth of a cell.
Crossed Crosses(const Vector2d& a, const Vector2d& b, const Vector2d& center,
                double resolution) {
  if (Chord(a, b, center, 0.51 * resolution) < 0.) return Crossed::kNo;
  if (Chord(a, b, center, 0.49 * resolution) >= 0.) return Crossed::kYes;
  return Crossed::kMaybe;
}

// ------------------------------------------------------- pixel masks ----

// All pairs of subpixel positions; a pixel belongs to the mask if and only if
// its interior meets the segment between the subpixel centres (exact integer
// arithmetic).
void Masks(int scale, int pixels) {
  const int n = scale * pixels;
  const int bx = mc::choose(n), by = mc::choose(n);
  for (int ex = 0; ex < n; ++ex) {
    for (int ey = 0; ey < n; ++ey) {
      mc::step();
      std::set<World> got;
      for (const auto& p :
           RayToPixelMask(Eigen::Array2i(bx, by), Eigen::Array2i(ex, ey), scale)) {
        got.insert({p.x(), p.y()});
      }
      // Doubled coordinates: centres are odd, pixel borders multiples of 2*scale.
      const int64_t ax = 2 * bx + 1, ay = 2 * by + 1, dx = 2 * (ex - bx), dy = 2 * (ey - by);
      std::set<World> want;
      for (int px = 0; px < pixels; ++px) {
        for (int py = 0; py < pixels; ++py) {
          // Largest interval (t0, t1) of [0, 1] in the open pixel, as
          // fractions over a common denominator.
          const int64_t den = std::max<int64_t>(1, std::abs(dx)) * std::max<int64_t>(1, std::abs(dy));
          int64_t t0 = 0, t1 = den;
          bool empty = false;
          const auto clip = [&](int64_t a, int64_t d, int64_t lo, int64_t hi) {
            if (d == 0) {
              if (a <= lo || a >= hi) empty = true;
              return;
            }
            int64_t f = (lo - a) * (den / std::abs(d)) * (d > 0 ? 1 : -1);
            int64_t g = (hi - a) * (den / std::abs(d)) * (d > 0 ? 1 : -1);
            if (f > g) std::swap(f, g);
            t0 = std::max(t0, f);
            t1 = std::min(t1, g);
          };
          clip(ax, dx, 2 * scale * px, 2 * scale * (px + 1));
          clip(ay, dy, 2 * scale * py, 2 * scale * (py + 1));
          if (!empty && (t0 < t1)) want.insert({px, py});
        }
      }
      if (got != want) {
        std::ostringstream os;
        for (const auto& w : got) {
          if (!want.count(w)) os << " extra (" << w.first << "," << w.second << ")";
        }
        for (const auto& w : want) {
          if (!got.count(w)) os << " missing (" << w.first << "," << w.second << ")";
        }
        mc::fail("ray (" + std::to_string(bx) + "," + std::to_string(by) + ")-(" +
                 std::to_string(ex) + "," + std::to_string(ey) + ") at scale " +
                 std::to_string(scale) + ":" + os.str());
      }
    }
  }
}

// Long rays as in real submaps, at the real subpixel scale.
void LongMasks() {
  static const int kScale = 1000;
  const std::vector<int> kPositions = {0,     999,    1000,   1500,   20001,  49999,
                                       50000, 123456, 499500, 777777, 1600000};
  const Eigen::Array2i begin(mc::pick(kPositions), mc::pick(kPositions));
  const Eigen::Array2i end(mc::pick(kPositions), mc::pick(kPositions));
  mc::step();
  const auto mask = RayToPixelMask(begin, end, kScale);
  std::set<World> got;
  for (const auto& p : mask) got.insert({p.x(), p.y()});
  const Vector2d a = (begin.cast<double>().matrix() + Vector2d(0.5, 0.5)) / kScale;
  const Vector2d b = (end.cast<double>().matrix() + Vector2d(0.5, 0.5)) / kScale;
  for (const auto& w : got) {
    MC_CHECK(Chord(a, b, Vector2d(w.first + 0.5, w.second + 0.5), 0.5 + 1e-6) >= 0.,
             "pixel (" << w.first << ", " << w.second << ") is not on the ray");
  }
  MC_CHECK(got.count({begin.x() / kScale, begin.y() / kScale}), "begin missing");
  MC_CHECK(got.count({end.x() / kScale, end.y() / kScale}), "end missing");
  // Sample the segment densely enough to notice any pixel it passes.
  const int steps = 4 * static_cast<int>((b - a).norm()) + 4;
  for (int i = 0; i <= steps; ++i) {
    const Vector2d p = a + (b - a) * i / steps;
    const World w(static_cast<int>(std::floor(p.x())), static_cast<int>(std::floor(p.y())));
    if (Chord(a, b, Vector2d(w.first + 0.5, w.second + 0.5), 0.5 - 1e-6) < 1e-5) continue;
    MC_CHECK(got.count(w), "pixel (" << w.first << ", " << w.second << ") is missing");
  }
}

// ------------------------------------------------------ range data ----

// World cell (i, j) has its centre at ((i + 0.5) r, (j + 0.5) r).
struct Snapshot {
  std::map<World, std::pair<float, float>> cells;  // only known ones
};

template <typename Grid, typename Get>
Snapshot Take(const Grid& grid, const Get& get) {
  Snapshot s;
  const MapLimits& limits = grid.limits();
  for (const Eigen::Array2i& index : XYIndexRangeIterator(limits.cell_limits())) {
    if (!grid.IsKnown(index)) continue;
    const Eigen::Vector2f c = limits.GetCellCenter(index);
    s.cells[{static_cast<int>(std::floor(c.x() / limits.resolution())),
             static_cast<int>(std::floor(c.y() / limits.resolution()))}] = get(grid, index);
  }
  return s;
}

std::pair<float, float> GetProbability(const ProbabilityGrid& g, const Eigen::Array2i& i) {
  return {g.GetProbability(i), 0.f};
}

double Bayes(double p, double odds) {
  const double o = p / (1. - p) * odds;
  return std::min(0.9, std::max(0.1, o / (1. + o)));
}

struct Scan {
  Vector2d origin;
  std::vector<Vector2d> returns, misses;
};

sensor::RangeData ToRangeData(const Scan& scan) {
  sensor::RangeData data;
  data.origin = Eigen::Vector3f(scan.origin.x(), scan.origin.y(), 0.1f);
  for (const auto& p : scan.returns) {
    data.returns.push_back({Eigen::Vector3f(p.x(), p.y(), 0.1f)});
  }
  for (const auto& p : scan.misses) {
    data.misses.push_back({Eigen::Vector3f(p.x(), p.y(), 0.1f)});
  }
  return data;
}

void CheckInsertion(const Snapshot& before, const Snapshot& after, const Scan& scan, double r,
                    double hit_odds, double miss_odds, bool free_space) {
  std::set<World> all;
  for (const auto& c : before.cells) all.insert(c.first);
  for (const auto& c : after.cells) all.insert(c.first);
  int reach = 2;
  for (const auto& p : scan.returns) reach = std::max<int>(reach, (p / r).lpNorm<1>() + 2);
  for (const auto& p : scan.misses) reach = std::max<int>(reach, (p / r).lpNorm<1>() + 2);
  for (int i = -reach; i <= reach; ++i) {
    for (int j = -reach; j <= reach; ++j) all.insert({i, j});
  }
  // A return right on the border between cells may count for either.
  std::vector<bool> return_seen(scan.returns.size(), false);
  for (const World& w : all) {
    const auto b = before.cells.find(w), a = after.cells.find(w);
    const Vector2d center((w.first + 0.5) * r, (w.second + 0.5) * r);
    Crossed crossed = Crossed::kNo;
    if (free_space) {
      for (const auto* ends : {&scan.returns, &scan.misses}) {
        for (const auto& p : *ends) crossed = std::max(crossed, Crosses(scan.origin, p, center, r));
      }
    }
    bool hit = false, maybe_hit = false;
    for (const auto& p : scan.returns) {
      const double distance = (p - center).lpNorm<Eigen::Infinity>();
      hit = hit || distance < 0.49 * r;
      maybe_hit = maybe_hit || distance < 0.51 * r;
    }
    const auto updated = [&](double odds) {
      if (a == after.cells.end()) return false;
      const double want = b == before.cells.end() ? odds / (1. + odds) : Bayes(b->second.first, odds);
      return std::abs(a->second.first - want) < 1e-4;
    };
    const auto unchanged = [&] {
      return b == before.cells.end() ? a == after.cells.end()
                                     : a != after.cells.end() && a->second == b->second;
    };
    std::ostringstream os;
    os << "cell (" << w.first << ", " << w.second << ") went from "
       << (b == before.cells.end() ? std::string("unknown") : std::to_string(b->second.first))
       << " to "
       << (a == after.cells.end() ? std::string("unknown") : std::to_string(a->second.first));
    if (maybe_hit && updated(hit_odds)) {
      for (size_t i = 0; i < scan.returns.size(); ++i) {
        if ((scan.returns[i] - center).lpNorm<Eigen::Infinity>() < 0.51 * r) {
          return_seen[i] = true;
        }
      }
      continue;
    }
    if (hit) {
      MC_CHECK(updated(hit_odds), os.str() << " although it contains a hit");
    } else if (crossed == Crossed::kYes) {
      MC_CHECK(updated(miss_odds), os.str() << " although a ray crosses it");
    } else if (crossed == Crossed::kMaybe) {
      MC_CHECK(updated(miss_odds) || unchanged(), os.str() << " at the edge of a ray");
    } else {
      MC_CHECK(unchanged(), os.str() << " although no ray meets it");
    }
  }
  for (size_t i = 0; i < scan.returns.size(); ++i) {
    MC_CHECK(return_seen[i], "the return at " << scan.returns[i].transpose()
                                              << " left no hit");
  }
}

// On the borders of cells and of the initial grid, which ends at -2 and 3.
const std::vector<Vector2d> kBorders = {{3., 0.4}, {0.4, 3.}, {3., 3.}, {-2., 0.4}, {0.4, -2.},
                                        {-2., -2.}, {1., 1.}, {0., 2.}, {-2., 3.}, {8., 0.}, {-7., -7.}};

// In cells; kept off the borders.
const std::vector<Vector2d> kEnds = {{0.3, 0.4},  {2.6, 0.3},  {-1.7, 0.45}, {0.35, 3.3},
                                     {0.3, -2.6}, {2.3, 2.4},  {-2.3, 1.6},  {-1.4, -3.7},
                                     {3.7, -1.3}, {6.6, 2.2},  {-7.3, -0.6}, {0.6, 8.7}};
const std::vector<Vector2d> kFewEnds = {{0.3, 0.4}, {2.6, 0.3}, {2.3, 2.4}, {-1.7, 0.45}, {0.3, -2.6}, {6.6, 2.2}};

Scan ChooseScan(const std::vector<Vector2d>& ends, int max_returns, int max_misses, double r) {
  Scan scan;
  scan.origin = mc::pick<Vector2d>({{0.3, 0.4}, {1.45, -0.7}}) * r;
  const int n = mc::choose(max_returns + 1), m = mc::choose(max_misses + 1);
  // Order matters little; combinations with repetition keep this small.
  int from = 0;
  for (int i = 0; i < n; ++i) {
    from += mc::choose(ends.size() - from);
    scan.returns.push_back(ends[from] * r);
  }
  from = 0;
  for (int i = 0; i < m; ++i) {
    from += mc::choose(ends.size() - from);
    scan.misses.push_back(ends[from] * r);
  }
  if (mc::flip()) std::reverse(scan.returns.begin(), scan.returns.end());
  return scan;
}

void Insert(const std::vector<Vector2d>& ends, int num_scans, int max_returns, int max_misses,
            const std::vector<double>& resolutions) {
  const double r = mc::pick(resolutions);
  struct Inserter {
    std::unique_ptr<ProbabilityGridRangeDataInserter2D> inserter;
    double hit, miss;
    bool free_space;
  };
  static const auto* const inserters = [] {
    auto* result = new std::vector<Inserter>;
    for (const auto& p : std::vector<std::pair<double, double>>{{0.7, 0.4}, {0.55, 0.49}}) {
      for (bool free_space : {true, false}) {
        proto::ProbabilityGridRangeDataInserterOptions2D options;
        options.set_hit_probability(p.first);
        options.set_miss_probability(p.second);
        options.set_insert_free_space(free_space);
        result->push_back({std::make_unique<ProbabilityGridRangeDataInserter2D>(options),
                           p.first / (1. - p.first), p.second / (1. - p.second), free_space});
      }
    }
    return result;
  }();
  const Inserter& inserter = (*inserters)[mc::choose(inserters->size())];
  ProbabilityGrid grid(MapLimits(r, r * Vector2d(3, 3), CellLimits(5, 5)), Tables());
  Snapshot before;
  for (int i = 0; i < num_scans; ++i) {
    const Scan scan = ChooseScan(ends, max_returns, max_misses, r);
    mc::step();
    MC_LOG("scan from " << scan.origin.transpose() << " with " << scan.returns.size()
                        << " returns, " << scan.misses.size() << " misses");
    inserter.inserter->Insert(ToRangeData(scan), &grid);
    const Snapshot after = Take(grid, GetProbability);
    CheckInsertion(before, after, scan, r, inserter.hit, inserter.miss, inserter.free_space);
    before = after;
  }
}

// ---------------------------------------------------------------- TSDF ----

std::pair<float, float> GetTsd(const TSDF2D& g, const Eigen::Array2i& i) {
  return g.GetTSDAndWeight(i);
}

double Gauss(double x, double sigma) {
  return std::exp(-0.5 * x * x / (sigma * sigma)) / (std::sqrt(2. * M_PI) * sigma);
}

struct TsdfConfig {
  double truncation, max_weight;
  bool free_space, project;
  int exponent;
  double angle, distance;
};

// Normal of return i: the mean of the normals to its neighbors in the order of
// the angle, up to 2 on either side and within the radius.
double Normal(const Scan& scan, size_t i, double radius) {
  const Vector2d p = scan.returns[i];
  const Vector2d to_origin = scan.origin - p;
  std::map<double, Vector2d> sorted;
  const auto angle = [&](const Vector2d& q) {
    return std::atan2(q.y() - scan.origin.y(), q.x() - scan.origin.x());
  };
  for (const Vector2d& q : scan.returns) sorted[angle(q)] = q;
  if (sorted.size() != scan.returns.size()) mc::prune();
  std::vector<Vector2d> neighbors;
  auto it = sorted.find(angle(p));
  for (int k = 0; k != 2 && it != sorted.begin(); ++k) {
    --it;
    if ((it->second - p).norm() >= radius) break;
    neighbors.push_back(it->second);
  }
  it = std::next(sorted.find(angle(p)));
  for (int k = 0; k != 2 && it != sorted.end(); ++k, ++it) {
    if ((it->second - p).norm() >= radius) break;
    neighbors.push_back(it->second);
  }
  if (neighbors.empty()) return std::atan2(to_origin.y(), to_origin.x());
  Vector2d mean(0., 0.);
  for (const Vector2d& q : neighbors) {
    Vector2d n(q.y() - p.y(), p.x() - q.x());
    if (n.dot(to_origin) < 0.) n = -n;
    mean += n.normalized();
  }
  return std::atan2(mean.y(), mean.x());
}

void CheckTsdf(const Snapshot& before, const Snapshot& after, const Scan& scan, double r,
               const TsdfConfig& c, double radius) {
  std::set<World> all;
  for (const auto& x : before.cells) all.insert(x.first);
  for (const auto& x : after.cells) all.insert(x.first);
  for (int i = -6; i <= 6; ++i) {
    for (int j = -6; j <= 6; ++j) all.insert({i, j});
  }
  for (const World& w : all) {
    const auto b = before.cells.find(w), a = after.cells.find(w);
    const Vector2d center((w.first + 0.5) * r, (w.second + 0.5) * r);
    const bool unchanged = b == before.cells.end()
                               ? a == after.cells.end()
                               : a != after.cells.end() && a->second == b->second;
    bool must = false, may = false, explained = false;
    std::ostringstream expectations;
    for (size_t i = 0; i < scan.returns.size(); ++i) {
      const Vector2d hit = scan.returns[i];
      const Vector2d ray = hit - scan.origin;
      const double range = ray.norm();
      if (range < c.truncation) continue;
      const Vector2d direction = ray / range;
      const Vector2d begin = c.free_space ? scan.origin : hit - c.truncation * direction;
      const Vector2d end = hit + c.truncation * direction;
      const Crossed crossed = Crosses(begin, end, center, r);
      if (crossed == Crossed::kNo) continue;
      may = true;
      const double normal = Normal(scan, i, radius);
      double tsd = range - (center - scan.origin).norm();
      if (c.project) tsd = (center - hit).dot(Vector2d(std::cos(normal), std::sin(normal)));
      tsd = std::min(c.truncation, std::max(-c.truncation, tsd));
      double weight = 1.;
      if (c.exponent != 0) weight /= std::pow(range, c.exponent);
      if (c.angle != 0.) {
        const double a2 = std::remainder(normal - std::atan2(-ray.y(), -ray.x()), 2. * M_PI);
        weight *= Gauss(a2, c.angle);
      }
      if (c.distance != 0.) weight *= Gauss(tsd, c.distance);
      const double w0 = b == before.cells.end() ? 0. : b->second.second;
      const double t0 = b == before.cells.end() ? 0. : b->second.first;
      const double want_tsd = (t0 * w0 + tsd * weight) / (w0 + weight);
      const double want_weight = std::min(w0 + weight, c.max_weight);
      // The quantised weight of a cell may be tiny.
      if (crossed == Crossed::kYes && weight > 1e-9) must = true;
      expectations << " (" << want_tsd << ", " << want_weight << ")";
      if (a != after.cells.end() && std::abs(a->second.first - want_tsd) < 2e-4 * c.truncation &&
          std::abs(a->second.second - want_weight) < 1e-4 * c.max_weight) {
        explained = true;
      }
    }
    std::ostringstream os;
    os << "cell (" << w.first << ", " << w.second << ") went from ";
    if (b == before.cells.end()) os << "unknown"; else os << b->second.first << "/" << b->second.second;
    os << " to ";
    if (a == after.cells.end()) os << "unknown"; else os << a->second.first << "/" << a->second.second;
    if (must) {
      MC_CHECK(explained, os.str() << ", rays would give" << expectations.str());
    } else if (may) {
      MC_CHECK(explained || unchanged, os.str() << ", rays would give" << expectations.str());
    } else {
      MC_CHECK(unchanged, os.str() << " although no ray meets it");
    }
  }
}

const std::vector<Vector2d> kTsdfEnds = {{2.6, 0.3}, {2.8, 1.35}, {-1.7, 0.45}, {0.35, 3.3}, {0.3, -2.6},
                                         {2.3, 2.4}, {-2.3, 1.6}, {4.7, -1.3}, {0.8, 0.4}};

// Surfaces in all directions.
const std::vector<Vector2d> kTsdfRing = {{3.3, 0.9}, {3.1, -0.6}, {2.9, -1.9}, {1.6, -3.2}, {-0.9, -3.},
                                         {-2.2, -2.1}, {-3., -0.9}, {-2.9, 1.1}, {-1.6, 2.6}, {0.6, 3.1}, {1.9, 2.3}};

void InsertTsdf(int num_scans, int max_returns, const std::vector<Vector2d>& ends) {
  const double r = mc::pick<double>({1., 0.1});
  TsdfConfig c;
  c.truncation = mc::pick<double>({1.3, 2.1}) * r;
  c.max_weight = mc::pick<double>({10., 1.5});
  c.free_space = mc::flip();
  c.project = mc::flip();
  const int weighting = mc::choose(4);
  c.exponent = weighting == 1 ? 2 : 0;
  c.angle = weighting == 2 ? 0.5 : 0.;
  c.distance = weighting == 3 ? 0.5 * r : 0.;
  const double radius = 2.5 * r;
  proto::TSDFRangeDataInserterOptions2D options;
  options.set_truncation_distance(c.truncation);
  options.set_maximum_weight(c.max_weight);
  options.set_update_free_space(c.free_space);
  options.set_project_sdf_distance_to_scan_normal(c.project);
  options.set_update_weight_range_exponent(c.exponent);
  options.set_update_weight_angle_scan_normal_to_ray_kernel_bandwidth(c.angle);
  options.set_update_weight_distance_cell_to_hit_kernel_bandwidth(c.distance);
  options.mutable_normal_estimation_options()->set_num_normal_samples(4);
  options.mutable_normal_estimation_options()->set_sample_radius(radius);
  const TSDFRangeDataInserter2D inserter(options);
  TSDF2D grid(MapLimits(r, r * Vector2d(3, 3), CellLimits(5, 5)), c.truncation, c.max_weight,
              Tables());
  Snapshot before;
  for (int i = 0; i < num_scans; ++i) {
    Scan scan;
    scan.origin = mc::pick<Vector2d>({{0.3, 0.4}, {1.45, -0.7}}) * r;
    const int n = 1 + mc::choose(max_returns);
    for (int k = 0; k < n; ++k) {
      const Vector2d p = ends[mc::choose(ends.size())] * r;
      for (const Vector2d& q : scan.returns) {
        if ((p - q).norm() == 0.) mc::prune();
      }
      // At exactly the truncation distance, either is right.
      if (std::abs((p - scan.origin).norm() - c.truncation) < 1e-4) mc::prune();
      scan.returns.push_back(p);
    }
    mc::step();
    MC_LOG("scan from " << scan.origin.transpose() << " with " << n << " returns");
    inserter.Insert(ToRangeData(scan), &grid);
    const Snapshot after = Take(grid, GetTsd);
    CheckTsdf(before, after, scan, r, c, radius);
    before = after;
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all small scans on the real inserters, each cell judged by "
      "exact plane geometry";
#ifdef CHECK_TSDF
  return mc::Main(
      argc, argv,
      {{"one_scan", [] { InsertTsdf(1, 2, kTsdfEnds); }, 1, UINT64_MAX,
        "1 scan of 1-2 returns over 9 positions, 128 configurations"},
       {"two_scans", [] { InsertTsdf(2, 1, kTsdfEnds); }, 1, UINT64_MAX,
        "2 scans of 1 return over 9 positions, 128 configurations"},
       {"ring", [] { InsertTsdf(1, 3, kTsdfRing); }, 1, UINT64_MAX,
        "1 scan of 1-3 returns over 11 positions in all directions, 128 configurations"},
       {"two_scans_deep", [] { InsertTsdf(2, 2, kTsdfEnds); }, 2, UINT64_MAX,
        "2 scans of 1-2 returns over 9 positions, 128 configurations"}},
      config);
#else
  return mc::Main(
      argc, argv,
      {{"pixel_masks", [] { Masks(3, 5); }, 3, UINT64_MAX,
        "all pairs of subpixels of 5x5 pixels at scale 3"},
       {"pixel_masks_fine", [] { Masks(7, 3); }, 3, UINT64_MAX,
        "all pairs of subpixels of 3x3 pixels at scale 7"},
       {"pixel_masks_even", [] { Masks(4, 4); }, 3, UINT64_MAX,
        "all pairs of subpixels of 4x4 pixels at scale 4"},
       {"long_masks", [] { LongMasks(); }, 3, UINT64_MAX,
        "11^4 rays of up to 1600 pixels at scale 1000"},
       {"one_scan", [] { Insert(kEnds, 1, 3, 1, {1., 0.05}); }, 1, UINT64_MAX,
        "1 scan of up to 3 returns and 1 miss over 12 positions, 4 configurations"},
       {"misses", [] { Insert(kEnds, 1, 1, 2, {0.1}); }, 1, UINT64_MAX,
        "1 scan of up to 1 return and 2 misses over 12 positions, 4 configurations"},
       {"borders", [] { Insert(kBorders, 1, 2, 1, {1., 0.05, 0.1}); }, 1, UINT64_MAX,
        "1 scan of up to 2 returns and 1 miss over 11 positions on borders"},
       {"two_scans", [] { Insert(kFewEnds, 2, 1, 1, {0.1}); }, 1, UINT64_MAX,
        "2 scans of up to 1 return and 1 miss over 6 positions, 4 configurations"},
       {"two_scans_deep", [] { Insert(kFewEnds, 2, 2, 1, {0.1}); }, 2, UINT64_MAX,
        "2 scans of up to 2 returns and 1 miss over 6 positions, 4 configurations"},
       {"three_scans", [] { Insert(kFewEnds, 3, 1, 1, {1.}); }, 2, UINT64_MAX,
        "3 scans of up to 1 return and 1 miss over 6 positions"},
       {"one_scan_deep", [] { Insert(kEnds, 1, 4, 2, {1., 0.05}); }, 2, UINT64_MAX,
        "1 scan of up to 4 returns and 2 misses over 12 positions, 4 configurations"},
       {"pixel_masks_deep", [] { Masks(5, 7); }, 2, UINT64_MAX,
        "all pairs of subpixels of 7x7 pixels at scale 5"}},
      config);
#endif
}
