// Hybrid grids: all bounded histories of updates against a sparse model, and
// all small scans inserted into them.
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <vector>

#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/probability_values.h"
#include "mc.h"

namespace {

using namespace cartographer::mapping;
namespace sensor = cartographer::sensor;
using Cell = std::array<int, 3>;

Eigen::Array3i Index(const Cell& c) { return {c[0], c[1], c[2]}; }
Cell ToCell(const Eigen::Array3i& i) { return {i.x(), i.y(), i.z()}; }
std::string Str(const Cell& c) {
  return "(" + std::to_string(c[0]) + ", " + std::to_string(c[1]) + ", " +
         std::to_string(c[2]) + ")";
}

double Odds(double p) { return p / (1. - p); }
double FromOdds(double o) { return o / (1. + o); }
double Clamped(double p) { return std::min(0.9, std::max(0.1, p)); }

void CheckGrid(const HybridGrid& grid, const std::map<Cell, double>& model,
               const std::vector<Cell>& probes, bool finished) {
  std::map<Cell, uint16_t> seen;
  for (const auto item : grid) {
    MC_CHECK(seen.emplace(ToCell(item.first), item.second).second,
             "iteration visits a cell twice");
    if (finished) MC_CHECK(item.second < kUpdateMarker, "marker left after the update");
  }
  int n = 0;
  for (auto it = HybridGrid::Iterator(grid); !it.Done(); it.Next()) {
    ++n;
    MC_CHECK(seen.count(ToCell(it.GetCellIndex())), "iterators disagree");
    MC_CHECK(it.GetValue() == grid.value(it.GetCellIndex()), "value of the iterator");
  }
  MC_CHECK(n == static_cast<int>(seen.size()), "iterators disagree");
  MC_CHECK(seen.size() == model.size(), seen.size() << " known cells iterated, expected "
                                                    << model.size());
  for (const auto& m : model) {
    MC_CHECK(seen.count(m.first), "cell " << Str(m.first) << " not iterated");
    MC_CHECK(grid.IsKnown(Index(m.first)), "cell " << Str(m.first) << " forgotten");
    const double p = grid.GetProbability(Index(m.first));
    MC_CHECK(std::abs(p - m.second) < 3e-4, "probability of " << Str(m.first) << " is " << p
                                                              << ", expected " << m.second);
  }
  for (const Cell& c : probes) {
    if (model.count(c)) continue;
    MC_CHECK(!grid.IsKnown(Index(c)), "cell " << Str(c) << " is known");
    MC_CHECK(std::abs(grid.GetProbability(Index(c)) - kMinProbability) < 1e-6,
             "probability of an unknown cell");
  }
}

struct Update {
  std::vector<uint16_t> table;
  double odds;
};
const std::vector<Update>& Updates() {
  static const auto* const updates = new std::vector<Update>{
      {ComputeLookupTableToApplyOdds(Odds(0.7)), Odds(0.7)},
      {ComputeLookupTableToApplyOdds(Odds(0.4)), Odds(0.4)}};
  return *updates;
}

void Histories(const std::vector<std::vector<Cell>>& sets, int depth) {
  const std::vector<Cell>& cells = mc::pick(sets);
  auto grid = std::make_unique<HybridGrid>(0.1f);
  std::map<Cell, double> model;
  std::set<Cell> updated;
  std::vector<Cell> probes = cells;
  for (const Cell& c : cells) {
    for (int i = 0; i < 3; ++i) {
      for (int d : {-1, 1, 8, -8, 64, -64}) {
        Cell p = c;
        p[i] += d;
        probes.push_back(p);
      }
      Cell mirrored = c;
      mirrored[i] = -mirrored[i];
      probes.push_back(mirrored);
    }
  }
  for (int d = 0; d < depth; ++d) {
    const int ops = 3 * cells.size() + !updated.empty();
    const int op = mc::choose(ops);
    mc::step();
    if (op == ops - 1 && !updated.empty()) {
      MC_LOG("finish update");
      grid->FinishUpdate();
      updated.clear();
    } else {
      const Cell& c = cells[op / 3];
      if (op % 3 == 2) {
        // Setting a probability in the middle of an update is not allowed for
        // an updated cell.
        if (updated.count(c)) mc::prune();
        MC_LOG("set " << Str(c));
        model[c] = 0.2 + 0.1 * (op / 3);
        grid->SetProbability(Index(c), model[c]);
      } else {
        const Update& u = Updates()[op % 3];
        MC_LOG((op % 3 ? "miss " : "hit ") << Str(c));
        const bool done = grid->ApplyLookupTable(Index(c), u.table);
        const bool first = updated.insert(c).second;
        MC_CHECK(done == first, "update of a cell " << (done ? "repeated" : "refused"));
        if (first) {
          model[c] = Clamped(FromOdds(model.count(c) ? u.odds * Odds(model[c]) : u.odds));
        }
      }
    }
    CheckGrid(*grid, model, probes, updated.empty());
    uint64_t h = updated.size();
    for (const auto& m : model) h = mc::Hash(mc::Hash(h, m.first[0]), m.second * 1e4);
    mc::visit(h);
  }
  grid->FinishUpdate();
  CheckGrid(*grid, model, probes, true);
  const HybridGrid again(grid->ToProto());
  CheckGrid(again, model, probes, true);
  MC_CHECK(again.resolution() == grid->resolution(), "resolution lost");
  for (const auto& m : model) {
    MC_CHECK(grid->value(Index(m.first)) == again.value(Index(m.first)),
             "value of " << Str(m.first) << " changed by the proto round trip");
  }
  HybridGrid moved(std::move(*grid));
  grid.reset();
  CheckGrid(moved, model, probes, true);
}

// Cell geometry.
void Geometry() {
  const float resolution = mc::pick<float>({1.f, 0.1f, 0.45f, 2.f});
  const HybridGrid grid(resolution);
  const Cell c = {mc::pick<int>({0, 1, -1, 7, -64, 200}), mc::pick<int>({0, -1, 8, 63, -300}),
                  mc::pick<int>({0, 2, -3, 500})};
  const Eigen::Vector3f center = grid.GetCenterOfCell(Index(c));
  for (int i = 0; i < 3; ++i) {
    MC_CHECK(std::abs(center[i] - c[i] * static_cast<double>(resolution)) < 1e-3 * resolution,
             "centre of the cell");
  }
  for (int i = 0; i < 27; ++i) {
    mc::step();
    const Eigen::Vector3f offset(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1);
    MC_CHECK(ToCell(grid.GetCellIndex(center + 0.45f * resolution * offset)) == c,
             "a point within cell " << Str(c) << " is attributed to another one");
  }
}

// ---------------------------------------------------------- insertion ----

struct Scan {
  Eigen::Vector3d origin;
  std::vector<Eigen::Vector3d> returns;
};

void Insertion(const std::vector<Eigen::Vector3d>& ends, int num_scans, int max_returns,
               const std::vector<int>& free_voxels, bool with_intensities) {
  const double r = mc::pick<double>({1., 0.1});
  const int free = mc::pick(free_voxels);
  const float threshold = 40.f;
  proto::RangeDataInserterOptions3D options;
  const auto odds = mc::pick<std::pair<double, double>>({{0.55, 0.49}, {0.8, 0.3}});
  options.set_hit_probability(odds.first);
  options.set_miss_probability(odds.second);
  options.set_num_free_space_voxels(free);
  options.set_intensity_threshold(threshold);
  static std::map<std::string, std::unique_ptr<RangeDataInserter3D>>* const inserters =
      new std::map<std::string, std::unique_ptr<RangeDataInserter3D>>;
  auto& inserter = (*inserters)[options.SerializeAsString()];
  if (!inserter) inserter = std::make_unique<RangeDataInserter3D>(options);
  HybridGrid grid(r);
  IntensityHybridGrid intensity_grid(r);
  std::map<Cell, std::pair<double, int>> intensity_model;
  std::map<Cell, float> before;
  for (int s = 0; s < num_scans; ++s) {
    Scan scan;
    scan.origin = mc::pick<Eigen::Vector3d>({{0.1, 0.2, -0.1}, {3.3, -1.2, 0.4}}) * r;
    const int n = mc::choose(max_returns + 1);
    sensor::RangeData data;
    data.origin = scan.origin.cast<float>();
    std::vector<sensor::RangefinderPoint> points;
    std::vector<float> intensities;
    const auto cell_of = [&](const Eigen::Vector3d& p) {
      return Cell{static_cast<int>(std::lround(p.x() / r)), static_cast<int>(std::lround(p.y() / r)),
                  static_cast<int>(std::lround(p.z() / r))};
    };
    for (int i = 0; i < n; ++i) {
      scan.returns.push_back(ends[mc::choose(ends.size())] * r);
      points.push_back({scan.returns.back().cast<float>()});
      if (with_intensities) {
        intensities.push_back(mc::pick<float>({10.f, 40.f, 60.f}));
        if (intensities.back() <= threshold) {
          auto& m = intensity_model[cell_of(scan.returns.back())];
          m.first += intensities.back();
          m.second += 1;
        }
      }
    }
    data.returns = with_intensities ? sensor::PointCloud(points, intensities)
                                    : sensor::PointCloud(points);
    mc::step();
    const bool use_intensity = with_intensities || mc::flip();
    inserter->Insert(data, &grid, use_intensity ? &intensity_grid : nullptr);

    std::map<Cell, float> after;
    for (const auto item : grid) {
      MC_CHECK(item.second < kUpdateMarker, "marker left after the insertion");
      after[ToCell(item.first)] = grid.GetProbability(item.first);
    }
    const auto update_of = [&](const Cell& c, double probability) {
      const auto a = after.find(c);
      if (a == after.end()) return false;
      const auto b = before.find(c);
      const double want = b == before.end()
                              ? probability
                              : Clamped(FromOdds(Odds(probability) * Odds(b->second)));
      return std::abs(a->second - want) < 1e-4;
    };
    std::set<Cell> hits;
    for (const auto& p : scan.returns) hits.insert(cell_of(p));
    for (const Cell& c : hits) {
      MC_CHECK(update_of(c, odds.first), "the hit in " << Str(c) << " is not applied once");
    }
    // Free space: one voxel per step of the dominant axis, for the last 'free'
    // steps in front of each return.
    std::set<Cell> explained = hits;
    const Cell o = cell_of(scan.origin);
    for (const Cell& h : hits) {
      int steps = 0;
      for (int i = 0; i < 3; ++i) steps = std::max(steps, std::abs(h[i] - o[i]));
      for (int k = std::max(0, steps - free); k < steps; ++k) {
        Eigen::Vector3d exact;
        for (int i = 0; i < 3; ++i) exact[i] = o[i] + (h[i] - o[i]) * double(k) / steps;
        bool found = false;
        // All cells within one cell of the exact position (the dominant axis
        // is exact by construction).
        for (int dx = 0; dx < 8; ++dx) {
          const Cell c = {static_cast<int>(dx & 1 ? std::ceil(exact.x() - 1e-9) : std::floor(exact.x() + 1e-9)),
                          static_cast<int>(dx & 2 ? std::ceil(exact.y() - 1e-9) : std::floor(exact.y() + 1e-9)),
                          static_cast<int>(dx & 4 ? std::ceil(exact.z() - 1e-9) : std::floor(exact.z() + 1e-9))};
          explained.insert(c);
          if (hits.count(c) || update_of(c, odds.second)) found = true;
        }
        MC_CHECK(found, "no free space is recorded near " << exact.transpose()
                                                          << " in front of " << Str(h));
      }
    }
    for (const auto& a : after) {
      const auto b = before.find(a.first);
      const bool unchanged = b != before.end() && b->second == a.second;
      if (hits.count(a.first) || unchanged) continue;
      MC_CHECK(explained.count(a.first), "cell " << Str(a.first) << " changed without a ray");
      MC_CHECK(update_of(a.first, odds.second), "cell " << Str(a.first)
                                                        << " is not updated by one miss");
    }
    for (const auto& b : before) {
      MC_CHECK(after.count(b.first), "cell " << Str(b.first) << " was forgotten");
    }
    before = after;
    for (const auto& a : after) {
      if (intensity_model.count(a.first)) continue;
      MC_CHECK(intensity_grid.GetIntensity(Index(a.first)) == 0.f,
               "intensity of " << Str(a.first) << " out of nowhere");
    }
    for (const auto& m : intensity_model) {
      MC_CHECK(std::abs(intensity_grid.GetIntensity(Index(m.first)) -
                        m.second.first / m.second.second) < 1e-3,
               "intensity of " << Str(m.first));
    }
  }
}

const std::vector<std::vector<Cell>> kSets = {
    {{0, 0, 0}, {7, -8, 8}, {-1, 0, 0}, {63, -64, 10}},
    {{64, 0, 0}, {0, 1, -1}, {-65, 3, 2}},
    {{5, 6, 7}, {0, 200, 0}, {7, 6, 5}, {-5, -6, -7}},
    {{-64, -64, -64}, {63, 63, 63}, {0, 0, -129}}};
const std::vector<std::vector<Cell>> kFar = {{{0, 0, 0}, {8191, 0, 0}},
                                             {{1, 0, 0}, {0, -8192, 5}},
                                             {{1, 2, 3}, {0, 0, 4096}}};
const std::vector<Eigen::Vector3d> kEnds = {{0.2, 0.1, 0.3},  {5.2, 0.3, 0.1},  {-3.8, 2.2, 1.1},
                                            {0.3, 4.2, -6.7}, {2.1, 2.2, 2.3},  {3.9, -1.3, 0.4},
                                            {-4.4, -4.3, 4.2}, {9.2, 8.8, -0.3}};
const std::vector<Eigen::Vector3d> kFewEnds = {{5.2, 0.3, 0.1}, {-3.8, 2.2, 1.1}, {2.1, 2.2, 2.3}, {4.1, 0.3, 0.2}};

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all bounded histories / small scans on the real grids, "
      "compared with a sparse model";
#ifdef CHECK_INSERTION
  return mc::Main(
      argc, argv,
      {{"one_scan", [] { Insertion(kEnds, 1, 3, {0, 1, 2, 5, 100}, false); }, 1, UINT64_MAX,
        "1 scan of up to 3 returns over 8 positions, 20 configurations"},
       {"two_scans", [] { Insertion(kEnds, 2, 2, {0, 2, 100}, false); }, 1, UINT64_MAX,
        "2 scans of up to 2 returns over 8 positions, 12 configurations"},
       {"intensities", [] { Insertion(kFewEnds, 2, 2, {2}, true); }, 1, UINT64_MAX,
        "2 scans of up to 2 returns with 3 intensities"},
       {"three_scans", [] { Insertion(kFewEnds, 3, 2, {0, 2, 5, 100}, false); }, 2, UINT64_MAX,
        "3 scans of up to 2 returns over 4 positions, 16 configurations"},
       {"one_scan_deep", [] { Insertion(kEnds, 1, 4, {0, 1, 2, 5, 100}, false); }, 2, UINT64_MAX,
        "1 scan of up to 4 returns over 8 positions, 20 configurations"}},
      config);
#else
  return mc::Main(
      argc, argv,
      {{"histories", [] { Histories(kSets, 5); }, 1, UINT64_MAX,
        "5 operations over 4 sets of cells across block boundaries"},
       {"geometry", [] { Geometry(); }, 3, UINT64_MAX, "4 resolutions, 120 cells, 27 points"},
       {"far", [] { Histories(kFar, 2); }, 3, UINT64_MAX,
        "2 operations, out to the documented limit of 8192 cells"},
       {"histories_deep", [] { Histories(kSets, 6); }, 2, UINT64_MAX,
        "6 operations over 4 sets of cells across block boundaries"}},
      config);
#endif
}
