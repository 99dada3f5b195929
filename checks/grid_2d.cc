// 2D grids: every bounded history of growing, setting, updating and finishing,
// compared cell by cell (by position in the world) with a sparse model; then
// cropping, serialization and drawing.
#include <cmath>
#include <map>
#include <set>
#include <vector>

#include "cartographer/common/port.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer::mapping;
namespace transform = cartographer::transform;

// World cells: (i, j) covers [i, i+1) x [j, j+1) in units of the resolution.
using World = std::pair<int, int>;

struct Frame {
  double resolution;
  Eigen::Vector2f Center(const World& w) const {
    return Eigen::Vector2f((w.first + 0.5) * resolution, (w.second + 0.5) * resolution);
  }
  // Slightly off the centre, as real data are.
  Eigen::Vector2f Point(const World& w) const {
    return Eigen::Vector2f((w.first + 0.3) * resolution, (w.second + 0.8) * resolution);
  }
};

World WorldOf(const MapLimits& limits, const Eigen::Array2i& index) {
  const double x = limits.max().x() / limits.resolution() - index.y() - 0.5;
  const double y = limits.max().y() / limits.resolution() - index.x() - 0.5;
  return {static_cast<int>(std::floor(x)), static_cast<int>(std::floor(y))};
}

bool Inside(const MapLimits& limits, const World& w) {
  const double max_x = std::round(limits.max().x() / limits.resolution());
  const double max_y = std::round(limits.max().y() / limits.resolution());
  return w.first < max_x && w.second < max_y &&
         w.first >= max_x - limits.cell_limits().num_y_cells &&
         w.second >= max_y - limits.cell_limits().num_x_cells;
}

double Odds(double p) { return p / (1. - p); }
double FromOdds(double o) { return o / (1. + o); }

struct Box {
  int min_x = INT32_MAX, max_x = INT32_MIN, min_y = INT32_MAX, max_y = INT32_MIN;
  void Add(const World& w) {
    min_x = std::min(min_x, w.first);
    max_x = std::max(max_x, w.first);
    min_y = std::min(min_y, w.second);
    max_y = std::max(max_y, w.second);
  }
};

void CheckTexture(const Grid2D& grid, const Frame& frame, const std::set<World>& known,
                  const std::function<void(const World&, int value, int alpha)>& cell) {
  proto::SubmapQuery::Response::SubmapTexture texture;
  const transform::Rigid3d local_pose(
      Eigen::Vector3d(0.4, -0.7, 0.),
      Eigen::Quaterniond(Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitZ())));
  MC_CHECK(grid.DrawToSubmapTexture(&texture, local_pose), "not drawn");
  std::string cells;
  cartographer::common::FastGunzipString(texture.cells(), &cells);
  MC_CHECK(cells.size() == 2u * texture.width() * texture.height(), "texture size");
  MC_CHECK(texture.resolution() == frame.resolution, "texture resolution");
  const transform::Rigid3d slice = local_pose * transform::ToRigid3(texture.slice_pose());
  std::set<World> drawn;
  for (int row = 0; row < texture.height(); ++row) {
    for (int column = 0; column < texture.width(); ++column) {
      const size_t i = 2 * (row * texture.width() + column);
      const int value = static_cast<uint8_t>(cells[i]);
      const int alpha = static_cast<uint8_t>(cells[i + 1]);
      // Texture rows follow decreasing x, columns decreasing y.
      const double x = slice.translation().x() / frame.resolution - row - 0.5;
      const double y = slice.translation().y() / frame.resolution - column - 0.5;
      const World w(static_cast<int>(std::floor(x)), static_cast<int>(std::floor(y)));
      if (value != 0 || alpha != 0) {
        drawn.insert(w);
        if (known.count(w)) cell(w, value, alpha);
      }
    }
  }
  MC_CHECK(drawn == known, "the texture shows " << drawn.size() << " known cells, there are "
                                                << known.size()
                                                << " (or elsewhere)");
}

void CheckCroppedLimits(const Grid2D& cropped, const std::set<World>& known,
                        const Frame& frame) {
  if (known.empty()) {
    MC_CHECK(cropped.limits().cell_limits().num_x_cells >= 1, "empty limits");
    return;
  }
  Box box;
  for (const World& w : known) box.Add(w);
  const auto& limits = cropped.limits();
  MC_CHECK(limits.resolution() == frame.resolution, "resolution changed by cropping");
  for (const World& w : known) MC_CHECK(Inside(limits, w), "known cell cropped away");
  MC_CHECK(limits.cell_limits().num_y_cells == box.max_x - box.min_x + 1 &&
               limits.cell_limits().num_x_cells == box.max_y - box.min_y + 1,
           "cropped to " << limits.cell_limits().num_x_cells << "x"
                         << limits.cell_limits().num_y_cells << " cells");
}

ValueConversionTables* Tables() {
  static auto* const tables = new ValueConversionTables;
  return tables;
}

const std::vector<std::vector<World>> kTargets = {
    {{0, 0}, {1, 1}, {2, 0}, {-1, 3}},
    {{0, 0}, {0, 1}, {4, 0}, {-5, -2}},
    {{1, 0}, {0, 0}, {0, -4}, {6, 6}},
    {{2, 1}, {0, 0}, {-3, 0}, {0, 5}}};

MapLimits StartLimits(const Frame& frame, int shape) {
  switch (shape) {
    case 0:
      return MapLimits(frame.resolution, frame.resolution * Eigen::Vector2d(3, 2),
                       CellLimits(2, 3));
    case 1:
      return MapLimits(frame.resolution, frame.resolution * Eigen::Vector2d(1, 1),
                       CellLimits(1, 1));
    default:
      return MapLimits(frame.resolution, frame.resolution * Eigen::Vector2d(3, 4),
                       CellLimits(5, 3));
  }
}

// --------------------------------------------------- probability grid ----

void CheckProbabilities(const ProbabilityGrid& grid, const std::map<World, double>& model,
                        const Frame& frame, const std::vector<World>& extra) {
  const MapLimits& limits = grid.limits();
  size_t known = 0;
  for (const Eigen::Array2i& index : XYIndexRangeIterator(limits.cell_limits())) {
    const World w = WorldOf(limits, index);
    const auto it = model.find(w);
    MC_CHECK(grid.IsKnown(index) == (it != model.end()),
             "cell (" << w.first << ", " << w.second << ") known: " << grid.IsKnown(index));
    const Eigen::Vector2f center = limits.GetCellCenter(index);
    MC_CHECK((center - frame.Center(w)).norm() < 1e-3 * frame.resolution, "cell centre");
    MC_CHECK((limits.GetCellIndex(center) == index).all(), "cell index of its own centre");
    const double p = grid.GetProbability(index);
    const double want = it != model.end() ? it->second : kMinProbability;
    MC_CHECK(std::abs(p - want) < 3e-4,
             "probability of (" << w.first << ", " << w.second << ") is " << p
                                << ", expected " << want);
    MC_CHECK(std::abs(grid.GetCorrespondenceCost(index) - (1. - p)) < 1e-5,
             "correspondence cost and probability disagree");
    known += grid.IsKnown(index);
  }
  MC_CHECK(known == model.size(), "known cells outside of the limits");
  for (const World& w : extra) {
    const Eigen::Array2i index = limits.GetCellIndex(frame.Point(w));
    MC_CHECK(WorldOf(limits, index) == w, "cell index of a point");
    const bool inside = Inside(limits, w);
    MC_CHECK(limits.Contains(index) == inside, "Contains");
    if (!inside) {
      MC_CHECK(!grid.IsKnown(index), "cell outside is known");
      MC_CHECK(grid.GetProbability(index) == kMinProbability, "probability outside");
      MC_CHECK(grid.GetCorrespondenceCost(index) == kMaxCorrespondenceCost, "cost outside");
    }
  }
}

void SameCells(const Grid2D& a, const Grid2D& b, const std::vector<World>& cells,
               const Frame& frame) {
  for (const World& w : cells) {
    const auto ia = a.limits().GetCellIndex(frame.Center(w));
    const auto ib = b.limits().GetCellIndex(frame.Center(w));
    MC_CHECK(a.IsKnown(ia) == b.IsKnown(ib), "known differs at " << w.first << ", " << w.second);
    if (!a.IsKnown(ia)) continue;
    MC_CHECK(a.GetCorrespondenceCost(ia) == b.GetCorrespondenceCost(ib),
             "cost differs at " << w.first << ", " << w.second << ": "
                                << a.GetCorrespondenceCost(ia) << " vs. "
                                << b.GetCorrespondenceCost(ib));
  }
}

struct Tables2 {
  std::vector<uint16_t> table;
  double odds;
};

void Probability(int depth, int num_shapes, const std::vector<double>& resolutions) {
  const Frame frame{mc::pick(resolutions)};
  const std::vector<World>& cells = mc::pick(kTargets);
  ProbabilityGrid grid(StartLimits(frame, mc::choose(num_shapes)), Tables());
  static const std::vector<Tables2>* const tables = new std::vector<Tables2>{
      {ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.7)), Odds(0.7)},
      {ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(0.4)), Odds(0.4)}};
  std::map<World, double> model;
  std::set<World> updated;
  for (int d = 0; d < depth; ++d) {
    struct Op {
      int kind, cell;
    };
    std::vector<Op> ops;
    for (int c = 0; c < static_cast<int>(cells.size()); ++c) {
      if (!Inside(grid.limits(), cells[c])) {
        if (updated.empty()) ops.push_back({0, c});
        continue;
      }
      ops.push_back({1, c});
      ops.push_back({2, c});
      if (!model.count(cells[c])) ops.push_back({3, c});
    }
    if (!updated.empty()) ops.push_back({4, 0});
    if (ops.empty()) break;
    const Op op = ops[mc::choose(ops.size())];
    mc::step();
    const World w = cells[op.cell];
    switch (op.kind) {
      case 0:
        MC_LOG("grow to (" << w.first << ", " << w.second << ")");
        grid.GrowLimits(frame.Point(w));
        MC_CHECK(Inside(grid.limits(), w), "not contained after growing");
        break;
      case 1:
      case 2: {
        MC_LOG((op.kind == 1 ? "hit (" : "miss (") << w.first << ", " << w.second << ")");
        const Tables2& table = (*tables)[op.kind - 1];
        const bool done = grid.ApplyLookupTable(grid.limits().GetCellIndex(frame.Point(w)),
                                                table.table);
        const bool first = updated.insert(w).second;
        MC_CHECK(done == first, "update of a cell " << (done ? "repeated" : "refused"));
        if (first) {
          const double p = model.count(w) ? FromOdds(table.odds * Odds(model[w]))
                                          : FromOdds(table.odds);
          model[w] = std::min(0.9, std::max(0.1, p));
        }
        break;
      }
      case 3:
        MC_LOG("set (" << w.first << ", " << w.second << ")");
        model[w] = 0.15 + 0.2 * op.cell;
        grid.SetProbability(grid.limits().GetCellIndex(frame.Point(w)), model[w]);
        break;
      case 4:
        MC_LOG("finish update");
        grid.FinishUpdate();
        updated.clear();
        break;
    }
    CheckProbabilities(grid, model, frame, cells);
    uint64_t h = mc::Hash(grid.limits().cell_limits().num_x_cells, updated.size());
    for (const auto& m : model) h = mc::Hash(mc::Hash(h, m.first.first), m.second * 1e4);
    mc::visit(h);
  }
  grid.FinishUpdate();
  CheckProbabilities(grid, model, frame, cells);
  std::set<World> known;
  for (const auto& m : model) known.insert(m.first);
  // Serialization keeps everything, of the grid and its cropped version.
  const ProbabilityGrid again(grid.ToProto(), Tables());
  CheckProbabilities(again, model, frame, cells);
  SameCells(grid, again, cells, frame);
  const auto cropped = grid.ComputeCroppedGrid();
  MC_CHECK(cropped->GetGridType() == GridType::PROBABILITY_GRID, "type");
  CheckCroppedLimits(*cropped, known, frame);
  CheckProbabilities(static_cast<const ProbabilityGrid&>(*cropped), model, frame, cells);
  SameCells(grid, *cropped, cells, frame);
  const auto twice = again.ComputeCroppedGrid();
  CheckCroppedLimits(*twice, known, frame);
  SameCells(grid, *twice, cells, frame);
  const ProbabilityGrid cropped_again(cropped->ToProto(), Tables());
  CheckProbabilities(cropped_again, model, frame, cells);
  CheckCroppedLimits(*cropped_again.ComputeCroppedGrid(), known, frame);
  for (const Grid2D* g : std::vector<const Grid2D*>{&grid, cropped.get(), &cropped_again}) {
    CheckTexture(*g, frame, known, [&](const World& w, int value, int alpha) {
      const double p = model[w];
      const double log_odds = std::log(Odds(p)), max = std::log(Odds(0.9));
      const double delta = 127. - (log_odds + max) * 254. / (2. * max);
      const double shown = value ? value : alpha == 1 && std::abs(delta) < 1.6 ? 0 : -alpha;
      MC_CHECK(std::abs(shown - delta) < 1.7, "cell drawn as " << value << "/" << alpha
                                                               << " for probability " << p);
    });
  }
}

// ---------------------------------------------------------------- TSDF ----

struct Tsd {
  double tsd, weight;
};

void CheckTsdf(const TSDF2D& grid, const std::map<World, Tsd>& model, const Frame& frame,
               const std::vector<World>& extra, double truncation, double max_weight,
               const std::set<World>& updated) {
  const MapLimits& limits = grid.limits();
  size_t known = 0;
  for (const Eigen::Array2i& index : XYIndexRangeIterator(limits.cell_limits())) {
    const World w = WorldOf(limits, index);
    const auto it = model.find(w);
    MC_CHECK(grid.IsKnown(index) == (it != model.end()),
             "cell (" << w.first << ", " << w.second << ") known: " << grid.IsKnown(index));
    MC_CHECK(grid.CellIsUpdated(index) == (updated.count(w) != 0), "CellIsUpdated");
    const double tsd = grid.GetTSD(index), weight = grid.GetWeight(index);
    const auto both = grid.GetTSDAndWeight(index);
    MC_CHECK(both.first == grid.GetTSD(index) && both.second == grid.GetWeight(index),
             "GetTSDAndWeight");
    if (it != model.end()) {
      MC_CHECK(std::abs(tsd - it->second.tsd) < truncation * 1e-4,
               "tsd of (" << w.first << ", " << w.second << ") is " << tsd << ", expected "
                          << it->second.tsd);
      MC_CHECK(std::abs(weight - it->second.weight) < max_weight * 1e-4,
               "weight is " << weight << ", expected " << it->second.weight);
      MC_CHECK(std::abs(grid.GetCorrespondenceCost(index) - tsd) < truncation * 1e-4,
               "cost differs from the tsd");
      ++known;
    } else {
      MC_CHECK(weight == 0., "weight of an unknown cell is " << weight);
      MC_CHECK(std::abs(std::abs(tsd) - truncation) < truncation * 1e-4,
               "tsd of an unknown cell is " << tsd);
      MC_CHECK(std::abs(grid.GetCorrespondenceCost(index) - truncation) < truncation * 1e-4,
               "cost of an unknown cell");
    }
  }
  MC_CHECK(known == model.size(), "known cells outside of the limits");
  for (const World& w : extra) {
    if (Inside(limits, w)) continue;
    const Eigen::Array2i index = limits.GetCellIndex(frame.Point(w));
    MC_CHECK(!grid.IsKnown(index) && grid.GetWeight(index) == 0.f, "cell outside");
    MC_CHECK(std::abs(std::abs(grid.GetTSD(index)) - truncation) < 1e-4, "tsd outside");
    MC_CHECK(grid.GetTSDAndWeight(index).second == 0.f, "weight outside");
  }
}

void Tsdf(int depth, int num_shapes) {
  const Frame frame{mc::pick<double>({1., 0.05})};
  const std::vector<World>& cells = mc::pick(kTargets);
  const double truncation = mc::pick<double>({0.3, 2.}), max_weight = 10.;
  TSDF2D grid(StartLimits(frame, mc::choose(num_shapes)), truncation, max_weight, Tables());
  std::map<World, Tsd> model;
  std::set<World> updated;
  for (int d = 0; d < depth; ++d) {
    struct Op {
      int kind, cell;
    };
    std::vector<Op> ops;
    for (int c = 0; c < static_cast<int>(cells.size()); ++c) {
      if (!Inside(grid.limits(), cells[c])) {
        if (updated.empty()) ops.push_back({0, c});
      } else {
        for (int v = 1; v <= 3; ++v) ops.push_back({v, c});
      }
    }
    if (!updated.empty()) ops.push_back({4, 0});
    if (ops.empty()) break;
    const Op op = ops[mc::choose(ops.size())];
    mc::step();
    const World w = cells[op.cell];
    if (op.kind == 0) {
      MC_LOG("grow to (" << w.first << ", " << w.second << ")");
      grid.GrowLimits(frame.Point(w));
      MC_CHECK(Inside(grid.limits(), w), "not contained after growing");
    } else if (op.kind == 4) {
      MC_LOG("finish update");
      grid.FinishUpdate();
      updated.clear();
    } else {
      const Tsd kValues[] = {{-0.7 * truncation, 1.5}, {0.2 * truncation, 9.}, {3. * truncation, 40.}};
      const Tsd v = kValues[op.kind - 1];
      MC_LOG("set (" << w.first << ", " << w.second << ") to " << v.tsd);
      grid.SetCell(grid.limits().GetCellIndex(frame.Point(w)), v.tsd, v.weight);
      if (updated.insert(w).second) {
        model[w] = {std::min(v.tsd, truncation), std::min(v.weight, max_weight)};
      }
    }
    CheckTsdf(grid, model, frame, cells, truncation, max_weight, updated);
    uint64_t h = mc::Hash(grid.limits().cell_limits().num_x_cells, updated.size());
    for (const auto& m : model) h = mc::Hash(mc::Hash(h, m.first.first), m.second.tsd * 1e4);
    mc::visit(h);
  }
  grid.FinishUpdate();
  std::set<World> known;
  for (const auto& m : model) known.insert(m.first);
  const std::set<World> none;
  const TSDF2D again(grid.ToProto(), Tables());
  CheckTsdf(again, model, frame, cells, truncation, max_weight, none);
  SameCells(grid, again, cells, frame);
  const auto cropped = grid.ComputeCroppedGrid();
  MC_CHECK(cropped->GetGridType() == GridType::TSDF, "type");
  CheckCroppedLimits(*cropped, known, frame);
  CheckTsdf(static_cast<const TSDF2D&>(*cropped), model, frame, cells, truncation, max_weight,
            none);
  SameCells(grid, *cropped, cells, frame);
  const TSDF2D cropped_again(cropped->ToProto(), Tables());
  CheckTsdf(cropped_again, model, frame, cells, truncation, max_weight, none);
  CheckCroppedLimits(*cropped_again.ComputeCroppedGrid(), known, frame);
  for (const Grid2D* g : std::vector<const Grid2D*>{&grid, cropped.get(), &cropped_again}) {
    CheckTexture(*g, frame, known, [](const World&, int, int) {});
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "explicit enumeration of operation histories on the real grids, compared "
      "with a sparse world model after every step";
  return mc::Main(
      argc, argv,
      {{"probability", [] { Probability(5, 2, {0.05}); }, 1, UINT64_MAX,
        "5 operations over 4 sets of 4 cells, 2 initial shapes"},
       {"probability_shapes", [] { Probability(4, 3, {1., 0.1}); }, 1, UINT64_MAX,
        "4 operations over 4 sets of 4 cells, 3 initial shapes, 2 resolutions"},
       {"tsdf", [] { Tsdf(4, 3); }, 1, UINT64_MAX,
        "4 operations over 4 sets of 4 cells, 3 initial shapes, 2 resolutions"},
       {"probability_deep", [] { Probability(6, 3, {1., 0.05}); }, 2, UINT64_MAX, "6 operations"},
       {"tsdf_deep", [] { Tsdf(5, 3); }, 2, UINT64_MAX, "5 operations"}},
      config);
}
