// Trimmers: exactly the submaps which are not needed are trimmed.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using mapping::MapById;
using mapping::NodeId;
using mapping::PoseGraphInterface;
using mapping::SubmapId;
using mapping::TrajectoryNode;
using Cell = std::pair<int, int>;

// What a pose graph offers to a trimmer.
class Graph : public mapping::Trimmable {
 public:
  int num_submaps(const int trajectory_id) const override {
    return submaps.SizeOfTrajectoryOrZero(trajectory_id);
  }
  std::vector<SubmapId> GetSubmapIds(const int trajectory_id) const override {
    std::vector<SubmapId> result;
    for (const auto& s : submaps.trajectory(trajectory_id)) result.push_back(s.id);
    return result;
  }
  MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override {
    return submaps;
  }
  const MapById<NodeId, TrajectoryNode>& GetTrajectoryNodes() const override { return nodes; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override {
    return constraints;
  }
  void TrimSubmap(const SubmapId& id) override {
    MC_CHECK(submaps.Contains(id), "there is no submap " << id << " to trim");
    submaps.Trim(id);
    trimmed.insert(id);
  }
  bool IsFinished(const int trajectory_id) const override { return finished.count(trajectory_id); }
  void SetTrajectoryState(const int trajectory_id,
                          const PoseGraphInterface::TrajectoryState state) override {
    states.emplace_back(trajectory_id, state);
  }

  MapById<SubmapId, PoseGraphInterface::SubmapData> submaps;
  MapById<NodeId, TrajectoryNode> nodes;
  std::vector<PoseGraphInterface::Constraint> constraints;
  std::set<SubmapId> trimmed;
  std::set<int> finished;
  std::vector<std::pair<int, PoseGraphInterface::TrajectoryState>> states;
};

// A submap in the model: the cells it covers in the world, by when.
struct Coverage {
  std::set<Cell> cells;
  int time = -1;  // no range data known
  bool finished = true;
};

constexpr int kSize = 3;

mapping::ValueConversionTables* tables() {
  static auto* const t = new mapping::ValueConversionTables;
  return t;
}

// 'known' lists the known cells of a size x size grid. The submap lies in the
// local frame at 'local', a number of cells; in the world it is rotated by
// 'quarters' and moved by 'shift' cells (and a bit, which does not matter).
std::shared_ptr<const mapping::Submap2D> MakeSubmap(const int size, const std::vector<Cell>& known,
                                                    const Cell& local, const double resolution,
                                                    const bool finished) {
  mapping::proto::Submap2D proto;
  proto.set_num_range_data(1);
  proto.set_finished(finished);
  *proto.mutable_local_pose() = transform::ToProto(transform::Rigid3d::Translation(
      Eigen::Vector3d(local.first * resolution, local.second * resolution, 0.)));
  auto* const grid = proto.mutable_grid();
  for (int i = 0; i != size * size; ++i) grid->add_cells(0);
  int box[4] = {size, size, -1, -1};
  for (const Cell& c : known) {
    grid->set_cells(c.second * size + c.first, 12345);
    box[0] = std::min(box[0], c.first);
    box[1] = std::min(box[1], c.second);
    box[2] = std::max(box[2], c.first);
    box[3] = std::max(box[3], c.second);
  }
  if (!known.empty()) {
    grid->mutable_known_cells_box()->set_min_x(box[0]);
    grid->mutable_known_cells_box()->set_min_y(box[1]);
    grid->mutable_known_cells_box()->set_max_x(box[2]);
    grid->mutable_known_cells_box()->set_max_y(box[3]);
  }
  auto* const limits = grid->mutable_limits();
  limits->set_resolution(resolution);
  *limits->mutable_max() = transform::ToProto(Eigen::Vector2d(
      (local.first + size) * resolution, (local.second + size) * resolution));
  limits->mutable_cell_limits()->set_num_x_cells(size);
  limits->mutable_cell_limits()->set_num_y_cells(size);
  grid->mutable_probability_grid_2d();
  return std::make_shared<const mapping::Submap2D>(proto, tables());
}

// The cell of the world in which the given cell lies: the x index of a cell
// counts along negative y, from the maximum, and vice versa.
Cell ToWorld(const int size, const Cell& cell, const int quarters, const Cell& shift) {
  // Twice the center of the cell, relative to the submap.
  int x = 2 * (size - cell.second) - 1;
  int y = 2 * (size - cell.first) - 1;
  for (int i = 0; i != quarters; ++i) {
    const int t = x;
    x = -y;
    y = t;
  }
  // Both are odd.
  return {(x - 1) / 2 + shift.first, (y - 1) / 2 + shift.second};
}

class World {
 public:
  World(const double resolution, const int fresh, const int min_cells, const int min_added)
      : resolution_(resolution),
        fresh_(fresh),
        min_cells_(min_cells),
        min_added_(min_added),
        trimmer_(fresh, (min_cells + 1e-3) * resolution * resolution, min_added) {}

  void Add(const SubmapId& id, const int size, const std::vector<Cell>& known, const Cell& local,
           const int quarters, const Cell& shift, const bool exact, const bool finished) {
    MC_LOG("add " << id << " with " << known.size() << " cells, local " << local.first << " "
                  << local.second << ", " << quarters << " quarters, shift " << shift.first << " "
                  << shift.second << (exact ? "" : " and a bit") << (finished ? "" : ", unfinished"));
    Coverage c;
    for (const Cell& cell : known) c.cells.insert(ToWorld(size, cell, quarters, shift));
    c.finished = finished;
    model_[id] = c;
    graph_.submaps.Insert(
        id, PoseGraphInterface::SubmapData{
                MakeSubmap(size, known, local, resolution_, finished),
                transform::Embed3D(transform::Rigid2d(
                    Eigen::Vector2d((shift.first + (exact ? 0. : 0.2)) * resolution_,
                                    (shift.second - (exact ? 0. : 0.15)) * resolution_),
                    quarters * M_PI / 2.))});
  }
  void AddNode(const NodeId& id, const int time) {
    TrajectoryNode::Data data;
    data.time = common::FromUniversal(1000 + time);
    graph_.nodes.Insert(id, {std::make_shared<const TrajectoryNode::Data>(data), {}});
    node_times_[id] = time;
  }
  void Inserted(const SubmapId& id, const NodeId& node) {
    graph_.constraints.push_back({id, node, {}, PoseGraphInterface::Constraint::INTRA_SUBMAP});
    model_[id].time = std::max(model_[id].time, node_times_.at(node));
  }
  void Matched(const SubmapId& id, const NodeId& node) {
    graph_.constraints.push_back({id, node, {}, PoseGraphInterface::Constraint::INTER_SUBMAP});
  }
  // Someone else removes it.
  void Delete(const SubmapId& id) {
    MC_LOG("delete " << id);
    graph_.submaps.Trim(id);
    model_.erase(id);
    deleted_ = true;
  }
  bool Contains(const SubmapId& id) const { return model_.count(id); }
  size_t size() const { return model_.size(); }
  const std::map<SubmapId, Coverage>& model() const { return model_; }

  void Trim() {
    std::map<Cell, std::vector<std::pair<int, SubmapId>>> coverage;
    for (const auto& s : model_) {
      if (s.second.time < 0 || !s.second.finished) continue;
      for (const Cell& cell : s.second.cells) coverage[cell].emplace_back(-s.second.time, s.first);
    }
    std::map<SubmapId, int> needed;
    for (auto& cell : coverage) {
      std::sort(cell.second.begin(), cell.second.end());
      for (int i = 0; i < fresh_ && i < static_cast<int>(cell.second.size()); ++i) {
        ++needed[cell.second[i].second];
      }
    }
    std::set<SubmapId> expected;
    for (const auto& s : model_) {
      if (s.second.time < 0 || !s.second.finished) continue;
      // Without anything to be seen it is never needed.
      if (needed[s.first] < min_cells_ || needed[s.first] == 0) expected.insert(s.first);
    }
    // If others deleted submaps it is open how many count as added.
    const bool due = static_cast<int>(model_.size()) > count_ + min_added_;
    graph_.trimmed.clear();
    MC_LOG("trim " << (due ? "(due)" : "(not due)"));
    trimmer_.Trim(&graph_);
    const auto& trimmed = graph_.trimmed;
    if (!due && !deleted_) {
      MC_CHECK(trimmed.empty(), "trimmed although too few submaps were added");
    } else if (due || !trimmed.empty()) {
      for (const auto& s : model_) {
        MC_CHECK(trimmed.count(s.first) == expected.count(s.first),
                 "submap " << s.first << " was " << (trimmed.count(s.first) ? "" : "not ")
                           << "trimmed, it is needed for " << needed[s.first] << " cells");
      }
    }
    for (const SubmapId& id : trimmed) model_.erase(id);
    if (due) {
      count_ = model_.size();
      deleted_ = false;
    } else if (deleted_) {
      count_ = std::max<int>(count_, model_.size());
    }
    MC_CHECK(!trimmer_.IsFinished(), "it never finishes");
    mc::step();
  }

 private:
  const double resolution_;
  const int fresh_, min_cells_, min_added_;
  mapping::OverlappingSubmapsTrimmer2D trimmer_;
  Graph graph_;
  std::map<SubmapId, Coverage> model_;
  std::map<NodeId, int> node_times_;
  int count_ = 0;
  bool deleted_ = false;
};

std::vector<Cell> Shape(const int shape) {
  switch (shape) {
    case 0: {  // everything
      std::vector<Cell> all;
      for (int x = 0; x != kSize; ++x) {
        for (int y = 0; y != kSize; ++y) all.push_back({x, y});
      }
      return all;
    }
    case 1:  // a corner
      return {{0, 0}, {1, 0}, {0, 1}};
    case 2:  // not connected
      return {{1, 0}, {2, 2}};
    case 3:
      return {};
  }
  mc::fail("shape");
}

// Submaps of all kinds, trimmed once.
void Overlap(const int num_submaps, const int num_shapes, const int num_quarters) {
  const double resolutions[] = {0.05, 1.};
  const double resolution = resolutions[mc::choose(2)];
  const int fresh = 1 + mc::choose(2);
  const int mins[] = {1, 2, 4};
  const int min_cells = mins[mc::choose(3)];
  World world(resolution, fresh, min_cells, 0);
  for (int i = 0; i != num_submaps; ++i) {
    const int shape = mc::choose(num_shapes);
    const int quarters = i == 0 ? 0 : mc::choose(num_quarters);
    const Cell shifts[] = {{0, 0}, {1, 0}, {2, -1}, {4, 4}};
    Cell shift = i == 0 ? Cell{0, 0} : shifts[mc::choose(num_submaps > 2 ? 2 : 4)];
    // Rotated in place.
    if (quarters == 1 || quarters == 2) shift.first += kSize;
    if (quarters == 2 || quarters == 3) shift.second += kSize;
    const bool exact = i == 0 || mc::choose(2) == 0;
    world.Add({0, i}, kSize, Shape(shape), Cell{3 * i, -i}, quarters, shift, exact, true);
  }
  // In which order they were finished.
  std::vector<int> order;
  for (int i = 0; i != num_submaps; ++i) {
    order.insert(order.begin() + mc::choose(i + 1), i);
  }
  for (int i = 0; i != num_submaps; ++i) world.AddNode({0, i}, i);
  for (int i = 0; i != num_submaps; ++i) {
    world.Inserted({0, order[i]}, {0, i});
    if (i > 0) world.Inserted({0, order[i]}, {0, 0});
    // Does not make a submap fresh.
    world.Matched({0, order[i]}, {0, num_submaps - 1 - i});
  }
  world.Trim();
}

// Submaps come and go, some without data or unfinished, in two trajectories.
void History(const int depth) {
  const int min_added = mc::choose(3);
  const int fresh = 1 + mc::choose(2);
  World world(0.1, fresh, 2, min_added);
  int next[2] = {0, 0}, time = 0, deletions = 0;
  for (int i = 0; i != depth; ++i) {
    switch (mc::choose(3)) {
      case 0: {
        const int trajectory = mc::choose(2);
        const int kind = mc::choose(4);
        const SubmapId id{trajectory, next[trajectory]};
        world.Add(id, kSize, Shape(kind == 3 ? 0 : kind), {0, 0}, 0, {0, 0}, true, kind != 3);
        const NodeId node{trajectory, next[trajectory]++};
        world.AddNode(node, time++);
        if (kind != 1 || mc::choose(2) == 0) world.Inserted(id, node);
        break;
      }
      case 1: {
        // The first or the last one, or the first trajectory is deleted.
        if (world.size() == 0 || ++deletions > 2) mc::prune();
        switch (mc::choose(3)) {
          case 0:
            world.Delete(world.model().begin()->first);
            break;
          case 1:
            world.Delete(world.model().rbegin()->first);
            break;
          case 2:
            if (world.model().begin()->first.trajectory_id != 0) mc::prune();
            while (world.size() != 0 && world.model().begin()->first.trajectory_id == 0) {
              world.Delete(world.model().begin()->first);
            }
            break;
        }
        break;
      }
      case 2:
        world.Trim();
        break;
    }
  }
  world.Trim();
}

// More cells than fit into 16 bits.
void Large() {
  const int sizes[] = {255, 256, 257, 300, 370};
  const int size = sizes[mc::choose(5)];
  const int mins[] = {1, 1000, 30000};
  World world(0.05, 1 + mc::choose(2), mins[mc::choose(3)], 0);
  std::vector<Cell> known;
  for (int x = 0; x != size; ++x) {
    for (int y = 0; y != size; ++y) known.push_back({x, y});
  }
  world.Add({0, 0}, size, known, {0, 0}, 0, {0, 0}, true, true);
  world.AddNode({0, 0}, 0);
  world.Inserted({0, 0}, {0, 0});
  world.Trim();
}

// Localization only keeps the last submaps.
void Localization(const int depth) {
  const int trajectory = 3;
  const int keep = 2 + mc::choose(3);
  mapping::PureLocalizationTrimmer trimmer(trajectory, keep);
  Graph graph;
  std::vector<SubmapId> expected;
  graph.submaps.Insert({0, 0}, {});
  graph.submaps.Insert({5, 2}, {});
  int next = mc::choose(2);
  for (int i = 0; i != depth && !trimmer.IsFinished(); ++i) {
    switch (mc::choose(4)) {
      case 0:
        if (graph.finished.count(trajectory)) mc::prune();
        graph.submaps.Insert({trajectory, next}, {});
        expected.push_back({trajectory, next++});
        break;
      case 1:
        graph.finished.insert(trajectory);
        break;
      case 2:
        graph.finished.insert(0);
        break;
      case 3:
        trimmer.Trim(&graph);
        if (graph.finished.count(trajectory)) {
          expected.clear();
          MC_CHECK(trimmer.IsFinished(), "has nothing more to do");
          MC_CHECK(graph.states.size() == 1 && graph.states[0].first == trajectory &&
                       graph.states[0].second == PoseGraphInterface::TrajectoryState::DELETED,
                   "the trajectory is not deleted");
        } else {
          while (static_cast<int>(expected.size()) > keep) expected.erase(expected.begin());
          MC_CHECK(!trimmer.IsFinished() && graph.states.empty(), "finished too early");
        }
        break;
    }
    mc::step();
    const auto ids = graph.GetSubmapIds(trajectory);
    MC_CHECK(ids == expected, "there are " << ids.size() << " submaps, expected "
                                           << expected.size());
    MC_CHECK(graph.submaps.Contains({0, 0}) && graph.submaps.Contains({5, 2}),
             "touched other trajectories");
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"two_submaps", [] { Overlap(2, 4, 4); }, 3, UINT64_MAX,
                       "2 submaps of 4 shapes, 4 rotations, 4 offsets"});
  scenarios.push_back({"three_submaps",
                       [] { Overlap(3, 3, 4); }, 3, UINT64_MAX,
                       "3 submaps of 3 shapes, 2 offsets, all orders, 4 rotations"});
  scenarios.push_back({"four_submaps", [] { Overlap(4, 2, 1); }, 2, UINT64_MAX,
                       "thorough only: 4 submaps of 2 shapes"});
  scenarios.push_back({"histories", [] { History(mc::thorough() ? 6 : 5); }, 3, UINT64_MAX,
                       "5 (thorough: 6) times adding, deleting or trimming, 2 trajectories"});
  scenarios.push_back({"large", [] { Large(); }, 3, UINT64_MAX, "a submap of up to 136900 cells"});
  scenarios.push_back({"localization", [] { Localization(mc::thorough() ? 10 : 8); }, 3, UINT64_MAX,
                       "8 (thorough: 10) times adding, finishing, trimming"});
  return mc::Main(argc, argv, scenarios, {"explicit enumeration of histories", {}});
}
