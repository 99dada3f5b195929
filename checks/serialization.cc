// Saving the state of a map and loading it again, through the map builder with
// the real pose graph, for all small histories.
#include <iostream>
#include <queue>
#include <thread>
#include <vector>

#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/mapping/map_builder.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#ifndef CHECK_3D
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#endif
#include "mc.h"
#include "mc_sched.h"
#include "pose_graph_model.h"
#include "pose_graph_world.h"

namespace {

namespace pb = cartographer::mapping::proto;
namespace io = cartographer::io;

sched::Options SchedulerOptions(int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  options.stack_size = 8 << 20;
  return options;
}

std::unique_ptr<MapBuilder> MakeBuilder(const bool search = true) {
  pb::MapBuilderOptions options;
#ifdef CHECK_3D
  options.set_use_trajectory_builder_3d(true);
#else
  options.set_use_trajectory_builder_2d(true);
#endif
  options.set_num_background_threads(1);
  *options.mutable_pose_graph_options() = Options(search ? kOptimizeEvery : 0);
  if (!search) {
    options.mutable_pose_graph_options()->mutable_constraint_builder_options()->set_sampling_ratio(
        0.);
    options.mutable_pose_graph_options()->set_global_sampling_ratio(0.);
  }
  return absl::make_unique<MapBuilder>(options);
}

// Tells the trajectories apart.
pb::TrajectoryBuilderOptionsWithSensorIds TrajectoryOptions(const int t) {
  pb::TrajectoryBuilderOptionsWithSensorIds options;
  auto* const sensor_id = options.add_sensor_id();
  sensor_id->set_type(pb::SensorId::RANGE);
  sensor_id->set_id("sensor of trajectory " + std::to_string(t));
  options.mutable_trajectory_builder_options()->mutable_initial_trajectory_pose()->set_timestamp(
      1000 + t);
  return options;
}

Graph* GraphOf(MapBuilder* builder) { return static_cast<Graph*>(builder->pose_graph()); }

// As it would be in a file.
std::vector<std::string> Save(MapBuilder* builder, const bool include_unfinished) {
  std::vector<std::string> result;
  io::ForwardingProtoStreamWriter writer([&](const google::protobuf::Message* message) {
    if (message == nullptr) return true;
    result.push_back(message->SerializeAsString());
    return true;
  });
  builder->SerializeState(include_unfinished, &writer);
  writer.Close();
  return result;
}

class Reader : public io::ProtoStreamReaderInterface {
 public:
  explicit Reader(const std::vector<std::string>& messages) : messages_(messages) {}
  bool ReadProto(google::protobuf::Message* message) override {
    if (next_ == messages_.size()) return false;
    message->Clear();
    return message->ParseFromString(messages_[next_++]);
  }
  bool eof() const override { return next_ == messages_.size(); }

 private:
  const std::vector<std::string>& messages_;
  size_t next_ = 0;
};

// Everything that is to survive. Trajectory ids are those of the map which was
// saved.
struct Cells {
  std::string frame;
  std::map<std::vector<int>, int> values;
  bool operator==(const Cells& o) const { return frame == o.frame && values == o.values; }
};
struct SavedSubmap {
  Rigid3d pose, local_pose;
  int num_range_data;
  bool finished;
  std::vector<Cells> grids;
  std::vector<float> histogram;
};
struct Observation {
  int trajectory;
  common::Time time;
  Rigid3d pose;
  double translation_weight, rotation_weight;
};
struct Snapshot {
  std::map<NodeId, TrajectoryNode> nodes;
  std::map<SubmapId, SavedSubmap> submaps;
  std::vector<Constraint> constraints;
  std::map<int, State> states;
  std::map<std::string, Rigid3d> landmarks;
  std::map<int, std::map<common::Time, sensor::OdometryData>> odometry;
  std::map<int, std::map<common::Time, sensor::ImuData>> imu;
  std::map<int, std::map<common::Time, sensor::FixedFramePoseData>> fixed_frame;
  std::map<std::string, std::vector<Observation>> observations;
  std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data;
  std::map<int, std::string> options;
  std::map<int, int> component;  // of connected trajectories
};

#ifdef CHECK_3D
Cells CellsOf(const HybridGrid& grid) {
  Cells cells;
  std::ostringstream os;
  os << grid.resolution();
  cells.frame = os.str();
  for (auto it = HybridGrid::Iterator(grid); !it.Done(); it.Next()) {
    const Eigen::Array3i c = it.GetCellIndex();
    cells.values[{c.x(), c.y(), c.z()}] = it.GetValue();
  }
  return cells;
}
#endif

SavedSubmap Describe(const PoseGraphInterface::SubmapData& data) {
  SavedSubmap result;
  result.pose = data.pose;
  result.local_pose = data.submap->local_pose();
  result.num_range_data = data.submap->num_range_data();
  result.finished = data.submap->insertion_finished();
#ifdef CHECK_3D
  const auto& submap = static_cast<const Submap3D&>(*data.submap);
  result.grids.push_back(CellsOf(submap.high_resolution_hybrid_grid()));
  result.grids.push_back(CellsOf(submap.low_resolution_hybrid_grid()));
  const Eigen::VectorXf& histogram = submap.rotational_scan_matcher_histogram();
  result.histogram.assign(histogram.data(), histogram.data() + histogram.size());
#else
  const auto& grid = *static_cast<const Submap2D&>(*data.submap).grid();
  Cells cells;
  std::ostringstream os;
  os << grid.limits().resolution() << " " << grid.limits().max().transpose() << " "
     << grid.limits().cell_limits().num_x_cells << " " << grid.limits().cell_limits().num_y_cells
     << " " << static_cast<int>(grid.GetGridType());
  Eigen::Array2i offset;
  CellLimits cropped;
  grid.ComputeCroppedLimits(&offset, &cropped);
  os << " known " << offset.transpose() << " " << cropped.num_x_cells << " "
     << cropped.num_y_cells;
  cells.frame = os.str();
  for (int x = 0; x < grid.limits().cell_limits().num_x_cells; ++x) {
    for (int y = 0; y < grid.limits().cell_limits().num_y_cells; ++y) {
      const Eigen::Array2i c(x, y);
      if (!grid.IsKnown(c)) continue;
      cells.values[{x, y}] = static_cast<int>(grid.GetCorrespondenceCost(c) * 1e4f + 1e5f);
      if (grid.GetGridType() == GridType::TSDF) {
        cells.values[{x, y, 1}] =
            static_cast<int>(static_cast<const TSDF2D&>(grid).GetWeight(c) * 1e3f + 0.5f);
      }
    }
  }
  result.grids.push_back(cells);
#endif
  return result;
}

template <typename Map>
auto DataOf(const Map& all, const std::map<int, int>& back) {
  std::map<int, std::map<common::Time, typename std::decay<decltype(
      *all.trajectory(0).begin())>::type>> result;
  for (const int t : all.trajectory_ids()) {
    if (!back.count(t)) continue;
    for (const auto& d : all.trajectory(t)) result[back.at(t)].emplace(d.time, d);
  }
  return result;
}

// 'back' has the trajectories of interest, and the ids to use for them.
Snapshot Take(MapBuilder* builder, const std::map<int, int>& back) {
  sched::NoPreempt atomic;
  const Graph& graph = *GraphOf(builder);
  Snapshot result;
  for (const auto& n : graph.GetTrajectoryNodes()) {
    if (!back.count(n.id.trajectory_id)) continue;
    result.nodes.emplace(NodeId{back.at(n.id.trajectory_id), n.id.node_index}, n.data);
  }
  for (const auto& s : graph.GetAllSubmapData()) {
    if (!back.count(s.id.trajectory_id)) continue;
    result.submaps.emplace(SubmapId{back.at(s.id.trajectory_id), s.id.submap_index},
                           Describe(s.data));
  }
  for (Constraint c : graph.constraints()) {
    if (!back.count(c.submap_id.trajectory_id) || !back.count(c.node_id.trajectory_id)) continue;
    c.submap_id.trajectory_id = back.at(c.submap_id.trajectory_id);
    c.node_id.trajectory_id = back.at(c.node_id.trajectory_id);
    result.constraints.push_back(c);
  }
  for (const auto& s : graph.GetTrajectoryStates()) {
    if (back.count(s.first)) result.states[back.at(s.first)] = s.second;
  }
  result.landmarks = graph.GetLandmarkPoses();
  result.odometry = DataOf(graph.GetOdometryData(), back);
  result.imu = DataOf(graph.GetImuData(), back);
  result.fixed_frame = DataOf(graph.GetFixedFramePoseData(), back);
  for (const auto& landmark : graph.GetLandmarkNodes()) {
    for (const auto& o : landmark.second.landmark_observations) {
      if (!back.count(o.trajectory_id)) continue;
      result.observations[landmark.first].push_back({back.at(o.trajectory_id), o.time,
                                                     o.landmark_to_tracking_transform,
                                                     o.translation_weight, o.rotation_weight});
    }
  }
  for (const auto& d : graph.GetTrajectoryData()) {
    if (back.count(d.first)) result.trajectory_data[back.at(d.first)] = d.second;
  }
  int index = 0;
  for (const auto& c : graph.GetConnectedTrajectories()) {
    for (const int t : c) {
      if (back.count(t)) result.component[back.at(t)] = index;
    }
    ++index;
  }
  const auto& options = builder->GetAllTrajectoryBuilderOptions();
  for (size_t t = 0; t < options.size(); ++t) {
    if (back.count(t)) result.options[back.at(t)] = options[t].SerializeAsString();
  }
  return result;
}

bool Same(const Rigid3d& a, const Rigid3d& b) { return Difference(a, b) < 1e-5; }

void CheckCloud(const sensor::PointCloud& a, const sensor::PointCloud& b) {
  MC_CHECK(a.size() == b.size(), "point cloud of a node");
  std::vector<bool> used(b.size());
  for (size_t i = 0; i < a.size(); ++i) {
    bool found = false;
    for (size_t j = 0; j < b.size() && !found; ++j) {
      if (!used[j] && (a[i].position - b[j].position).norm() < 3e-3) found = used[j] = true;
    }
    MC_CHECK(found, "point " << a[i].position.transpose() << " of a node was lost");
  }
}

std::vector<SubmapId> Unfinished(const Snapshot& s) {
  std::vector<SubmapId> result;
  for (const auto& e : s.submaps) {
    if (!e.second.finished) result.push_back(e.first);
  }
  return result;
}

// What of 'saved' has to be found again.
void Compare(const Snapshot& saved, const Snapshot& loaded, const bool include_unfinished,
             const bool frozen) {
  std::set<int> trajectories;
  for (const auto& n : saved.nodes) trajectories.insert(n.first.trajectory_id);
  for (const auto& s : saved.submaps) trajectories.insert(s.first.trajectory_id);
  MC_CHECK(loaded.nodes.size() == saved.nodes.size(),
           loaded.nodes.size() << " nodes, expected " << saved.nodes.size());
  for (const auto& n : saved.nodes) {
    MC_CHECK(loaded.nodes.count(n.first), "node " << n.first << " was lost");
    const TrajectoryNode& other = loaded.nodes.at(n.first);
    MC_CHECK(Same(n.second.global_pose, other.global_pose),
             "node " << n.first << " was moved to " << other.global_pose);
    MC_CHECK(other.constant_data != nullptr, "data of node " << n.first << " was lost");
    const TrajectoryNode::Data &a = *n.second.constant_data, &b = *other.constant_data;
    MC_CHECK(a.time == b.time, "time of node " << n.first);
    MC_CHECK(Same(a.local_pose, b.local_pose), "local pose of node " << n.first);
    MC_CHECK(a.gravity_alignment.angularDistance(b.gravity_alignment) < 1e-5,
             "gravity of node " << n.first);
    CheckCloud(a.filtered_gravity_aligned_point_cloud, b.filtered_gravity_aligned_point_cloud);
    CheckCloud(a.high_resolution_point_cloud, b.high_resolution_point_cloud);
    CheckCloud(a.low_resolution_point_cloud, b.low_resolution_point_cloud);
    MC_CHECK(a.rotational_scan_matcher_histogram == b.rotational_scan_matcher_histogram,
             "histogram of node " << n.first);
  }
  size_t expected = 0;
  for (const auto& s : saved.submaps) {
    if (!include_unfinished && !s.second.finished) continue;
    ++expected;
    MC_CHECK(loaded.submaps.count(s.first), "submap " << s.first << " was lost");
    const SavedSubmap& other = loaded.submaps.at(s.first);
    MC_CHECK(Same(s.second.pose, other.pose),
             "submap " << s.first << " was moved to " << other.pose);
    MC_CHECK(Same(s.second.local_pose, other.local_pose), "local pose of submap " << s.first);
    MC_CHECK(s.second.num_range_data == other.num_range_data &&
                 s.second.finished == other.finished,
             "data of submap " << s.first);
    MC_CHECK(s.second.grids == other.grids, "cells of submap " << s.first);
    MC_CHECK(s.second.histogram == other.histogram, "histogram of submap " << s.first);
  }
  MC_CHECK(loaded.submaps.size() == expected,
           loaded.submaps.size() << " submaps, expected " << expected);
  for (const int t : trajectories) {
    MC_CHECK(loaded.options.count(t), "trajectory " << t << " was lost");
    MC_CHECK(loaded.options.at(t) == saved.options.at(t),
             "trajectory " << t << " has the options of another one");
    MC_CHECK(loaded.states.count(t) &&
                 loaded.states.at(t) == (frozen ? State::FROZEN : State::ACTIVE),
             "state of trajectory " << t);
    if (saved.trajectory_data.count(t)) {
      const auto& a = saved.trajectory_data.at(t);
      const bool has = a.fixed_frame_origin_in_map.has_value();
      if (has) {
        MC_CHECK(loaded.trajectory_data.count(t) &&
                     loaded.trajectory_data.at(t).fixed_frame_origin_in_map.has_value() &&
                     Same(a.fixed_frame_origin_in_map.value(),
                          loaded.trajectory_data.at(t).fixed_frame_origin_in_map.value()),
                 "fixed frame of trajectory " << t);
      }
#ifdef CHECK_3D
      MC_CHECK(loaded.trajectory_data.count(t), "data of trajectory " << t);
      const auto& b = loaded.trajectory_data.at(t);
      MC_CHECK(std::abs(a.gravity_constant - b.gravity_constant) < 1e-6, "gravity constant");
      for (int i = 0; i < 4; ++i) {
        MC_CHECK(std::abs(a.imu_calibration[i] - b.imu_calibration[i]) < 1e-6, "calibration");
      }
#endif
    }
  }
  for (const auto& l : saved.landmarks) {
    MC_CHECK(loaded.landmarks.count(l.first) && Same(loaded.landmarks.at(l.first), l.second),
             "pose of a landmark");
  }
  for (const int a : trajectories) {
    for (const int b : trajectories) {
      if (frozen) {
        // All of the map is one piece.
        MC_CHECK(loaded.component.at(a) == loaded.component.at(b),
                 "trajectories " << a << " and " << b << " are not connected");
      }
    }
  }
  if (frozen) {
    MC_CHECK(loaded.odometry.empty() && loaded.imu.empty() && loaded.fixed_frame.empty() &&
                 loaded.observations.empty() && loaded.constraints.empty(),
             "sensor data or constraints of a map that was loaded frozen");
    return;
  }
  for (const Constraint& c : loaded.constraints) {
    MC_CHECK(loaded.component.at(c.submap_id.trajectory_id) ==
                 loaded.component.at(c.node_id.trajectory_id),
             "trajectories with a constraint are not connected");
  }
  std::vector<Constraint> constraints;
  for (const Constraint& c : saved.constraints) {
    if (include_unfinished || saved.submaps.at(c.submap_id).finished) constraints.push_back(c);
  }
  MC_CHECK(constraints.size() == loaded.constraints.size(),
           loaded.constraints.size() << " constraints, expected " << constraints.size());
  std::vector<bool> used(constraints.size());
  for (const Constraint& c : constraints) {
    bool found = false;
    for (size_t i = 0; i < used.size() && !found; ++i) {
      const Constraint& other = loaded.constraints[i];
      if (!used[i] && c.submap_id == other.submap_id && c.node_id == other.node_id &&
          c.tag == other.tag && Same(c.pose.zbar_ij, other.pose.zbar_ij) &&
          c.pose.translation_weight == other.pose.translation_weight &&
          c.pose.rotation_weight == other.pose.rotation_weight) {
        found = used[i] = true;
      }
    }
    MC_CHECK(found, "constraint " << c.submap_id << "-" << c.node_id << " was lost or changed");
  }
  for (const int t : trajectories) {
    const auto a = saved.odometry.find(t), b = loaded.odometry.find(t);
    if (a != saved.odometry.end()) {
      MC_CHECK(b != loaded.odometry.end() && a->second.size() == b->second.size(),
               "odometry of trajectory " << t);
      for (const auto& d : a->second) {
        MC_CHECK(b->second.count(d.first) && Same(d.second.pose, b->second.at(d.first).pose),
                 "odometry of trajectory " << t);
      }
    }
    const auto i = saved.imu.find(t), j = loaded.imu.find(t);
    if (i != saved.imu.end()) {
      MC_CHECK(j != loaded.imu.end() && i->second.size() == j->second.size(),
               "IMU data of trajectory " << t);
      for (const auto& d : i->second) {
        MC_CHECK(j->second.count(d.first), "IMU data of trajectory " << t);
        const auto& other = j->second.at(d.first);
        MC_CHECK((d.second.linear_acceleration - other.linear_acceleration).norm() < 1e-6 &&
                     (d.second.angular_velocity - other.angular_velocity).norm() < 1e-6,
                 "IMU data of trajectory " << t);
      }
    }
    const auto k = saved.fixed_frame.find(t), l = loaded.fixed_frame.find(t);
    if (k != saved.fixed_frame.end()) {
      MC_CHECK(l != loaded.fixed_frame.end() && k->second.size() == l->second.size(),
               "fixed frame poses of trajectory " << t);
      for (const auto& d : k->second) {
        MC_CHECK(l->second.count(d.first), "fixed frame poses of trajectory " << t);
        const auto& other = l->second.at(d.first);
        MC_CHECK(d.second.pose.has_value() == other.pose.has_value() &&
                     (!d.second.pose.has_value() ||
                      Same(d.second.pose.value(), other.pose.value())),
                 "fixed frame poses of trajectory " << t);
      }
    }
  }
  for (const auto& l : saved.observations) {
    for (const Observation& o : l.second) {
      if (!trajectories.count(o.trajectory)) continue;
      int num = 0, expected_num = 0;
      const auto same = [&](const Observation& p) {
        return o.trajectory == p.trajectory && o.time == p.time && Same(o.pose, p.pose) &&
               o.translation_weight == p.translation_weight &&
               o.rotation_weight == p.rotation_weight;
      };
      for (const Observation& p : l.second) expected_num += same(p);
      if (loaded.observations.count(l.first)) {
        for (const Observation& p : loaded.observations.at(l.first)) num += same(p);
      }
      MC_CHECK(num == expected_num, "observation of a landmark was lost");
    }
  }
}

// As 'CheckIntegrity', for any trajectories.
void CheckReferences(const Graph& graph) {
  sched::NoPreempt atomic;
  const auto nodes = graph.GetTrajectoryNodes();
  const auto submaps = graph.GetAllSubmapData();
  for (const auto& c : graph.constraints()) {
    MC_CHECK(nodes.Contains(c.node_id) && submaps.Contains(c.submap_id), "constraint of nothing");
  }
  for (const auto& s : graph.GetTrajectoryStates()) graph.GetLocalToGlobalTransform(s.first);
}

struct Loaded {
  std::unique_ptr<MapBuilder> builder;
  std::map<int, int> remapping;  // id in the file -> new id
  std::map<int, int> back;
};

Loaded Load(const std::vector<std::string>& file, const bool frozen, const int num_existing) {
  Loaded result;
  result.builder = MakeBuilder();
  for (int i = 0; i < num_existing; ++i) {
    result.builder->AddTrajectoryForDeserialization(TrajectoryOptions(100 + i));
    auto submap = MakeSubmap(0, 0);
    FinishSubmap(submap.get());
#ifdef CHECK_3D
    GraphOf(result.builder.get())
        ->AddImuData(i, {NodeTime(0, 0) - common::FromSeconds(1.), Eigen::Vector3d(0., 0., 9.8),
                         Eigen::Vector3d::Zero()});
#endif
    GraphOf(result.builder.get())->AddNode(MakeNode(0, 0), i, {submap});
  }
  sched::WaitUntilQuiescent();
  Reader reader(file);
  result.remapping = result.builder->LoadState(&reader, frozen);
  sched::WaitUntilQuiescent();
  for (const auto& e : result.remapping) {
    MC_CHECK(e.second >= num_existing && e.second < result.builder->num_trajectory_builders(),
             "trajectory " << e.first << " became " << e.second);
    MC_CHECK(result.back.emplace(e.second, e.first).second,
             "two trajectories became " << e.second);
  }
  const auto nodes = GraphOf(result.builder.get())->GetTrajectoryNodes();
  for (int i = 0; i < num_existing; ++i) {
    MC_CHECK(nodes.SizeOfTrajectoryOrZero(i) == 1, "a trajectory which existed before");
  }
  CheckReferences(*GraphOf(result.builder.get()));
  return result;
}

// Goes on with a map that was loaded.
void Continue(const Snapshot& saved, const Loaded& loaded, const bool include_unfinished,
              const bool frozen) {
  MapBuilder* const builder = loaded.builder.get();
  Graph* const graph = GraphOf(builder);
  const int t = builder->AddTrajectoryForDeserialization(TrajectoryOptions(50));
  std::vector<std::shared_ptr<SubmapType>> submaps;
  for (int i = 0; i < 2; ++i) {
    std::vector<std::shared_ptr<const SubmapType>> insertion;
    if (i > 0) {
      FinishSubmap(submaps.back().get());
      insertion.push_back(submaps.back());
    }
    submaps.push_back(MakeSubmap(kB, i));
    insertion.push_back(submaps.back());
#ifdef CHECK_3D
    graph->AddImuData(t, {NodeTime(kB, i) - common::FromSeconds(1.), Eigen::Vector3d(0., 0., 9.8),
                          Eigen::Vector3d::Zero()});
#endif
    const NodeId id = graph->AddNode(MakeNode(kB, i), t, insertion);
    MC_CHECK(id == (NodeId{t, i}), "new node got the id " << id);
  }
  graph->RunFinalOptimization();
  CheckReferences(*graph);
  const Snapshot now = Take(builder, loaded.back);
  for (const auto& l : saved.landmarks) {
    MC_CHECK(now.landmarks.count(l.first) && Same(now.landmarks.at(l.first), l.second),
             "a loaded landmark was moved");
  }
  std::map<SubmapId, int> found;
  for (const Constraint& c : graph->constraints()) {
    if (c.node_id.trajectory_id == t && loaded.back.count(c.submap_id.trajectory_id)) {
      ++found[{loaded.back.at(c.submap_id.trajectory_id), c.submap_id.submap_index}];
    }
  }
  for (const auto& s : saved.submaps) {
    if (!include_unfinished && !s.second.finished) continue;
    MC_CHECK(!s.second.finished || found[s.first] > 0, "no new node was matched to the loaded submap " << s.first);
    if (frozen) {
      MC_CHECK(Same(now.submaps.at(s.first).pose, s.second.pose),
               "frozen submap " << s.first << " was moved");
    }
  }
  for (const auto& n : saved.nodes) {
    MC_CHECK(now.nodes.count(n.first), "node " << n.first << " was lost");
    if (frozen) {
      MC_CHECK(Same(now.nodes.at(n.first).global_pose, n.second.global_pose),
               "frozen node " << n.first << " was moved");
    }
  }
  for (const auto& c : now.constraints) {
    const Rigid3d residual =
        (now.submaps.at(c.submap_id).pose * c.pose.zbar_ij).inverse() *
        now.nodes.at(c.node_id).global_pose;
    MC_CHECK(residual.translation().norm() + transform::GetAngle(residual) < 0.5,
             "residual of constraint " << c.submap_id << "-" << c.node_id << ": " << residual);
  }
  // Loaded nodes know their submaps: deleting the trajectory deletes all of it.
  // (The nodes of a trajectory that was frozen before had no constraints.)
  std::set<NodeId> known;
  for (const Constraint& c : saved.constraints) {
    if (c.tag == Constraint::INTRA_SUBMAP &&
        (include_unfinished || saved.submaps.at(c.submap_id).finished)) {
      known.insert(c.node_id);
    }
  }
  std::map<int, bool> all_known;
  for (const auto& n : saved.nodes) {
    all_known.emplace(n.first.trajectory_id, true);
    if (!known.count(n.first)) all_known[n.first.trajectory_id] = false;
  }
  int victim = -1;
  for (const auto& e : all_known) {
    if (e.second) victim = loaded.remapping.at(e.first);
  }
  if (victim == -1) return;
  if (!frozen) graph->FinishTrajectory(victim);
  graph->DeleteTrajectory(victim);
  graph->RunFinalOptimization();
  CheckReferences(*graph);
  MC_CHECK(graph->GetTrajectoryNodes().SizeOfTrajectoryOrZero(victim) == 0 &&
               graph->GetAllSubmapData().SizeOfTrajectoryOrZero(victim) == 0,
           "the loaded trajectory " << victim << " was not deleted completely");
}

void RoundTrip(const std::vector<Op>& ops, const int depth, const std::vector<Op>& prefix) {
  sched::Run(SchedulerOptions(0), [&] {
    Model model;
    auto builder = MakeBuilder();
    std::map<int, int> all;
    for (int t = 0; t < 4; ++t) {
      builder->AddTrajectoryForDeserialization(TrajectoryOptions(t));
      all[t] = t;
    }
    const bool include_unfinished = mc::flip(), frozen = mc::flip();
    const int num_existing = mc::choose(2);
    System system(GraphOf(builder.get()));
    std::string history;
    const auto apply = [&](const Op op) {
      mc::step();
      MC_LOG(kOpNames[static_cast<int>(op)]);
      history += std::string(history.empty() ? "" : ", ") + kOpNames[static_cast<int>(op)];
      system.Apply(op);
      model.Apply(op);
    };
    for (const Op op : prefix) apply(op);
    for (int i = 0; i < depth; ++i) {
      std::vector<Op> allowed;
      for (const Op op : ops) {
        if (model.Allowed(op)) allowed.push_back(op);
      }
      const int choice = mc::choose(allowed.size() + 1);
      if (choice == 0) break;
      apply(allowed[choice - 1]);
    }
    mc::sample(history);
    MC_LOG("save " << (include_unfinished ? "with" : "without") << " unfinished submaps, load "
                   << (frozen ? "frozen" : "active") << ", existing: " << num_existing);
    sched::WaitUntilQuiescent();
    const Snapshot saved = Take(builder.get(), all);
    const auto file = Save(builder.get(), include_unfinished);
    const Loaded loaded = Load(file, frozen, num_existing);
    Compare(saved, Take(loaded.builder.get(), loaded.back), include_unfinished, frozen);
    // Once more.
    const auto second = Save(loaded.builder.get(), include_unfinished);
    const Snapshot second_saved = Take(loaded.builder.get(), loaded.remapping.empty()
        ? std::map<int, int>{} : [&] { std::map<int, int> m; for (const auto& e : loaded.back) m[e.first] = e.first; return m; }());
    Loaded again = Load(second, false, 0);
    for (auto it = again.back.begin(); it != again.back.end();) {
      it = second_saved.options.count(it->second) ? std::next(it) : again.back.erase(it);
    }
    Compare(second_saved, Take(again.builder.get(), again.back), include_unfinished, false);
    Continue(saved, loaded, include_unfinished, frozen);
  });
}

// What nodes, submaps and trajectories are made of: no two things are the same.
sensor::PointCloud Cloud(const int first, const int size) {
  sensor::PointCloud cloud;
  for (int i = first; i < first + size; ++i) {
    cloud.push_back({Eigen::Vector3f(0.31f * i - 2.f, 1.7f - 0.23f * i, 0.11f * (i % 7) - 0.3f)});
  }
  return cloud;
}

std::shared_ptr<const TrajectoryNode::Data> RichNode(const int trajectory, const int index,
                                                     const int variant) {
  auto data = std::make_shared<TrajectoryNode::Data>(*MakeNode(trajectory, index));
  const int first = 10 * trajectory + 3 * index;
  data->filtered_gravity_aligned_point_cloud = Cloud(first, variant == 1 ? 0 : 2 + index);
  data->high_resolution_point_cloud = Cloud(first + 20, variant == 2 ? 0 : 3 + index);
  data->low_resolution_point_cloud = Cloud(first + 40, variant == 3 ? 0 : 4 - index);
#ifdef CHECK_3D
  data->gravity_alignment =
      Eigen::AngleAxisd(0.2 + 0.1 * index, Eigen::Vector3d(0.3, -0.5, 0.8).normalized());
  data->local_pose = Rigid3d(Eigen::Vector3d(1. + index, -2. + 0.5 * trajectory, 0.7),
                             Eigen::Quaterniond(Eigen::AngleAxisd(
                                 0.9 - 0.3 * index, Eigen::Vector3d(0.6, 0.2, -0.7).normalized())));
  data->rotational_scan_matcher_histogram = Eigen::VectorXf(4);
  data->rotational_scan_matcher_histogram << 1.f, 0.5f * index, 3.f + trajectory, 7.25f;
#else
  data->rotational_scan_matcher_histogram = Eigen::VectorXf(2);
  data->rotational_scan_matcher_histogram << 1.f + index, 0.25f;
#endif
  return data;
}

#ifdef CHECK_3D
std::shared_ptr<Submap3D> RichSubmap(const int trajectory, const int index, const int variant,
                                     const int num_range_data) {
  pb::Submap3D data;
  *data.mutable_local_pose() = transform::ToProto(
      Rigid3d(Eigen::Vector3d(0.5 + index, 2. - trajectory, -0.3),
              Eigen::Quaterniond(Eigen::AngleAxisd(
                  0.4 + 0.2 * index, Eigen::Vector3d(-0.2, 0.9, 0.4).normalized()))));
  HybridGrid high(0.5f), low(1.f);
  for (int i = 0; i < (variant == 2 ? 0 : 4 + index); ++i) {
    high.SetProbability({2 * i - 5, 3 - i, i - 2}, 0.2f + 0.13f * i);
  }
  for (int i = 0; i < (variant == 3 ? 0 : 3 + trajectory); ++i) {
    low.SetProbability({1 - i, 20 * i - 21, 2 * i - 3}, 0.8f - 0.11f * i);
  }
  *data.mutable_high_resolution_hybrid_grid() = high.ToProto();
  *data.mutable_low_resolution_hybrid_grid() = low.ToProto();
  data.set_num_range_data(num_range_data);
  for (const float value : {2.f, 0.125f + index, 5.f, 1.f + trajectory}) {
    data.add_rotational_scan_matcher_histogram(value);
  }
  auto submap = std::make_shared<Submap3D>(data);
  const SavedSubmap made = Describe({submap, Rigid3d::Identity()});
  MC_CHECK(made.grids[0] == CellsOf(high) && made.grids[1] == CellsOf(low), "cells of a submap");
  MC_CHECK(made.num_range_data == num_range_data && !made.finished, "data of a submap");
  MC_CHECK(made.histogram == std::vector<float>({2.f, 0.125f + index, 5.f, 1.f + trajectory}),
           "histogram of a submap");
  return submap;
}
#else
std::shared_ptr<Submap2D> RichSubmap(const int trajectory, const int index, const int variant,
                                     const int num_range_data) {
  static auto* const tables = new ValueConversionTables;
  const MapLimits limits(0.25 + 0.5 * index, Eigen::Vector2d(4. + trajectory, 3.),
                         CellLimits(9 + index, 5));
  std::unique_ptr<Grid2D> result;
  if (variant >= 2) {
    auto grid = std::make_unique<TSDF2D>(limits, 0.4f, 12.f, tables);
    for (int i = 0; i < (variant == 2 ? 0 : 4); ++i) {
      grid->SetCell({2 * i, 4 - i}, 0.3f - 0.17f * i, 1.f + 2.5f * i);
    }
    grid->FinishUpdate();
    result = std::move(grid);
  } else {
    auto grid = std::make_unique<ProbabilityGrid>(limits, tables);
    for (int i = 0; i < (variant == 1 ? 0 : 4); ++i) {
      grid->SetProbability({2 * i + index, 1 + i % 3}, 0.2f + 0.17f * i);
    }
    result = std::move(grid);
  }
  auto submap = std::make_shared<Submap2D>(
      LocalSubmapPose(trajectory, index).translation().head<2>().cast<float>(), std::move(result),
      tables);
  submap->set_num_range_data(num_range_data);
  return submap;
}
#endif

void Content() {
  sched::Run(SchedulerOptions(0), [] {
    auto builder = MakeBuilder(false);
    const bool include_unfinished = mc::flip(), frozen = mc::flip();
    const int num_existing = mc::choose(2), variant = mc::choose(4);
    const int num_trajectories = 1 + mc::choose(2), num_range_data = 1 + mc::choose(3);
    // Which kinds of sensors, and which data of the trajectory there is.
    const int sensors = mc::choose(4), trajectory_data = mc::choose(3);
    std::map<int, int> all;
    std::vector<std::set<TrajectoryBuilderInterface::SensorId>> ids;
    std::vector<std::string> given;
    using SensorType = TrajectoryBuilderInterface::SensorId::SensorType;
    for (int t = 0; t < num_trajectories; ++t) {
      pb::TrajectoryBuilderOptions options;
      options.set_collate_fixed_frame(t == 0);
      options.set_collate_landmarks(t == 1);
      options.mutable_pose_graph_odometry_motion_filter()->set_max_distance_meters(0.5 + t);
      const std::vector<SensorType> types =
          sensors == 0   ? std::vector<SensorType>{SensorType::RANGE}
          : sensors == 1 ? std::vector<SensorType>{SensorType::RANGE, SensorType::IMU}
          : sensors == 2 ? std::vector<SensorType>{SensorType::RANGE, SensorType::ODOMETRY,
                                                   SensorType::LANDMARK}
                         : std::vector<SensorType>{SensorType::RANGE, SensorType::IMU,
                                                   SensorType::FIXED_FRAME_POSE,
                                                   SensorType::LOCAL_SLAM_RESULT};
      std::set<TrajectoryBuilderInterface::SensorId> expected;
      for (const SensorType type : types) {
        expected.insert({type, "sensor " + std::to_string(static_cast<int>(type)) + " of " +
                                   std::to_string(t)});
      }
      MC_CHECK(builder->AddTrajectoryBuilder(expected, options, nullptr) == t, "trajectory id");
      ids.push_back(expected);
      given.push_back(options.SerializeAsString());
      all[t] = t;
    }
    Graph* const graph = GraphOf(builder.get());
    for (int t = 0; t < num_trajectories; ++t) {
      std::shared_ptr<SubmapType> submap;
      for (int i = 0; i < 2; ++i) {
        std::vector<std::shared_ptr<const SubmapType>> insertion;
        if (submap) {
          FinishSubmap(submap.get());
          insertion.push_back(submap);
        }
        submap = RichSubmap(t, i, variant, num_range_data + i);
        insertion.push_back(submap);
        const common::Time time = NodeTime(t, i);
        const Rigid3d pose(Eigen::Vector3d(0.3 + i, 0.1 - t, 0.7),
                           Eigen::Quaterniond(Eigen::AngleAxisd(
                               0.3 + 0.1 * i, Eigen::Vector3d(0.5, 0.1, -0.6).normalized())));
        if (sensors % 2 == 1) {
          graph->AddImuData(t, {time, Eigen::Vector3d(0.1 + i, -0.2 * t, 9.7),
                                Eigen::Vector3d(0.01, 0.02 * i, -0.03)});
        }
        if (sensors == 2) {
          graph->AddOdometryData(t, {time, pose});
          graph->AddLandmarkData(t, {time, {{"first", pose, 2. + i, 3. + t},
                                            {"second", pose.inverse(), 7., 5.5}}});
        }
        if (sensors == 3) {
          graph->AddFixedFramePoseData(t, {time, i == 0 ? absl::optional<Rigid3d>(pose)
                                                        : absl::optional<Rigid3d>()});
        }
        graph->AddNode(RichNode(t, i, variant), t, insertion);
      }
      if (trajectory_data > 0) {
        pb::TrajectoryData data;
        data.set_trajectory_id(t);
        data.set_gravity_constant(9.5 + 0.1 * t);
        *data.mutable_imu_calibration() = transform::ToProto(Eigen::Quaterniond(
            Eigen::AngleAxisd(0.3 + t, Eigen::Vector3d(0.7, -0.2, 0.4).normalized())));
        if (trajectory_data > 1) {
          *data.mutable_fixed_frame_origin_in_map() = transform::ToProto(
              Rigid3d(Eigen::Vector3d(4., 5. + t, -6.),
                      Eigen::Quaterniond(Eigen::AngleAxisd(
                          -0.8, Eigen::Vector3d(0.1, 0.6, 0.5).normalized()))));
        }
        graph->SetTrajectoryDataFromProto(data);
      }
    }
    mc::step();
    MC_LOG("content " << variant << ", sensors " << sensors << ", save "
                      << (include_unfinished ? "with" : "without") << " unfinished submaps, load "
                      << (frozen ? "frozen" : "active") << ", existing: " << num_existing);
    sched::WaitUntilQuiescent();
    const Snapshot saved = Take(builder.get(), all);
    for (int t = 0; t < num_trajectories; ++t) {
      const auto& options = builder->GetAllTrajectoryBuilderOptions().at(t);
      MC_CHECK(options.trajectory_builder_options().SerializeAsString() == given[t],
               "options of trajectory " << t);
      std::set<TrajectoryBuilderInterface::SensorId> found;
      for (const auto& id : options.sensor_id()) found.insert(FromProto(id));
      MC_CHECK(found == ids[t], "sensor ids of trajectory " << t);
    }
    const auto file = Save(builder.get(), include_unfinished);
    const Loaded loaded = Load(file, frozen, num_existing);
    Compare(saved, Take(loaded.builder.get(), loaded.back), include_unfinished, frozen);
    const auto second = Save(loaded.builder.get(), include_unfinished);
    const Loaded again = Load(second, frozen, 0);
    std::map<int, int> back;
    for (const auto& e : again.back) {
      if (loaded.back.count(e.second)) back[e.first] = loaded.back.at(e.second);
    }
    Compare(saved, Take(again.builder.get(), back), include_unfinished, frozen);
    for (int t = 0; t < num_trajectories; ++t) builder->FinishTrajectory(t);
    sched::WaitUntilQuiescent();
  });
}

// The state can be loaded again, even if it was saved while the pose graph was
// working.
struct Program {
  std::vector<Op> first, before, meanwhile;
};
void WhileWorking(const int preemptions) {
  static const auto* const programs = new std::vector<Program>{
      {{Op::kTrimB, Op::kNodeB, Op::kNodeB}, {Op::kNodeB}, {}},
      {{Op::kNodeA, Op::kNodeA, Op::kFinishA, Op::kNodeB, Op::kNodeB}, {Op::kDeleteA, Op::kNodeB}, {}},
      {{Op::kNodeA}, {}, {Op::kOdometryB, Op::kNodeB}},
      {{Op::kNodeA, Op::kNodeA}, {}, {Op::kNodeA}},
      {{Op::kLoad, Op::kTrimB, Op::kNodeB, Op::kNodeB, Op::kNodeB}, {Op::kDeleteFrozen}, {Op::kFinishB}},
  };
  sched::Run(SchedulerOptions(preemptions), [&] {
    auto builder = MakeBuilder();
    for (int t = 0; t < 4; ++t) builder->AddTrajectoryForDeserialization(TrajectoryOptions(t));
    const bool include_unfinished = mc::flip(), frozen = mc::flip();
    const Program program = mc::pick(*programs);
    System system(GraphOf(builder.get()));
    for (const Op op : program.first) system.Apply(op);
    sched::WaitUntilQuiescent();
    for (const Op op : program.before) {
      MC_LOG(kOpNames[static_cast<int>(op)]);
      system.Apply(op);
    }
    std::thread client([&] {
      for (const Op op : program.meanwhile) {
        MC_LOG(kOpNames[static_cast<int>(op)]);
        system.Apply(op);
      }
    });
    MC_LOG("save " << (include_unfinished ? "with" : "without") << " unfinished submaps, load "
                   << (frozen ? "frozen" : "active"));
    const auto file = Save(builder.get(), include_unfinished);
    client.join();
    sched::NoPreempt atomic;
    sched::WaitUntilQuiescent();
    const Loaded loaded = Load(file, frozen, 0);
    GraphOf(loaded.builder.get())->RunFinalOptimization();
    CheckReferences(*GraphOf(loaded.builder.get()));
    for (const auto& e : loaded.remapping) {
      MC_CHECK(loaded.builder->GetAllTrajectoryBuilderOptions()[e.second].SerializeAsString() ==
                   TrajectoryOptions(e.first).SerializeAsString(),
               "trajectory " << e.first << " has the options of another one");
    }
  });
}

}  // namespace

int main(int argc, char** argv) {
  std::cout.setstate(std::ios::failbit);
  const std::vector<Op> all = {Op::kNodeA,     Op::kNodeB,     Op::kFinishA,   Op::kFinishB,
                               Op::kDeleteA,   Op::kDeleteB,   Op::kLandmarkA, Op::kLandmarkB,
                               Op::kOdometryA, Op::kOdometryB, Op::kLoad,      Op::kTrimB,
                               Op::kFinal,     Op::kFixLandmark, Op::kDeleteFrozen,
                               Op::kFixedFrameA, Op::kImuA, Op::kStayA};
  const auto depth = [] { return mc::thorough() ? 3 : 2; };
  const std::string calls = "all sequences of up to 2 (thorough: 3) calls, ";
  std::vector<mc::Scenario> scenarios;
  const auto after = [&](const char* name, const std::vector<Op>& prefix, const std::string& what) {
    scenarios.push_back({name, [all, depth, prefix] { RoundTrip(all, depth(), prefix); }, 3,
                         UINT64_MAX, calls + "starting with " + what});
  };
  after("sequences", {}, "an empty map");
  after("two_trajectories", {Op::kNodeA, Op::kNodeA, Op::kNodeB, Op::kNodeB}, "two trajectories");
  after("localization", {Op::kLoad, Op::kTrimB, Op::kNodeB, Op::kNodeB, Op::kNodeB},
        "a localization run in a loaded map");
  after("deletion", {Op::kLandmarkA, Op::kNodeA, Op::kFixedFrameA, Op::kNodeA, Op::kFinishA,
                     Op::kNodeB, Op::kDeleteA},
        "the deletion of a trajectory");
  after("sensors", {Op::kOdometryA, Op::kNodeA, Op::kLandmarkA, Op::kFixedFrameA, Op::kImuA,
                    Op::kOdometryA, Op::kNodeA, Op::kFinal},
        "a trajectory with all kinds of sensors");
  scenarios.push_back({"content", Content, 3, UINT64_MAX,
                       "one or two trajectories with different nodes (three point clouds, "
                       "histogram, gravity), submaps (2D: both kinds of grids; also empty ones), "
                       "kinds of sensors, trajectory data and options, each saved and loaded "
                       "twice"});
  scenarios.push_back({"while_working", [] { WhileWorking(mc::thorough() ? 2 : 1); }, 3,
                       UINT64_MAX,
                       "saving while the graph is optimized, trimmed and added to, "
                       "1 (thorough: 2) preemptions"});
  return mc::Main(argc, argv, scenarios,
                  {"stateless model checking under a controlled scheduler, with race detection",
                   {"sequential consistency (races are reported)"}});
}
