// Calls on a pose graph, and a sequential model of what they mean.
#ifndef POSE_GRAPH_MODEL_H_
#define POSE_GRAPH_MODEL_H_

#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "cartographer/transform/transform.h"
#include "mc.h"
#include "mc_sched.h"
#include "pose_graph_world.h"

namespace {

using namespace world;
using Constraint = PoseGraphInterface::Constraint;
using State = PoseGraphInterface::TrajectoryState;
using Pair = std::pair<SubmapId, NodeId>;

enum class Op {
  kNodeA,      // next node of trajectory A
  kNodeB,      // next node of trajectory B
  kFinishA,    // FinishTrajectory
  kFinishB,
  kDeleteA,    // DeleteTrajectory of a trajectory that was finished
  kDeleteB,
  kDeleteFrozen,
  kLandmarkA,  // landmark seen by trajectory A between its nodes
  kLandmarkB,
  kOdometryA,
  kOdometryB,
  kLoad,       // a frozen trajectory, as loaded from a file
  kLoadSecond,
  kTrimB,      // keep only the latest submaps of trajectory B
  kInitialB,   // initial pose of trajectory B relative to trajectory A
  kFinal,      // RunFinalOptimization
  kFixLandmark,
  kLandmarkAtA,  // landmark seen at the very time of the latest node
  kFixedFrameA,
  kImuA,
  kInitialBetweenB,  // ... at a time between two nodes of trajectory A
  kInitialLateB,     // ... after its last node
  kStayA,            // next node, after which no submap is finished
  kStayB,
  kFreeLandmark,
};
const char* const kOpNames[] = {"node A",     "node B",     "finish A",   "finish B",   "delete A",
                                "delete B",   "delete loaded", "landmark A", "landmark B", "odometry A", "odometry B",
                                "load",       "load second", "trim B",     "initial B",  "final",
                                "fix landmark", "landmark at node A", "fixed frame A", "imu A",
                                "initial B between", "initial B late", "stay A", "stay B",
                                "free landmark"};

// Trajectories: two loaded from files and two which are being built. The
// lowest submap is held in place by the solver, so a loaded one comes first.
const int kFrozen = 0, kA = 1, kB = 2, kSecond = 3;
const int kOptimizeEvery = 2;  // optimizes when more nodes than this were added
const double kLandmarkRotationWeight = 1.5;
Rigid3d LoadedFrame() { return Rigid3d::Translation(Eigen::Vector3d(10., -4., 0.)); }
Rigid3d LandmarkInScene() { return Rigid3d::Translation(Eigen::Vector3d(0.4, -0.7, 0.3)); }
// Pose of the sensors of a trajectory in its local frame at any time: 'index'
// is 0 at its first node, 1 at its second, and so on.
Rigid3d LocalPoseAt(int t, double index) {
  const Rigid3d first = LocalNodePose(t, 0), second = LocalNodePose(t, 1);
  return Rigid3d(first.translation() + index * (second.translation() - first.translation()),
                 first.rotation());
}
Rigid3d FixedLandmarkPose() {
  return Rigid3d::Translation(Eigen::Vector3d(0.15, 0.1, 0.)) * LocalFrame(kA).inverse() *
         LandmarkInScene();
}

Rigid3d FreeLandmarkPose() {
  return Rigid3d::Translation(Eigen::Vector3d(-0.8, 0.6, 0.)) * LocalFrame(kA).inverse() *
         LandmarkInScene();
}

// What the pose graph contains after the calls made so far, were they executed
// one after the other.
struct Model {
  struct SubmapInfo {
    bool finished = false;         // no more nodes will be added
    bool search = false;           // takes part in constraint search
    std::set<NodeId> nodes;
  };
  std::map<int, State> states;
  std::map<SubmapId, SubmapInfo> submaps;
  std::set<NodeId> nodes;
  std::multiset<Pair> intra, inter, pending;
  std::set<int> wait_for_deletion;
  std::map<int, int> component;  // by trajectory
  bool trimmer = false, trimmer_used = false, initial = false;
  double initial_index = 0.;  // time as in LocalPoseAt()
  int since_optimization = 0, optimizations = 0;
  int num_added[4] = {0, 0, 0, 0}, num_submaps[4] = {0, 0, 0, 0};
  bool two_active[4] = {false, false, false, false};
  std::map<int, int> odometry;
  // Observations: trajectory, and time as in LocalPoseAt().
  std::multiset<std::pair<int, double>> landmark;
  bool landmark_fixed = false, landmark_free = false;
  int fixed_frame = 0;

  bool Has(int t) const { return states.count(t) != 0; }
  bool Active(int t) const { return !Has(t) || states.at(t) == State::ACTIVE; }
  bool deleting[4] = {false, false, false, false};

  bool Allowed(const Op op) const {
    switch (op) {
      case Op::kNodeA:
      case Op::kStayA:
        return Active(kA) && !deleting[kA];
      case Op::kNodeB:
      case Op::kStayB:
        return Active(kB) && !deleting[kB];
      case Op::kFinishA:
        return Has(kA) && Active(kA);
      case Op::kFinishB:
        return Has(kB) && Active(kB);
      case Op::kDeleteA:
        // The trajectory which an initial pose refers to has to exist.
        return Has(kA) && states.at(kA) == State::FINISHED && !deleting[kA] && !initial;
      case Op::kDeleteB:
        return Has(kB) && states.at(kB) == State::FINISHED && !deleting[kB] && !trimmer_used;
      case Op::kDeleteFrozen:
        return Has(kFrozen) && !deleting[kFrozen];
      case Op::kLandmarkA:
      case Op::kLandmarkAtA:
      case Op::kOdometryA:
      case Op::kFixedFrameA:
      case Op::kImuA:
        return Active(kA) && !deleting[kA];
      case Op::kLandmarkB:
      case Op::kOdometryB:
        return Active(kB) && !deleting[kB];
      case Op::kLoad:
        return num_added[kFrozen] == 0;
      case Op::kLoadSecond:
        return num_added[kFrozen] != 0 && num_added[kSecond] == 0;
      case Op::kTrimB:
        return !trimmer_used && Active(kB);
      case Op::kInitialB:
      case Op::kInitialLateB:
        return !initial && num_added[kA] > 0 && !deleting[kA] && num_added[kB] == 0 && Active(kB);
      case Op::kInitialBetweenB:
        return !initial && num_added[kA] > 1 && !deleting[kA] && num_added[kB] == 0 && Active(kB);
      default:
        return true;
    }
  }
  void Track(int t) {
    if (!component.count(t)) component[t] = t;
  }
  void Connect(int a, int b) {
    Track(a);
    Track(b);
    const int from = component[a], to = component[b];
    for (auto& entry : component) {
      if (entry.second == from) entry.second = to;
    }
  }
  void Search(const NodeId& node, const SubmapId& submap) {
    if (submaps.at(submap).search) pending.insert({submap, node});
  }
  void AddNode(const int t, const bool finish) {
    states.emplace(t, State::ACTIVE);
    Track(t);
    const int i = num_added[t]++;
    const NodeId node{t, i};
    if (i == 0 && t == kB && initial) Connect(kB, kA);
    std::vector<SubmapId> in;
    // The first submap is alone for some time.
    if (!two_active[t] && (finish || num_submaps[t] != 1)) ++num_submaps[t];
    if (num_submaps[t] > 1) in.push_back({t, num_submaps[t] - 2});
    in.push_back({t, num_submaps[t] - 1});
    two_active[t] = in.size() == 2 && !finish;
    for (const SubmapId& s : in) {
      submaps[s].nodes.insert(node);
      intra.insert({s, node});
    }
    for (const auto& s : submaps) {
      if (s.second.finished) Search(node, s.first);
    }
    if (in.size() == 2 && finish) {
      const SubmapId s = in.front();
      submaps[s].finished = submaps[s].search = true;
      for (const NodeId& other : nodes) {
        if (!submaps[s].nodes.count(other)) Search(other, s);
      }
    }
    nodes.insert(node);
    if (++since_optimization > kOptimizeEvery) Optimize();
  }
  void Trim(const SubmapId& id) {
    std::set<NodeId> gone = submaps.at(id).nodes;
    for (const auto& s : submaps) {
      if (!(s.first == id)) {
        for (const NodeId& n : s.second.nodes) gone.erase(n);
      }
    }
    submaps.erase(id);
    for (auto* set : {&intra, &inter}) {
      for (auto it = set->begin(); it != set->end();) {
        it = it->first == id || gone.count(it->second) ? set->erase(it) : std::next(it);
      }
    }
    for (const NodeId& n : gone) nodes.erase(n);
  }
  std::vector<SubmapId> SubmapsOf(int t) const {
    std::vector<SubmapId> result;
    for (const auto& s : submaps) {
      if (s.first.trajectory_id == t) result.push_back(s.first);
    }
    return result;
  }
  void Optimize() {
    ++optimizations;
    for (const Pair& p : pending) Connect(p.first.trajectory_id, p.second.trajectory_id);
    inter.insert(pending.begin(), pending.end());
    pending.clear();
    since_optimization = 0;
    for (const int t : wait_for_deletion) {
      for (const SubmapId& id : SubmapsOf(t)) Trim(id);
      states[t] = State::DELETED;
    }
    wait_for_deletion.clear();
    if (trimmer) {
      const bool finished = Has(kB) && states.at(kB) == State::FINISHED;
      const auto ids = SubmapsOf(kB);
      for (size_t i = 0; i + (finished ? 0 : 2) < ids.size(); ++i) Trim(ids[i]);
      if (finished) {
        states[kB] = State::DELETED;
        trimmer = false;
      }
    }
  }
  void Apply(const Op op) {
    switch (op) {
      case Op::kNodeA:
      case Op::kNodeB:
        AddNode(op == Op::kNodeA ? kA : kB, true);
        break;
      case Op::kStayA:
      case Op::kStayB:
        AddNode(op == Op::kStayA ? kA : kB, false);
        break;
      case Op::kFinishA:
      case Op::kFinishB: {
        const int t = op == Op::kFinishA ? kA : kB;
        states[t] = State::FINISHED;
        for (const SubmapId& s : SubmapsOf(t)) submaps[s].finished = true;
        Optimize();
        break;
      }
      case Op::kDeleteFrozen:
      case Op::kDeleteA:
      case Op::kDeleteB: {
        const int t = op == Op::kDeleteA ? kA : op == Op::kDeleteB ? kB : kFrozen;
        deleting[t] = true;
        wait_for_deletion.insert(t);
        break;
      }
      case Op::kLandmarkA:
        landmark.insert({kA, num_added[kA] - 0.5});
        break;
      case Op::kLandmarkAtA:
        landmark.insert({kA, std::max(num_added[kA], 1) - 1});
        break;
      case Op::kLandmarkB:
        landmark.insert({kB, num_added[kB] - 0.5});
        break;
      case Op::kOdometryA:
        ++odometry[kA];
        break;
      case Op::kOdometryB:
        ++odometry[kB];
        break;
      case Op::kFixedFrameA:
        ++fixed_frame;
        break;
      case Op::kImuA:
        break;
      case Op::kLoad:
      case Op::kLoadSecond: {
        const int t = op == Op::kLoad ? kFrozen : kSecond;
        Track(t);
        // Frozen trajectories belong together.
        for (const auto& other : states) {
          if (other.second == State::FROZEN) Connect(t, other.first);
        }
        states[t] = State::FROZEN;
        SubmapInfo& s = submaps[{t, 0}];
        s.finished = s.search = true;
        s.nodes.insert({t, 0});
        nodes.insert({t, 0});
        ++num_added[t];
        break;
      }
      case Op::kTrimB:
        trimmer = trimmer_used = true;
        break;
      case Op::kInitialB:
        initial = true;
        break;
      case Op::kInitialBetweenB:
        initial = true;
        initial_index = 0.3;
        break;
      case Op::kInitialLateB:
        initial = true;
        initial_index = num_added[kA] + 0.4;
        break;
      case Op::kFinal:
        Optimize();
        break;
      case Op::kFixLandmark:
        landmark_fixed = true;
        landmark_free = false;
        break;
      case Op::kFreeLandmark:
        landmark_fixed = false;
        landmark_free = true;
        break;
    }
  }
};

struct System {
  std::unique_ptr<common::ThreadPool> pool;
  std::unique_ptr<Graph> own_graph;
  Graph* graph;
  std::vector<std::shared_ptr<SubmapType>> submaps[4];
  int num_nodes[4] = {0, 0, 0, 0};
  bool two_active[4] = {false, false, false, false};
  int optimizations = 0;
  Rigid3d initial_pose;                  // the latest one that was given
  std::map<int, NodeId> last_nodes;      // of the latest optimization
  std::map<int, SubmapId> last_submaps;
  int num_odometry[4] = {0, 0, 0, 0}, num_fixed_frame[4] = {0, 0, 0, 0}, num_imu[4] = {0, 0, 0, 0};

  explicit System(int threads) {
    pool = absl::make_unique<common::ThreadPool>(threads);
    own_graph = MakeGraph(Options(kOptimizeEvery), pool.get());
    graph = own_graph.get();
    SetCallback();
  }
  explicit System(Graph* graph) : graph(graph) { SetCallback(); }
  ~System() {
    own_graph.reset();
    pool.reset();
  }
  void SetCallback() {
    graph->SetGlobalSlamOptimizationCallback(
        [this](const std::map<int, SubmapId>& submaps, const std::map<int, NodeId>& nodes) {
          ++optimizations;
          last_nodes = nodes;
          last_submaps = submaps;
        });
  }
  void AddNode(const int t, const bool finish) {
    const int i = num_nodes[t]++;
    if (!two_active[t] && (finish || submaps[t].size() != 1)) submaps[t].push_back(MakeSubmap(t, submaps[t].size()));
    std::vector<std::shared_ptr<const SubmapType>> insertion;
    const int n = submaps[t].size();
    if (n > 1) {
      if (finish) FinishSubmap(submaps[t][n - 2].get());
      insertion.push_back(submaps[t][n - 2]);
    }
    insertion.push_back(submaps[t][n - 1]);
    two_active[t] = n > 1 && !finish;
#ifdef CHECK_3D
    Imu(t);  // required for 3D
#endif
    const NodeId id = graph->AddNode(MakeNode(t, i), t, insertion);
    MC_CHECK(id.trajectory_id == t && id.node_index == i, "node got id " << id);
  }
  void Landmark(const int t) {
    // Between the last node and the next one.
    SeeLandmark(t, num_nodes[t] - 0.5);
  }
  void SeeLandmark(const int t, const double index) {
    const Rigid3d landmark_to_tracking =
        (LocalFrame(t) * LocalPoseAt(t, index)).inverse() * LandmarkInScene();
    graph->AddLandmarkData(t, {NodeTime(t, 0) + common::FromSeconds(10. * index),
                               {{"landmark", landmark_to_tracking, 1., kLandmarkRotationWeight}}});
  }
  void LandmarkAt(const int t) {
    SeeLandmark(t, std::max(num_nodes[t], 1) - 1);
  }
  // Relative to trajectory A at some time, when it was as at 'index'.
  void InitialPose(const double time, const double index) {
    graph->SetInitialTrajectoryPose(
        kB, kA, LocalPoseAt(kA, index).inverse() * LocalFrame(kA).inverse() * LocalFrame(kB),
        NodeTime(kA, 0) + common::FromSeconds(10. * time));
    initial_pose = LocalPoseAt(kA, index).inverse() * LocalFrame(kA).inverse() * LocalFrame(kB);
  }
  void Odometry(const int t) {
    const common::Time time = NodeTime(t, 0) + common::FromSeconds(3. * num_odometry[t]++);
    graph->AddOdometryData(t, {time, Rigid3d::Identity()});
  }
  void FixedFrame(const int t) {
    const common::Time time = NodeTime(t, 0) + common::FromSeconds(10. * num_fixed_frame[t] - 1.);
    const Rigid3d pose = LocalNodePose(t, num_fixed_frame[t]++);
    graph->AddFixedFramePoseData(
        t, {time, Rigid3d::Translation(pose.translation() + Eigen::Vector3d(1., 1., 0.))});
  }
  void Imu(const int t) {
    const common::Time time = NodeTime(t, 0) + common::FromSeconds(10. * num_imu[t]++ - 1.);
    graph->AddImuData(t, {time, Eigen::Vector3d(0., 0., 9.8), Eigen::Vector3d::Zero()});
  }
  void Load(const int t) {
    graph->FreezeTrajectory(t);
    graph->AddSubmapFromProto(LoadedFrame() * TrueNodePose(t, 0), SubmapProto(t, 0));
    graph->AddNodeFromProto(LoadedFrame() * LocalFrame(t) * LocalNodePose(t, 0), NodeProto(t, 0));
    graph->AddNodeToSubmap(NodeId{t, 0}, SubmapId{t, 0});
  }
  void Apply(const Op op) {
    switch (op) {
      case Op::kNodeA:
      case Op::kNodeB:
        AddNode(op == Op::kNodeA ? kA : kB, true);
        break;
      case Op::kStayA:
      case Op::kStayB:
        AddNode(op == Op::kStayA ? kA : kB, false);
        break;
      case Op::kFinishA:
      case Op::kFinishB:
        graph->FinishTrajectory(op == Op::kFinishA ? kA : kB);
        break;
      case Op::kDeleteA:
      case Op::kDeleteB:
        graph->DeleteTrajectory(op == Op::kDeleteA ? kA : kB);
        break;
      case Op::kDeleteFrozen:
        graph->DeleteTrajectory(kFrozen);
        break;
      case Op::kLandmarkA:
        Landmark(kA);
        break;
      case Op::kLandmarkAtA:
        LandmarkAt(kA);
        break;
      case Op::kLandmarkB:
        Landmark(kB);
        break;
      case Op::kOdometryA:
        Odometry(kA);
        break;
      case Op::kOdometryB:
        Odometry(kB);
        break;
      case Op::kFixedFrameA:
        FixedFrame(kA);
        break;
      case Op::kImuA:
        Imu(kA);
        break;
      case Op::kLoad:
        Load(kFrozen);
        break;
      case Op::kLoadSecond:
        Load(kSecond);
        break;
      case Op::kTrimB:
        graph->AddTrimmer(absl::make_unique<PureLocalizationTrimmer>(kB, 2));
        break;
      case Op::kInitialB:
        InitialPose(0., 0.);
        break;
      case Op::kInitialBetweenB:
        InitialPose(0.3, 0.3);
        break;
      case Op::kInitialLateB:
        InitialPose(num_nodes[kA] + 0.4, num_nodes[kA] - 1.);
        break;
      case Op::kFinal:
        graph->RunFinalOptimization();
        break;
      case Op::kFixLandmark:
        graph->SetLandmarkPose("landmark", FixedLandmarkPose(), true);
        break;
      case Op::kFreeLandmark:
        graph->SetLandmarkPose("landmark", FreeLandmarkPose(), false);
        break;
    }
  }
};

// What holds at any time: constraints, nodes and submaps refer to each other.
void CheckIntegrity(const Graph& graph) {
  sched::NoPreempt atomic;
  const auto constraints = graph.constraints();
  const auto nodes = graph.GetTrajectoryNodes();
  const auto submaps = graph.GetAllSubmapData();
  const auto submap_poses = graph.GetAllSubmapPoses();
  const auto node_poses = graph.GetTrajectoryNodePoses();
  const auto states = graph.GetTrajectoryStates();
  graph.GetTrajectoryData();
  graph.GetLandmarkPoses();
  graph.GetImuData();
  graph.GetOdometryData();
  graph.GetFixedFramePoseData();
  MC_CHECK(submap_poses.size() == submaps.size() && node_poses.size() == nodes.size(),
           "poses and data differ");
  for (const auto& c : constraints) {
    MC_CHECK(nodes.Contains(c.node_id), "constraint with node " << c.node_id << ", which is gone");
    MC_CHECK(submaps.Contains(c.submap_id),
             "constraint with submap " << c.submap_id << ", which is gone");
  }
  for (const auto& s : submaps) {
    MC_CHECK(s.data.submap != nullptr, "submap without data");
    MC_CHECK(states.count(s.id.trajectory_id), "submap of an unknown trajectory");
    MC_CHECK(states.at(s.id.trajectory_id) != State::DELETED, "submap of a deleted trajectory");
  }
  for (const auto& n : nodes) {
    MC_CHECK(n.data.constant_data != nullptr, "node without data");
    MC_CHECK(states.count(n.id.trajectory_id), "node of an unknown trajectory");
    MC_CHECK(states.at(n.id.trajectory_id) != State::DELETED, "node of a deleted trajectory");
  }
  for (const int t : {kFrozen, kSecond}) {
    if (!states.count(t)) continue;
    const Rigid3d expected = LoadedFrame() * TrueNodePose(t, 0);
    if (nodes.Contains(NodeId{t, 0})) {
      const Rigid3d pose = nodes.at(NodeId{t, 0}).global_pose;
      const Rigid3d expected_node = LoadedFrame() * LocalFrame(t) * LocalNodePose(t, 0);
      MC_CHECK(Difference(pose, expected_node) < 1e-6, "frozen node was moved to " << pose);
    }
    if (submaps.Contains(SubmapId{t, 0})) {
      const Rigid3d pose = submaps.at(SubmapId{t, 0}).pose;
      MC_CHECK(Difference(pose, expected) < 1e-6, "frozen submap was moved to " << pose);
    }
  }
  for (const auto& entry : states) graph.GetLocalToGlobalTransform(entry.first);
}

// All observations agree with each other, so whatever was optimized so far, a
// trajectory is never torn apart.
void CheckContinuity(const Graph& graph) {
  sched::NoPreempt atomic;
  const auto nodes = graph.GetTrajectoryNodes();
  const auto submaps = graph.GetAllSubmapData();
  for (auto it = nodes.begin(); it != nodes.end(); ++it) {
    const auto next = std::next(it);
    if (next == nodes.end() || next->id.trajectory_id != it->id.trajectory_id) continue;
    const int t = it->id.trajectory_id;
    const Rigid3d expected = LocalNodePose(t, it->id.node_index).inverse() *
                             LocalNodePose(t, next->id.node_index);
    const Rigid3d actual = it->data.global_pose.inverse() * next->data.global_pose;
    MC_CHECK(Difference(expected, actual) < 0.5,
             "from " << it->id << " to " << next->id << " it is " << actual << ", expected "
                     << expected);
  }
  for (const auto& s : submaps) {
    const int t = s.id.trajectory_id;
    const NodeId node{t, s.id.submap_index};
    if (!nodes.Contains(node)) continue;
    const Rigid3d expected = LocalSubmapPose(t, s.id.submap_index).inverse() *
                             LocalNodePose(t, node.node_index);
    const Rigid3d actual = s.data.pose.inverse() * nodes.at(node).global_pose;
    MC_CHECK(Difference(expected, actual) < 0.5,
             "from submap " << s.id << " to its node it is " << actual << ", expected "
                            << expected);
  }
}

template <typename T>
std::string Show(const std::multiset<T>& set) {
  std::ostringstream os;
  for (const auto& e : set) os << " " << e.first << "-" << e.second;
  return os.str();
}

// Compares everything that can be asked for with the model, once all work is
// done.
void CheckFinal(const System& system, const Model& model) {
  const Graph& graph = *system.graph;
  CheckIntegrity(graph);
  std::set<NodeId> nodes;
  for (const auto& n : graph.GetTrajectoryNodes()) nodes.insert(n.id);
  MC_CHECK(nodes == model.nodes, nodes.size() << " nodes, expected " << model.nodes.size());
  std::set<SubmapId> submaps, expected_submaps;
  for (const auto& s : graph.GetAllSubmapData()) submaps.insert(s.id);
  for (const auto& s : model.submaps) expected_submaps.insert(s.first);
  MC_CHECK(submaps == expected_submaps,
           submaps.size() << " submaps, expected " << expected_submaps.size());
  std::multiset<Pair> intra, inter;
  const auto constraints = graph.constraints();
  for (const auto& c : constraints) {
    (c.tag == Constraint::INTRA_SUBMAP ? intra : inter).insert({c.submap_id, c.node_id});
    if (c.tag == Constraint::INTRA_SUBMAP) {
      const Rigid3d expected =
          LocalSubmapPose(c.submap_id.trajectory_id, c.submap_id.submap_index).inverse() *
          LocalNodePose(c.node_id.trajectory_id, c.node_id.node_index);
      MC_CHECK(Difference(expected, c.pose.zbar_ij) < 1e-3,
               "constraint " << c.submap_id << "-" << c.node_id << ": " << c.pose.zbar_ij
                             << ", expected " << expected);
    }
    // All constraints are consistent, so the solution agrees with all of them.
    const Rigid3d residual = (graph.GetSubmapData(c.submap_id).pose * c.pose.zbar_ij).inverse() *
                             graph.GetTrajectoryNodes().at(c.node_id).global_pose;
    MC_CHECK(residual.translation().norm() + transform::GetAngle(residual) < 0.5,
             "residual of constraint " << c.submap_id << "-" << c.node_id << ": " << residual);
  }
  for (const auto& c : constraints) {
    const bool is_intra = c.tag == Constraint::INTRA_SUBMAP;
    const auto options = Options(0);
    const double translation =
        is_intra ? options.matcher_translation_weight()
                 : options.constraint_builder_options().loop_closure_translation_weight();
    const double rotation =
        is_intra ? options.matcher_rotation_weight()
                 : options.constraint_builder_options().loop_closure_rotation_weight();
    MC_CHECK(std::abs(c.pose.translation_weight - translation) < 1e-6 * translation &&
                 std::abs(c.pose.rotation_weight - rotation) < 1e-6 * rotation,
             "weights of constraint " << c.submap_id << "-" << c.node_id);
  }
  MC_CHECK(intra == model.intra,
           "intra-submap constraints:" << Show(intra) << "; expected:" << Show(model.intra));
  MC_CHECK(inter == model.inter,
           "inter-submap constraints:" << Show(inter) << "; expected:" << Show(model.inter));
  MC_CHECK(graph.GetTrajectoryStates() == model.states, "trajectory states");
  for (const auto& entry : model.states) {
    const auto ids = model.SubmapsOf(entry.first);
    if (ids.empty()) continue;
    const auto last = graph.GetSubmapData(ids.back());
    const Rigid3d expected = last.pose * last.submap->local_pose().inverse();
    const Rigid3d actual = graph.GetLocalToGlobalTransform(entry.first);
    MC_CHECK(Difference(expected, actual) < 1e-3,
             "local to global transform of trajectory " << entry.first << ": " << actual
                                                        << ", expected " << expected);
  }
  std::map<int, NodeId> last_nodes;
  std::map<int, SubmapId> last_submaps;
  for (const NodeId& id : model.nodes) last_nodes.insert_or_assign(id.trajectory_id, id);
  for (const auto& s : model.submaps) last_submaps.insert_or_assign(s.first.trajectory_id, s.first);
  for (const auto& entry : last_nodes) {
    MC_CHECK(system.last_nodes.count(entry.first) &&
                 system.last_nodes.at(entry.first) == entry.second,
             "latest optimized node of trajectory " << entry.first);
  }
  for (const auto& entry : last_submaps) {
    MC_CHECK(system.last_submaps.count(entry.first) &&
                 system.last_submaps.at(entry.first) == entry.second,
             "latest optimized submap of trajectory " << entry.first);
  }
  for (const auto& n : graph.GetTrajectoryNodes()) {
    MC_CHECK(n.data.time() == NodeTime(n.id.trajectory_id, n.id.node_index), "data of " << n.id);
  }
  for (int t : {kA, kB}) {
    for (const SubmapId& id : model.SubmapsOf(t)) {
      MC_CHECK(graph.GetSubmapData(id).submap == system.submaps[t].at(id.submap_index),
               "data of " << id);
    }
  }
  std::map<int, int> odometry;
  const auto data = graph.GetOdometryData();
  for (const int t : data.trajectory_ids()) {
    for (const auto& d : data.trajectory(t)) {
      (void)d;
      ++odometry[t];
    }
  }
  for (const auto& o : odometry) {
    MC_CHECK(model.odometry.count(o.first) && o.second <= model.odometry.at(o.first), "odometry");
  }
  for (const auto& o : model.odometry) {
    // Data may be dropped only together with nodes.
    bool complete = !model.deleting[o.first] && !(o.first == kB && model.trimmer_used);
    MC_CHECK(!complete || odometry[o.first] == o.second, "lost odometry");
  }
  int fixed_frame = 0;
  const auto fixed_frame_data = graph.GetFixedFramePoseData();
  for (const int t : fixed_frame_data.trajectory_ids()) {
    for (const auto& d : fixed_frame_data.trajectory(t)) {
      (void)d;
      ++fixed_frame;
    }
  }
  MC_CHECK(model.deleting[kA] ? fixed_frame <= model.fixed_frame
                              : fixed_frame == model.fixed_frame,
           fixed_frame << " fixed frame poses, expected " << model.fixed_frame);
  // All observations of trajectories which are complete.
  std::multiset<std::pair<int, double>> observed, expected_observed;
  const auto complete = [&](const int t) {
    return !model.deleting[t] && !(t == kB && model.trimmer_used);
  };
  for (const auto& landmark : graph.GetLandmarkNodes()) {
    for (const auto& o : landmark.second.landmark_observations) {
      const int t = o.trajectory_id;
      const double index = common::ToSeconds(o.time - NodeTime(t, 0)) / 10.;
      if (complete(t)) observed.insert({t, std::round(2. * index) / 2.});
      MC_CHECK(Difference(o.landmark_to_tracking_transform,
                          (LocalFrame(t) * LocalPoseAt(t, index)).inverse() * LandmarkInScene()) <
                       1e-6 &&
                   o.translation_weight == 1. && o.rotation_weight == kLandmarkRotationWeight,
               "landmark observation");
    }
  }
  for (const auto& o : model.landmark) {
    if (complete(o.first)) expected_observed.insert(o);
  }
  MC_CHECK(observed == expected_observed, observed.size() << " landmark observations, expected "
                                                          << expected_observed.size());
  const auto landmarks = graph.GetLandmarkPoses();
  if (model.landmark_fixed) {
    MC_CHECK(landmarks.count("landmark") &&
                 Difference(landmarks.at("landmark"), FixedLandmarkPose()) < 1e-6,
             "frozen landmark moved");
  } else if (model.landmark_free && model.landmark.empty()) {
    MC_CHECK(landmarks.count("landmark") &&
                 Difference(landmarks.at("landmark"), FreeLandmarkPose()) < 1e-6,
             "landmark moved");
  } else {
    for (const auto& seen : model.landmark) {
      const int t = seen.first;
      const auto trajectory_nodes = graph.GetTrajectoryNodes();
      if (model.deleting[t] || (t == kB && model.trimmer_used) || model.num_added[t] < 2 ||
          seen.second < 0. || seen.second > model.num_added[t] - 1) {
        continue;
      }
      MC_CHECK(landmarks.count("landmark"), "landmark was lost");
      const Rigid3d expected = trajectory_nodes.at(NodeId{t, 0}).global_pose *
                               LocalPoseAt(t, 0).inverse() * LocalFrame(t).inverse() *
                               LandmarkInScene();
      MC_CHECK(Difference(landmarks.at("landmark"), expected) < 0.3,
               "landmark is at " << landmarks.at("landmark") << ", expected " << expected);
    }
  }
  // Connectivity.
  std::map<int, int> component;
  int index = 0;
  for (const auto& c : graph.GetConnectedTrajectories()) {
    for (const int t : c) component[t] = index;
    ++index;
  }
  for (const auto& a : model.component) {
    MC_CHECK(component.count(a.first), "trajectory " << a.first << " is in no component");
    for (const auto& b : model.component) {
      MC_CHECK((a.second == b.second) == (component[a.first] == component[b.first]),
               "connectivity of trajectories " << a.first << " and " << b.first);
    }
  }
  MC_CHECK(system.optimizations == model.optimizations,
           system.optimizations << " optimizations, expected " << model.optimizations);
}

}  // namespace

#endif  // POSE_GRAPH_MODEL_H_
