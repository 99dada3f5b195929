// Asynchronous constraint search (2D and 3D): every schedule, up to the
// preemption bound, of small programs on the real builder and thread pool.
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

#include "absl/memory/memory.h"
#include "absl/synchronization/mutex.h"
#include "cartographer/common/thread_pool.h"
#ifdef CHECK_3D
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.h"
#else
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.h"
#endif
#include "mc.h"
#include "mc_sched.h"

#define UNCHECKED __attribute__((no_sanitize("thread"), noinline))

namespace {

using namespace cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
namespace common = cartographer::common;
using transform::Rigid2d;
using transform::Rigid3d;
#ifdef CHECK_3D
using Builder = constraints::ConstraintBuilder3D;
using Submap = Submap3D;
#else
using Builder = constraints::ConstraintBuilder2D;
using Submap = Submap2D;
#endif
using Result = Builder::Result;

constraints::proto::ConstraintBuilderOptions Options(double sampling_ratio) {
  constraints::proto::ConstraintBuilderOptions options;
  options.set_sampling_ratio(sampling_ratio);
  options.set_max_constraint_distance(5.);
  options.set_min_score(0.7);
  options.set_global_localization_min_score(0.7);
  options.set_loop_closure_translation_weight(11.);
  options.set_loop_closure_rotation_weight(13.);
  options.set_log_matches(false);
  auto* const fast = options.mutable_fast_correlative_scan_matcher_options();
  fast->set_linear_search_window(0.6);
  fast->set_angular_search_window(0.1);
  fast->set_branch_and_bound_depth(3);
  auto* const ceres = options.mutable_ceres_scan_matcher_options();
  ceres->set_occupied_space_weight(1.);
  ceres->set_translation_weight(1e3);
  ceres->set_rotation_weight(1e3);
  ceres->mutable_ceres_solver_options()->set_max_num_iterations(1);
  ceres->mutable_ceres_solver_options()->set_num_threads(1);
  auto* const fast3 = options.mutable_fast_correlative_scan_matcher_options_3d();
  fast3->set_branch_and_bound_depth(7);
  fast3->set_full_resolution_depth(1);
  fast3->set_min_rotational_score(0.);
  fast3->set_min_low_resolution_score(0.);
  fast3->set_linear_xy_search_window(0.6);
  fast3->set_linear_z_search_window(0.1);
  fast3->set_angular_search_window(0.1);
  auto* const ceres3 = options.mutable_ceres_scan_matcher_options_3d();
  ceres3->add_occupied_space_weight(1.);
  ceres3->add_occupied_space_weight(1.);
  ceres3->set_translation_weight(1e3);
  ceres3->set_rotation_weight(1e3);
  ceres3->set_only_optimize_yaw(false);
  ceres3->mutable_ceres_solver_options()->set_max_num_iterations(1);
  ceres3->mutable_ceres_solver_options()->set_num_threads(1);
  return options;
}

// Two submaps and three nodes; node 0 and 1 show what both submaps contain,
// node 2 does not match anything.
struct Fixture {
  std::vector<std::unique_ptr<Submap>> submaps;
  std::vector<std::unique_ptr<TrajectoryNode::Data>> nodes;
#ifndef CHECK_3D
  ValueConversionTables tables;
#endif

  Fixture() {
    for (int s = 0; s < 2; ++s) {
      const Eigen::Vector2d offset(3. * s, -2. * s);
#ifdef CHECK_3D
      proto::Submap3D data;
      *data.mutable_local_pose() =
          transform::ToProto(Rigid3d::Translation(Eigen::Vector3d(offset.x(), offset.y(), 0.)));
      data.set_num_range_data(2);
      data.set_finished(true);
      HybridGrid high(0.5f), low(1.f);
      for (const auto& p : Points()) {
        high.SetProbability(high.GetCellIndex(p), 0.9f);
        low.SetProbability(low.GetCellIndex(p), 0.9f);
      }
      *data.mutable_high_resolution_hybrid_grid() = high.ToProto();
      *data.mutable_low_resolution_hybrid_grid() = low.ToProto();
      data.add_rotational_scan_matcher_histogram(1.f);
      submaps.push_back(std::make_unique<Submap3D>(data));
#else
      auto grid = std::make_unique<ProbabilityGrid>(
          MapLimits(0.5, offset + Eigen::Vector2d(2., 2.), CellLimits(8, 8)), &tables);
      for (const auto& p : Points()) {
        const Eigen::Vector2f q = p.head<2>() + offset.cast<float>();
        grid->SetProbability(grid->limits().GetCellIndex(q), 0.9f);
      }
      submaps.push_back(
          std::make_unique<Submap2D>(offset.cast<float>(), std::move(grid), &tables));
#endif
    }
    for (int n = 0; n < 3; ++n) {
      auto data = std::make_unique<TrajectoryNode::Data>();
      data->time = common::FromUniversal(n);
      data->gravity_alignment = Eigen::Quaterniond::Identity();
      data->local_pose = Rigid3d::Identity();
      sensor::PointCloud cloud;
      for (const auto& p : Points()) {
        cloud.push_back({n == 2 ? Eigen::Vector3f(2.f * p) : p});
      }
      data->filtered_gravity_aligned_point_cloud = cloud;
      data->high_resolution_point_cloud = cloud;
      data->low_resolution_point_cloud = cloud;
      data->rotational_scan_matcher_histogram = Eigen::VectorXf::Ones(1);
      nodes.push_back(std::move(data));
    }
  }
  static std::vector<Eigen::Vector3f> Points() {
    // Centers of cells.
#ifdef CHECK_3D
    return {{1.f, 0.5f, 0.f}, {-0.5f, 1.f, 0.f}, {0.5f, -1.f, 0.f}};
#else
    return {{0.75f, 0.25f, 0.f}, {-0.75f, 0.75f, 0.f}, {0.25f, -1.25f, 0.f}};
#endif
  }
};

Fixture* GetFixture() {
  static auto* const fixture = new Fixture;
  return fixture;
}

enum class Kind { kLocal, kGlobal, kTooFar };
struct Request {
  int node, submap;
  Kind kind;
  bool Matches() const { return node != 2 && kind != Kind::kTooFar; }
};

struct System {
  std::unique_ptr<common::ThreadPool> pool;
  std::unique_ptr<Builder> builder;
  absl::Mutex mutex;
  std::vector<Result> results;  // guarded by mutex
  std::vector<int> finished;    // nodes finished according to the builder at the callback
  int expected_callbacks = 0;

  System(int threads, double sampling_ratio) {
    pool = absl::make_unique<common::ThreadPool>(threads);
    builder = absl::make_unique<Builder>(Options(sampling_ratio), pool.get());
  }
  void Add(const Request& r) {
    Fixture& f = *GetFixture();
    const SubmapId submap_id{7, r.submap};
    const NodeId node_id{3, r.node};
    const double x = r.kind == Kind::kTooFar ? 9. : 0.11;
#ifdef CHECK_3D
    const Rigid3d submap_pose = Rigid3d::Translation(Eigen::Vector3d(1., 2., 0.));
    const Rigid3d node_pose = Rigid3d::Translation(Eigen::Vector3d(1. + x, 2. - 0.08, 0.));
    if (r.kind == Kind::kGlobal) {
      builder->MaybeAddGlobalConstraint(submap_id, f.submaps[r.submap].get(), node_id,
                                        f.nodes[r.node].get(), Eigen::Quaterniond::Identity(),
                                        Eigen::Quaterniond::Identity());
    } else {
      builder->MaybeAddConstraint(submap_id, f.submaps[r.submap].get(), node_id,
                                  f.nodes[r.node].get(), node_pose, submap_pose);
    }
#else
    if (r.kind == Kind::kGlobal) {
      builder->MaybeAddGlobalConstraint(submap_id, f.submaps[r.submap].get(), node_id,
                                        f.nodes[r.node].get());
    } else {
      builder->MaybeAddConstraint(submap_id, f.submaps[r.submap].get(), node_id,
                                  f.nodes[r.node].get(), Rigid2d({x, -0.08}, 0.));
    }
#endif
  }
  void WhenDone(std::function<void()> then = nullptr) {
    builder->WhenDone([this, then](const Result& result) {
      mc::step();
      const int n = builder->GetNumFinishedNodes();
      {
        absl::MutexLock locker(&mutex);
        results.push_back(result);
        finished.push_back(n);
      }
      if (then) then();
    });
  }
  void WaitFor(size_t n) {
    absl::MutexLock locker(&mutex);
    const auto predicate = [this, n] { return results.size() >= n; };
    mutex.Await(absl::Condition(&predicate));
  }
  // Ends the pool; then nothing can come any more.
  void Shutdown(size_t callbacks) {
    pool.reset();
    absl::MutexLock locker(&mutex);
    MC_CHECK(results.size() == callbacks,
             "the callback was run " << results.size() << " times, expected " << callbacks);
    builder.reset();
  }
};

// 'result' must hold one constraint for each matching request, and no other.
void CheckResult(const Result& result, const std::vector<Request>& requests) {
  std::multiset<std::tuple<int, int>> expected, actual;
  for (const Request& r : requests) {
    if (r.Matches()) expected.insert(std::make_tuple(r.node, r.submap));
  }
  for (const auto& constraint : result) {
    MC_CHECK(constraint.submap_id.trajectory_id == 7 && constraint.node_id.trajectory_id == 3 &&
                 constraint.tag == Builder::Constraint::INTER_SUBMAP,
             "not a constraint that was asked for");
    MC_CHECK(constraint.pose.translation_weight == 11. && constraint.pose.rotation_weight == 13.,
             "weights");
    actual.insert(
        std::make_tuple(constraint.node_id.node_index, constraint.submap_id.submap_index));
    // The node shows the submap's contents as seen from its origin.
    MC_CHECK(constraint.pose.zbar_ij.translation().norm() < 0.4 &&
                 transform::GetAngle(constraint.pose.zbar_ij) < 0.25,
             "constraint " << constraint.pose.zbar_ij << " does not match");
  }
  MC_CHECK(actual == expected, "there are " << actual.size() << " constraints, expected "
                                            << expected.size() << " or not the same ones");
}

const std::vector<std::vector<Request>>& NodePrograms() {
  // Requests made for one node.
  static const auto* const programs = new std::vector<std::vector<Request>>{
      {{0, 0, Kind::kLocal}},
      {},
      {{0, 0, Kind::kLocal}, {0, 1, Kind::kGlobal}},
      {{1, 1, Kind::kLocal}, {2, 0, Kind::kLocal}},
      {{1, 0, Kind::kGlobal}, {1, 0, Kind::kLocal}},
      {{2, 1, Kind::kGlobal}, {1, 0, Kind::kTooFar}}};
  return *programs;
}

const int kNumPrograms = 6;
#ifdef CHECK_3D
const int kNumQuick = 4;  // searching whole submaps takes longer
#else
const int kNumQuick = kNumPrograms;
#endif

void Append(std::vector<Request>* all, const std::vector<Request>& more) {
  all->insert(all->end(), more.begin(), more.end());
}

sched::Options SchedulerOptions(int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  return options;
}

// One client; two nodes, then the result, then a further cycle.
void Cycles(int max_threads, int preemptions, bool second_cycle, int num_programs = kNumPrograms) {
  GetFixture();
  sched::Run(SchedulerOptions(preemptions), [&] {
    const int threads = 1 + mc::choose(max_threads);
    System system(threads, 1.);
    const auto first = NodePrograms()[mc::choose(num_programs)];
    const auto second = NodePrograms()[mc::choose(num_programs)];
    std::vector<Request> all;
    for (const auto& r : first) system.Add(r);
    Append(&all, first);
    system.builder->NotifyEndOfNode();
    const int seen = system.builder->GetNumFinishedNodes();
    MC_CHECK(seen <= 1, "more finished nodes than there are");
    for (const auto& r : second) system.Add(r);
    Append(&all, second);
    system.builder->NotifyEndOfNode();
    MC_CHECK(system.builder->GetNumFinishedNodes() >= seen, "finished nodes decreased");
    system.WhenDone();
    system.WaitFor(1);
    size_t callbacks = 1;
    {
      absl::MutexLock locker(&system.mutex);
      CheckResult(system.results[0], all);
      MC_CHECK(system.finished[0] == 2, "finished nodes at the callback: " << system.finished[0]);
    }
    if (second_cycle) {
      if (mc::flip()) system.builder->DeleteScanMatcher(SubmapId{7, 0});
      for (const auto& r : first) system.Add(r);
      system.builder->NotifyEndOfNode();
      system.WhenDone();
      system.WaitFor(2);
      absl::MutexLock locker(&system.mutex);
      CheckResult(system.results[1], first);
      MC_CHECK(system.finished[1] == 3, "finished nodes at the callback: " << system.finished[1]);
      callbacks = 2;
    }
    system.Shutdown(callbacks);
  });
}

// The next cycle is started from the callback, the way the pose graph does.
void FromCallback(int max_threads, int preemptions, int num_programs = kNumPrograms) {
  GetFixture();
  sched::Run(SchedulerOptions(preemptions), [&] {
    System system(1 + mc::choose(max_threads), 1.);
    const auto first = NodePrograms()[mc::choose(num_programs)];
    const auto second = NodePrograms()[mc::choose(num_programs)];
    for (const auto& r : first) system.Add(r);
    system.builder->NotifyEndOfNode();
    system.WhenDone([&] {
      for (const auto& r : second) system.Add(r);
      system.builder->NotifyEndOfNode();
      system.WhenDone();
    });
    if (mc::flip()) system.WaitFor(2);
    // Ending the pool waits for everything that was scheduled.
    system.pool.reset();
    absl::MutexLock locker(&system.mutex);
    MC_CHECK(system.results.size() == 2, "callbacks run: " << system.results.size());
    CheckResult(system.results[0], first);
    CheckResult(system.results[1], second);
    MC_CHECK(system.finished[0] == 1 && system.finished[1] == 2, "finished nodes");
    system.builder.reset();
  });
}

// Two clients add constraints at the same time.
void TwoClients(int max_threads, int preemptions, int num_programs = kNumPrograms) {
  GetFixture();
  sched::Run(SchedulerOptions(preemptions), [&] {
    System system(1 + mc::choose(max_threads), 1.);
    const auto first = NodePrograms()[mc::choose(num_programs)];
    const auto second = NodePrograms()[mc::choose(num_programs)];
    std::thread client([&] {
      for (const auto& r : first) system.Add(r);
      system.builder->NotifyEndOfNode();
    });
    for (const auto& r : second) system.Add(r);
    system.builder->NotifyEndOfNode();
    client.join();
    system.WhenDone();
    system.WaitFor(1);
    {
      absl::MutexLock locker(&system.mutex);
      std::vector<Request> all = first;
      Append(&all, second);
      CheckResult(system.results[0], all);
      MC_CHECK(system.finished[0] == 2, "finished nodes at the callback: " << system.finished[0]);
    }
    system.Shutdown(1);
  });
}

// Sampling: of the local constraints of each submap, the configured ratio is
// computed (exactly, up to one), whatever the order.
void Sampling(int num_requests) {
  GetFixture();
  sched::Run(SchedulerOptions(0), [&] {
    const int denominator = 1 + mc::choose(3);
    System system(1, 1. / denominator);
    int count[2] = {0, 0};
    for (int i = 0; i < num_requests; ++i) {
      const int submap = mc::choose(2);
      const bool global = mc::choose(3) == 2;
      system.Add({0, submap, global ? Kind::kGlobal : Kind::kLocal});
      count[submap] += global ? denominator : 1;
    }
    system.builder->NotifyEndOfNode();
    system.WhenDone();
    system.WaitFor(1);
    {
      absl::MutexLock locker(&system.mutex);
      int found[2] = {0, 0};
      for (const auto& c : system.results[0]) ++found[c.submap_id.submap_index];
      for (int s : {0, 1}) {
        MC_CHECK(found[s] * denominator >= count[s] - denominator + 1 &&
                     found[s] * denominator <= count[s] + denominator - 1,
                 "submap " << s << ": " << found[s] << " constraints of " << count[s] << "/"
                           << denominator);
      }
    }
    system.Shutdown(1);
  });
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"cycle", [] { Cycles(2, 1, false, kNumQuick); }, 1, UINT64_MAX,
                       "two nodes with 0-2 requests, 1-2 workers, 1 preemption"});
  scenarios.push_back({"two_cycles", [] { Cycles(1, 1, true); }, 1, UINT64_MAX,
                       "two nodes, then another cycle, 1 worker, 1 preemption"});
  scenarios.push_back({"from_callback", [] { FromCallback(2, 1, kNumQuick); }, 1, UINT64_MAX,
                       "the next cycle is started from the callback, 1-2 workers, 1 preemption"});
  scenarios.push_back({"two_clients", [] { TwoClients(1, 1); }, 1, UINT64_MAX,
                       "two clients add concurrently, 1 worker, 1 preemption"});
  scenarios.push_back({"sampling", [] { Sampling(kNumQuick == kNumPrograms ? 5 : 4); }, 3, UINT64_MAX,
                       "all sequences of requests (5 in 2D, 4 in 3D) to two submaps, 3 sampling ratios"});
  scenarios.push_back({"cycle_2", [] { Cycles(2, 2, false); }, 2, UINT64_MAX,
                       "two nodes with 0-2 requests, 1-2 workers, 2 preemptions"});
  scenarios.push_back({"two_cycles_2", [] { Cycles(2, 1, true); }, 2, UINT64_MAX,
                       "two nodes, then another cycle, 1-2 workers, 1 preemption"});
  scenarios.push_back({"from_callback_2", [] { FromCallback(2, 2); }, 2, UINT64_MAX,
                       "the next cycle is started from the callback, 1-2 workers, 2 preemptions"});
  scenarios.push_back({"two_clients_2", [] { TwoClients(2, 2); }, 2, UINT64_MAX,
                       "two clients add concurrently, 1-2 workers, 2 preemptions"});
  return mc::Main(argc, argv, scenarios,
                  {"stateless model checking under a controlled scheduler, with race detection",
                   {"sequential consistency (races are reported)"}});
}
