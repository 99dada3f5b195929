// The pose graph as a whole: the real work queue, constraint search, solver
// and thread pool, against a sequential model of what the calls mean.
#include <iostream>
#include <thread>
#include <vector>

#include "mc.h"
#include "mc_sched.h"
#include "pose_graph_model.h"
#include "pose_graph_world.h"

namespace {

sched::Options SchedulerOptions(int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  options.stack_size = 8 << 20;
  return options;
}

// All sequences of 'depth' calls; between calls the background work may or may
// not have been done.
void Sequences(const std::vector<Op>& ops, const int depth, const int preemptions,
               const std::vector<Op>& prefix = {}) {
  sched::Run(SchedulerOptions(preemptions), [&] {
    Model model;
    System system(1);
    std::string history;
    // Where trajectory A was at the time the initial pose refers to.
    const auto initial_frame = [&] {
      const auto nodes = system.graph->GetTrajectoryNodes();
      std::vector<Rigid3d> poses;
      for (const auto& node : nodes) {
        if (node.id.trajectory_id == kA) poses.push_back(node.data.global_pose);
      }
      if (poses.empty()) return Rigid3d::Identity();
      const double index = std::min(model.initial_index, poses.size() - 1.);
      const int i = static_cast<int>(index);
      if (i + 1 == static_cast<int>(poses.size())) return poses[i];
      return Rigid3d((i + 1 - index) * poses[i].translation() +
                         (index - i) * poses[i + 1].translation(),
                     poses[i].rotation().slerp(index - i, poses[i + 1].rotation()));
    };
    const auto apply = [&](const Op op) {
      mc::step();
      MC_LOG(kOpNames[static_cast<int>(op)]);
      history += std::string(history.empty() ? "" : ", ") + kOpNames[static_cast<int>(op)];
      const Rigid3d before = initial_frame();
      system.Apply(op);
      model.Apply(op);
      if ((op == Op::kNodeB || op == Op::kStayB) && model.num_added[kB] == 1 && model.initial) {
        // Unless it was moved meanwhile, the first node is where it was said
        // to be relative to the other trajectory.
        const Rigid3d expected = before * system.initial_pose * LocalNodePose(kB, 0);
        const Rigid3d actual =
            system.graph->GetTrajectoryNodes().at(NodeId{kB, 0}).global_pose;
        MC_CHECK(Difference(before, initial_frame()) > 1e-9 || Difference(expected, actual) < 1e-3,
                 "initial pose " << actual << ", expected " << expected);
      }
    };
    const auto check_initial_pose = [&] {
      sched::NoPreempt atomic;
      const auto nodes = system.graph->GetTrajectoryNodes();
      if (!model.initial || model.num_added[kB] != 1 || !nodes.Contains(NodeId{kA, 0}) ||
          !nodes.Contains(NodeId{kB, 0})) {
        return;
      }
      const Rigid3d expected = LocalNodePose(kA, 0).inverse() * LocalFrame(kA).inverse() *
                               LocalFrame(kB) * LocalNodePose(kB, 0);
      const Rigid3d actual = nodes.at(NodeId{kA, 0}).global_pose.inverse() *
                             nodes.at(NodeId{kB, 0}).global_pose;
      MC_CHECK(Difference(expected, actual) < 0.5,
               "initial pose " << actual << ", expected " << expected);
    };
    for (const Op op : prefix) apply(op);
    for (int i = 0; i < depth; ++i) {
      std::vector<Op> allowed;
      for (const Op op : ops) {
        if (model.Allowed(op)) allowed.push_back(op);
      }
      // Shorter sequences are covered, too: 'allowed.size()' means stop.
      const int choice = mc::choose(allowed.size() + 1);
      if (choice == 0) break;
      apply(allowed[choice - 1]);
      check_initial_pose();
      CheckContinuity(*system.graph);
      if (mc::flip()) {
        sched::WaitUntilQuiescent();
        CheckIntegrity(*system.graph);
      }
    }
    apply(Op::kFinal);
    mc::sample(history);
    CheckFinal(system, model);
  });
}

const std::vector<std::vector<Op>>& Programs() {
  static const auto* const programs = new std::vector<std::vector<Op>>{
      {Op::kNodeA, Op::kNodeA},
      {Op::kNodeA, Op::kNodeA, Op::kFinishA},
      {Op::kNodeA, Op::kNodeA, Op::kNodeA, Op::kNodeA},
      {Op::kStayA, Op::kStayA, Op::kFinishA, Op::kDeleteA, Op::kNodeB},
      {Op::kNodeA, Op::kOdometryA, Op::kFinishA, Op::kDeleteA, Op::kNodeB},
      {Op::kLoad, Op::kNodeB, Op::kNodeB},
      {Op::kFixedFrameA, Op::kNodeA, Op::kFixedFrameA, Op::kLandmarkA, Op::kNodeA, Op::kFinishA},
      {Op::kTrimB, Op::kNodeB, Op::kNodeB, Op::kNodeB, Op::kNodeB, Op::kFinishB},
      {Op::kNodeA, Op::kNodeA, Op::kFinishA, Op::kNodeB, Op::kDeleteA, Op::kNodeB},
  };
  return *programs;
}

// One client runs a program, another one looks at the graph meanwhile.
void Observed(const std::vector<std::vector<Op>>& programs, const int max_threads,
              const int preemptions) {
  sched::Run(SchedulerOptions(preemptions), [&] {
    Model model;
    System system(1 + mc::choose(max_threads));
    const auto program = mc::pick(programs);
    std::thread observer([&] { CheckIntegrity(*system.graph); });
    for (const Op op : program) {
      mc::step();
      MC_LOG(kOpNames[static_cast<int>(op)]);
      system.Apply(op);
      model.Apply(op);
    }
    system.Apply(Op::kFinal);
    model.Apply(Op::kFinal);
    observer.join();
    CheckFinal(system, model);
  });
}

// Two clients at the same time. What they ask for commutes, so the result is
// the same for all schedules.
struct Concurrent {
  std::vector<Op> first, one, other;
};
const std::vector<Concurrent>& ConcurrentPrograms() {
  static const auto* const programs = new std::vector<Concurrent>{
      {{}, {Op::kNodeA, Op::kNodeA}, {Op::kNodeB, Op::kNodeB}},
      {{Op::kLoad}, {Op::kNodeA, Op::kNodeA}, {Op::kDeleteFrozen}},
      {{Op::kNodeA, Op::kNodeA, Op::kFinishA}, {Op::kNodeB, Op::kNodeB}, {Op::kDeleteA}},
      {{Op::kNodeA}, {Op::kOdometryA, Op::kFinishA}, {Op::kLoad}},
      {{Op::kNodeA}, {Op::kLandmarkA, Op::kNodeA}, {Op::kFixLandmark}},
      {{Op::kNodeB}, {Op::kNodeB, Op::kNodeB}, {Op::kTrimB}},
      {{Op::kNodeB}, {Op::kOdometryA, Op::kNodeA, Op::kLandmarkA}, {Op::kFinishB}},
  };
  return *programs;
}
void Clients(const int max_threads, const int preemptions) {
  sched::Run(SchedulerOptions(preemptions), [&] {
    Model model;
    System system(1 + mc::choose(max_threads));
    const Concurrent program = mc::pick(ConcurrentPrograms());
    for (const auto* ops : {&program.first, &program.one, &program.other}) {
      for (const Op op : *ops) model.Apply(op);
    }
    model.Apply(Op::kFinal);
    for (const Op op : program.first) {
      MC_LOG(kOpNames[static_cast<int>(op)]);
      system.Apply(op);
    }
    // The outcome of the constraint search depends on what was optimized.
    sched::WaitUntilQuiescent();
    std::thread other([&] {
      for (const Op op : program.other) {
        MC_LOG("concurrently: " << kOpNames[static_cast<int>(op)]);
        system.Apply(op);
      }
    });
    for (const Op op : program.one) {
      mc::step();
      MC_LOG(kOpNames[static_cast<int>(op)]);
      system.Apply(op);
    }
    other.join();
    system.Apply(Op::kFinal);
    CheckFinal(system, model);
  });
}

}  // namespace

int main(int argc, char** argv) {
  std::cout.setstate(std::ios::failbit);
  const std::vector<Op> all = {Op::kNodeA,     Op::kNodeB,     Op::kFinishA,   Op::kFinishB,
                               Op::kDeleteA,   Op::kDeleteB,   Op::kLandmarkA, Op::kLandmarkB,
                               Op::kOdometryA, Op::kOdometryB, Op::kLoad,      Op::kTrimB,
                               Op::kInitialB,  Op::kInitialBetweenB, Op::kInitialLateB, Op::kFinal, Op::kFixLandmark, Op::kLandmarkAtA, Op::kDeleteFrozen,
                               Op::kFixedFrameA, Op::kLoadSecond, Op::kStayA, Op::kStayB, Op::kFreeLandmark};
  const auto depth = [] { return mc::thorough() ? 4 : 3; };
  const std::string calls = "all sequences of up to 3 (thorough: 4) calls, ";
  std::vector<mc::Scenario> scenarios;
  const auto after = [&](const char* name, const std::vector<Op>& prefix, const std::string& what) {
    scenarios.push_back({name, [all, depth, prefix] { Sequences(all, depth(), 0, prefix); }, 3,
                         UINT64_MAX, calls + "starting with " + what});
  };
  after("sequences", {}, "an empty graph");
  after("one_trajectory", {Op::kNodeA, Op::kNodeA}, "a trajectory");
  after("two_trajectories", {Op::kNodeA, Op::kNodeA, Op::kNodeB, Op::kNodeB}, "two trajectories");
  after("localization", {Op::kLoad, Op::kTrimB, Op::kNodeB, Op::kNodeB, Op::kNodeB},
        "a localization run in a loaded map");
  after("initial_pose", {Op::kNodeA, Op::kNodeA, Op::kInitialB, Op::kNodeB},
        "a relative initial pose");
  after("long_submaps", {Op::kStayA, Op::kLandmarkA, Op::kStayA, Op::kNodeA, Op::kStayA, Op::kFixLandmark},
        "submaps with several nodes and a fixed landmark");
  after("deletion", {Op::kLandmarkA, Op::kNodeA, Op::kFixedFrameA, Op::kNodeA, Op::kFinishA,
                     Op::kNodeB, Op::kDeleteA},
        "the deletion of a trajectory");
  scenarios.push_back({"observed", [] { Observed(Programs(), 1, mc::thorough() ? 2 : 1); }, 3,
                       UINT64_MAX,
                       "selected programs with an observer, 1 worker, 1 (2) preemptions"});
  scenarios.push_back({"clients", [] { Clients(1, mc::thorough() ? 2 : 1); }, 3, UINT64_MAX,
                       "two clients, 1 worker, 1 (2) preemptions"});
  scenarios.push_back({"workers", [] { Observed(Programs(), 2, 0); }, 2, UINT64_MAX,
                       "selected programs with an observer, up to 2 workers, no preemption"});
  return mc::Main(argc, argv, scenarios,
                  {"stateless model checking under a controlled scheduler, with race detection",
                   {"sequential consistency (races are reported)"}});
}
