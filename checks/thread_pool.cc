// Thread pool and task graph: every schedule (up to the preemption bound) of
// small task graphs, executed by the real pool.
#include <memory>
#include <thread>
#include <vector>

#include "absl/memory/memory.h"
#include "absl/synchronization/mutex.h"
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "mc.h"
#include "mc_sched.h"

#define UNCHECKED __attribute__((no_sanitize("thread"), noinline))

namespace {

using cartographer::common::Task;
using cartographer::common::ThreadPool;

constexpr int kMax = 8;

// Bookkeeping of the oracle, invisible to the race detector.
struct Oracle {
  int started[kMax] = {};
  int finished[kMax] = {};
  std::vector<int> deps[kMax];
  bool scheduled[kMax] = {};
  UNCHECKED void Start(int i) {
    mc::step();
    ++started[i];
    if (started[i] != 1) {
      mc::fail("task " + std::to_string(i) + " executed more than once");
    }
    for (int d : deps[i]) {
      if (!finished[d]) {
        mc::fail("task " + std::to_string(i) + " started before its dependency " +
                 std::to_string(d) + " completed");
      }
    }
  }
  UNCHECKED void Finish(int i) {
    ++finished[i];
    MC_LOG("task " << i << " done on thread " << sched::CurrentThread());
  }
  UNCHECKED int NumFinished() const {
    int n = 0;
    for (int f : finished) n += f;
    return n;
  }
  UNCHECKED bool Finished(int i) const { return finished[i] == 1; }
};

struct World {
  Oracle oracle;
  int value[kMax] = {};  // written by task i, read by its dependents
  absl::Mutex mutex;
  int completed = 0;  // guarded by mutex

  std::unique_ptr<Task> Make(int i, const std::vector<int>& deps,
                             const std::vector<std::weak_ptr<Task>>& handles,
                             std::function<void()> extra = nullptr) {
    auto task = absl::make_unique<Task>();
    oracle.deps[i] = deps;
    task->SetWorkItem([this, i, deps, extra] {
      oracle.Start(i);
      int sum = i;
      for (int d : deps) sum += value[d];
      value[i] = sum;
      sched::Point();
      if (extra) extra();
      oracle.Finish(i);
      absl::MutexLock locker(&mutex);
      ++completed;
    });
    for (int d : deps) task->AddDependency(handles[d]);
    return task;
  }
  void WaitFor(int n) {
    absl::MutexLock locker(&mutex);
    const auto predicate = [this, n] { return completed >= n; };
    mutex.Await(absl::Condition(&predicate));
  }
};

void CheckHandle(const World& world, const std::weak_ptr<Task>& handle, int i) {
  if (handle.expired()) {
    MC_CHECK(world.oracle.Finished(i),
             "the handle of task " << i << " expired before the task completed");
  } else if (auto task = handle.lock()) {
    if (task->GetState() == Task::COMPLETED) {
      MC_CHECK(world.oracle.Finished(i), "task " << i << " reported COMPLETED early");
    }
  }
}

void Finale(const World& world, int n) {
  for (int i = 0; i < n; ++i) {
    MC_CHECK(world.oracle.started[i] == 1 && world.oracle.finished[i] == 1,
             "task " << i << " was executed " << world.oracle.started[i] << " times");
  }
}

// All dependency graphs over n tasks, scheduled by one thread.
void Graph(int n, int max_threads, int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  sched::Run(options, [&] {
    const int threads = 1 + mc::choose(max_threads);
    std::vector<std::vector<int>> deps(n);
    for (int i = 1; i < n; ++i) {
      const int subset = mc::choose(1 << i);
      for (int d = 0; d < i; ++d) {
        if (subset >> d & 1) deps[i].push_back(d);
      }
    }
    // 0: destroy the pool right away, 1: wait for all tasks first,
    // 2: observe the handles while the pool works.
    const int mode = mc::choose(3);
    World world;
    {
      ThreadPool pool(threads);
      std::vector<std::weak_ptr<Task>> handles;
      for (int i = 0; i < n; ++i) {
        handles.push_back(pool.Schedule(world.Make(i, deps[i], handles)));
        if (mode == 2) CheckHandle(world, handles[i], i);
      }
      if (mode == 2) {
        for (int i = 0; i < n; ++i) CheckHandle(world, handles[i], i);
      }
      if (mode >= 1) world.WaitFor(n);
    }
    Finale(world, n);
    mc::sample("threads=" + std::to_string(threads) + " tasks=" + std::to_string(n));
  });
}

// Two client threads schedule into one pool; the second one depends on tasks
// of the first one which may be running or completed already.
void TwoClients(int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  sched::Run(options, [&] {
    const int threads = 1 + mc::choose(2);
    const int subset = mc::choose(4);
    World world;
    {
      ThreadPool pool(threads);
      absl::Mutex mutex;
      std::vector<std::weak_ptr<Task>> handles(2);
      int published = 0;
      std::thread client([&] {
        for (int i = 0; i < 2; ++i) {
          auto handle = pool.Schedule(world.Make(i, {}, {}));
          absl::MutexLock locker(&mutex);
          handles[i] = handle;
          ++published;
        }
      });
      std::vector<std::weak_ptr<Task>> seen;
      int n = 0;
      {
        absl::MutexLock locker(&mutex);
        n = published;
        seen = handles;
      }
      std::vector<int> deps;
      for (int d = 0; d < n; ++d) {
        if (subset >> d & 1) deps.push_back(d);
      }
      pool.Schedule(world.Make(2, deps, seen));
      client.join();
      world.WaitFor(3);
    }
    Finale(world, 3);
  });
}

// Work items that schedule further work, as the pose graph does.
void Continuations(int preemptions) {
  sched::Options options;
  options.preemptions = preemptions;
  sched::Run(options, [&] {
    const int threads = 1 + mc::choose(2);
    const bool depend = mc::flip();
    const bool depend_on_sibling = mc::flip();
    World world;
    {
      ThreadPool pool(threads);
      std::weak_ptr<Task> sibling = pool.Schedule(world.Make(0, {}, {}));
      std::vector<std::weak_ptr<Task>> handles = {sibling};
      pool.Schedule(world.Make(1, {}, {}, [&] {
        auto child = pool.Schedule(world.Make(
            2, depend_on_sibling ? std::vector<int>{0} : std::vector<int>{}, handles));
        std::vector<std::weak_ptr<Task>> h = {sibling, {}, child};
        pool.Schedule(world.Make(
            3, depend ? std::vector<int>{2} : std::vector<int>{}, h));
      }));
      world.WaitFor(4);
    }
    Finale(world, 4);
  });
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "stateless exploration of the real pool under a controlled scheduler "
      "(preemption bounded), with race and use-after-free detection";
  return mc::Main(
      argc, argv,
      {{"graphs3", [] { Graph(3, 2, 2); }, 1, UINT64_MAX,
        "all dependency graphs over 3 tasks, 1-2 workers, 2 preemptions"},
       {"two_clients", [] { TwoClients(2); }, 1, UINT64_MAX,
        "2 client threads, 3 tasks, 1-2 workers, 2 preemptions"},
       {"continuations", [] { Continuations(2); }, 1, UINT64_MAX,
        "tasks scheduled by running tasks, 1-2 workers, 2 preemptions"},
       {"graphs3_deep", [] { Graph(3, 2, 3); }, 2, UINT64_MAX,
        "all dependency graphs over 3 tasks, 1-2 workers, 3 preemptions"},
       {"graphs4", [] { Graph(4, 2, 2); }, 2, UINT64_MAX,
        "all dependency graphs over 4 tasks, 1-2 workers, 2 preemptions"},
       {"graphs3_three_workers", [] { Graph(3, 3, 2); }, 2, UINT64_MAX,
        "all dependency graphs over 3 tasks, 1-3 workers, 2 preemptions"},
       {"two_clients_deep", [] { TwoClients(3); }, 2, UINT64_MAX,
        "2 client threads, 3 tasks, 1-2 workers, 3 preemptions"},
       {"continuations_deep", [] { Continuations(3); }, 2, UINT64_MAX,
        "tasks scheduled by running tasks, 1-2 workers, 3 preemptions"}},
      config);
}
