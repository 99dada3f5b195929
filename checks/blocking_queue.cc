// Blocking queue: every program of bounded size over its operations, on every
// schedule up to the preemption bound; each history must be linearizable with
// respect to a bounded FIFO, and operations may only block when the FIFO says
// so.
#include <deque>
#include <memory>
#include <thread>
#include <vector>

#include "cartographer/common/internal/blocking_queue.h"
#include "mc.h"
#include "mc_sched.h"

#define UNCHECKED __attribute__((no_sanitize("thread"), noinline))

namespace {

struct NoDelete {
  void operator()(const int*) const {}
};
using Item = std::unique_ptr<const int, NoDelete>;
using Queue = cartographer::common::BlockingQueue<Item>;

enum Kind { kPush, kPushTimed, kPop, kPopTimed, kSize, kPeek, kPeekTimed, kWaitEmpty };
const char* const kNames[] = {"Push", "PushWithTimeout", "Pop", "PopWithTimeout",
                              "Size", "Peek", "PeekWithTimeout", "WaitUntilEmpty"};

struct Op {
  int thread, kind, value;
  int begin = -1, end = -1;  // event numbers
  int result = -1;           // item, 0/1, size
};

constexpr int kNone = -2;
int items[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};

struct History {
  std::vector<Op> ops;
  int clock = 0;
  size_t capacity = 0;

  UNCHECKED void Begin(int i) { ops[i].begin = clock++; }
  UNCHECKED void End(int i, int result) {
    ops[i].result = result;
    ops[i].end = clock++;
    mc::step();
  }

  // Applies op i to the FIFO; false if it cannot happen now with that result.
  UNCHECKED bool Apply(const Op& op, std::deque<int>* q) const {
    const bool full = capacity != 0 && q->size() >= capacity;
    switch (op.kind) {
      case kPush:
        if (full) return false;
        q->push_back(op.value);
        return true;
      case kPushTimed:
        if (op.result == 0) return full;
        if (full) return false;
        q->push_back(op.value);
        return true;
      case kPop:
      case kPopTimed:
        if (op.result == kNone) return op.kind == kPopTimed && q->empty();
        if (q->empty() || q->front() != op.result) return false;
        q->pop_front();
        return true;
      case kSize:
        return op.result == static_cast<int>(q->size());
      case kPeek:
      case kPeekTimed:
        return op.result == (q->empty() ? kNone : q->front());
      case kWaitEmpty:
        return q->empty();
    }
    return false;
  }
  UNCHECKED bool Enabled(const Op& op, const std::deque<int>& q) const {
    switch (op.kind) {
      case kPush:
        return !(capacity != 0 && q.size() >= capacity);
      case kPop:
        return !q.empty();
      case kWaitEmpty:
        return q.empty();
    }
    return true;
  }
  // Searches a linearization of the completed operations after which all
  // pending ones are blocked.
  UNCHECKED bool Linearizable(unsigned done, const std::deque<int>& q) const {
    bool all = true;
    for (size_t i = 0; i < ops.size(); ++i) {
      if ((done >> i & 1) || ops[i].end < 0) continue;
      all = false;
      bool minimal = true;
      for (size_t j = 0; j < ops.size(); ++j) {
        if (!(done >> j & 1) && ops[j].end >= 0 && ops[j].end < ops[i].begin) {
          minimal = false;
        }
      }
      if (!minimal) continue;
      std::deque<int> next = q;
      if (!Apply(ops[i], &next)) continue;
      if (Linearizable(done | 1u << i, next)) return true;
    }
    if (!all) return false;
    for (const Op& op : ops) {
      if (op.begin >= 0 && op.end < 0 && Enabled(op, q)) return false;
    }
    return true;
  }
  UNCHECKED std::string ToString() const {
    std::ostringstream os;
    os << "capacity " << capacity << ":";
    for (const Op& op : ops) {
      os << " [t" << op.thread << " " << kNames[op.kind];
      if (op.kind <= kPushTimed) os << "(" << op.value << ")";
      if (op.end >= 0) {
        os << "=" << op.result << " @" << op.begin << "-" << op.end << "]";
      } else {
        os << (op.begin >= 0 ? " blocked]" : " not started]");
      }
    }
    return os.str();
  }
  UNCHECKED void Check() const {
    if (!Linearizable(0, {})) {
      mc::fail("history is not linearizable as a bounded FIFO: " + ToString());
    }
    mc::sample(ToString());
  }
};

void Perform(Queue* queue, History* history, int i) {
  const cartographer::common::Duration timeout =
      cartographer::common::FromSeconds(0.01);
  const Op op = history->ops[i];
  history->Begin(i);
  int result = 0;
  switch (op.kind) {
    case kPush:
      queue->Push(Item(&items[op.value]));
      break;
    case kPushTimed:
      result = queue->PushWithTimeout(Item(&items[op.value]), timeout);
      break;
    case kPop: {
      Item item = queue->Pop();
      result = item ? *item : kNone;
      break;
    }
    case kPopTimed: {
      Item item = queue->PopWithTimeout(timeout);
      result = item ? *item : kNone;
      break;
    }
    case kSize:
      result = queue->Size();
      break;
    case kPeek: {
      const int* p = queue->Peek<const int>();
      result = p ? *p : kNone;
      break;
    }
    case kPeekTimed: {
      const int* p = queue->PeekWithTimeout<const int>(timeout);
      result = p ? *p : kNone;
      break;
    }
    case kWaitEmpty:
      queue->WaitUntilEmpty();
      break;
  }
  history->End(i, result);
}

// 'shape': operations per thread.
void Programs(const std::vector<int>& shape, const std::vector<int>& kinds,
              const std::vector<int>& capacities, int preemptions, int timeouts) {
  History history;
  sched::Options options;
  options.preemptions = preemptions;
  options.timeouts = timeouts;
  options.on_deadlock = [&history] {
    history.Check();
    return true;
  };
  sched::Run(options, [&] {
    history.capacity = mc::pick(capacities);
    std::vector<std::vector<int>> programs(shape.size());
    for (size_t t = 0; t < shape.size(); ++t) {
      for (int k = 0; k < shape[t]; ++k) {
        Op op;
        op.thread = t;
        op.kind = mc::pick(kinds);
        op.value = history.ops.size() + 1;
        programs[t].push_back(history.ops.size());
        history.ops.push_back(op);
      }
    }
    {
      auto queue = history.capacity == 0
                       ? std::unique_ptr<Queue>(new Queue())
                       : std::unique_ptr<Queue>(new Queue(history.capacity));
      std::vector<std::thread> threads;
      for (size_t t = 1; t < shape.size(); ++t) {
        threads.emplace_back([&, t] {
          for (int i : programs[t]) Perform(queue.get(), &history, i);
        });
      }
      for (int i : programs[0]) Perform(queue.get(), &history, i);
      for (auto& thread : threads) thread.join();
      // What is left comes out in the remaining order.
      Op rest;
      rest.thread = 0;
      rest.kind = kPopTimed;
      for (;;) {
        history.ops.push_back(rest);
        Perform(queue.get(), &history, history.ops.size() - 1);
        if (history.ops.back().result == kNone) break;
      }
    }
    history.Check();
  });
}

const std::vector<int> kAll = {kPush, kPushTimed, kPop,       kPopTimed,
                               kSize, kPeek,      kPeekTimed, kWaitEmpty};
const std::vector<int> kCore = {kPush, kPushTimed, kPop, kPopTimed};

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "stateless exploration of the real queue under a controlled scheduler; "
      "every history checked for linearizability against a bounded FIFO";
  return mc::Main(
      argc, argv,
      {{"programs_2x2", [] { Programs({2, 2}, kAll, {0, 1}, 2, 1); }, 3, UINT64_MAX,
        "2 threads x 2 operations (8 kinds), capacity 1/unbounded, 2 preemptions, "
        "1 early timeout"},
       {"core_3x1x2", [] { Programs({2, 1, 1}, kCore, {1}, 1, 1); }, 1, UINT64_MAX,
        "3 threads, 2+1+1 operations (4 kinds), capacity 1, 1 preemption"},
       {"core_2x3", [] { Programs({3, 3}, kCore, {1, 2}, 1, 0); }, 1, UINT64_MAX,
        "2 threads x 3 operations (4 kinds), capacity 1-2, 1 preemption"},
       {"core_3x2", [] { Programs({2, 2, 2}, kCore, {1, 2}, 1, 1); }, 2, UINT64_MAX,
        "3 threads x 2 operations (4 kinds), capacity 1-2, 1 preemption"},
       {"core_2x3_deep", [] { Programs({3, 3}, kCore, {0, 1, 2}, 2, 1); }, 2,
        UINT64_MAX, "2 threads x 3 operations (4 kinds), capacity 0-2, 2 preemptions"}},
      config);
}
