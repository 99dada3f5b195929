// Connectivity of trajectories: all bounded histories against a graph.
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include <vector>

#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "cartographer/mapping/proto/connected_components.pb.h"
#include "mc.h"
#include "mc_sched.h"

#define UNCHECKED __attribute__((no_sanitize("thread"), noinline))

namespace {

using namespace cartographer;
using mapping::ConnectedComponents;
using mapping::TrajectoryConnectivityState;

// Ids are not consecutive.
const int kIds[] = {0, 7, 3, 12, 5};

common::Time At(const int i) { return common::FromUniversal(1000000 + i); }

struct Model {
  std::set<int> tracked;
  std::map<std::pair<int, int>, int> edges;
  std::map<std::pair<int, int>, int> times;

  UNCHECKED static std::pair<int, int> Pair(int a, int b) {
    return a < b ? std::make_pair(a, b) : std::make_pair(b, a);
  }
  UNCHECKED std::set<int> Component(const int a) const {
    std::set<int> result = {a};
    for (size_t size = 0; size != result.size();) {
      size = result.size();
      for (const auto& e : edges) {
        if (result.count(e.first.first)) result.insert(e.first.second);
        if (result.count(e.first.second)) result.insert(e.first.first);
      }
    }
    return result;
  }
  UNCHECKED bool Connected(const int a, const int b) const {
    return a == b || Component(a).count(b);
  }
  UNCHECKED void Connect(const int a, const int b, const int time) {
    tracked.insert(a);
    tracked.insert(b);
    if (Connected(a, b)) {
      auto it = times.emplace(Pair(a, b), time).first;
      it->second = std::max(it->second, time);
    } else {
      for (const int c : Component(a)) {
        for (const int d : Component(b)) times[Pair(c, d)] = time;
      }
    }
    ++edges[Pair(a, b)];
  }
  UNCHECKED std::set<std::set<int>> Components() const {
    std::set<std::set<int>> result;
    for (const int a : tracked) result.insert(Component(a));
    return result;
  }
};

UNCHECKED std::set<std::set<int>> ToSets(const std::vector<std::vector<int>>& v) {
  std::set<std::set<int>> result;
  size_t total = 0;
  for (const auto& c : v) {
    result.insert(std::set<int>(c.begin(), c.end()));
    total += c.size();
  }
  size_t distinct = 0;
  for (const auto& c : result) distinct += c.size();
  MC_CHECK(distinct == total && result.size() == v.size(), "repeated ids or components");
  return result;
}

void CheckProto(const std::vector<std::vector<int>>& components, const Model& model) {
  const auto proto = mapping::ToProto(components);
  std::vector<std::vector<int>> expected;
  for (const auto& c : model.Components()) expected.emplace_back(c.begin(), c.end());
  std::sort(expected.begin(), expected.end());
  MC_CHECK(proto.connected_component_size() == static_cast<int>(expected.size()), "proto");
  for (size_t i = 0; i != expected.size(); ++i) {
    const auto& ids = proto.connected_component(i).trajectory_id();
    MC_CHECK(std::vector<int>(ids.begin(), ids.end()) == expected[i], "proto component " << i);
  }
}

// Operations in any order, everything is asked after each of them.
void Histories(const int num_ids, const int depth, const bool reversed_queries) {
  ConnectedComponents components;
  TrajectoryConnectivityState state;
  Model model;
  for (int i = 0; i != depth; ++i) {
    const int a = kIds[mc::choose(num_ids)];
    const int b = kIds[mc::choose(num_ids)];
    if (mc::choose(2) == 0) {
      if (a != b) mc::prune();
      MC_LOG("add " << a);
      components.Add(a);
      state.Add(a);
      model.tracked.insert(a);
    } else {
      const int time = mc::choose(2);
      MC_LOG("connect " << a << " " << b << " at " << time);
      components.Connect(a, b);
      state.Connect(a, b, At(time));
      model.Connect(a, b, time);
    }
    mc::step();
    // Finding a set changes the forest, so try another order too.
    for (int k = 0; k != num_ids * num_ids; ++k) {
      const int n = reversed_queries ? num_ids * num_ids - 1 - k : k;
      const int c = kIds[n / num_ids], d = kIds[n % num_ids];
      MC_CHECK(components.TransitivelyConnected(c, d) == model.Connected(c, d),
               "connected " << c << " " << d);
      MC_CHECK(state.TransitivelyConnected(c, d) == model.Connected(c, d),
               "state: connected " << c << " " << d);
      const auto edge = model.edges.find(Model::Pair(c, d));
      MC_CHECK(components.ConnectionCount(c, d) ==
                   (edge == model.edges.end() ? 0 : edge->second),
               "connection count " << c << " " << d);
      const auto time = model.times.find(Model::Pair(c, d));
      MC_CHECK(state.LastConnectionTime(c, d) ==
                   (time == model.times.end() ? common::Time() : At(time->second)),
               "last connection time of " << c << " " << d);
    }
    for (const int c : model.tracked) {
      const std::vector<int> component = components.GetComponent(c);
      MC_CHECK(ToSets({component}) == std::set<std::set<int>>{model.Component(c)},
               "component of " << c);
    }
    MC_CHECK(ToSets(components.Components()) == model.Components(), "components");
    MC_CHECK(ToSets(state.Components()) == model.Components(), "state: components");
    CheckProto(state.Components(), model);
  }
}

// Two threads, each with its own operations: what each of them sees is
// possible in some order.
struct Op {
  int kind, a, b;
  std::vector<int> result;
  int begin = -1, end = -1;
};
enum { kConnect, kConnected, kCount, kComponents, kAdd, kNumKinds };

UNCHECKED std::vector<int> Flatten(const std::set<std::set<int>>& sets) {
  std::vector<int> result;
  for (const auto& s : sets) {
    result.insert(result.end(), s.begin(), s.end());
    result.push_back(-1);
  }
  return result;
}

struct History {
  std::vector<Op> ops;
  int clock = 0;
  UNCHECKED void Begin(const int i) { ops[i].begin = clock++; }
  UNCHECKED void End(const int i, const std::vector<int>& result) {
    ops[i].result = result;
    ops[i].end = clock++;
    mc::step();
  }
  UNCHECKED void EndWithComponents(const int i, const std::vector<std::vector<int>>& c) {
    End(i, Flatten(ToSets(c)));
  }
  UNCHECKED bool Possible(const unsigned done, const Model& model) const {
    if (done + 1 == 1u << ops.size()) return true;
    for (size_t i = 0; i != ops.size(); ++i) {
      if (done >> i & 1) continue;
      bool minimal = true;
      for (size_t j = 0; j != ops.size(); ++j) {
        if (!(done >> j & 1) && ops[j].end < ops[i].begin) minimal = false;
      }
      if (!minimal) continue;
      Model next = model;
      std::vector<int> result;
      const Op& op = ops[i];
      switch (op.kind) {
        case kConnect:
          next.Connect(op.a, op.b, 0);
          break;
        case kAdd:
          next.tracked.insert(op.a);
          break;
        case kConnected:
          result = {model.Connected(op.a, op.b)};
          break;
        case kCount: {
          const auto edge = model.edges.find(Model::Pair(op.a, op.b));
          result = {edge == model.edges.end() ? 0 : edge->second};
          break;
        }
        case kComponents:
          result = Flatten(model.Components());
          break;
      }
      if (result == op.result && Possible(done | 1u << i, next)) return true;
    }
    return false;
  }
  UNCHECKED std::string ToString() const {
    const char* const names[] = {"connect", "connected", "count", "components", "add"};
    std::ostringstream os;
    for (const Op& op : ops) {
      os << " [" << names[op.kind] << " " << op.a << " " << op.b << " @" << op.begin << "-"
         << op.end << " =";
      for (const int r : op.result) os << " " << r;
      os << "]";
    }
    return os.str();
  }
};

void Perform(ConnectedComponents* const components, History* const history, const int i) {
  const Op op = history->ops[i];
  history->Begin(i);
  switch (op.kind) {
    case kConnect:
      components->Connect(op.a, op.b);
      history->End(i, {});
      break;
    case kAdd:
      components->Add(op.a);
      history->End(i, {});
      break;
    case kConnected:
      history->End(i, {components->TransitivelyConnected(op.a, op.b)});
      break;
    case kCount:
      history->End(i, {components->ConnectionCount(op.a, op.b)});
      break;
    case kComponents:
      history->EndWithComponents(i, components->Components());
      break;
  }
}

UNCHECKED void Threads(const int ops_per_thread) {
  const int pairs[][2] = {{0, 3}, {3, 7}, {7, 0}};
  History history;
  for (int i = 0; i != 2 * ops_per_thread; ++i) {
    Op op;
    op.kind = mc::choose(kNumKinds);
    const int pair = op.kind == kComponents ? 0 : mc::choose(3);
    op.a = pairs[pair][0];
    op.b = pairs[pair][1];
    history.ops.push_back(op);
  }
  sched::Options options;
  options.preemptions = 2;
  Model model;
  sched::Run(options, [&] {
    ConnectedComponents components;
    components.Connect(0, 12);
    components.Connect(3, 5);
    model.Connect(0, 12, 0);
    model.Connect(3, 5, 0);
    std::thread other([&] {
      for (int i = 0; i != ops_per_thread; ++i) Perform(&components, &history, ops_per_thread + i);
    });
    for (int i = 0; i != ops_per_thread; ++i) Perform(&components, &history, i);
    other.join();
    history.ops.push_back({kComponents, 0, 0, {}, -1, -1});
    Perform(&components, &history, 2 * ops_per_thread);
  });
  MC_CHECK(history.Possible(0, model), "not possible in any order:" << history.ToString());
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"few_trajectories", [] { Histories(3, mc::thorough() ? 6 : 4, false); }, 3,
                       UINT64_MAX, "4 (thorough: 6) operations on 3 trajectories"});
  scenarios.push_back({"many_trajectories", [] { Histories(5, mc::thorough() ? 4 : 3, true); }, 3,
                       UINT64_MAX, "3 (4) operations on 5 trajectories"});
  scenarios.push_back({"four_trajectories", [] { Histories(4, 4, true); }, 2,
                       UINT64_MAX, "thorough only: 4 operations on 4 trajectories"});
  scenarios.push_back({"threads", [] { Threads(2); }, 3, UINT64_MAX,
                       "2 threads with 2 operations each, up to 2 preemptions"});
  return mc::Main(argc, argv, scenarios,
                  {"explicit enumeration of histories and schedules", {}});
}
