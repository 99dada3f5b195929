// MapById and MapByTime against reference containers, over all bounded
// histories of operations.
#include <map>
#include <set>
#include <vector>

#include "cartographer/common/time.h"
#include "cartographer/mapping/id.h"
#include "cartographer/sensor/map_by_time.h"
#include "mc.h"

namespace {

using cartographer::common::FromUniversal;
using cartographer::common::Time;
using cartographer::common::ToUniversal;
using cartographer::mapping::MapById;
using cartographer::mapping::NodeId;
using cartographer::mapping::SubmapId;

struct Element {
  Time time;
  int payload;
};
struct SubmapElement {
  int t, payload;
  Time time() const { return FromUniversal(t); }
};
Element Make(const Element*, int time, int payload) { return {FromUniversal(time), payload}; }
SubmapElement Make(const SubmapElement*, int time, int payload) { return {time, payload}; }

using Key = std::pair<int, int>;
Key KeyOf(const NodeId& id) { return {id.trajectory_id, id.node_index}; }
Key KeyOf(const SubmapId& id) { return {id.trajectory_id, id.submap_index}; }

struct Ref {
  int time, payload;
};

template <typename Id, typename E>
void CheckAll(const MapById<Id, E>& real, const std::map<Key, Ref>& ref, int num_traj,
              int max_index, int max_time) {
  // Forward and backward iteration.
  {
    auto want = ref.begin();
    auto it = real.begin();
    for (; want != ref.end(); ++want, ++it) {
      MC_CHECK(it != real.end(), "iteration ends early");
      MC_CHECK(KeyOf((*it).id) == want->first && (*it).data.payload == want->second.payload,
               "iteration finds " << (*it).id);
      MC_CHECK(KeyOf(it->id) == want->first, "operator-> finds " << it->id);
    }
    MC_CHECK(it == real.end() && !(it != real.end()), "iteration does not end");
    auto back = real.end();
    for (auto r = ref.rbegin(); r != ref.rend(); ++r) {
      --back;
      MC_CHECK(KeyOf((*back).id) == r->first, "backward iteration finds " << (*back).id);
    }
    MC_CHECK(back == real.begin(), "backward iteration does not reach the begin");
  }
  MC_CHECK(real.size() == ref.size() && real.empty() == ref.empty(),
           "size " << real.size() << ", expected " << ref.size());
  std::set<int> trajectories;
  for (const auto& r : ref) trajectories.insert(r.first.first);
  std::set<int> got;
  for (const int t : real.trajectory_ids()) MC_CHECK(got.insert(t).second, "duplicate id");
  MC_CHECK(got == trajectories, "trajectory ids differ");
  for (int t = 0; t < num_traj; ++t) {
    const auto begin = ref.lower_bound({t, 0});
    const auto end = ref.lower_bound({t + 1, 0});
    MC_CHECK(real.SizeOfTrajectoryOrZero(t) ==
                 static_cast<size_t>(std::distance(begin, end)),
             "size of trajectory " << t << " is " << real.SizeOfTrajectoryOrZero(t));
    auto want = begin;
    for (const auto& item : real.trajectory(t)) {
      MC_CHECK(want != end && KeyOf(item.id) == want->first, "trajectory range finds "
                                                                 << item.id);
      ++want;
    }
    MC_CHECK(want == end, "trajectory range ends early");
    if (begin != end) {
      MC_CHECK(KeyOf(real.BeginOfTrajectory(t)->id) == begin->first, "begin of trajectory");
      auto last = std::prev(real.EndOfTrajectory(t));
      MC_CHECK(KeyOf(last->id) == std::prev(end)->first,
               "the element before the end of trajectory " << t << " is " << last->id);
    }
    for (int i = 0; i <= max_index; ++i) {
      const bool want_contains = ref.count({t, i}) != 0;
      MC_CHECK(real.Contains(Id(t, i)) == want_contains, "Contains(" << Id(t, i) << ")");
      const auto found = real.find(Id(t, i));
      MC_CHECK((found != real.end()) == want_contains, "find(" << Id(t, i) << ")");
      if (want_contains) {
        const int payload = ref.at({t, i}).payload;
        MC_CHECK(real.at(Id(t, i)).payload == payload, "at(" << Id(t, i) << ")");
        MC_CHECK((*found).data.payload == payload, "find(" << Id(t, i) << ")");
      }
    }
    for (int time = 0; time <= max_time; ++time) {
      auto want_it = begin;
      while (want_it != end && want_it->second.time < time) ++want_it;
      const auto got_it = real.lower_bound(t, FromUniversal(time));
      if (want_it == end) {
        MC_CHECK(got_it == real.EndOfTrajectory(t),
                 "lower_bound(" << t << ", " << time << ") is not the end");
      } else {
        MC_CHECK(got_it != real.end() && KeyOf(got_it->id) == want_it->first,
                 "lower_bound(" << t << ", " << time << ") wrong");
      }
    }
  }
}

template <typename Id, typename E>
void ById(int depth, int num_traj, bool gaps) {
  MapById<Id, E> real;
  std::map<Key, Ref> ref;
  std::map<int, bool> closed;  // no append after trimming the tail / inserting
  int payload = 0;
  std::ostringstream history;
  for (int d = 0; d < depth; ++d) {
    struct Op {
      int kind;
      Key key;
      int time_delta;
    };
    std::vector<Op> ops;
    for (int t = 0; t < num_traj; ++t) {
      if (!closed[t]) {
        ops.push_back({0, {t, 0}, 0});
        ops.push_back({0, {t, 0}, 2});
      }
      if (gaps && closed[t]) {
        for (int i : {0, 3, 7}) {
          if (!ref.count({t, i})) ops.push_back({1, {t, i}, 0});
        }
      }
    }
    for (const auto& r : ref) ops.push_back({2, r.first, 0});
    if (ops.empty()) break;
    const Op op = ops[mc::choose(ops.size())];
    mc::step();
    const int t = op.key.first;
    if (op.kind == 0) {
      int index = 0, time = 1;
      auto end = ref.lower_bound({t + 1, 0});
      if (end != ref.begin() && std::prev(end)->first.first == t) {
        index = std::prev(end)->first.second + 1;
        time = std::prev(end)->second.time + op.time_delta;
      }
      ++payload;
      const Id id = real.Append(t, Make(static_cast<E*>(nullptr), time, payload));
      history << " append" << id;
      MC_LOG("append -> " << id << " time " << time);
      MC_CHECK(KeyOf(id) == Key(t, index), "append returned " << id << ", expected index "
                                                             << index);
      ref[{t, index}] = {time, payload};
    } else if (op.kind == 1) {
      // Times must stay sorted by index: take the time of the predecessor.
      auto after = ref.lower_bound(op.key);
      int time = 1;
      if (after != ref.end() && after->first.first == t) {
        time = after->second.time;
      } else if (after != ref.begin() && std::prev(after)->first.first == t) {
        time = std::prev(after)->second.time + 1;
      }
      ++payload;
      real.Insert(Id(t, op.key.second), Make(static_cast<E*>(nullptr), time, payload));
      MC_LOG("insert (" << t << ", " << op.key.second << ") time " << time);
      history << " insert(" << t << "," << op.key.second << ")";
      ref[op.key] = {time, payload};
      closed[t] = true;
    } else {
      auto next = std::next(ref.find(op.key));
      if (next == ref.end() || next->first.first != t) closed[t] = true;
      MC_LOG("trim (" << t << ", " << op.key.second << ")");
      history << " trim(" << t << "," << op.key.second << ")";
      real.Trim(Id(t, op.key.second));
      ref.erase(op.key);
    }
    uint64_t h = 1;
    int max_time = 2, max_index = 8;
    for (const auto& r : ref) {
      h = mc::Hash(mc::Hash(mc::Hash(h, r.first.first), r.first.second), r.second.time);
      max_time = std::max(max_time, r.second.time + 1);
    }
    for (const auto& c : closed) h = mc::Hash(h, c.second);
    mc::visit(h);
    CheckAll(real, ref, num_traj + 1, max_index, max_time);
  }
  mc::sample(history.str());
}

// Gaps of every shape: all subsets of indices, all monotone time assignments
// of the bounded set; lower_bound searches over gaps.
void LowerBound(int max_index) {
  MapById<NodeId, Element> real;
  std::map<Key, Ref> ref;
  int time = 1;
  real.Insert(NodeId(0, 0), Make(static_cast<Element*>(nullptr), 5, 500));
  ref[{0, 0}] = {5, 500};
  for (int i = 0; i <= max_index; ++i) {
    const int c = mc::choose(3);
    if (c == 0) continue;
    time += c == 1 ? 0 : 2;
    real.Insert(NodeId(1, i), Make(static_cast<Element*>(nullptr), time, i));
    ref[{1, i}] = {time, i};
  }
  if (mc::flip()) {
    real.Insert(NodeId(2, 1), Make(static_cast<Element*>(nullptr), 3, 501));
    ref[{2, 1}] = {3, 501};
  }
  mc::step();
  CheckAll(real, ref, 4, max_index + 1, time + 2);
}

// MapByTime: data, nodes and trimming.
struct Datum {
  Time time;
  int payload;
};

void ByTime(int num_nodes, int num_data_slots, int trims) {
  // Nodes at even times 2, 4, ... (any subset trimmed first through gaps in the
  // index), data anywhere: before, between, at and after node times.
  MapById<NodeId, Element> nodes;
  for (int i = 0; i < num_nodes; ++i) {
    nodes.Append(1, {FromUniversal(10 * (i + 1)), i});
  }
  cartographer::sensor::MapByTime<Datum> real;
  std::map<int, int> ref, other;
  // Another trajectory must stay untouched.
  for (int i = 0; i < 3; ++i) {
    real.Append(0, {FromUniversal(10 * i + 10), i});
    other[10 * i + 10] = i;
  }
  // Slots: 5, 8, 10, 12, 15, 18, 20, 22, ...
  static const int kOffsets[] = {-5, -2, 0, 2};
  for (int s = 0; s < num_data_slots; ++s) {
    const int time = 10 * (s / 4 + 1) + kOffsets[s % 4];
    if (mc::flip()) {
      real.Append(1, {FromUniversal(time), time * 10});
      ref[time] = time * 10;
    }
  }
  const auto compare = [&]() {
    MC_CHECK(real.HasTrajectory(1) == !ref.empty(), "HasTrajectory is wrong");
    MC_CHECK(real.HasTrajectory(0), "another trajectory disappeared");
    int n = 0;
    for (const int t : real.trajectory_ids()) n += t == 0 || t == 1 ? 1 : 100;
    MC_CHECK(n == 1 + !ref.empty(), "trajectory ids are wrong");
    for (int t = 0; t < 2; ++t) {
      const auto& want = t == 1 ? ref : other;
      if (want.empty()) continue;
      auto w = want.begin();
      for (const Datum& datum : real.trajectory(t)) {
        MC_CHECK(w != want.end() && ToUniversal(datum.time) == w->first &&
                     datum.payload == w->second,
                 "trajectory " << t << " has data at " << ToUniversal(datum.time)
                               << (w != want.end() ? ", expected " + std::to_string(w->first)
                                                   : ", expected none"));
        ++w;
      }
      MC_CHECK(w == want.end(), "data at " << w->first << " is missing");
      for (int time = 0; time < 10 * num_nodes + 20; ++time) {
        const auto lb = real.lower_bound(t, FromUniversal(time));
        const auto wl = want.lower_bound(time);
        MC_CHECK((lb == real.EndOfTrajectory(t)) == (wl == want.end()), "lower_bound");
        if (wl != want.end()) {
          MC_CHECK(ToUniversal(lb->time) == wl->first, "lower_bound(" << time << ")");
        }
      }
    }
  };
  compare();
  for (int k = 0; k < trims && nodes.size() > 0; ++k) {
    const int which = mc::choose(nodes.size());
    auto it = nodes.begin();
    for (int i = 0; i < which; ++i) ++it;
    const NodeId id = it->id;
    const bool first = which == 0, last = which + 1 == static_cast<int>(nodes.size());
    const int64_t gap_start = first ? INT64_MIN : ToUniversal(std::prev(it)->data.time);
    const int64_t gap_end = last ? INT64_MAX : ToUniversal(std::next(it)->data.time);
    // Everything strictly inside of the gap goes, up to its first and last
    // element where there is a remaining node to interpolate for.
    std::vector<int> inside;
    for (const auto& r : ref) {
      if (r.first >= gap_start && r.first <= gap_end) inside.push_back(r.first);
    }
    for (size_t i = 0; i < inside.size(); ++i) {
      if (i == 0 && !first) continue;
      if (i + 1 == inside.size() && !last) continue;
      ref.erase(inside[i]);
    }
    mc::step();
    MC_LOG("trim node " << id << " at " << ToUniversal(it->data.time));
    real.Trim(nodes, id);
    nodes.Trim(id);
    compare();
    uint64_t h = nodes.size();
    for (const auto& r : ref) h = mc::Hash(h, r.first);
    for (const auto& n : nodes) h = mc::Hash(h, n.id.node_index);
    mc::visit(h);
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "explicit enumeration of operation histories on the real containers, "
      "compared with reference containers after every step";
  return mc::Main(
      argc, argv,
      {{"nodes", [] { ById<NodeId, Element>(8, 2, true); }, 1, UINT64_MAX,
        "2 trajectories, 8 operations (append, insert with gaps, trim)"},
       {"submaps", [] { ById<SubmapId, SubmapElement>(6, 3, true); }, 1, UINT64_MAX,
        "3 trajectories, 6 operations"},
       {"lower_bound", [] { LowerBound(11); }, 1, UINT64_MAX,
        "all index subsets of 0..11 with all monotone times (equal or +2)"},
       {"by_time", [] { ByTime(4, 16, 4); }, 1, UINT64_MAX,
        "4 nodes, all subsets of 16 data times, all orders of 4 trims"},
       {"nodes_deep", [] { ById<NodeId, Element>(9, 2, true); }, 2, UINT64_MAX,
        "2 trajectories, 9 operations"},
       {"submaps_deep", [] { ById<SubmapId, SubmapElement>(8, 3, true); }, 2, UINT64_MAX,
        "3 trajectories, 8 operations"},
       {"lower_bound_deep", [] { LowerBound(13); }, 2, UINT64_MAX,
        "all index subsets of 0..13 with all monotone times"},
       {"by_time_deep", [] { ByTime(5, 19, 4); }, 2, UINT64_MAX,
        "5 nodes, all subsets of 19 data times, all orders of 4 trims"}},
      config);
}
