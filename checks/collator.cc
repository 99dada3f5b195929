// Sensor collation: every history of bounded length of adding data, finishing
// and adding trajectories and flushing, compared step by step with a model of
// the merge-sort specification.
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/internal/collator.h"
#include "cartographer/sensor/internal/dispatchable.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
#include "mc.h"

namespace {

using cartographer::common::FromUniversal;
using cartographer::common::ToUniversal;
namespace sensor = cartographer::sensor;

constexpr int64_t kBase = 1000;

struct Item {
  int trajectory;
  std::string sensor;
  int64_t time;
  int id;
  bool operator==(const Item& o) const {
    return trajectory == o.trajectory && sensor == o.sensor && time == o.time &&
           id == o.id;
  }
};
std::ostream& operator<<(std::ostream& os, const Item& i) {
  return os << "(" << i.trajectory << "," << i.sensor << ",t" << i.time << ",#" << i.id
            << ")";
}

// The specification of one merge: data of all unfinished queues is needed
// before the oldest item can go out; data before the time at which all sensors
// of a trajectory are available is dropped, except for the latest one.
class Model {
 public:
  void AddQueue(int t, const std::string& s) { queues_[{t, s}]; }
  void Finish(int t, std::vector<Item>* out) {
    for (auto& q : queues_) {
      if (q.first.first == t) q.second.finished = true;
    }
    Run(out);
  }
  void FinishAll(std::vector<Item>* out) {
    for (auto& q : queues_) q.second.finished = true;
    Run(out);
  }
  void Add(const Item& item, std::vector<Item>* out) {
    auto it = queues_.find({item.trajectory, item.sensor});
    if (it == queues_.end()) return;
    it->second.items.push_back(item);
    Run(out);
  }
  bool AnyUnfinished() const {
    for (const auto& q : queues_) {
      if (!q.second.finished) return true;
    }
    return false;
  }
  // Trajectories that lack data.
  std::set<int> Blockers() const { return blockers_; }
  uint64_t Hash() const {
    uint64_t h = 7;
    for (const auto& q : queues_) {
      h = mc::Hash(h, q.first.first);
      h = mc::HashString(q.first.second, h);
      h = mc::Hash(h, q.second.finished);
      for (const Item& i : q.second.items) h = mc::Hash(h, i.time);
      h = mc::Hash(h, 99);
    }
    for (const auto& s : start_) h = mc::Hash(mc::Hash(h, s.first), s.second);
    return h;
  }

 private:
  struct Queue {
    std::deque<Item> items;
    bool finished = false;
  };
  void Run(std::vector<Item>* out) {
    for (;;) {
      blockers_.clear();
      for (auto it = queues_.begin(); it != queues_.end();) {
        if (it->second.items.empty() && it->second.finished) {
          it = queues_.erase(it);
        } else {
          if (it->second.items.empty()) blockers_.insert(it->first.first);
          ++it;
        }
      }
      if (queues_.empty() || !blockers_.empty()) return;
      auto best = queues_.begin();
      for (auto it = queues_.begin(); it != queues_.end(); ++it) {
        if (it->second.items.front().time < best->second.items.front().time) best = it;
      }
      const int t = best->first.first;
      if (!start_.count(t)) {
        int64_t start = INT64_MIN;
        for (const auto& q : queues_) {
          if (q.first.first == t) start = std::max(start, q.second.items.front().time);
        }
        start_[t] = start;
      }
      auto& items = best->second.items;
      const Item item = items.front();
      bool keep = true;
      if (item.time < start_[t]) {
        if (items.size() >= 2) {
          keep = items[1].time > start_[t];
        } else if (!best->second.finished) {
          blockers_.insert(t);
          return;
        }
      }
      items.pop_front();
      if (keep) out->push_back(item);
    }
  }
  std::map<std::pair<int, std::string>, Queue> queues_;
  std::map<int, int64_t> start_;
  std::set<int> blockers_;
};

std::unique_ptr<sensor::Data> MakeData(const Item& item) {
  sensor::ImuData data;
  data.time = FromUniversal(kBase + item.time);
  data.linear_acceleration = Eigen::Vector3d(item.id, 0, 0);
  data.angular_velocity = Eigen::Vector3d::Zero();
  return sensor::MakeDispatchable(item.sensor, data);
}

template <typename CollatorType>
struct Real {
  CollatorType collator;
  std::vector<Item> out;
  void AddTrajectory(int t, const std::vector<std::string>& sensors) {
    absl::flat_hash_set<std::string> ids(sensors.begin(), sensors.end());
    collator.AddTrajectory(
        t, ids, [this, t](const std::string& id, std::unique_ptr<sensor::Data> data) {
          auto* imu = dynamic_cast<sensor::Dispatchable<sensor::ImuData>*>(data.get());
          MC_CHECK(imu != nullptr, "null or foreign data dispatched");
          MC_CHECK(data->GetSensorId() == id, "data of sensor "
                                                  << data->GetSensorId()
                                                  << " dispatched as " << id);
          out.push_back({t, id, ToUniversal(imu->data().time) - kBase,
                         static_cast<int>(imu->data().linear_acceleration.x())});
        });
  }
};

void Compare(const std::vector<Item>& want, const std::vector<Item>& got) {
  for (size_t i = 0; i < got.size(); ++i) {
    MC_LOG("dispatched " << got[i] << (i < want.size() && want[i] == got[i]
                                           ? ""
                                           : "  <-- differs from the specification"));
  }
  MC_CHECK(want == got, "dispatched sequence differs from the specification: "
                            << got.size() << " items, expected " << want.size());
}

struct Layout {
  std::vector<std::vector<std::string>> sensors;  // per trajectory
  int late = -1;  // this trajectory is added in the middle of the history
};

template <typename CollatorType, bool kGlobal>
void Histories(const Layout& layout, int depth, int num_deltas, bool gather_unknown) {
  auto real = std::make_unique<Real<CollatorType>>();
  Model global;
  std::map<int, Model> local;
  std::vector<Item> want;
  std::vector<int> added, finished(layout.sensors.size(), 0);
  std::map<std::pair<int, std::string>, int64_t> last;
  std::vector<Item> accepted;
  const auto model = [&](int t) -> Model& { return kGlobal ? global : local[t]; };
  const auto add_trajectory = [&](int t) {
    int64_t base = 0;
    if (!want.empty() && kGlobal) base = want.back().time;
    real->AddTrajectory(t, layout.sensors[t]);
    for (const auto& s : layout.sensors[t]) {
      model(t).AddQueue(t, s);
      last[{t, s}] = base;
    }
    added.push_back(t);
  };
  for (size_t t = 0; t < layout.sensors.size(); ++t) {
    if (static_cast<int>(t) != layout.late) add_trajectory(t);
  }
  int id = 0;
  bool flushed = false;
  for (int d = 0; d < depth && !flushed; ++d) {
    struct Op {
      int kind, t;
      std::string s;
      int delta;
    };
    std::vector<Op> ops;
    for (int t : added) {
      if (finished[t]) continue;
      for (const auto& s : layout.sensors[t]) {
        for (int k = 0; k < num_deltas; ++k) ops.push_back({0, t, s, k});
      }
    }
    for (int t : added) {
      if (!finished[t]) ops.push_back({1, t, "", 0});
    }
    if (layout.late >= 0 && static_cast<int>(added.size()) < static_cast<int>(layout.sensors.size())) {
      ops.push_back({2, layout.late, "", 0});
    }
    if (gather_unknown && !finished[0]) ops.push_back({3, 0, "unknown", 1});
    if (ops.empty()) break;
    const Op op = ops[mc::choose(ops.size())];
    mc::step();
    switch (op.kind) {
      case 0:
      case 3: {
        Item item{op.t, op.s, 0, ++id};
        item.time = (last[{op.t, op.s}] += op.delta);
        MC_LOG("add " << item);
        real->collator.AddSensorData(op.t, MakeData(item));
        model(op.t).Add(item, &want);
        break;
      }
      case 1:
        MC_LOG("finish trajectory " << op.t);
        finished[op.t] = 1;
        real->collator.FinishTrajectory(op.t);
        model(op.t).Finish(op.t, &want);
        break;
      case 2:
        MC_LOG("add trajectory " << op.t);
        add_trajectory(op.t);
        break;
    }
    Compare(want, real->out);
  }
  // Flush: everything goes out.
  real->collator.Flush();
  if (kGlobal) {
    global.FinishAll(&want);
    Compare(want, real->out);
  } else {
    // The order between trajectories is not specified.
    for (int t : added) local[t].FinishAll(&want);
    for (int t : added) {
      std::vector<Item> w, g;
      for (const auto& i : want) {
        if (i.trajectory == t) w.push_back(i);
      }
      for (const auto& i : real->out) {
        if (i.trajectory == t) g.push_back(i);
      }
      Compare(w, g);
    }
    MC_CHECK(want.size() == real->out.size(), "items lost or duplicated by flush");
  }
  std::map<std::pair<int, std::string>, int> last_id;
  std::map<int, int64_t> last_time;
  for (const Item& i : real->out) {
    auto& l = last_id[{i.trajectory, i.sensor}];
    MC_CHECK(i.id > l, "data of one sensor reordered or duplicated");
    l = i.id;
    const int key = kGlobal ? 0 : i.trajectory;
    MC_CHECK(!last_time.count(key) || last_time[key] <= i.time, "times go backwards");
    last_time[key] = i.time;
  }
  std::ostringstream os;
  for (const Item& i : real->out) os << i << " ";
  mc::sample(os.str());
}

// Blocking trajectory: whoever lacks data.
void Blocking(int depth) {
  auto real = std::make_unique<Real<sensor::Collator>>();
  Model model;
  std::vector<Item> want;
  const std::vector<std::vector<std::string>> sensors = {{"a", "b"}, {"a"}, {"c"}};
  std::map<std::pair<int, std::string>, int64_t> last;
  std::vector<int> finished(3, 0);
  for (int t = 0; t < 3; ++t) {
    real->AddTrajectory(t, sensors[t]);
    for (const auto& s : sensors[t]) model.AddQueue(t, s);
  }
  int id = 0;
  for (int d = 0; d < depth; ++d) {
    std::vector<std::pair<int, std::string>> ops;
    for (int t = 0; t < 3; ++t) {
      if (finished[t]) continue;
      for (const auto& s : sensors[t]) ops.push_back({t, s});
      ops.push_back({t, ""});
    }
    if (ops.empty()) break;
    const auto op = ops[mc::choose(ops.size())];
    mc::step();
    if (op.second.empty()) {
      MC_LOG("finish " << op.first);
      finished[op.first] = 1;
      real->collator.FinishTrajectory(op.first);
      model.Finish(op.first, &want);
    } else {
      Item item{op.first, op.second, last[op] += 1, ++id};
      MC_LOG("add " << item);
      real->collator.AddSensorData(op.first, MakeData(item));
      model.Add(item, &want);
    }
    Compare(want, real->out);
    mc::visit(model.Hash());
    if (model.AnyUnfinished() && !model.Blockers().empty()) {
      const auto blocking = real->collator.GetBlockingTrajectoryId();
      MC_CHECK(blocking.has_value() && model.Blockers().count(*blocking),
               "the collator claims to wait for trajectory "
                   << (blocking ? *blocking : -1) << " which has data");
      MC_CHECK(!finished[*blocking], "the collator waits for a finished trajectory");
    }
  }
  real->collator.Flush();
  model.FinishAll(&want);
  Compare(want, real->out);
}

// The collator's output must not depend on how the sensors' data interleave
// on arrival.
void Determinism(int items_a, int items_b, int items_c) {
  // Data of two sensors of trajectory 0 and one sensor of trajectory 1.
  std::vector<std::vector<Item>> data(3);
  int id = 0;
  const std::pair<int, const char*> names[] = {{0, "a"}, {0, "b"}, {1, "a"}};
  const int counts[] = {items_a, items_b, items_c};
  for (int q = 0; q < 3; ++q) {
    int64_t time = 0;
    for (int i = 0; i < counts[q]; ++i) {
      time += mc::choose(3);
      data[q].push_back({names[q].first, names[q].second, time, ++id});
    }
  }
  const auto run = [&](const std::function<int(const std::vector<int>&)>& next) {
    Real<sensor::Collator> real;
    real.AddTrajectory(0, {"a", "b"});
    real.AddTrajectory(1, {"a"});
    std::vector<size_t> index(3, 0);
    for (;;) {
      std::vector<int> candidates;
      for (int q = 0; q < 3; ++q) {
        if (index[q] < data[q].size()) candidates.push_back(q);
      }
      if (candidates.empty()) break;
      const int q = candidates[next(candidates)];
      const Item& item = data[q][index[q]++];
      real.collator.AddSensorData(item.trajectory, MakeData(item));
      mc::step();
    }
    real.collator.Flush();
    return real.out;
  };
  const auto reference = run([](const std::vector<int>&) { return 0; });
  const auto other =
      run([](const std::vector<int>& c) { return mc::choose(c.size()); });
  Compare(reference, other);
}

const Layout kOne = {{{"a", "b"}}};
const Layout kOneThree = {{{"a", "b", "c"}}};
const Layout kTwo = {{{"a", "b"}, {"a"}}};
const Layout kLate = {{{"a"}, {"a", "b"}}, 1};

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "explicit-state model of the merge specification, every model history "
      "replayed step by step on the real collators";
  using C = sensor::Collator;
  using T = sensor::TrajectoryCollator;
  return mc::Main(
      argc, argv,
      {{"collator_one_trajectory", [] { Histories<C, true>(kOne, 7, 3, true); }, 1,
        UINT64_MAX, "1 trajectory x 2 sensors, 7 operations, time steps 0-2"},
       {"collator_two_trajectories", [] { Histories<C, true>(kTwo, 6, 3, false); }, 1,
        UINT64_MAX, "2+1 sensors, 5-6 operations, time steps 0-2"},
       {"collator_late_trajectory", [] { Histories<C, true>(kLate, 7, 2, false); }, 1,
        UINT64_MAX, "second trajectory added at any point, 7 operations"},
       {"collator_three_sensors", [] { Histories<C, true>(kOneThree, 6, 2, false); }, 1,
        UINT64_MAX, "1 trajectory x 3 sensors, 6 operations, time steps 0-1"},
       {"trajectory_collator", [] { Histories<T, false>(kTwo, 5, 3, false); }, 1,
        UINT64_MAX, "2+1 sensors, 5-6 operations, time steps 0-2"},
       {"trajectory_collator_late", [] { Histories<T, false>(kLate, 7, 2, true); }, 1,
        UINT64_MAX, "second trajectory added at any point, 7 operations"},
       {"blocking", [] { Blocking(7); }, 1, UINT64_MAX,
        "3 trajectories, 4 queues, 7 operations"},
       {"determinism", [] { Determinism(2, 2, 2); }, 1, UINT64_MAX,
        "all arrival orders of 2+2+2 items, time steps 0-2"},
       {"collator_one_trajectory_deep", [] { Histories<C, true>(kOne, 8, 3, false); }, 2,
        UINT64_MAX, "1 trajectory x 2 sensors, 8 operations, time steps 0-2"},
       {"collator_two_trajectories_deep", [] { Histories<C, true>(kTwo, 7, 3, false); }, 2,
        UINT64_MAX, "2+1 sensors, 7 operations, time steps 0-2"},
       {"collator_late_deep", [] { Histories<C, true>(kLate, 8, 2, false); }, 2, UINT64_MAX,
        "second trajectory added at any point, 8 operations"},
       {"trajectory_collator_deep", [] { Histories<T, false>(kTwo, 7, 3, false); }, 2,
        UINT64_MAX, "2+1 sensors, 7 operations, time steps 0-2"},
       {"blocking_deep", [] { Blocking(9); }, 2, UINT64_MAX,
        "3 trajectories, 4 queues, 9 operations"},
       {"determinism_deep", [] { Determinism(3, 3, 2); }, 2, UINT64_MAX,
        "all arrival orders of 3+3+2 items, time steps 0-2"}},
      config);
}
