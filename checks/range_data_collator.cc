// Range data synchronisation: all bounded sequences of messages of up to three
// sensors, checked point by point.
#include <map>
#include <set>
#include <vector>

#include "cartographer/common/time.h"
#include "cartographer/mapping/internal/range_data_collator.h"
#include "mc.h"

namespace {

using cartographer::common::FromSeconds;
using cartographer::common::FromUniversal;
using cartographer::common::ToSeconds;
using cartographer::common::ToUniversal;
using cartographer::mapping::RangeDataCollator;
namespace sensor = cartographer::sensor;

constexpr int64_t kTick = 10000000;  // one second
constexpr int64_t kEpoch = 1000 * kTick;

struct Point {
  int id;
  int time;  // absolute, in ticks
  int sensor;
  int message;
  float intensity;
};

void Sequences(int max_sensors, int depth, const std::vector<std::vector<int>>& shapes,
               const std::vector<int>& deltas, bool intensities) {
  const int num_sensors = 1 + mc::choose(max_sensors);
  std::vector<std::string> names;
  for (int s = 0; s < num_sensors; ++s) names.push_back("sensor" + std::to_string(s));
  RangeDataCollator collator(names);

  std::map<int, Point> points;           // by id
  std::map<int, std::vector<int>> pending;  // model: sensor -> point ids
  std::set<int> delivered;
  bool any_output = false;
  int last_end = 0, now = 0, next_id = 0;
  double last_point_time = -1e9;
  std::ostringstream history;

  for (int d = 0; d < depth; ++d) {
    const int s = mc::choose(num_sensors);
    now += mc::pick(deltas);
    const auto& shape = mc::pick(shapes);
    const int with_intensity = intensities ? mc::choose(2) : 1;
    mc::step();
    sensor::TimedPointCloudData message;
    message.time = FromUniversal(kEpoch + now * kTick);
    message.origin = Eigen::Vector3f(s, d, 0.f);
    std::vector<int> ids;
    for (int relative : shape) {
      Point p{++next_id, now + relative, s, d, with_intensity ? 100.f + next_id : 0.f};
      points[p.id] = p;
      ids.push_back(p.id);
      message.ranges.push_back(
          {Eigen::Vector3f(p.id, 0, 0), static_cast<float>(relative)});
      if (with_intensity) message.intensities.push_back(p.intensity);
    }
    history << " s" << s << "@" << now << "/" << shape.size();

    // Specification: is there output, and up to which time?
    int end = -1;
    if (pending.count(s)) {
      // The older message of this sensor moves things forward.
      end = points[pending[s].back()].time;
    }
    std::vector<int> expected;
    const auto crop = [&](int start, bool has_start) {
      for (auto it = pending.begin(); it != pending.end();) {
        std::vector<int> rest;
        for (int id : it->second) {
          if (has_start && points[id].time < start) continue;  // too late
          if (points[id].time <= end) {
            expected.push_back(id);
          } else {
            rest.push_back(id);
          }
        }
        if (rest.empty()) {
          it = pending.erase(it);
        } else {
          it->second = rest;
          ++it;
        }
      }
    };
    bool output = false;
    if (end >= 0) {
      output = true;
      crop(last_end, any_output);
      pending[s] = ids;
    } else {
      pending[s] = ids;
      if (static_cast<int>(pending.size()) == num_sensors) {
        end = INT32_MAX;
        for (const auto& p : pending) end = std::min(end, points[p.second.back()].time);
        output = true;
        crop(last_end, any_output);
      }
    }

    const auto result = collator.AddRangeData(names[s], message);
    MC_LOG("message of sensor " << s << " at " << now << " with " << shape.size()
                                << " points -> " << result.ranges.size()
                                << " points out");
    if (!output) {
      MC_CHECK(result.ranges.empty(), "output although a sensor has not reported yet");
      continue;
    }
    MC_CHECK(ToUniversal(result.time) == kEpoch + end * kTick,
             "output ends at " << (ToUniversal(result.time) - kEpoch) / double(kTick)
                               << ", expected " << end);
    if (any_output) MC_CHECK(end >= last_end, "output times go backwards");
    MC_CHECK(result.ranges.size() == expected.size(),
             result.ranges.size() << " points, expected " << expected.size());
    double last_relative = -1e9;
    for (const auto& range : result.ranges) {
      const int id = std::lround(range.point_time.position.x());
      MC_CHECK(points.count(id), "a point that was never added");
      const Point& p = points[id];
      MC_CHECK(delivered.insert(id).second, "point " << id << " delivered twice");
      MC_CHECK(std::find(expected.begin(), expected.end(), id) != expected.end(),
               "point " << id << " at time " << p.time
                        << " does not belong into this output");
      const double time = end + range.point_time.time;
      MC_CHECK(std::abs(time - p.time) < 1e-4,
               "point " << id << " acquired at " << p.time << " delivered as " << time);
      MC_CHECK(range.point_time.time >= last_relative, "points are not sorted by time");
      last_relative = range.point_time.time;
      MC_CHECK(range.point_time.time <= 1e-6, "point later than the output's time");
      MC_CHECK(time >= last_point_time - 1e-4, "point times go backwards across outputs");
      last_point_time = std::max(last_point_time, time);
      MC_CHECK(range.origin_index < result.origins.size(), "origin index out of range");
      const Eigen::Vector3f origin = result.origins[range.origin_index];
      MC_CHECK(origin.x() == p.sensor && origin.y() == p.message,
               "point " << id << " attributed to the wrong origin");
      MC_CHECK(range.intensity == p.intensity, "intensity of point " << id << " is "
                                                                     << range.intensity);
    }
    last_end = end;
    any_output = true;
  }
  mc::sample(history.str());
}

const std::vector<std::vector<int>> kShapes = {{0}, {-1, 0}, {-3, -2, 0}, {-6, -4, -1, 0}};
const std::vector<std::vector<int>> kFew = {{0}, {-2, -1, 0}, {-5, -3, 0}};

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all bounded message histories on the real collator, "
      "replaying a model of the synchronisation in lock step";
  return mc::Main(
      argc, argv,
      {{"two_sensors", [] { Sequences(2, 5, kFew, {0, 1, 3}, false); }, 1, UINT64_MAX,
        "1-2 sensors, 5 messages, 3 shapes, time steps 0/1/3"},
       {"intensities", [] { Sequences(2, 4, kFew, {1, 3}, true); }, 1, UINT64_MAX,
        "1-2 sensors, 4 messages with and without intensities"},
       {"three_sensors", [] { Sequences(3, 5, kFew, {1, 2}, false); }, 1, UINT64_MAX,
        "1-3 sensors, 5 messages, 3 shapes, time steps 1/2"},
       {"long_three_sensors", [] { Sequences(3, 6, {{-4, -2, -1, 0}}, {0, 1, 3}, false); },
        1, UINT64_MAX, "1-3 sensors, 6 messages of one shape, time steps 0/1/3"},
       {"two_sensors_deep", [] { Sequences(2, 6, kShapes, {0, 1, 3}, false); }, 2,
        UINT64_MAX, "1-2 sensors, 6 messages, 4 shapes, time steps 0/1/3"},
       {"three_sensors_deep", [] { Sequences(3, 6, kFew, {0, 1, 3}, false); }, 2,
        UINT64_MAX, "1-3 sensors, 6 messages, 3 shapes, time steps 0/1/3"}},
      config);
}
