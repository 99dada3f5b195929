// The points processing pipeline, built from its configuration, against a
// model of its stages.
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/io/file_writer.h"
#include "cartographer/io/points_batch.h"
#include "cartographer/io/points_processor.h"
#include "cartographer/io/points_processor_pipeline_builder.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "mc.h"

namespace {

using namespace cartographer;
using io::PointsBatch;
using io::PointsProcessor;

struct NoFiles : public common::FileResolver {
  std::string GetFullPathOrDie(const std::string&) override { mc::fail("no files"); }
  std::string GetFileContentOrDie(const std::string&) override { mc::fail("no files"); }
};

// Behaves like a file.
struct MemoryFile {
  std::string data;
  bool closed = false;
};
class MemoryWriter : public io::FileWriter {
 public:
  explicit MemoryWriter(MemoryFile* file) : file_(file) {}
  bool Write(const char* data, size_t len) override {
    MC_CHECK(!file_->closed, "written after it was closed");
    if (file_->data.size() < position_ + len) file_->data.resize(position_ + len);
    file_->data.replace(position_, len, data, len);
    position_ += len;
    return true;
  }
  bool WriteHeader(const char* data, size_t len) override {
    position_ = 0;
    return Write(data, len);
  }
  bool Close() override {
    MC_CHECK(!file_->closed, "closed twice");
    file_->closed = true;
    return true;
  }
  std::string GetFilename() override { return "file"; }

 private:
  MemoryFile* const file_;
  size_t position_ = 0;
};

struct Point {
  Eigen::Vector3f position;
  bool has_intensity = false, has_color = false;
  float intensity = 0.f;
  io::FloatColor color{};
};
struct Batch {
  std::string frame_id;
  Eigen::Vector3f origin;
  std::vector<Point> points;
};

// All rays are along the axes, so that it is clear which voxels they cross.
Batch MakeBatch(const int kind) {
  Batch b;
  b.frame_id = kind % 2 == 0 ? "a" : "b";
  b.origin = Eigen::Vector3f(0.f, kind == 3 ? 2.f : 0.f, kind == 3 ? 1.f : 0.f);
  const auto add = [&](float x, float y, float z) {
    Point p;
    p.position = Eigen::Vector3f(x, y, z);
    b.points.push_back(p);
  };
  switch (kind) {
    case 0:
      add(3.f, 0.f, 0.f);
      add(0.f, 0.f, 2.f);
      add(0.f, 4.f, 0.f);
      break;
    case 1:
      add(1.f, 0.f, 0.f);
      b.points[0].has_intensity = true;
      b.points[0].intensity = 40.f;
      break;
    case 2:
      add(3.f, 0.f, 0.f);
      add(2.f, 0.f, 0.f);
      add(0.f, 0.f, 1.f);
      for (int i = 0; i < 3; ++i) {
        b.points[i].has_intensity = true;
        b.points[i].intensity = 10.f + 80.f * i;
      }
      break;
    case 3:
      add(0.f, 0.f, 1.f);
      add(0.f, 2.f, 2.f);
      add(0.f, 2.f, -2.f);
      add(1.f, 2.f, 1.f);
      for (int i = 0; i < 4; ++i) {
        b.points[i].has_color = true;
        b.points[i].color = {{0.2f, 0.3f * i, 1.f}};
      }
      break;
    case 4:
      break;
  }
  return b;
}

std::unique_ptr<PointsBatch> ToReal(const Batch& b) {
  auto batch = absl::make_unique<PointsBatch>();
  batch->start_time = common::FromUniversal(123);
  batch->origin = b.origin;
  batch->frame_id = b.frame_id;
  batch->trajectory_id = 3;
  for (const Point& p : b.points) {
    batch->points.push_back({p.position});
    if (p.has_intensity) batch->intensities.push_back(p.intensity);
    if (p.has_color) batch->colors.push_back(p.color);
  }
  return batch;
}

enum Stage {
  kSample,
  kKeepA,
  kDropA,
  kRange,
  kVertical,
  kOutliers,
  kColor,
  kIntensity,
  kIntensityB,
  kCount,
  kNumStages
};
const char* const kStageConfigurations[] = {
    "{action = 'fixed_ratio_sampler', sampling_ratio = 0.4}",
    "{action = 'frame_id_filter', keep_frames = {'a', 'c'}}",
    "{action = 'frame_id_filter', drop_frames = {'c', 'a'}}",
    "{action = 'min_max_range_filter', min_range = 1.5, max_range = 3.5}",
    "{action = 'vertical_range_filter', min_z = -0.5, max_z = 1.5}",
    "{action = 'voxel_filter_and_remove_moving_objects', voxel_size = 1., miss_per_hit_limit = 1.}",
    "{action = 'color_points', frame_id = 'a', color = {255, 51, 0}}",
    "{action = 'intensity_to_color', min_intensity = 20., max_intensity = 100.}",
    "{action = 'intensity_to_color', min_intensity = 0., max_intensity = 100., frame_id = 'b'}",
    "{action = 'dump_num_points'}",
};

template <typename Predicate>
void Keep(std::vector<Batch>* stream, Predicate predicate) {
  for (Batch& b : *stream) {
    std::vector<Point> kept;
    for (const Point& p : b.points) {
      if (predicate(b, p)) kept.push_back(p);
    }
    b.points = kept;
  }
}

void ApplyModel(const int stage, std::vector<Batch>* stream) {
  switch (stage) {
    case kSample: {
      int pulses = 0, samples = 0;
      Keep(stream, [&](const Batch&, const Point&) {
        ++pulses;
        if (samples * 10 >= pulses * 4) return false;
        ++samples;
        return true;
      });
      break;
    }
    case kKeepA:
    case kDropA: {
      std::vector<Batch> kept;
      for (const Batch& b : *stream) {
        if ((b.frame_id == "a") == (stage == kKeepA)) kept.push_back(b);
      }
      *stream = kept;
      break;
    }
    case kRange:
      Keep(stream, [](const Batch& b, const Point& p) {
        const float range = (p.position - b.origin).norm();
        return 1.5f < range && range < 3.5f;
      });
      break;
    case kVertical:
      Keep(stream, [](const Batch& b, const Point& p) {
        const float z = p.position.z() - b.origin.z();
        return -0.5f < z && z < 1.5f;
      });
      break;
    case kOutliers: {
      using Cell = std::vector<int>;
      const auto cell = [](const Eigen::Vector3f& p) {
        return Cell{static_cast<int>(std::lround(p.x())), static_cast<int>(std::lround(p.y())),
                    static_cast<int>(std::lround(p.z()))};
      };
      std::map<Cell, int> hits, rays;
      for (const Batch& b : *stream) {
        for (const Point& p : b.points) {
          ++hits[cell(p.position)];
          const Eigen::Vector3f delta = p.position - b.origin;
          const int length = static_cast<int>(std::lround(delta.norm()));
          for (int i = 0; i < length; ++i) {
            ++rays[cell(b.origin + delta * (static_cast<float>(i) / length))];
          }
        }
      }
      Keep(stream, [&](const Batch&, const Point& p) {
        return rays[cell(p.position)] < hits[cell(p.position)];
      });
      break;
    }
    case kColor:
      for (Batch& b : *stream) {
        if (b.frame_id != "a") continue;
        for (Point& p : b.points) {
          p.has_color = true;
          p.color = {{1.f, 0.2f, 0.f}};
        }
      }
      break;
    case kIntensity:
    case kIntensityB:
      for (Batch& b : *stream) {
        if (stage == kIntensityB && b.frame_id != "b") continue;
        for (Point& p : b.points) {
          if (!p.has_intensity) continue;
          p.has_color = true;
          const float gray = std::min(
              1.f, stage == kIntensityB ? p.intensity / 100.f
                                        : std::max(0.f, (p.intensity - 20.f) / 80.f));
          p.color = {{gray, gray, gray}};
        }
      }
      break;
    default:
      break;
  }
}

struct Capture : public PointsProcessor {
  Capture(std::vector<std::unique_ptr<PointsBatch>>* batches, PointsProcessor* next)
      : batches(batches), next(next) {}
  void Process(std::unique_ptr<PointsBatch> batch) override {
    batches->push_back(absl::make_unique<PointsBatch>(*batch));
    next->Process(std::move(batch));
  }
  FlushResult Flush() override { return next->Flush(); }
  std::vector<std::unique_ptr<PointsBatch>>* batches;
  PointsProcessor* next;
};

bool SameColor(const io::FloatColor& a, const io::FloatColor& b) {
  for (int i = 0; i < 3; ++i) {
    if (std::abs(a[i] - b[i]) > 3e-3f) return false;
  }
  return true;
}

void CheckCaptured(const std::vector<std::unique_ptr<PointsBatch>>& actual,
                   const std::vector<Batch>& expected) {
  // Batches without points may be dropped.
  size_t i = 0;
  for (const Batch& b : expected) {
    if (b.points.empty()) continue;
    while (i < actual.size() && actual[i]->points.empty()) ++i;
    MC_CHECK(i < actual.size(), "a batch was lost");
    const PointsBatch& a = *actual[i++];
    MC_CHECK(a.frame_id == b.frame_id && a.origin == b.origin && a.trajectory_id == 3 &&
                 a.start_time == common::FromUniversal(123),
             "metadata of a batch");
    MC_CHECK(a.points.size() == b.points.size(),
             a.points.size() << " points in a batch, expected " << b.points.size());
    const bool colors = b.points[0].has_color, intensities = b.points[0].has_intensity;
    MC_CHECK(a.colors.size() == (colors ? b.points.size() : 0), "number of colors");
    MC_CHECK(a.intensities.size() == (intensities ? b.points.size() : 0),
             "number of intensities");
    for (size_t j = 0; j < b.points.size(); ++j) {
      MC_CHECK((a.points[j].position - b.points[j].position).norm() < 1e-5f, "a point was changed");
      MC_CHECK(!colors || SameColor(a.colors[j], b.points[j].color), "color of a point");
      MC_CHECK(!intensities || a.intensities[j] == b.points[j].intensity,
               "intensity of a point");
    }
  }
  while (i < actual.size() && actual[i]->points.empty()) ++i;
  MC_CHECK(i == actual.size(), "more points than expected");
}

std::vector<std::string> HeaderLines(const std::string& data, const std::string& last,
                                     size_t* const end) {
  std::vector<std::string> lines;
  size_t position = 0;
  while (true) {
    const size_t newline = data.find('\n', position);
    MC_CHECK(newline != std::string::npos, "the header does not end");
    lines.push_back(data.substr(position, newline - position));
    position = newline + 1;
    if (lines.back() == last) break;
  }
  *end = position;
  return lines;
}

float FloatAt(const std::string& data, const size_t position) {
  float value;
  memcpy(&value, data.data() + position, 4);
  return value;
}

void CheckPly(const std::string& data, const std::vector<Point>& points, const bool colors,
              const bool intensities) {
  size_t position;
  const auto lines = HeaderLines(data, "end_header", &position);
  MC_CHECK(lines[0] == "ply" && lines[1] == "format binary_little_endian 1.0", "PLY format");
  long num = -1;
  std::vector<std::string> properties;
  for (const std::string& line : lines) {
    if (line.compare(0, 15, "element vertex ") == 0) num = std::stol(line.substr(15));
    if (line.compare(0, 9, "property ") == 0) properties.push_back(line.substr(9));
  }
  MC_CHECK(num == static_cast<long>(points.size()),
           "PLY header has " << num << " points, expected " << points.size());
  std::vector<std::string> expected = {"float x", "float y", "float z"};
  if (colors) {
    for (const char* c : {"uchar red", "uchar green", "uchar blue"}) expected.push_back(c);
  }
  if (intensities) expected.push_back("float intensity");
  MC_CHECK(properties == expected, "properties in the PLY header");
  const size_t stride = 12 + (colors ? 3 : 0) + (intensities ? 4 : 0);
  MC_CHECK(data.size() == position + stride * points.size(),
           "PLY file of " << data.size() - position << " bytes for " << points.size()
                          << " points of " << stride << " bytes");
  for (const Point& p : points) {
    for (int i = 0; i < 3; ++i) {
      MC_CHECK(FloatAt(data, position + 4 * i) == p.position[i], "PLY point");
      if (colors) {
        const uint8_t c = data[position + 12 + i];
        MC_CHECK(std::abs(c - 255.f * p.color[i]) < 0.6f, "PLY color");
      }
    }
    if (intensities) {
      MC_CHECK(FloatAt(data, position + (colors ? 15 : 12)) == p.intensity, "PLY intensity");
    }
    position += stride;
  }
}

void CheckPcd(const std::string& data, const std::vector<Point>& points, const bool colors) {
  size_t position;
  const auto lines = HeaderLines(data, "DATA binary", &position);
  std::map<std::string, std::string> fields;
  for (const std::string& line : lines) {
    const size_t space = line.find(' ');
    fields[line.substr(0, space)] = line.substr(space + 1);
  }
  MC_CHECK(std::stol(fields["WIDTH"]) == static_cast<long>(points.size()) &&
               std::stol(fields["POINTS"]) == static_cast<long>(points.size()) &&
               fields["HEIGHT"] == "1",
           "PCD header has " << fields["POINTS"] << " points, expected " << points.size());
  MC_CHECK(fields["FIELDS"] == (colors ? "x y z rgb" : "x y z") &&
               fields["SIZE"] == (colors ? "4 4 4 4" : "4 4 4") &&
               fields["TYPE"] == (colors ? "F F F U" : "F F F") &&
               fields["COUNT"] == (colors ? "1 1 1 1" : "1 1 1"),
           "fields in the PCD header");
  const size_t stride = colors ? 16 : 12;
  MC_CHECK(data.size() == position + stride * points.size(),
           "PCD file of " << data.size() - position << " bytes for " << points.size()
                          << " points of " << stride << " bytes");
  for (const Point& p : points) {
    for (int i = 0; i < 3; ++i) {
      MC_CHECK(FloatAt(data, position + 4 * i) == p.position[i], "PCD point");
      if (colors) {
        const uint8_t c = data[position + 12 + 2 - i];
        MC_CHECK(std::abs(c - 255.f * p.color[i]) < 0.6f, "PCD color");
      }
    }
    position += stride;
  }
}

void CheckXyz(const std::string& data, const std::vector<Point>& points) {
  std::istringstream in(data);
  for (const Point& p : points) {
    double x, y, z;
    MC_CHECK(in >> x >> y >> z, "XYZ file ends early");
    MC_CHECK((Eigen::Vector3f(x, y, z) - p.position).norm() < 1e-4f, "XYZ point");
  }
  std::string rest;
  MC_CHECK(!(in >> rest), "more XYZ points than expected");
}

void Pipeline(const int max_stages, const int max_batches, const std::vector<int>& prefix) {
  std::vector<int> stages = prefix;
  while (static_cast<int>(stages.size()) < max_stages) {
    const int choice = mc::choose(kNumStages + 1);
    if (choice == 0) break;
    stages.push_back(choice - 1);
  }
  // A stage that needs several passes must not come after another one.
  if (std::count(stages.begin(), stages.end(), kOutliers) > 1) mc::prune();
  std::vector<int> kinds;
  while (static_cast<int>(kinds.size()) < max_batches) {
    const int choice = mc::choose(6);
    if (choice == 0) break;
    kinds.push_back(choice - 1);
  }
  std::string configuration = "return {";
  for (const int stage : stages) configuration += std::string(kStageConfigurations[stage]) + ", ";
  const int writer = mc::choose(4);
  const char* const writers[] = {"{action = 'capture'}, ", "{action = 'write_ply', filename = 'x'}, ",
                                 "{action = 'write_pcd', filename = 'x'}, ",
                                 "{action = 'write_xyz', filename = 'x'}, "};
  configuration += writers[writer];
  configuration += "{action = 'capture'}}";
  MC_LOG(configuration);
  for (const int kind : kinds) MC_LOG("batch " << kind);

  std::vector<Batch> stream;
  for (const int kind : kinds) stream.push_back(MakeBatch(kind));
  for (const int stage : stages) ApplyModel(stage, &stream);
  std::vector<Point> points;
  bool colors_first = false, intensities_first = false, mixed = false;
  for (const Batch& b : stream) {
    if (b.points.empty()) continue;
    if (points.empty()) {
      colors_first = b.points[0].has_color;
      intensities_first = b.points[0].has_intensity;
    }
    // Batches which lack what the first one has are refused by the PLY writer.
    if (colors_first && !b.points[0].has_color) mixed = true;
    if (writer == 1 && intensities_first && !b.points[0].has_intensity) mixed = true;
    points.insert(points.end(), b.points.begin(), b.points.end());
  }
  if (mixed && (writer == 1 || writer == 2)) mc::prune();

  MemoryFile file;
  int opened = 0;
  // At most two, which are built starting with the last one.
  std::vector<std::unique_ptr<PointsBatch>> captured[2];
  int num_captures = 0;
  io::PointsProcessorPipelineBuilder builder;
  const std::vector<mapping::proto::Trajectory> trajectories;
  io::RegisterBuiltInPointsProcessors(
      trajectories,
      [&](const std::string& name) {
        MC_CHECK(name == "x", "file name " << name);
        ++opened;
        return absl::make_unique<MemoryWriter>(&file);
      },
      &builder);
  builder.Register("capture", [&](common::LuaParameterDictionary*, PointsProcessor* next)
                                  -> std::unique_ptr<PointsProcessor> {
    return absl::make_unique<Capture>(&captured[num_captures++], next);
  });
  common::LuaParameterDictionary dictionary(configuration, absl::make_unique<NoFiles>());
  auto pipeline = builder.CreatePipeline(&dictionary);
  const int passes = std::count(stages.begin(), stages.end(), kOutliers) ? 3 : 1;
  for (int pass = 1;; ++pass) {
    for (auto& c : captured) {
      MC_CHECK(pass == passes || pass == 1 || c.empty(), "points before the last pass");
    }
    for (const int kind : kinds) {
      pipeline.back()->Process(ToReal(MakeBatch(kind)));
      mc::step();
    }
    if (pipeline.back()->Flush() == PointsProcessor::FlushResult::kFinished) {
      MC_CHECK(pass == passes, "finished after pass " << pass);
      break;
    }
    MC_CHECK(pass < passes, "another pass was requested");
  }
  pipeline.clear();
  for (int i = 0; i < num_captures; ++i) CheckCaptured(captured[i], stream);
  if (writer == 0) return;
  MC_CHECK(opened == 1 && file.closed, "the file was not closed");
  switch (writer) {
    case 1:
      CheckPly(file.data, points, colors_first, intensities_first);
      break;
    case 2:
      CheckPcd(file.data, points, colors_first);
      break;
    case 3:
      CheckXyz(file.data, points);
      break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"pipelines", [] { Pipeline(mc::thorough() ? 4 : 3, 3, {}); }, 3,
                       UINT64_MAX,
                       "all pipelines of up to 3 (thorough: 4) of 10 stages and a writer, up to 3 "
                       "batches of 5 kinds"});
  scenarios.push_back({"batches", [] { Pipeline(1, mc::thorough() ? 5 : 4, {}); }, 3, UINT64_MAX,
                       "pipelines of up to 1 stage and a writer, up to 4 (5) batches"});
  scenarios.push_back({"outliers", [] { Pipeline(2, mc::thorough() ? 5 : 3, {kOutliers}); }, 3, UINT64_MAX,
                       "outlier removal and another stage, up to 3 (5) batches"});
  return mc::Main(argc, argv, scenarios,
                  {"explicit enumeration of pipelines and inputs", {}});
}
