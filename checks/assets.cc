// Assets written from points: X-ray images, probability grids, hybrid grids,
// and the floors by which they are separated.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "Eigen/Dense"
#include "absl/memory/memory.h"
#include "cairo/cairo.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/io/image.h"
#include "cartographer/io/points_processor_pipeline_builder.h"
#include "cartographer/io/xray_points_processor.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/detect_floors.h"
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using Eigen::Vector3d;
using Eigen::Vector3f;
using io::PointsBatch;
using io::PointsProcessor;
using mapping::proto::Trajectory;

struct NoFiles : public common::FileResolver {
  std::string GetFullPathOrDie(const std::string&) override { mc::fail("no files"); }
  std::string GetFileContentOrDie(const std::string&) override { mc::fail("no files"); }
};

struct File {
  std::string data;
  bool closed = false;
};
class Writer : public io::FileWriter {
 public:
  explicit Writer(File* file) : file_(file) {}
  bool Write(const char* data, size_t len) override {
    MC_CHECK(!file_->closed, "written after it was closed");
    file_->data.append(data, len);
    return true;
  }
  bool WriteHeader(const char*, size_t) override { mc::fail("header"); }
  bool Close() override {
    MC_CHECK(!file_->closed, "closed twice");
    file_->closed = true;
    return true;
  }
  std::string GetFilename() override { return "file"; }

 private:
  File* const file_;
};

using Color = std::array<int, 3>;
struct Picture {
  int width = 0, height = 0;
  std::vector<Color> pixels;
  Color at(const int x, const int y) const { return pixels[y * width + x]; }
};
Picture Read(const std::string& data) {
  struct Source {
    const std::string& data;
    size_t position;
  } source{data, 0};
  const auto read = [](void* closure, unsigned char* out, unsigned int length) {
    Source* const s = static_cast<Source*>(closure);
    if (s->position + length > s->data.size()) return CAIRO_STATUS_READ_ERROR;
    std::copy(s->data.begin() + s->position, s->data.begin() + s->position + length, out);
    s->position += length;
    return CAIRO_STATUS_SUCCESS;
  };
  const auto surface =
      io::MakeUniqueCairoSurfacePtr(cairo_image_surface_create_from_png_stream(read, &source));
  MC_CHECK(cairo_surface_status(surface.get()) == CAIRO_STATUS_SUCCESS, "no image was written");
  Picture picture;
  picture.width = cairo_image_surface_get_width(surface.get());
  picture.height = cairo_image_surface_get_height(surface.get());
  for (int y = 0; y != picture.height; ++y) {
    for (int x = 0; x != picture.width; ++x) {
      const uint32_t p = reinterpret_cast<const uint32_t*>(
          cairo_image_surface_get_data(surface.get()) +
          y * cairo_image_surface_get_stride(surface.get()))[x];
      picture.pixels.push_back({int(p >> 16 & 255), int(p >> 8 & 255), int(p & 255)});
    }
  }
  return picture;
}
bool Same(const Color& a, const Color& b) {
  for (int i = 0; i != 3; ++i) {
    if (std::abs(a[i] - b[i]) > 1) return false;
  }
  return true;
}
std::string Show(const Color& c) {
  return std::to_string(c[0]) + "," + std::to_string(c[1]) + "," + std::to_string(c[2]);
}

// All batches pass a stage unchanged.
bool operator==(const PointsBatch& a, const PointsBatch& b) {
  if (a.points.size() != b.points.size() || a.start_time != b.start_time ||
      a.origin != b.origin || a.frame_id != b.frame_id || a.trajectory_id != b.trajectory_id ||
      a.intensities != b.intensities || a.colors != b.colors) {
    return false;
  }
  for (size_t i = 0; i != a.points.size(); ++i) {
    if (a.points[i].position != b.points[i].position) return false;
  }
  return true;
}
struct Sink : public PointsProcessor {
  void Process(std::unique_ptr<PointsBatch> batch) override { batches.push_back(*batch); }
  FlushResult Flush() override {
    ++flushed;
    return FlushResult::kFinished;
  }
  std::vector<PointsBatch> batches;
  int flushed = 0;
};
struct ToSink : public PointsProcessor {
  ToSink(Sink* sink, PointsProcessor* next) : sink(sink), next(next) {}
  void Process(std::unique_ptr<PointsBatch> batch) override {
    sink->Process(absl::make_unique<PointsBatch>(*batch));
    next->Process(std::move(batch));
  }
  FlushResult Flush() override {
    sink->Flush();
    return next->Flush();
  }
  Sink* const sink;
  PointsProcessor* const next;
};

// Sends everything through one configured stage.
std::map<std::string, File> Write(const std::string& stage, const std::vector<PointsBatch>& batches,
                                  const std::vector<Trajectory>& trajectories) {
  std::map<std::string, File> files;
  Sink sink;
  io::PointsProcessorPipelineBuilder builder;
  io::RegisterBuiltInPointsProcessors(
      trajectories,
      [&](const std::string& name) {
        MC_CHECK(!files.count(name), name << " opened twice");
        return absl::make_unique<Writer>(&files[name]);
      },
      &builder);
  builder.Register("sink", [&](common::LuaParameterDictionary*, PointsProcessor* next)
                               -> std::unique_ptr<PointsProcessor> {
    return absl::make_unique<ToSink>(&sink, next);
  });
  common::LuaParameterDictionary dictionary("return { " + stage + ", { action = \"sink\" } }",
                                            absl::make_unique<NoFiles>());
  auto pipeline = builder.CreatePipeline(&dictionary);
  for (const PointsBatch& batch : batches) {
    pipeline.back()->Process(absl::make_unique<PointsBatch>(batch));
    mc::step();
  }
  MC_CHECK(pipeline.back()->Flush() == PointsProcessor::FlushResult::kFinished, "not finished");
  pipeline.clear();
  MC_CHECK(sink.flushed == 1 && sink.batches.size() == batches.size(), "not passed on");
  for (size_t i = 0; i != batches.size(); ++i) {
    MC_CHECK(sink.batches[i] == batches[i], "changed when passed on");
  }
  return files;
}

common::Time ToTime(const int seconds) {
  return common::FromUniversal(635000000000000000ll + 10000000ll * seconds);
}

std::string Number(const double x) {
  char text[50];
  snprintf(text, sizeof(text), "%.17g", x);
  return text;
}

Trajectory ToTrajectory(const std::vector<Vector3d>& positions) {
  Trajectory trajectory;
  for (size_t i = 0; i != positions.size(); ++i) {
    auto* const node = trajectory.add_node();
    node->set_timestamp(common::ToUniversal(ToTime(i)));
    *node->mutable_pose() = transform::ToProto(
        transform::Rigid3d(positions[i], transform::RollPitchYaw(0.1, 0.2, 0.3 * i)));
  }
  return trajectory;
}

// The trajectory goes from a green to a red mark, over what is there.
void CheckDrawn(const Picture& drawn, const Picture& plain,
                const std::vector<Eigen::Array2i>& path) {
  MC_CHECK(drawn.width == plain.width && drawn.height == plain.height, "size");
  for (const auto& p : path) MC_LOG("path " << p.transpose());
  const auto distance = [](const Eigen::Vector2d& p, const Eigen::Vector2d& a,
                           const Eigen::Vector2d& b) {
    const Eigen::Vector2d d = b - a;
    const double t =
        d.norm() == 0. ? 0. : std::max(0., std::min(1., (p - a).dot(d) / d.squaredNorm()));
    return (p - a - t * d).norm();
  };
  for (int y = 0; y != plain.height; ++y) {
    for (int x = 0; x != plain.width; ++x) {
      const Eigen::Vector2d p(x + 0.5, y + 0.5);
      double best = 1e9;
      for (size_t i = 0; i + 1 < path.size(); ++i) {
        best = std::min(best, distance(p, path[i].cast<double>().matrix(),
                                       path[i + 1].cast<double>().matrix()));
      }
      // Lines turning sharply are pointed.
      double turn = 1e9;
      for (size_t i = 1; i + 1 < path.size(); ++i) {
        turn = std::min(turn, (p - path[i].cast<double>().matrix()).norm());
      }
      const double start = (p - path.front().cast<double>().matrix()).norm();
      const double end = (p - path.back().cast<double>().matrix()).norm();
      const Color c = drawn.at(x, y);
      if (end < 4.5) {
        MC_CHECK(c[0] > c[1] + 100 && c[0] > c[2] + 100, "end is " << Show(c));
      } else if (start < 4.5 && end > 8.) {
        MC_CHECK(c[1] > c[0] + 100 && c[1] > c[2] + 100, "start is " << Show(c));
      } else if (best < 1. && start > 8. && end > 8. && turn > 3.) {
        MC_CHECK(!Same(c, plain.at(x, y)), "no line at " << x << " " << y);
      } else if (best > 4. && start > 8. && end > 8. && turn > 22.) {
        MC_CHECK(Same(c, plain.at(x, y)), "changed at " << x << " " << y);
      }
    }
  }
}

// X-ray images -------------------------------------------------------------

struct XRayPoint {
  Eigen::Array3i voxel;
  io::FloatColor color;
};

struct Expected {
  Eigen::Array3i min, max;
  bool any = false;
  void Extend(const Eigen::Array3i& v) {
    min = any ? Eigen::Array3i(min.min(v)) : v;
    max = any ? Eigen::Array3i(max.max(v)) : v;
    any = true;
  }
};

void CheckXRay(const Picture& picture, const Expected& box, const std::vector<XRayPoint>& points,
               const double saturation_factor) {
  MC_CHECK(picture.width == box.max[1] - box.min[1] + 1 &&
               picture.height == box.max[2] - box.min[2] + 1,
           "size " << picture.width << " x " << picture.height);
  struct Column {
    std::set<int> depths;
    double sum[3] = {0., 0., 0.};
    int count = 0;
  };
  std::map<std::pair<int, int>, Column> columns;
  size_t most = 1;
  for (const XRayPoint& point : points) {
    // Looking along the x-axis: y points to the left, z up.
    Column& column = columns[{box.max[1] - point.voxel[1], box.max[2] - point.voxel[2]}];
    column.depths.insert(point.voxel[0]);
    for (int i = 0; i != 3; ++i) column.sum[i] += point.color[i];
    ++column.count;
    most = std::max(most, column.depths.size());
  }
  for (int y = 0; y != picture.height; ++y) {
    for (int x = 0; x != picture.width; ++x) {
      Color want = {255, 255, 255};
      const auto it = columns.find({x, y});
      if (it != columns.end()) {
        const Column& column = it->second;
        const double saturation =
            most == 1 ? 0.
                      : std::min(1., std::log(column.depths.size()) / std::log(most) *
                                         saturation_factor);
        for (int i = 0; i != 3; ++i) {
          const double mixed =
              1. - saturation + saturation * column.sum[i] / column.count;
          want[i] = std::lround(255. * mixed);
        }
      }
      MC_CHECK(Same(picture.at(x, y), want), "pixel " << x << " " << y << " is "
                                                      << Show(picture.at(x, y)) << " instead of "
                                                      << Show(want));
    }
  }
}

const std::vector<transform::Rigid3d>& Views() {
  static const std::vector<transform::Rigid3d> views = {
      transform::Rigid3d::Identity(),
      transform::Rigid3d(Vector3d(0.5, -2.25, 1.), transform::RollPitchYaw(0., 0., M_PI / 2.)),
      transform::Rigid3d(Vector3d(3., 1., -4.), transform::RollPitchYaw(0., -M_PI / 2., 0.)),
      transform::Rigid3d(Vector3d(0., 0., 0.), transform::RollPitchYaw(0.4, -0.7, 1.1))};
  return views;
}

Vector3f PointIn(const Eigen::Array3i& voxel, const double size, const transform::Rigid3d& view) {
  return (view.inverse() * (voxel.cast<double>().matrix() * size + size * Vector3d(0.2, -0.3, 0.1)))
      .cast<float>();
}

void XRay(const int max_batches) {
  static const Eigen::Array3i voxels[] = {
      {0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {-7, 3, -2}, {9, 3, -2}, {0, -1, 1}};
  static const io::FloatColor colors[] = {{{0.f, 0.f, 0.f}}, {{1.f, 0.25f, 0.f}}, {{0.f, 0.5f, 1.f}}};
  const double size = mc::pick<double>({1., 0.05});
  const transform::Rigid3d view = Views()[mc::choose(Views().size())];
  const double factor = mc::pick<double>({1., 0.5, 3.});
  const int num_batches = mc::choose(max_batches + 1);
  std::vector<PointsBatch> batches;
  std::vector<XRayPoint> points;
  Expected box;
  for (int b = 0; b != num_batches; ++b) {
    PointsBatch batch;
    batch.start_time = ToTime(b);
    batch.origin = Vector3f(1.f, 2.f, b);
    batch.frame_id = "frame";
    batch.trajectory_id = b;
    const bool colored = mc::flip();
    // Which voxels have a point, the first one maybe twice.
    const int mask = mc::choose(64);
    if (num_batches > 1 && (mask & 48) == 48) mc::prune();
    for (int v = 0; v != 6; ++v) {
      if (!((mask >> v) & 1)) continue;
      for (int k = 0; k != (v == 0 ? 2 : 1); ++k) {
        const io::FloatColor color = colored ? colors[(v + b + k) % 3] : colors[0];
        batch.points.push_back({PointIn(voxels[v], size, view)});
        if (colored) batch.colors.push_back(color);
        points.push_back({voxels[v], color});
        box.Extend(voxels[v]);
      }
    }
    batches.push_back(batch);
  }
  const auto& t = view.translation();
  const auto& q = view.rotation();
  const auto files = Write(
      "{ action = \"write_xray_image\", voxel_size = " + Number(size) + ", filename = \"x\"" +
          (factor == 1. ? "" : ", saturation_factor = " + Number(factor)) +
          ", transform = { translation = { " + Number(t.x()) + ", " + Number(t.y()) + ", " +
          Number(t.z()) + " }, rotation = { w = " + Number(q.w()) + ", x = " + Number(q.x()) +
          ", y = " + Number(q.y()) + ", z = " + Number(q.z()) + " } } }",
      batches, {});
  MC_CHECK(files.size() == 1 && files.count("x.png"), "files");
  const File& file = files.at("x.png");
  if (!box.any) {
    MC_CHECK(file.data.empty(), "an image of nothing");
    return;
  }
  MC_CHECK(file.closed, "not closed");
  CheckXRay(Read(file.data), box, points, factor);
}

void XRayTrajectories() {
  const double size = mc::pick<double>({0.5, 0.05});
  const transform::Rigid3d view = Views()[mc::choose(Views().size())];
  const bool draw_key = mc::flip(), draw = mc::flip();
  if (!draw_key && draw) mc::prune();
  PointsBatch batch;
  batch.start_time = ToTime(0);
  std::vector<XRayPoint> points;
  Expected box;
  for (const Eigen::Array3i& v :
       {Eigen::Array3i(0, 0, 0), Eigen::Array3i(0, 39, 29), Eigen::Array3i(1, 0, 0),
        Eigen::Array3i(0, 10, 7)}) {
    batch.points.push_back({PointIn(v, size, view)});
    points.push_back({v, {{0.f, 0.f, 0.f}}});
    box.Extend(v);
  }
  std::vector<Vector3d> positions;
  std::vector<Eigen::Array2i> path;
  const int n = 2 + mc::choose(3);
  for (int i = 0; i != n; ++i) {
    const Eigen::Array3i v(5, mc::choose(2) * 20 + 5 + i, 4 + 9 * ((i + mc::choose(2)) % 3));
    positions.push_back(PointIn(v, size, view).cast<double>());
    path.push_back({39 - v[1], 29 - v[2]});
  }
  const auto& t = view.translation();
  const auto& q = view.rotation();
  const auto files = Write(
      "{ action = \"write_xray_image\", voxel_size = " + Number(size) + ", filename = \"y\"" +
          (draw_key ? std::string(", draw_trajectories = ") + (draw ? "true" : "false") : "") +
          ", transform = { translation = { " + Number(t.x()) + ", " + Number(t.y()) + ", " +
          Number(t.z()) + " }, rotation = { w = " + Number(q.w()) + ", x = " + Number(q.x()) +
          ", y = " + Number(q.y()) + ", z = " + Number(q.z()) + " } } }",
      {batch}, {ToTrajectory(positions)});
  MC_CHECK(files.size() == 1 && files.count("y.png"), "files");
  const Picture picture = Read(files.at("y.png").data);
  if (draw_key && !draw) {
    CheckXRay(picture, box, points, 1.);
    return;
  }
  Picture plain;
  plain.width = 40;
  plain.height = 30;
  plain.pixels.assign(1200, {255, 255, 255});
  plain.pixels[29 * 40 + 39] = {0, 0, 0};
  CheckDrawn(picture, plain, path);
}

// Batches go to all floors during whose time spans they start.
void XRayFloors() {
  const int num_floors = 1 + mc::choose(3);
  std::vector<mapping::Floor> floors;
  std::vector<std::vector<std::pair<int, int>>> spans;
  for (int f = 0; f != num_floors; ++f) {
    static const std::vector<std::vector<std::pair<int, int>>> kSpans = {
        {{0, 3}}, {{2, 4}}, {{1, 1}, {4, 6}}, {{5, 5}}, {{6, 9}, {0, 0}}};
    spans.push_back(kSpans[mc::choose(kSpans.size())]);
    floors.emplace_back();
    floors.back().z = f;
    for (const auto& s : spans.back()) {
      floors.back().timespans.push_back({ToTime(s.first), ToTime(s.second)});
    }
  }
  std::map<std::string, File> files;
  std::vector<std::vector<XRayPoint>> points(num_floors);
  Expected box;
  Sink sink;
  {
    io::XRayPointsProcessor processor(
        0.5, 1., transform::Rigid3f::Identity(), floors,
        io::XRayPointsProcessor::DrawTrajectories::kNo, "z", {},
        [&](const std::string& name) -> std::unique_ptr<io::FileWriter> {
          return absl::make_unique<Writer>(&files[name]);
        },
        &sink);
    const int n = 1 + mc::choose(2);
    for (int b = 0; b != n; ++b) {
      const int time = mc::choose(8);
      PointsBatch batch;
      batch.start_time = ToTime(time);
      for (int k = 0; k != 3; ++k) {
        const Eigen::Array3i v(k == 1 ? 1 : 0, k == 2 ? 2 + b : b, 3 * b - k / 2);
        batch.points.push_back({PointIn(v, 0.5, transform::Rigid3d::Identity())});
        for (int f = 0; f != num_floors; ++f) {
          for (const auto& s : spans[f]) {
            if (time < s.first || time > s.second) continue;
            points[f].push_back({v, {{0.f, 0.f, 0.f}}});
            box.Extend(v);
            break;
          }
        }
      }
      processor.Process(absl::make_unique<PointsBatch>(batch));
    }
    MC_CHECK(processor.Flush() == PointsProcessor::FlushResult::kFinished, "not finished");
    MC_CHECK(sink.flushed == 1 && sink.batches.size() == size_t(n), "not passed on");
  }
  MC_CHECK(files.size() == size_t(num_floors), files.size() << " files");
  for (int f = 0; f != num_floors; ++f) {
    const std::string name = "z" + std::to_string(f) + ".png";
    MC_CHECK(files.count(name), "no file " << name);
    if (!box.any) {
      MC_CHECK(files[name].data.empty(), "an image of nothing");
      continue;
    }
    MC_LOG("floor " << f);
    MC_CHECK(files[name].closed, "not closed");
    CheckXRay(Read(files[name].data), box, points[f], 1.);
  }
}

// Floors of a building -----------------------------------------------------

struct Stay {
  int level;
  bool is_long;
  int begin, end;  // nodes
};

void Floors(const int max_stays, const std::vector<double>& heights) {
  std::vector<Vector3d> positions;
  std::vector<Stay> stays;
  Vector3d position(3., -1., 0.);
  const int n = 1 + mc::choose(max_stays);
  for (int i = 0; i != n; ++i) {
    const int level = mc::choose(heights.size());
    if (i != 0 && std::abs(heights[level] - heights[stays.back().level]) < 2.7) mc::prune();
    const int kind = mc::choose(3);  // one node, short, long
    const int num_nodes = kind == 0 ? 1 : kind == 1 ? 3 : 6;
    stays.push_back({level, kind == 2, int(positions.size()), int(positions.size()) + num_nodes});
    for (int k = 0; k != num_nodes; ++k) {
      // Some nodes are higher, as on a ramp or a table.
      position.z() = heights[level] + (k == 3 ? 1.5 : 0.1 * (k % 2));
      positions.push_back(position);
      if (k + 1 != num_nodes) position += Vector3d(4., 4., 0.);
    }
    position.y() -= 40.;
  }
  const std::vector<mapping::Floor> floors = mapping::DetectFloors(ToTrajectory(positions));

  // Stays at similar heights are on the same level, also if other stays are in between.
  const auto middle = [](std::vector<double> z) {
    std::sort(z.begin(), z.end());
    return z[z.size() / 2];
  };
  std::vector<double> medians;
  for (const Stay& s : stays) {
    std::vector<double> z;
    for (int node = s.begin; node != s.end; ++node) z.push_back(positions[node].z());
    medians.push_back(middle(z));
  }
  std::vector<int> level_of(n);
  for (int i = 0; i != n; ++i) level_of[i] = i;
  for (int round = 0; round != n; ++round) {
    for (int i = 0; i != n; ++i) {
      for (int k = 0; k != n; ++k) {
        if (std::abs(medians[i] - medians[k]) < 1.) {
          level_of[i] = level_of[k] = std::min(level_of[i], level_of[k]);
        }
      }
    }
  }
  // Levels where one was for long, by height.
  std::map<int, std::vector<double>> z_values;
  for (int i = 0; i != n; ++i) {
    if (!stays[i].is_long) continue;
    for (int node = stays[i].begin; node != stays[i].end; ++node) {
      z_values[level_of[i]].push_back(positions[node].z());
    }
  }
  std::vector<std::pair<double, int>> levels;
  for (const auto& level : z_values) levels.emplace_back(middle(level.second), level.first);
  std::sort(levels.begin(), levels.end());

  MC_CHECK(floors.size() == levels.size(), floors.size() << " floors instead of " << levels.size());
  for (size_t f = 0; f != floors.size(); ++f) {
    const mapping::Floor& floor = floors[f];
    MC_CHECK(std::abs(floor.z - levels[f].first) < 0.11,
             "height " << floor.z << " of floor " << f << " instead of " << levels[f].first);
    const int level = levels[f].second;
    for (int i = 0; i != n; ++i) {
      bool want = level_of[i] == level;
      if (!z_values.count(level_of[i])) {
        want = (i != 0 && level_of[i - 1] == level) || (i + 1 != n && level_of[i + 1] == level);
      }
      for (int node = stays[i].begin; node != stays[i].end; ++node) {
        bool got = false;
        for (const auto& span : floor.timespans) {
          got |= span.start <= ToTime(node) && ToTime(node) <= span.end;
        }
        MC_CHECK(got == want, "node " << node << " of stay " << i
                                      << (want ? " is not" : " is") << " on floor " << f);
      }
    }
  }
}

// Probability grids --------------------------------------------------------

std::vector<PointsBatch> ChooseScans(const int max_batches, const bool flat, const double size) {
  static const Vector3d places[] = {{0., 0., 0.}, {2., 1., 0.}, {-3., 1., 1.}, {1., -4., -1.},
                                    {80., 2., 3.}, {-5., -70., 0.}};
  std::vector<PointsBatch> batches;
  const int n = mc::choose(max_batches + 1);
  for (int b = 0; b != n; ++b) {
    PointsBatch batch;
    batch.start_time = ToTime(b);
    batch.origin =
        ((places[mc::choose(3)] + Vector3d(0.3, 0.4, flat ? 0. : 0.45)) * size).cast<float>();
    const int mask = mc::choose(n > 1 && b == 0 ? 16 : 64);
    for (int v = 0; v != 6; ++v) {
      if ((mask >> v) & 1) {
        batch.points.push_back(
            {((places[v] + Vector3d(0.35, 0.45, 0.4)) * size).cast<float>()});
      }
    }
    if (mc::flip()) batch.colors.resize(batch.points.size(), {{0.5f, 0.f, 0.f}});
    batches.push_back(batch);
  }
  return batches;
}

void ProbabilityGrids(const int max_batches) {
  const double resolution = mc::pick<double>({1., 0.05});
  const bool free_space = mc::flip();
  const int output = mc::choose(3);  // png (default), png, pb
  const std::vector<PointsBatch> batches = ChooseScans(max_batches, true, resolution);

  const std::string inserter = std::string("{ insert_free_space = ") +
                               (free_space ? "true" : "false") +
                               ", hit_probability = 0.65, miss_probability = 0.4 }";
  common::LuaParameterDictionary options("return " + inserter, absl::make_unique<NoFiles>());
  const mapping::ProbabilityGridRangeDataInserter2D reference_inserter(
      mapping::CreateProbabilityGridRangeDataInserterOptions2D(&options));
  // Larger than the other one, with cells at the same places.
  mapping::ValueConversionTables tables, read_tables;
  mapping::ProbabilityGrid reference(
      mapping::MapLimits(resolution, Eigen::Vector2d(90., 80.) * resolution,
                         mapping::CellLimits(170, 180)),
      &tables);
  for (const PointsBatch& batch : batches) {
    reference_inserter.Insert({batch.origin, sensor::PointCloud(batch.points), {}}, &reference);
  }
  const auto files = Write(
      "{ action = \"write_probability_grid\", resolution = " + Number(resolution) +
          ", range_data_inserter = " + inserter + ", filename = \"grid\"" +
          (output == 0 ? "" : output == 1 ? ", output_type = \"png\"" : ", output_type = \"pb\"") +
          " }",
      batches, {});
  Eigen::Array2i min(1000, 1000), max(-1000, -1000);
  const auto& limits = reference.limits();
  for (const Eigen::Array2i& i : mapping::XYIndexRangeIterator(limits.cell_limits())) {
    if (!reference.IsKnown(i)) continue;
    min = min.min(i);
    max = max.max(i);
  }
  const bool any = max.x() >= min.x();
  if (output == 2) {
    MC_CHECK(files.size() == 1 && files.count("grid.pb") && files.at("grid.pb").closed, "files");
    mapping::proto::Grid2D proto;
    MC_CHECK(proto.ParseFromString(files.at("grid.pb").data), "no grid was written");
    const mapping::ProbabilityGrid grid(proto, &read_tables);
    MC_CHECK(grid.limits().resolution() == resolution, "resolution");
    int known = 0, expected = 0;
    for (const Eigen::Array2i& i : mapping::XYIndexRangeIterator(limits.cell_limits())) {
      const Eigen::Array2i k = grid.limits().GetCellIndex(limits.GetCellCenter(i));
      const bool is_known = grid.limits().Contains(k) && grid.IsKnown(k);
      MC_CHECK(is_known == reference.IsKnown(i), "cell " << i.transpose());
      if (!is_known) continue;
      ++expected;
      MC_CHECK(std::abs(grid.GetProbability(k) - reference.GetProbability(i)) < 1e-4,
               "probability of cell " << i.transpose());
    }
    for (const Eigen::Array2i& i : mapping::XYIndexRangeIterator(grid.limits().cell_limits())) {
      known += grid.IsKnown(i);
    }
    MC_CHECK(known == expected, known << " known cells instead of " << expected);
    return;
  }
  MC_CHECK(files.size() == 1 && files.count("grid.png"), "files");
  if (!any) {
    // At most one unknown pixel.
    if (files.at("grid.png").data.empty()) return;
    const Picture picture = Read(files.at("grid.png").data);
    MC_CHECK(picture.pixels.size() == 1 && Same(picture.pixels[0], {128, 128, 128}),
             "an image of nothing");
    return;
  }
  MC_CHECK(files.at("grid.png").closed, "not closed");
  const Picture picture = Read(files.at("grid.png").data);
  MC_CHECK(picture.width == max.x() - min.x() + 1 && picture.height == max.y() - min.y() + 1,
           "size " << picture.width << " x " << picture.height);
  for (int y = 0; y != picture.height; ++y) {
    for (int x = 0; x != picture.width; ++x) {
      const Eigen::Array2i i = min + Eigen::Array2i(x, y);
      int want = 128;
      if (reference.IsKnown(i)) {
        // Free space is white.
        want = std::lround(255. * (0.9 - reference.GetProbability(i)) / 0.8);
      }
      MC_CHECK(Same(picture.at(x, y), {want, want, want}),
               "pixel " << x << " " << y << " is " << Show(picture.at(x, y)) << " instead of "
                        << want);
    }
  }
}

void ProbabilityGridTrajectories() {
  const double resolution = mc::pick<double>({1., 0.05});
  const bool draw_key = mc::flip(), draw = mc::flip();
  if (!draw_key && draw) mc::prune();
  PointsBatch batch;
  batch.start_time = ToTime(0);
  batch.origin = (Vector3d(0.5, 0.5, 0.) * resolution).cast<float>();
  const bool outside = mc::flip();  // of the initial grid
  const int shift = outside ? 30 : 0;
  for (const Vector3d& p : {Vector3d(20.5 + shift, -29.5, 0.), Vector3d(-8.5, 9.5, 0.)}) {
    batch.points.push_back({(p * resolution).cast<float>()});
  }
  std::vector<Vector3d> positions;
  std::vector<Eigen::Array2i> path;
  const int n = 2 + mc::choose(3);
  for (int i = 0; i != n; ++i) {
    const int x = 12 - 9 * ((i + mc::choose(2)) % 3), y = 4 - 22 * mc::choose(2) - i;
    positions.push_back(Vector3d(x + 0.5, y + 0.5, 1.) * resolution);
    // Up is x, left is y; from the cell in the corner.
    path.push_back({9 - y, 20 + shift - x});
  }
  const auto stage = [&](const std::string& more) {
    return "{ action = \"write_probability_grid\", resolution = " + Number(resolution) +
           ", range_data_inserter = { insert_free_space = false, hit_probability = 0.7, "
           "miss_probability = 0.4 }, filename = \"g\"" + more + " }";
  };
  const auto files =
      Write(stage(draw_key ? std::string(", draw_trajectories = ") + (draw ? "true" : "false") : ""),
            {batch}, {ToTrajectory(positions)});
  const Picture picture = Read(files.at("g.png").data);
  Picture plain;
  plain.width = 40;
  plain.height = 30 + shift;
  plain.pixels.assign(plain.width * plain.height, {128, 128, 128});
  const Color hit = {64, 64, 64};
  plain.pixels[39] = hit;
  plain.pixels[plain.width * (28 + shift) + plain.width] = hit;
  if (draw_key && !draw) {
    MC_CHECK(picture.width == plain.width && picture.height == plain.height, "size");
    for (size_t i = 0; i != plain.pixels.size(); ++i) {
      MC_CHECK(Same(picture.pixels[i], plain.pixels[i]), "pixel " << i);
    }
    return;
  }
  CheckDrawn(picture, plain, path);
}

// Hybrid grids -------------------------------------------------------------

void HybridGrids(const int max_batches) {
  const double size = mc::pick<double>({1., 0.1});
  const int free_voxels = mc::choose(3);
  const std::vector<PointsBatch> batches = ChooseScans(max_batches, false, size);
  const std::string inserter =
      "{ hit_probability = 0.65, miss_probability = 0.4, num_free_space_voxels = " +
      std::to_string(free_voxels) + ", intensity_threshold = 40 }";
  common::LuaParameterDictionary options("return " + inserter, absl::make_unique<NoFiles>());
  const mapping::RangeDataInserter3D reference_inserter(
      mapping::CreateRangeDataInserterOptions3D(&options));
  mapping::HybridGrid reference(size);
  for (const PointsBatch& batch : batches) {
    reference_inserter.Insert({batch.origin, sensor::PointCloud(batch.points), {}}, &reference,
                              nullptr);
  }
  const auto files = Write("{ action = \"write_hybrid_grid\", voxel_size = " + Number(size) +
                               ", range_data_inserter = " + inserter + ", filename = \"h\" }",
                           batches, {});
  MC_CHECK(files.size() == 1 && files.count("h") && files.at("h").closed, "files");
  mapping::proto::HybridGrid proto;
  MC_CHECK(proto.ParseFromString(files.at("h").data), "no grid was written");
  MC_CHECK(std::abs(proto.resolution() - size) < 1e-6, "resolution " << proto.resolution());
  const mapping::HybridGrid grid(proto);
  int known = 0, expected = 0;
  for (const auto& cell : reference) {
    ++expected;
    MC_CHECK(std::abs(grid.GetProbability(cell.first) - reference.GetProbability(cell.first)) < 1e-4,
             "cell " << cell.first.transpose());
    MC_CHECK(grid.IsKnown(cell.first), "cell " << cell.first.transpose());
  }
  for (const auto& cell : grid) known += grid.IsKnown(cell.first);
  MC_CHECK(known == expected, known << " known cells instead of " << expected);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "explicit enumeration of batches of points, configurations and trajectories; files parsed "
      "independently";
  return mc::Main(
      argc, argv,
      {{"xray", [] { XRay(2); }, 3, UINT64_MAX,
        "0-2 batches with any of 6 voxels, colored or not, 4 views, 3 factors"},
       {"xray_trajectories", [] { XRayTrajectories(); }, 3, UINT64_MAX,
        "trajectories of 2-4 nodes, 4 views, drawn or not"},
       {"xray_floors", [] { XRayFloors(); }, 3, UINT64_MAX,
        "1-3 floors of 5 kinds, 1-2 batches at 8 times"},
       {"floors", [] { Floors(mc::thorough() ? 6 : 5, {0.4, 3.6, 6.9, 10.2}); }, 3, UINT64_MAX,
        "all sequences of up to 5 (thorough: 6) stays on 4 levels, one node, short or long"},
       {"similar_levels", [] { Floors(mc::thorough() ? 7 : 6, {0.4, 1.2, 2., 5.3}); }, 3, UINT64_MAX,
        "all sequences of up to 6 (thorough: 7) stays on 4 levels, three of them similar"},
       {"probability_grid", [] { ProbabilityGrids(mc::thorough() ? 2 : 1); }, 3, UINT64_MAX,
        "0-1 (thorough: 2) scans with any of 6 points, also outside of the initial grid"},
       {"probability_grid_trajectories", [] { ProbabilityGridTrajectories(); }, 3, UINT64_MAX,
        "trajectories of 2-4 nodes, drawn or not"},
       {"hybrid_grid", [] { HybridGrids(mc::thorough() ? 2 : 1); }, 3, UINT64_MAX,
        "0-1 (thorough: 2) scans with any of 6 points"}},
      config);
}
