// Images of submaps and maps: every known cell is shown at its place.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "cartographer/common/port.h"
#include "cartographer/io/draw_trajectories.h"
#include "cartographer/io/image.h"
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "cartographer/io/submap_painter.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using namespace cartographer::mapping;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using transform::Rigid3d;

ValueConversionTables* Tables() {
  static auto* const tables = new ValueConversionTables;
  return tables;
}

Quaterniond Yaw(const double angle) {
  return Quaterniond(Eigen::AngleAxisd(angle, Vector3d::UnitZ()));
}

// 'value' minus 'alpha' of a texture for a probability.
double Shade(double p) {
  p = std::min(0.9, std::max(0.1, p));
  const auto logit = [](const double p) { return std::log(p / (1. - p)); };
  return 127. - 254. * (logit(p) - logit(0.1)) / (logit(0.9) - logit(0.1));
}

struct Pixel {
  int value, alpha;
  Vector3d position;  // of the center, in the submap frame
};
std::vector<Pixel> Pixels(const proto::SubmapQuery::Response::SubmapTexture& texture) {
  std::string cells;
  common::FastGunzipString(texture.cells(), &cells);
  MC_CHECK(texture.width() > 0 && texture.height() > 0 &&
               cells.size() == size_t(2) * texture.width() * texture.height(),
           "size " << texture.width() << " x " << texture.height());
  const auto unpacked = io::UnpackTextureData(texture.cells(), texture.width(), texture.height());
  const Rigid3d slice_pose = transform::ToRigid3(texture.slice_pose());
  std::vector<Pixel> result;
  for (int i = 0; i != texture.height(); ++i) {
    for (int j = 0; j != texture.width(); ++j) {
      const int k = i * texture.width() + j;
      MC_CHECK(unpacked.intensity.at(k) == cells[2 * k] && unpacked.alpha.at(k) == cells[2 * k + 1],
               "unpacked pixel");
      result.push_back({static_cast<unsigned char>(cells[2 * k]),
                        static_cast<unsigned char>(cells[2 * k + 1]),
                        slice_pose * Vector3d(-(i + 0.5) * texture.resolution(),
                                              -(j + 0.5) * texture.resolution(), 0.)});
    }
  }
  return result;
}

struct Cell {
  Vector3d position;  // in the submap frame
  double shade;
};
void CheckTexture(const proto::SubmapQuery::Response::SubmapTexture& texture,
                  const std::vector<Cell>& cells, const double resolution, const double tolerance) {
  MC_CHECK(std::abs(texture.resolution() - resolution) < 1e-6, "resolution");
  size_t shown = 0;
  for (const Pixel& pixel : Pixels(texture)) {
    int found = 0;
    for (const Cell& cell : cells) {
      if (((pixel.position - cell.position).head<2>().cwiseAbs().array() <
           tolerance * resolution).all()) {
        ++found;
        const double shade = pixel.value - pixel.alpha;
        // A pixel which would not differ from an unknown one gets some alpha.
        MC_CHECK(std::abs(shade - cell.shade) < 0.55 || (shade == -1. && std::abs(cell.shade) < 0.55),
                 "cell at " << cell.position.transpose()
                                                                << " has " << shade << ", not "
                                                                << cell.shade);
        MC_CHECK(pixel.value == 0 || pixel.alpha == 0, "value and alpha");
        MC_CHECK(pixel.value != 0 || pixel.alpha != 0, "a known cell looks unknown");
      }
    }
    MC_CHECK(found <= 1, "pixels are not apart");
    MC_CHECK(found == 1 || (pixel.value == 0 && pixel.alpha == 0),
             "an unknown cell looks known at " << pixel.position.transpose());
    shown += found;
  }
  MC_CHECK(shown == cells.size(), shown << " of " << cells.size() << " cells are shown");
}

// ------------------------------------------------------------------ 2D ----

struct Map2D {
  proto::Submap proto;
  std::vector<Cell> cells;  // in the submap frame
  double resolution;
};

// 'contents' has one value for each of some cells of a grid, 0 if unknown.
Map2D Make2D(const std::vector<int>& contents, const bool tsdf, const Rigid3d& local_pose,
             const double resolution) {
  const std::pair<int, int> indices[] = {{0, 0}, {4, 3}, {2, 1}, {3, 1}, {1, 3}, {4, 0}};
  const MapLimits limits(resolution, Eigen::Vector2d(3.3 * resolution + local_pose.translation().x(),
                                                     1.9 * resolution + local_pose.translation().y()),
                         CellLimits(5, 4));
  std::unique_ptr<Grid2D> grid;
  if (tsdf) {
    grid = absl::make_unique<TSDF2D>(limits, 0.3f, 10.f, Tables());
  } else {
    grid = absl::make_unique<ProbabilityGrid>(limits, Tables());
  }
  Map2D result;
  for (size_t i = 0; i != contents.size(); ++i) {
    if (contents[i] == 0) continue;
    const Eigen::Array2i index(indices[i].first, indices[i].second);
    double shade;
    if (tsdf) {
      const double tsd[] = {0., -0.3, -0.1, 0.02, 0.3}, weight[] = {0., 10., 3., 8., 6.};
      static_cast<TSDF2D*>(grid.get())->SetCell(index, tsd[contents[i]], weight[contents[i]]);
      shade = weight[contents[i]] / 10. * (std::sqrt(std::abs(tsd[contents[i]]) / 0.3) * 255. - 128.);
    } else {
      const double p[] = {0., 0.1, 0.5, 0.62, 0.9};
      static_cast<ProbabilityGrid*>(grid.get())->SetProbability(index, p[contents[i]]);
      shade = Shade(p[contents[i]]);
    }
    result.cells.push_back(
        {local_pose.inverse() * Vector3d(limits.max().x() - (index.y() + 0.5) * resolution,
                                         limits.max().y() - (index.x() + 0.5) * resolution, 0.),
         shade});
  }
  grid->FinishUpdate();
  result.resolution = resolution;
  auto* const submap = result.proto.mutable_submap_2d();
  *submap->mutable_local_pose() = transform::ToProto(local_pose);
  submap->set_num_range_data(7);
  submap->set_finished(true);
  *submap->mutable_grid() = grid->ToProto();
  return result;
}

// Half a turn or a bit, somewhere.
Rigid3d LocalPose(const int k) {
  return k == 0 ? Rigid3d::Identity()
                : Rigid3d(Vector3d(1.5, -2.25, 0.), Yaw(k == 1 ? 0. : 0.7));
}

void Textures2D(const bool thorough) {
  const bool tsdf = mc::flip();
  const Rigid3d local_pose = LocalPose(mc::choose(3));
  const double resolution = mc::pick<double>({0.05, 0.3});
  std::vector<int> contents;
  std::ostringstream os;
  for (int i = 0; i != (thorough ? 6 : 5); ++i) {
    contents.push_back(mc::choose(5));
    os << contents.back();
  }
  MC_LOG("cells " << os.str() << (tsdf ? " TSDF" : ""));
  const Map2D map = Make2D(contents, tsdf, local_pose, resolution);
  const Submap2D submap(map.proto.submap_2d(), Tables());
  proto::SubmapQuery::Response response;
  mc::step();
  submap.ToResponseProto(Rigid3d(Vector3d(8., 9., 0.), Yaw(0.4)), &response);
  MC_CHECK(response.submap_version() == 7, "version");
  MC_CHECK(response.textures_size() == 1, "number of textures");
  CheckTexture(response.textures(0), map.cells, resolution, 0.1);
}

// All probabilities, those of 128 values at a time.
void Shades() {
  const int block = mc::choose(256);
  const MapLimits limits(0.1, Eigen::Vector2d(0.8, 1.6), CellLimits(16, 8));
  ProbabilityGrid grid(limits, Tables());
  std::vector<Cell> cells;
  for (int i = 0; i != 128; ++i) {
    const int value = block * 128 + i;
    if (value == 0) continue;
    const double p = 0.1 + (value - 1.) * 0.8 / 32766.;
    grid.SetProbability(Eigen::Array2i(i % 16, i / 16), p);
    cells.push_back({Vector3d(0.8 - 0.1 * (i / 16 + 0.5), 1.6 - 0.1 * (i % 16 + 0.5), 0.), Shade(p)});
  }
  proto::SubmapQuery::Response::SubmapTexture texture;
  mc::step();
  grid.DrawToSubmapTexture(&texture, Rigid3d::Identity());
  CheckTexture(texture, cells, 0.1, 0.1);
}

// ------------------------------------------------------------------ 3D ----

struct Column {
  int x, y;
  std::map<int, double> probabilities;  // by z
};

struct Map3D {
  proto::Submap proto;
  std::vector<Column> high, low;
};

// The contents of a column.
std::map<int, double> Stack(const int k) {
  switch (k) {
    case 0:
      return {};
    case 1:
      return {{1, 0.9}};
    case 2:  // not high enough
      return {{0, 0.9}, {2, 0.9}};
    case 3:
      return {{-1, 0.9}, {0, 0.6}, {1, 0.55}, {2, 0.7}};
    case 4:  // with free space between
      return {{-2, 0.7}, {0, 0.3}, {1, 0.2}, {5, 0.52}};
    case 5:  // mostly unknown
      return {{-9, 0.6}, {16, 0.8}};
    default:  // only free
      return {{0, 0.2}, {5, 0.4}};
  }
}

// Expected cells, in the global frame.
std::vector<Cell> XRay(const std::vector<Column>& columns, const Rigid3d& global_pose,
                       const double resolution) {
  struct Sum {
    int count = 0, min_z = 1 << 20, max_z = -(1 << 20);
    double sum = 0., max = 0.5;
  };
  std::map<std::pair<int, int>, Sum> pixels;
  for (const Column& column : columns) {
    for (const auto& entry : column.probabilities) {
      if (entry.second < 0.501) continue;
      const Vector3d position =
          global_pose * (resolution * Vector3d(column.x, column.y, entry.first)) / resolution;
      Sum& pixel = pixels[{std::lround(position.x()), std::lround(position.y())}];
      ++pixel.count;
      pixel.min_z = std::min<int>(pixel.min_z, std::lround(position.z()));
      pixel.max_z = std::max<int>(pixel.max_z, std::lround(position.z()));
      pixel.sum += entry.second;
      pixel.max = std::max(pixel.max, entry.second);
    }
  }
  std::vector<Cell> result;
  for (const auto& entry : pixels) {
    const Sum& pixel = entry.second;
    const int height = pixel.max_z - pixel.min_z;
    if (height < 3) continue;
    const double free = 0.15 * std::max(height - pixel.count, 0);
    result.push_back({resolution * Vector3d(entry.first.first, entry.first.second, 0.),
                      Shade((pixel.sum + (1. - pixel.max) * free) / (pixel.count + free))});
  }
  return result;
}

Rigid3d GlobalPose(const int k) {
  switch (k) {
    case 0:
      return Rigid3d(Vector3d(0.012, -0.004, 0.003), Quaterniond::Identity());
    case 1:
      return Rigid3d(Vector3d(3.117, -5.218, 0.513), Yaw(M_PI / 2.));
    default:
      return Rigid3d(Vector3d(-2.713, 1.119, 1.007),
                     Yaw(-2.) * Quaterniond(Eigen::AngleAxisd(0.05, Vector3d::UnitX())));
  }
}

Map3D Make3D(const std::vector<int>& stacks, const double high_resolution,
             const double low_resolution) {
  const std::pair<int, int> places[] = {{0, 0}, {2, -1}, {-3, 9}};
  Map3D result;
  HybridGrid high(high_resolution), low(low_resolution);
  for (size_t i = 0; i != stacks.size(); ++i) {
    const Column column{places[i].first, places[i].second, Stack(stacks[i])};
    result.high.push_back(column);
    for (const auto& entry : column.probabilities) {
      high.SetProbability(Eigen::Array3i(column.x, column.y, entry.first), entry.second);
    }
    const Column other{places[i].second, places[i].first, Stack(stacks[stacks.size() - 1 - i])};
    result.low.push_back(other);
    for (const auto& entry : other.probabilities) {
      low.SetProbability(Eigen::Array3i(other.x, other.y, entry.first), entry.second);
    }
  }
  auto* const submap = result.proto.mutable_submap_3d();
  *submap->mutable_local_pose() = transform::ToProto(Rigid3d(Vector3d(5., 6., 7.), Yaw(1.)));
  submap->set_num_range_data(9);
  submap->set_finished(true);
  *submap->mutable_high_resolution_hybrid_grid() = high.ToProto();
  *submap->mutable_low_resolution_hybrid_grid() = low.ToProto();
  return result;
}

void Textures3D() {
  const Rigid3d global_pose = GlobalPose(mc::choose(3));
  std::vector<int> stacks;
  for (int i = 0; i != 3; ++i) stacks.push_back(mc::choose(7));
  MC_LOG("columns " << stacks[0] << stacks[1] << stacks[2]);
  const Map3D map = Make3D(stacks, 0.1, 0.25);
  const Submap3D submap(map.proto.submap_3d());
  proto::SubmapQuery::Response response;
  mc::step();
  submap.ToResponseProto(global_pose, &response);
  MC_CHECK(response.submap_version() == 9, "version");
  MC_CHECK(response.textures_size() == 2, "number of textures");
  for (int i = 0; i != 2; ++i) {
    const double resolution = i == 0 ? 0.1 : 0.25;
    auto texture = response.textures(i);
    // The image is parallel to the ground, at the height of the submap. Pixels
    // begin where cells have their centers.
    const Rigid3d slice = global_pose * transform::ToRigid3(texture.slice_pose());
    MC_CHECK(slice.rotation().angularDistance(Quaterniond::Identity()) < 1e-5 &&
                 std::abs(slice.translation().z() - global_pose.translation().z()) < 1e-5,
             "pose of the image");
    MC_CHECK((slice.translation() - global_pose.translation()).norm() < 100.,
             "the image is far away");
    *texture.mutable_slice_pose() = transform::ToProto(
        Rigid3d::Translation(resolution * Vector3d(0.5, 0.5, 0.)) * slice);
    CheckTexture(texture, XRay(i == 0 ? map.high : map.low, global_pose, resolution), resolution, 0.1);
  }
}

// -------------------------------------------------------------- painting ----

// What a map drawn with a resolution must look like.
struct Canvas {
  std::map<std::pair<int, int>, double> red;  // of known cells
  double resolution;

  void Paint(const Vector3d& position, const double shade) {
    const std::pair<int, int> key(std::floor(position.x() / resolution),
                                  std::floor(-position.y() / resolution));
    const double previous = red.count(key) ? red.at(key) : 128.;
    red[key] = shade > 0. ? std::min(255., previous + shade) : previous * (1. + shade / 255.);
  }
};

void CheckPainting(const std::map<SubmapId, io::SubmapSlice>& slices, const Canvas& canvas) {
  auto result = io::PaintSubmapSlices(slices, canvas.resolution);
  MC_CHECK(cairo_surface_status(result.surface.get()) == CAIRO_STATUS_SUCCESS, "no image");
  const Eigen::Array2f origin = result.origin;
  io::Image image(std::move(result.surface));
  std::set<std::pair<int, int>> shown;
  for (int x = 0; x != image.width(); ++x) {
    for (int y = 0; y != image.height(); ++y) {
      const std::pair<int, int> key(std::lround(x - origin.x()), std::lround(y - origin.y()));
      const auto color = image.GetPixel(x, y);
      if (!canvas.red.count(key)) {
        MC_CHECK(color[1] < 40, "unknown place " << key.first << " " << key.second << " is known, "
                                                 << int(color[1]));
        MC_CHECK(std::abs(color[0] - 128.) < 10., "unknown place is painted");
        continue;
      }
      shown.insert(key);
      MC_CHECK(color[1] > 215, "known place " << key.first << " " << key.second << " is unknown, "
                                              << int(color[1]));
      MC_CHECK(std::abs(color[0] - canvas.red.at(key)) < 12.,
               "place " << key.first << " " << key.second << " is " << int(color[0]) << ", not "
                        << canvas.red.at(key));
    }
  }
  MC_CHECK(shown.size() == canvas.red.size(), "not all of the map is shown");
}

// Poses for which pixels of submaps are those of the map.
Rigid3d PixelPose(const int k, const double resolution) {
  const int offsets[][2] = {{0, 0}, {2, -1}, {-14, 23}};
  return Rigid3d(resolution * Vector3d(offsets[k / 4][0], offsets[k / 4][1], 0.),
                 Yaw(M_PI / 2. * (k % 4)));
}

void Paint2D(const bool thorough) {
  const double resolution = 0.1;
  const int n = 1 + mc::choose(thorough ? 3 : 2);
  const bool file = mc::flip();
  std::map<SubmapId, io::SubmapSlice> slices;
  Canvas canvas;
  canvas.resolution = resolution;
  io::InMemoryProtoStreamReader reader;
  proto::SerializedData pose_graph, options;
  std::vector<proto::SerializedData> data;
  for (int i = 0; i != n; ++i) {
    const SubmapId id{i / 2, 1 + i % 2};
    const int place = mc::choose(i == 2 ? 4 : 12);
    const int picture = mc::choose(2);
    MC_LOG("submap at " << place << " with " << picture);
    // The local pose is at a corner of a pixel.
    const Rigid3d local_pose(Vector3d(0.3 * resolution, -0.1 * resolution, 0.),
                             Quaterniond::Identity());
    const Map2D map = Make2D(picture == 0 ? std::vector<int>{4, 0, 1, 2, 3}
                                          : std::vector<int>{0, 1, 4, 0, 0, 3},
                             false, local_pose, resolution);
    const Rigid3d global_pose =
        PixelPose(place, resolution) *
        Rigid3d::Translation(resolution * Vector3d(0.7, 0.1, 0.));
    // Where the cells are.
    std::vector<Cell> cells = map.cells;
    for (const Cell& cell : cells) {
      const Vector3d position = global_pose * cell.position / resolution;
      const auto fraction = [](const double x) { return std::abs(x - std::floor(x) - 0.5); };
      if (fraction(position.x()) > 0.01 || fraction(position.y()) > 0.01) {
        MC_CHECK(false, "harness: not at the center of a pixel " << position.transpose());
      }
      canvas.Paint(global_pose * cell.position, cell.shade);
    }
    if (!file) {
      io::FillSubmapSlice(global_pose, map.proto, &slices[id], Tables());
      continue;
    }
    proto::SerializedData submap;
    *submap.mutable_submap() = map.proto;
    submap.mutable_submap()->mutable_submap_id()->set_trajectory_id(id.trajectory_id);
    submap.mutable_submap()->mutable_submap_id()->set_submap_index(id.submap_index);
    data.push_back(submap);
    auto* const graph = pose_graph.mutable_pose_graph();
    while (graph->trajectory_size() <= id.trajectory_id) {
      graph->add_trajectory()->set_trajectory_id(graph->trajectory_size() - 1);
    }
    auto* const entry = graph->mutable_trajectory(id.trajectory_id)->add_submap();
    entry->set_submap_index(id.submap_index);
    *entry->mutable_pose() = transform::ToProto(global_pose);
  }
  mc::step();
  if (file) {
    proto::SerializationHeader header;
    header.set_format_version(2);
    reader.AddProto(header);
    reader.AddProto(pose_graph);
    for (int i = 0; i != pose_graph.pose_graph().trajectory_size(); ++i) {
      options.mutable_all_trajectory_builder_options()->add_options_with_sensor_ids();
    }
    reader.AddProto(options);
    // In any order, with other data between, and a submap without a grid.
    if (mc::flip()) std::reverse(data.begin(), data.end());
    for (const auto& d : data) {
      proto::SerializedData other;
      other.mutable_odometry_data()->set_trajectory_id(0);
      reader.AddProto(other);
      reader.AddProto(d);
      proto::SerializedData empty = d;
      empty.mutable_submap()->mutable_submap_id()->set_submap_index(7);
      empty.mutable_submap()->mutable_submap_2d()->clear_grid();
      reader.AddProto(empty);
    }
    io::ProtoStreamDeserializer deserializer(&reader);
    io::DeserializeAndFillSubmapSlices(&deserializer, &slices, Tables());
    MC_CHECK(slices.size() == static_cast<size_t>(n), "number of slices");
  }
  // Images of which nothing is there yet.
  const int missing = mc::choose(3);
  if (missing != 0) slices[missing == 1 ? SubmapId{0, 0} : SubmapId{9, 0}];
  CheckPainting(slices, canvas);
}

// The first of the images of 3D submaps is painted.
void Paint3D() {
  std::vector<int> stacks;
  for (int i = 0; i != 3; ++i) stacks.push_back(mc::pick<int>({0, 2, 3, 5}));
  // Cairo does not paint images of a single pixel as others.
  if (std::count(stacks.begin(), stacks.end(), 0) == 2) mc::prune();
  const int place = mc::choose(12);
  const Rigid3d global_pose = PixelPose(place, 0.1);
  MC_LOG("columns " << stacks[0] << stacks[1] << stacks[2] << " at " << place);
  const Map3D map = Make3D(stacks, 0.1, 0.2);
  std::map<SubmapId, io::SubmapSlice> slices;
  io::FillSubmapSlice(global_pose, map.proto, &slices[SubmapId{0, 0}], Tables());
  Canvas canvas;
  canvas.resolution = 0.1;
  for (const Cell& cell : XRay(map.high, global_pose, 0.1)) {
    canvas.Paint(cell.position - Vector3d(0.05, 0.05, 0.), cell.shade);
  }
  mc::step();
  CheckPainting(slices, canvas);
}

// Any orientation, with large pixels.
void Rotated() {
  std::vector<int> contents;
  for (int i = 0; i != 6; ++i) contents.push_back(mc::pick<int>({0, 1, 4}));
  if (std::count(contents.begin(), contents.end(), 0) > 4) mc::prune();
  const int k = mc::choose(9);
  MC_LOG("rotated by " << 0.7 * k);
  const Map2D map = Make2D(contents, false, LocalPose(2), 0.1);
  const Rigid3d global_pose(Vector3d(0.23, -0.71, 0.), Yaw(0.7 * k));
  std::map<SubmapId, io::SubmapSlice> slices;
  io::FillSubmapSlice(global_pose, map.proto, &slices[SubmapId{0, 0}], Tables());
  mc::step();
  auto result = io::PaintSubmapSlices(slices, 0.01);
  const Eigen::Array2f origin = result.origin;
  io::Image image(std::move(result.surface));
  for (const Cell& cell : map.cells) {
    const Vector3d position = global_pose * cell.position / 0.01;
    // Colors change gradually between the centers of cells.
    const int x = std::floor(position.x() + origin.x()), y = std::floor(-position.y() + origin.y());
    MC_CHECK(x >= 0 && y >= 0 && x < image.width() && y < image.height(), "outside the image");
    const auto color = image.GetPixel(x, y);
    MC_CHECK(color[1] > 190, "known place is unknown, " << int(color[1]));
    Canvas canvas;
    canvas.resolution = 0.01;
    canvas.Paint(Vector3d::Zero(), cell.shade);
    MC_CHECK(std::abs(color[0] - canvas.red.begin()->second) < 35., "color");
  }
}

// ---------------------------------------------------------------- images ----

class MemoryWriter : public io::FileWriter {
 public:
  explicit MemoryWriter(std::string* const data) : data_(data) {}
  bool Write(const char* const data, const size_t length) override {
    data_->append(data, length);
    return true;
  }
  bool WriteHeader(const char* const data, const size_t length) override {
    return Write(data, length);
  }
  bool Close() override { return true; }
  std::string GetFilename() override { return ""; }

 private:
  std::string* const data_;
};

struct Png {
  std::string data;
  size_t position;
};
cairo_status_t ReadPng(void* const closure, unsigned char* data, const unsigned int length) {
  Png* const png = static_cast<Png*>(closure);
  if (png->position + length > png->data.size()) return CAIRO_STATUS_READ_ERROR;
  std::copy(png->data.begin() + png->position, png->data.begin() + png->position + length, data);
  png->position += length;
  return CAIRO_STATUS_SUCCESS;
}

// All small images, rotated and written.
void Images() {
  int width = 1 + mc::choose(3), height = 1 + mc::choose(3);
  const io::Uint8Color colors[] = {{{0, 0, 0}}, {{255, 7, 130}}, {{1, 200, 255}}};
  std::vector<io::Uint8Color> pixels;
  io::Image image(width, height);
  for (int y = 0; y != height; ++y) {
    for (int x = 0; x != width; ++x) {
      pixels.push_back(colors[x + y == 0 ? 1 : mc::choose(width * height > 6 ? 2 : 3)]);
      image.SetPixel(x, y, pixels.back());
    }
  }
  for (int rotations = 0; rotations != 5; ++rotations) {
    mc::step();
    MC_CHECK(image.width() == width && image.height() == height, "size");
    std::string data;
    MemoryWriter writer(&data);
    image.WritePng(&writer);
    Png png{data, 0};
    const auto read = io::MakeUniqueCairoSurfacePtr(
        cairo_image_surface_create_from_png_stream(&ReadPng, &png));
    MC_CHECK(cairo_surface_status(read.get()) == CAIRO_STATUS_SUCCESS &&
                 cairo_image_surface_get_width(read.get()) == width &&
                 cairo_image_surface_get_height(read.get()) == height,
             "size of the file");
    for (int y = 0; y != height; ++y) {
      for (int x = 0; x != width; ++x) {
        MC_CHECK(image.GetPixel(x, y) == pixels[y * width + x], "pixel " << x << " " << y);
        const uint32_t pixel = reinterpret_cast<const uint32_t*>(
            cairo_image_surface_get_data(read.get()) +
            y * cairo_image_surface_get_stride(read.get()))[x];
        const auto& color = pixels[y * width + x];
        MC_CHECK((pixel & 0xffffff) == uint32_t(color[0] << 16 | color[1] << 8 | color[2]),
                 "pixel in the file");
      }
    }
    image.Rotate90DegreesClockwise();
    // The left column becomes the top row, from bottom to top.
    std::vector<io::Uint8Color> rotated(pixels.size());
    for (int y = 0; y != height; ++y) {
      for (int x = 0; x != width; ++x) rotated[x * height + height - 1 - y] = pixels[y * width + x];
    }
    pixels = rotated;
    std::swap(width, height);
  }
}

// Trajectories: a line through all nodes, from a green to a red mark.
void Trajectories() {
  const int n = 1 + mc::choose(4);
  proto::Trajectory trajectory;
  std::vector<Eigen::Vector2d> nodes;
  for (int i = 0; i != n; ++i) {
    const int k = mc::choose(6);
    nodes.emplace_back(10 + 20 * (k % 3), 12 + 20 * (k / 3));
    *trajectory.add_node()->mutable_pose() =
        transform::ToProto(Rigid3d::Translation(Vector3d(nodes.back().x(), nodes.back().y(), i)));
  }
  auto surface = io::MakeUniqueCairoSurfacePtr(
      cairo_image_surface_create(io::kCairoFormat, 60, 45));
  mc::step();
  io::DrawTrajectory(trajectory, {{0.f, 0.f, 1.f}},
                     [](const Rigid3d& pose) {
                       return Eigen::Array2i(pose.translation().x(), pose.translation().y());
                     },
                     surface.get());
  io::Image image(std::move(surface));
  for (int x = 0; x != image.width(); ++x) {
    for (int y = 0; y != image.height(); ++y) {
      const Eigen::Vector2d p(x + 0.5, y + 0.5);
      double distance = 1e9;
      for (int i = 0; i + 1 < n; ++i) {
        const Eigen::Vector2d d = nodes[i + 1] - nodes[i];
        const double t = d.norm() < 1e-6 ? 0. : (p - nodes[i]).dot(d) / d.squaredNorm();
        if (d.norm() > 1e-6 && t * d.norm() >= 1. && (1. - t) * d.norm() >= 1.) {
          distance = std::min(distance, (nodes[i] + t * d - p).norm());
        }
      }
      // Lines end in a spike at sharp turns.
      double spike = 1e9;
      for (int i = 1; i + 1 < n; ++i) spike = std::min(spike, (nodes[i] - p).norm());
      const auto color = image.GetPixel(x, y);
      if ((p - nodes.back()).norm() < 5.) {
        MC_CHECK(color[0] > 120, "no mark at the end");
      } else if ((p - nodes[0]).norm() < 5.) {
        MC_CHECK(color[1] > 120, "no mark at the beginning");
      } else if (distance < 1. && (p - nodes.back()).norm() > 8. && (p - nodes[0]).norm() > 8.) {
        MC_CHECK(color[2] > 120 && color[0] < 20 && color[1] < 20, "no line at " << p.transpose());
      } else if (distance > 4. && spike > 22. && (p - nodes.back()).norm() > 8. && (p - nodes[0]).norm() > 8.) {
        MC_CHECK(color[0] + color[1] + color[2] == 0, "something at " << p.transpose());
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique = "enumeration of all small maps, compared with where the cells are";
  return mc::Main(
      argc, argv,
      {{"textures_2d", [] { Textures2D(mc::thorough()); }, 3, UINT64_MAX,
        "both kinds of grids, 3 local poses, 2 resolutions, all contents of 5 (thorough: 6) cells with 4 "
        "values or unknown"},
       {"shades", [] { Shades(); }, 3, UINT64_MAX, "all values of cells"},
       {"textures_3d", [] { Textures3D(); }, 3, UINT64_MAX,
        "3 columns with 7 contents each, two resolutions, 3 global poses"},
       {"paint_2d", [] { Paint2D(mc::thorough()); }, 3, UINT64_MAX,
        "1-2 (thorough: 3) submaps at 12 poses, 2 pictures, directly or from a stream"},
       {"paint_3d", [] { Paint3D(); }, 3, UINT64_MAX, "3 columns with 4 contents each, 12 poses"},
       {"rotated", [] { Rotated(); }, 3, UINT64_MAX,
        "all contents of 6 cells with 2 values or unknown, 9 orientations"},
       {"images", [] { Images(); }, 3, UINT64_MAX,
        "all images up to 3 x 3 pixels with 2-3 colors, 5 rotations, written as PNG"},
       {"trajectories", [] { Trajectories(); }, 3, UINT64_MAX, "1-4 nodes at 6 places"}},
      config);
}
