// Point cloud compression and voxel filtering: all small clouds over a
// lattice of positions chosen to cross the interesting boundaries.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <vector>

#include "cartographer/sensor/compressed_point_cloud.h"
#include "cartographer/sensor/internal/voxel_filter.h"
#include "cartographer/sensor/point_cloud.h"
#include "mc.h"

namespace {

namespace sensor = cartographer::sensor;
using sensor::PointCloud;
using sensor::RangefinderPoint;

std::string Print(const PointCloud& cloud) {
  std::ostringstream os;
  for (const auto& p : cloud) os << " (" << p.position.transpose() << ")";
  return os.str();
}

using Cell = std::array<long, 3>;

// --------------------------------------------------------- compression ----

void CheckCompression(const PointCloud& cloud) {
  mc::step();
  const sensor::CompressedPointCloud compressed(cloud);
  MC_CHECK(compressed.size() == cloud.size(), "size " << compressed.size());
  MC_CHECK(compressed.empty() == cloud.empty(), "empty() is wrong");
  const PointCloud plain = compressed.Decompress();
  MC_CHECK(plain.size() == cloud.size(),
           plain.size() << " points decompressed of" << Print(cloud));
  // Each decompressed point lies within half a millimetre of "its" input
  // point; as a multiset on the millimetre grid both clouds are equal.
  std::vector<Cell> want, got;
  for (const auto& p : cloud) {
    Cell c;
    for (int i = 0; i < 3; ++i) c[i] = std::lround(p.position[i] * 1000.);
    want.push_back(c);
  }
  for (const auto& p : plain) {
    Cell c;
    for (int i = 0; i < 3; ++i) {
      c[i] = std::lround(p.position[i] * 1000.);
      MC_CHECK(std::abs(p.position[i] * 1000. - c[i]) <
                   0.02 + 2e-7 * std::abs(p.position[i]) * 1000.,
               "decompressed point off the grid");
    }
    got.push_back(c);
  }
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  MC_CHECK(want == got, "decompressed" << Print(plain) << " of" << Print(cloud));
  // Through the serialized form.
  const auto proto = compressed.ToProto();
  const sensor::CompressedPointCloud again(proto);
  MC_CHECK(again == compressed, "the proto round trip changed the cloud");
  const PointCloud plain_again = again.Decompress();
  MC_CHECK(plain_again.size() == plain.size(), "size after the proto round trip");
  for (size_t i = 0; i < plain.size(); ++i) {
    MC_CHECK(plain[i].position == plain_again[i].position,
             "point changed by the proto round trip");
  }
  // Iteration is the same as decompression and repeatable.
  size_t n = 0;
  for (const RangefinderPoint& p : compressed) {
    MC_CHECK(n < plain.size() && p.position == plain[n].position, "iteration differs");
    ++n;
  }
  MC_CHECK(n == plain.size(), "iteration ends early");
  // Compressing the decompressed cloud changes nothing any more.
  MC_CHECK(sensor::CompressedPointCloud(plain) == compressed,
           "compression is not idempotent for" << Print(cloud));
}

// Millimetre offsets: around zero, inside and at both ends of the 1.024 m
// blocks, negative, and far away.
const std::vector<float> kAxis = {0.f,     0.0012f, -0.0008f, 0.5114f, 1.0232f,
                                  1.0242f, -1.0238f, -1.0252f, 7.3f,    -39.7773f};
const std::vector<float> kShort = {0.f, -0.0008f, 1.0232f, 1.0242f, -1.0252f, 17.0001f};

void Compression(const std::vector<float>& xs, const std::vector<float>& ys,
                 const std::vector<float>& zs, int max_points) {
  PointCloud cloud;
  const int n = mc::choose(max_points + 1);
  for (int i = 0; i < n; ++i) {
    cloud.push_back({Eigen::Vector3f(mc::pick(xs), mc::pick(ys), mc::pick(zs))});
  }
  CheckCompression(cloud);
}

// Every position of a line of points through many blocks, and of repeated
// points in one block.
void CompressionLines() {
  const int axis = mc::choose(3);
  const float step = mc::pick<float>({0.0010001f, 0.0493f, 0.333f, 1.024f, 3.7f});
  const float start = mc::pick<float>({0.f, -5.3331f, -1.024f, 200.2222f});
  const int n = mc::pick<int>({1, 3, 8, 9, 64, 65, 300, 1025});
  PointCloud cloud;
  Eigen::Vector3f p(0.1004f, -0.2003f, 0.3002f);
  for (int i = 0; i < n; ++i) {
    p[axis] = start + i * step;
    // Keep clear of the rounding boundary between two grid values.
    const double mm = p[axis] * 1000.;
    if (std::abs(mm - std::floor(mm) - 0.5) < 0.1) p[axis] += 0.0003f;
    cloud.push_back({p});
    if (i % 3 == 0) cloud.push_back({p});
  }
  CheckCompression(cloud);
}

// -------------------------------------------------------------- voxels ----

Cell VoxelOf(const Eigen::Vector3f& p, double resolution) {
  Cell c;
  for (int i = 0; i < 3; ++i) c[i] = std::lround(p[i] / resolution);
  return c;
}

// 'kept' must be increasing indices into the input, one per occupied voxel.
void CheckVoxels(const std::vector<Eigen::Vector3f>& input, const std::vector<int>& kept,
                 double resolution) {
  std::map<Cell, int> count;
  for (const auto& p : input) count[VoxelOf(p, resolution)] = 0;
  int last = -1;
  for (int index : kept) {
    MC_CHECK(index > last, "order of the points changed");
    last = index;
    MC_CHECK(++count[VoxelOf(input[index], resolution)] == 1, "two points in one voxel");
  }
  MC_CHECK(kept.size() == count.size(),
           "occupied voxels without a point: " << count.size() - kept.size());
}

const std::vector<Eigen::Vector3f> kSites = {
    {0.f, 0.f, 0.f},      {0.3f, 0.1f, 0.f},    {-0.3f, 0.f, 0.f},  {0.7f, 0.f, 0.f},
    {-0.7f, 0.f, 0.f},    {0.f, 0.8f, 0.f},     {0.f, -0.8f, 0.f},  {0.f, 0.f, 1.2f},
    {0.f, 0.f, -1.2f},    {1.f, -1.f, 0.f},     {-1.f, 1.f, 0.f},   {40.f, 0.2f, -3.f},
    {40.2f, -0.2f, -2.9f}};

// The index of a point is encoded where each type has room for it.
void Voxels(int max_points, const std::vector<float>& resolutions) {
  const float resolution = mc::pick(resolutions);
  const int n = mc::choose(max_points + 1);
  std::vector<Eigen::Vector3f> input;
  std::vector<RangefinderPoint> points;
  std::vector<float> intensities;
  sensor::TimedPointCloud timed;
  std::vector<sensor::TimedPointCloudOriginData::RangeMeasurement> measurements;
  for (int i = 0; i < n; ++i) {
    const Eigen::Vector3f p = kSites[mc::choose(kSites.size())];
    input.push_back(p);
    points.push_back({p});
    intensities.push_back(i);
    timed.push_back({p, -0.1f * (n - i)});
    measurements.push_back({{p, -0.1f * (n - i)}, 2.f * i, static_cast<size_t>(i)});
  }
  mc::step();
  // Positions alone are ambiguous; recover indices greedily.
  const auto match = [&](const std::vector<Eigen::Vector3f>& out) {
    std::vector<int> kept;
    int from = 0;
    for (const auto& p : out) {
      while (from < n && input[from] != p) ++from;
      MC_CHECK(from < n, "a point that is not in the input, or reordered");
      kept.push_back(from++);
    }
    return kept;
  };
  {
    std::vector<Eigen::Vector3f> out;
    for (const auto& p : sensor::VoxelFilter(points, resolution)) out.push_back(p.position);
    CheckVoxels(input, match(out), resolution);
  }
  {
    const PointCloud result =
        sensor::VoxelFilter(PointCloud(points, intensities), resolution);
    MC_CHECK(result.intensities().size() == result.size(), "intensities lost");
    std::vector<int> kept;
    for (size_t i = 0; i < result.size(); ++i) {
      const int index = std::lround(result.intensities()[i]);
      MC_CHECK(index < n && input[index] == result[i].position,
               "point and intensity of different inputs");
      kept.push_back(index);
    }
    CheckVoxels(input, kept, resolution);
    const PointCloud without = sensor::VoxelFilter(PointCloud(points), resolution);
    MC_CHECK(without.intensities().empty() && without.size() == result.size(),
             "result depends on the presence of intensities");
  }
  {
    std::vector<int> kept;
    for (const auto& p : sensor::VoxelFilter(timed, resolution)) {
      const int index = n - std::lround(-p.time / 0.1f);
      MC_CHECK(index >= 0 && index < n && input[index] == p.position,
               "point and time of different inputs");
      kept.push_back(index);
    }
    CheckVoxels(input, kept, resolution);
  }
  {
    std::vector<int> kept;
    for (const auto& m : sensor::VoxelFilter(measurements, resolution)) {
      const int index = m.origin_index;
      MC_CHECK(index < n && input[index] == m.point_time.position &&
                   m.intensity == 2.f * index,
               "measurement put together from different inputs");
      kept.push_back(index);
    }
    CheckVoxels(input, kept, resolution);
  }
}

// Points spread over large extents: voxel keys must not collide.
void VoxelsFar() {
  const float resolution = mc::pick<float>({0.05f, 0.5f});
  const auto coordinate = [] {
    return mc::pick<float>({0.f, -3.f, 55.f, -700.f, 5000.f, -5000.f});
  };
  std::vector<Eigen::Vector3f> input;
  std::vector<RangefinderPoint> points;
  for (int i = 0; i < 2; ++i) {
    const float x = coordinate(), y = coordinate(), z = coordinate();
    input.push_back({x, y, z});
    points.push_back({input.back()});
  }
  mc::step();
  std::vector<int> kept;
  const auto result = sensor::VoxelFilter(points, resolution);
  const bool same = input[0] == input[1];
  MC_CHECK(result.size() == (same ? 1u : 2u),
           result.size() << " points left of" << Print(PointCloud(points)));
}

// All pairs of voxels which differ by 0, 1 or a power of two in each direction.
void VoxelKeys(const int max_exponent) {
  const auto difference = [&] {
    const int k = mc::choose(2 * max_exponent + 3);
    if (k == 0) return 0.f;
    return (k % 2 == 0 ? 1.f : -1.f) * (1 << ((k - 1) / 2));
  };
  const Eigen::Vector3f base =
      mc::pick<Eigen::Vector3f>({{0.f, 0.f, 0.f}, {-1.f, 2.f, -5.f}, {3.f, -1.f, 0.f}});
  const float x = difference(), y = difference(), z = difference();
  const Eigen::Vector3f delta(x, y, z);
  mc::step();
  std::vector<RangefinderPoint> points = {{base}, {base + delta}};
  MC_CHECK(sensor::VoxelFilter(points, 1.f).size() == (delta.norm() == 0.f ? 1u : 2u),
           "points were confused:" << Print(PointCloud(points)));
}

void Adaptive() {
  // A cloud of n points on a (perturbed) line or plane with given spacing.
  const int n = mc::pick<int>({0, 1, 2, 5, 9, 16, 40});
  const float spacing = mc::pick<float>({0.011f, 0.053f, 0.17f, 0.61f, 2.3f});
  const bool plane = mc::flip();
  const bool outliers = mc::flip();
  const bool with_intensities = mc::flip();
  sensor::proto::AdaptiveVoxelFilterOptions options;
  options.set_max_length(mc::pick<double>({0.3, 0.9, 4.}));
  options.set_min_num_points(mc::pick<int>({0, 1, 4, 9, 25}));
  options.set_max_range(mc::pick<double>({1.5, 8., 50.}));
  std::vector<RangefinderPoint> points;
  std::vector<float> intensities;
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p = plane ? Eigen::Vector3f((i % 5) * spacing, (i / 5) * spacing, 0.02f)
                              : Eigen::Vector3f(i * spacing, 0.03f, -0.01f);
    points.push_back({p});
    intensities.push_back(i);
    if (outliers && i % 4 == 1) {
      points.push_back({(60.f + i) * Eigen::Vector3f::Unit(i / 4 % 3)});
      intensities.push_back(1000 + i);
    }
  }
  mc::step();
  const PointCloud cloud = with_intensities ? PointCloud(points, intensities)
                                            : PointCloud(points);
  const PointCloud result = sensor::AdaptiveVoxelFilter(cloud, options);
  // In range points, in order.
  std::vector<RangefinderPoint> near;
  std::vector<float> near_intensities;
  for (size_t i = 0; i < points.size(); ++i) {
    const double norm = points[i].position.cast<double>().norm();
    if (std::abs(norm - options.max_range()) < 1e-4) mc::prune();
    if (norm < options.max_range()) {
      near.push_back(points[i]);
      if (with_intensities) near_intensities.push_back(intensities[i]);
    }
  }
  MC_CHECK(result.intensities().size() == (with_intensities ? result.size() : 0),
           "intensities and points do not match");
  // A subset in order, nothing out of range.
  size_t from = 0;
  for (size_t i = 0; i < result.size(); ++i) {
    while (from < near.size() && near[from].position != result[i].position) ++from;
    MC_CHECK(from < near.size(), "point out of range, foreign or reordered");
    if (with_intensities) {
      MC_CHECK(result.intensities()[i] == near_intensities[from],
               "intensity of another point");
    }
    ++from;
  }
  const size_t min_points = options.min_num_points();
  if (near.size() <= min_points) {
    MC_CHECK(result.size() == near.size(), "a sparse cloud was thinned out");
    return;
  }
  const PointCloud near_cloud(near);
  const auto size_at = [&](float length) {
    return sensor::VoxelFilter(near_cloud, length).size();
  };
  const float max_length = options.max_length();
  if (size_at(max_length) >= min_points) {
    MC_CHECK(result.size() == size_at(max_length),
             "the maximum edge length is sufficient, but " << result.size()
                                                           << " points are left");
    return;
  }
  // Some edge length down to 1% must have been accepted if one exists on the
  // halving ladder.
  bool possible = false;
  for (float length = max_length; length > 1e-2f * max_length; length /= 2.f) {
    possible = possible || size_at(length / 2.f) >= min_points;
  }
  if (possible) {
    MC_CHECK(result.size() >= min_points,
             result.size() << " points left, at least " << min_points << " possible");
    // Not much denser than needed: some edge length at most 10% larger than the
    // one used gives too few points. Edge lengths are searched by bisection.
    bool found = false;
    std::vector<float> lengths = {max_length};
    for (float length = max_length; length > 0.5e-2f * max_length; length /= 2.f) {
      for (int k = 1; k < 32; ++k) lengths.push_back(length / 2.f * (1.f + k / 32.f));
      lengths.push_back(length / 2.f);
    }
    for (float length : lengths) {
      if (found || size_at(length) != result.size()) continue;
      for (float longer : lengths) {
        if (longer > length && longer <= 1.11f * length && size_at(longer) < min_points) {
          found = true;
          break;
        }
      }
    }
    MC_CHECK(found, "the cloud is thinned out less than possible: " << result.size()
                                                                    << " points");
  }
}

}  // namespace

#ifdef CHECK_COMPRESSION
int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all small clouds over a lattice that crosses block, sign "
      "and tree boundaries, on the real code";
  return mc::Main(
      argc, argv,
      {{"two_points", [] { Compression(kAxis, kShort, kShort, 2); }, 1, UINT64_MAX,
        "up to 2 points over a 10x6x6 lattice"},
       {"three_points", [] { Compression(kShort, {0.f, -1.0252f}, {0.f, 1.0242f, -0.0008f}, 3); },
        1, UINT64_MAX, "up to 3 points over a 6x2x3 lattice"},
       {"lines", [] { CompressionLines(); }, 3, UINT64_MAX,
        "lines of 1-1025 points over many blocks, with repetitions"},
       {"two_points_deep", [] { Compression(kAxis, kAxis, kAxis, 2); }, 2, UINT64_MAX,
        "up to 2 points over a 10x10x10 lattice"},
       {"four_points", [] { Compression(kShort, {0.f, -1.0252f}, {0.f, 1.0242f, -0.0008f}, 4); },
        2, UINT64_MAX, "up to 4 points over a 6x2x3 lattice"}},
      config);
}
#else
int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all small clouds over a lattice, on the real filters, "
      "against a brute force voxel count";
  return mc::Main(
      argc, argv,
      {{"voxels", [] { Voxels(4, {1.f, 0.5f, 3.f}); }, 1, UINT64_MAX,
        "up to 4 points over 13 sites (with repetition), 3 edge lengths"},
       {"far", [] { VoxelsFar(); }, 3, UINT64_MAX, "all pairs of points within 5 km"},
       {"keys", [] { VoxelKeys(20); }, 3, UINT64_MAX,
        "3 voxels, and all others that differ by 0, 1 or a power of 2 up to 2^20 in each direction"},
       {"adaptive", [] { Adaptive(); }, 3, UINT64_MAX,
        "7 sizes x 5 spacings x line/plane x outliers x intensities x 45 options"},
       {"voxels_deep", [] { Voxels(5, {1.f, 0.5f, 3.f}); }, 2, UINT64_MAX,
        "up to 5 points over 13 sites (with repetition), 3 edge lengths"}},
      config);
}
#endif
