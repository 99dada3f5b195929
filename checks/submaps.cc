// Life cycle of active submaps: all bounded sequences of scans; the contents
// of each submap are compared with inserting its scans one by one.
#include <cmath>
#include <map>
#include <memory>
#include <vector>

#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "mc.h"

namespace {

using namespace cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;

ValueConversionTables* Tables() {
  static auto* const tables = new ValueConversionTables;
  return tables;
}

sensor::RangeData MakeScan(int variant, int position) {
  sensor::RangeData scan;
  scan.origin = Eigen::Vector3f(0.31f + 0.7f * position, -0.24f + 0.3f * position, 0.2f);
  switch (variant) {
    case 0:
      scan.returns.push_back({scan.origin + Eigen::Vector3f(1.13f, 0.37f, 0.f)});
      scan.returns.push_back({scan.origin + Eigen::Vector3f(0.52f, -1.14f, 0.3f)});
      scan.misses.push_back({scan.origin + Eigen::Vector3f(-1.26f, 0.41f, 0.f)});
      break;
    case 1:
      scan.returns.push_back({scan.origin + Eigen::Vector3f(-0.83f, 6.17f, 0.f)});
      scan.returns.push_back({scan.origin + Eigen::Vector3f(1.13f, 0.37f, 0.f)});
      break;
    case 2:  // empty
      break;
  }
  return scan;
}

// ------------------------------------------------------------------ 2D ----

using Cells = std::map<std::pair<int, int>, std::pair<float, float>>;

Cells Contents(const Grid2D& grid) {
  Cells cells;
  const auto& limits = grid.limits();
  const TSDF2D* const tsdf =
      grid.GetGridType() == GridType::TSDF ? static_cast<const TSDF2D*>(&grid) : nullptr;
  for (const Eigen::Array2i& index : XYIndexRangeIterator(limits.cell_limits())) {
    if (!grid.IsKnown(index)) continue;
    const Eigen::Vector2f c = limits.GetCellCenter(index);
    cells[{static_cast<int>(std::lround(c.x() / limits.resolution() * 4.)),
           static_cast<int>(std::lround(c.y() / limits.resolution() * 4.))}] = {
        grid.GetCorrespondenceCost(index), tsdf ? tsdf->GetWeight(index) : 0.f};
  }
  return cells;
}

struct Submap2DModel {
  std::unique_ptr<Grid2D> grid;
  Eigen::Vector2d origin;
  int count = 0;
  bool finished = false;
  std::string final_proto;
  proto::Submap first_proto;
  std::shared_ptr<const Submap2D> real;
};

void CheckSubmap2D(const Submap2DModel& model) {
  const Submap2D& real = *model.real;
  MC_CHECK(real.num_range_data() == model.count, "the submap has " << real.num_range_data()
                                                                   << " scans, expected "
                                                                   << model.count);
  MC_CHECK(real.insertion_finished() == model.finished,
           "finished is " << real.insertion_finished() << " after " << model.count);
  const Eigen::Vector3d t = real.local_pose().translation();
  MC_CHECK((t.head<2>() - model.origin).norm() < 1e-5 && t.z() == 0., "local pose");
  MC_CHECK(Contents(*real.grid()) == Contents(*model.grid),
           "contents differ from inserting the scans of this submap");
}

void Active2D(int max_n, int num_scans, int variants) {
  const int n = 1 + mc::choose(max_n);
  const bool tsdf = mc::flip();
  proto::SubmapsOptions2D options;
  options.set_num_range_data(n);
  options.mutable_grid_options_2d()->set_resolution(0.25f);
  options.mutable_grid_options_2d()->set_grid_type(
      tsdf ? proto::GridOptions2D::TSDF : proto::GridOptions2D::PROBABILITY_GRID);
  auto* const inserter_options = options.mutable_range_data_inserter_options();
  inserter_options->set_range_data_inserter_type(
      tsdf ? proto::RangeDataInserterOptions::TSDF_INSERTER_2D
           : proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
  auto* const probability = inserter_options->mutable_probability_grid_range_data_inserter_options_2d();
  probability->set_hit_probability(0.55);
  probability->set_miss_probability(0.49);
  probability->set_insert_free_space(true);
  auto* const tsdf_options = inserter_options->mutable_tsdf_range_data_inserter_options_2d();
  tsdf_options->set_truncation_distance(0.6);
  tsdf_options->set_maximum_weight(10.);
  tsdf_options->set_update_free_space(true);
  tsdf_options->mutable_normal_estimation_options()->set_num_normal_samples(4);
  tsdf_options->mutable_normal_estimation_options()->set_sample_radius(0.5);
  std::unique_ptr<RangeDataInserterInterface> inserter;
  if (tsdf) {
    inserter = std::make_unique<TSDFRangeDataInserter2D>(*tsdf_options);
  } else {
    inserter = std::make_unique<ProbabilityGridRangeDataInserter2D>(*probability);
  }
  ActiveSubmaps2D active(options);
  MC_CHECK(active.submaps().empty(), "submaps before the first scan");
  std::vector<Submap2DModel> models;
  for (int i = 0; i < num_scans; ++i) {
    const sensor::RangeData scan = MakeScan(mc::choose(variants), i);
    mc::step();
    // Specification: a submap starts with every n-th scan and takes 2 n scans.
    const bool starts = i % n == 0;
    if (starts) {
      Submap2DModel model;
      model.origin = scan.origin.head<2>().cast<double>();
      const MapLimits limits(0.25,
                             model.origin + 0.5 * 100 * 0.25 * Eigen::Vector2d::Ones(),
                             CellLimits(100, 100));
      if (tsdf) {
        model.grid = std::make_unique<TSDF2D>(limits, 0.6f, 10.f, Tables());
      } else {
        model.grid = std::make_unique<ProbabilityGrid>(limits, Tables());
      }
      models.push_back(std::move(model));
    }
    const auto result = active.InsertRangeData(scan);
    const size_t first = models.size() >= 2 ? models.size() - 2 : 0;
    MC_CHECK(result.size() == models.size() - first,
             result.size() << " active submaps after scan " << i + 1);
    MC_CHECK(active.submaps() == result, "submaps() differs from the result");
    if (starts) models.back().real = result.back();
    for (size_t m = first; m < models.size(); ++m) {
      MC_CHECK(models[m].real == result[m - first], "another submap at position " << m - first);
      inserter->Insert(scan, models[m].grid.get());
      if (++models[m].count == 2 * n) models[m].finished = true;
    }
    for (auto& model : models) {
      if (model.count == 1) model.first_proto = model.real->ToProto(true);
      CheckSubmap2D(model);
      if (model.finished) {
        const std::string bytes = model.real->ToProto(true).SerializeAsString();
        if (model.final_proto.empty()) model.final_proto = bytes;
        MC_CHECK(bytes == model.final_proto, "a finished submap changed");
        const auto& cells = model.real->grid()->limits().cell_limits();
        size_t known = Contents(*model.grid).size();
        if (known == 0) MC_CHECK(cells.num_x_cells == 1 && cells.num_y_cells == 1, "not cropped");
        if (known > 0 && known < 200) MC_CHECK(cells.num_x_cells < 100, "not cropped");
      }
    }
  }
  // Serialized and back: the same submap; an update replaces the contents.
  for (const auto& model : models) {
    const auto proto = model.real->ToProto(true);
    auto copy = std::make_shared<Submap2D>(proto.submap_2d(), Tables());
    Submap2D stale(model.first_proto.submap_2d(), Tables());
    stale.UpdateFromProto(proto);
    MC_CHECK(stale.ToProto(true).SerializeAsString() == proto.SerializeAsString() &&
                 Contents(*stale.grid()) == Contents(*model.grid),
             "update of an older copy");
    const auto compare = [&] {
      Submap2DModel m;
      m.real = copy;
      MC_CHECK(copy->num_range_data() == model.count &&
                   copy->insertion_finished() == model.finished,
               "state lost by serialization");
      MC_CHECK((copy->local_pose().translation() - model.real->local_pose().translation()).norm() < 1e-12,
               "pose lost by serialization");
      MC_CHECK(Contents(*copy->grid()) == Contents(*model.grid), "contents lost by serialization");
      MC_CHECK(copy->ToProto(true).SerializeAsString() == proto.SerializeAsString(),
               "serializing again gives something else");
    };
    compare();
    copy->UpdateFromProto(model.real->ToProto(true));
    compare();
    copy->UpdateFromProto(model.real->ToProto(false));
    compare();
    MC_CHECK(!model.real->ToProto(false).submap_2d().has_grid(), "grid not left out");
  }
}

// ------------------------------------------------------------------ 3D ----

using Cells3 = std::map<std::array<int, 3>, int>;
Cells3 Contents(const HybridGrid& grid) {
  Cells3 cells;
  for (const auto item : grid) cells[{item.first.x(), item.first.y(), item.first.z()}] = item.second;
  return cells;
}

struct Submap3DModel {
  std::unique_ptr<HybridGrid> high, low;
  std::unique_ptr<IntensityHybridGrid> intensity;
  transform::Rigid3d pose;
  Eigen::VectorXf histogram;
  int count = 0;
  bool finished = false;
  proto::Submap first_proto;
  std::string final_proto;
  std::shared_ptr<const Submap3D> real;
};

// Linear interpolation between the buckets, over half a turn.
Eigen::VectorXf Rotated(const Eigen::VectorXf& h, double angle) {
  Eigen::VectorXf result = Eigen::VectorXf::Zero(h.size());
  const double shift = angle / M_PI * h.size();
  for (int i = 0; i < h.size(); ++i) {
    const double target = i + shift;
    const int base = std::floor(target);
    const double fraction = target - base;
    const auto wrap = [&](int k) { return ((k % h.size()) + h.size()) % h.size(); };
    result[wrap(base)] += (1. - fraction) * h[i];
    result[wrap(base + 1)] += fraction * h[i];
  }
  return result;
}

void Active3D(int max_n, int num_scans, int variants) {
  const int n = 1 + mc::choose(max_n);
  proto::SubmapsOptions3D options;
  options.set_num_range_data(n);
  options.set_high_resolution(0.2);
  options.set_low_resolution(0.9);
  options.set_high_resolution_max_range(3.);
  auto* const inserter_options = options.mutable_range_data_inserter_options();
  inserter_options->set_hit_probability(0.55);
  inserter_options->set_miss_probability(0.49);
  inserter_options->set_num_free_space_voxels(2);
  inserter_options->set_intensity_threshold(50.);
  static std::unique_ptr<RangeDataInserter3D>* const inserter =
      new std::unique_ptr<RangeDataInserter3D>(
          std::make_unique<RangeDataInserter3D>(*inserter_options));
  static const Eigen::Quaterniond kGravity[] = {
      Eigen::Quaterniond::Identity(),
      Eigen::Quaterniond(Eigen::AngleAxisd(0.4, Eigen::Vector3d::UnitZ())),
      Eigen::Quaterniond(Eigen::AngleAxisd(-1.1, Eigen::Vector3d::UnitZ()) *
                         Eigen::AngleAxisd(0.05, Eigen::Vector3d::UnitX()))};
  ActiveSubmaps3D active(options);
  std::vector<Submap3DModel> models;
  for (int i = 0; i < num_scans; ++i) {
    const int variant = mc::choose(variants);
    sensor::RangeData scan = MakeScan(variant, i);
    if (scan.returns.size() == 2) {
      scan.returns = sensor::PointCloud(scan.returns.points(), {20.f + i, variant ? 10.f : 80.f});
    }
    const Eigen::Quaterniond gravity = kGravity[(i + variant) % 3];
    Eigen::VectorXf histogram(4);
    histogram << 1.f + i, 0.5f * variant, 0.f, 2.f;
    mc::step();
    const bool starts = i % n == 0;
    if (starts) {
      Submap3DModel model;
      model.pose = transform::Rigid3d(scan.origin.cast<double>(), gravity);
      model.high = std::make_unique<HybridGrid>(0.2f);
      model.low = std::make_unique<HybridGrid>(0.9f);
      model.intensity = std::make_unique<IntensityHybridGrid>(0.2f);
      model.histogram = Eigen::VectorXf::Zero(4);
      models.push_back(std::move(model));
    }
    const auto result = active.InsertData(scan, gravity, histogram);
    const size_t first = models.size() >= 2 ? models.size() - 2 : 0;
    MC_CHECK(result.size() == models.size() - first,
             result.size() << " active submaps after scan " << i + 1);
    MC_CHECK(active.submaps() == result, "submaps() differs from the result");
    if (starts) models.back().real = result.back();
    for (size_t m = first; m < models.size(); ++m) {
      Submap3DModel& model = models[m];
      MC_CHECK(model.real == result[m - first], "another submap at position " << m - first);
      sensor::RangeData far = sensor::TransformRangeData(scan, model.pose.inverse().cast<float>());
      std::vector<sensor::RangefinderPoint> points;
      std::vector<float> intensities;
      for (size_t k = 0; k < far.returns.size(); ++k) {
        if ((far.returns[k].position - far.origin).norm() > 3.f) continue;
        points.push_back(far.returns[k]);
        if (!scan.returns.intensities().empty()) {
          intensities.push_back(scan.returns.intensities()[k]);
        }
      }
      const sensor::RangeData near{far.origin, sensor::PointCloud(points, intensities), {}};
      (*inserter)->Insert(near, model.high.get(), model.intensity.get());
      (*inserter)->Insert(far, model.low.get(), nullptr);
      model.histogram += Rotated(
          histogram, transform::GetYaw(model.pose.rotation().inverse() * gravity));
      if (++model.count == 2 * n) model.finished = true;
    }
    for (size_t m = first; m < models.size(); ++m) {
      for (const auto& cell : Contents(*models[m].high)) {
        const Eigen::Array3i index(cell.first[0], cell.first[1], cell.first[2]);
        MC_CHECK(models[m].real->high_resolution_intensity_hybrid_grid().GetIntensity(index) ==
                     models[m].intensity->GetIntensity(index),
                 "intensities differ from inserting the scans of this submap");
      }
    }
    for (auto& model : models) {
      const Submap3D& real = *model.real;
      if (model.count == 1) model.first_proto = real.ToProto(true);
      MC_CHECK(real.num_range_data() == model.count, "the submap has "
                                                         << real.num_range_data()
                                                         << " scans, expected " << model.count);
      MC_CHECK(real.insertion_finished() == model.finished,
               "finished is " << real.insertion_finished() << " after " << model.count);
      MC_CHECK((real.local_pose().translation() - model.pose.translation()).norm() < 1e-6 &&
                   real.local_pose().rotation().angularDistance(model.pose.rotation()) < 1e-6,
               "local pose");
      MC_CHECK(Contents(real.high_resolution_hybrid_grid()) == Contents(*model.high),
               "high resolution contents differ from inserting the scans of this submap");
      MC_CHECK(Contents(real.low_resolution_hybrid_grid()) == Contents(*model.low),
               "low resolution contents differ from inserting the scans of this submap");
      MC_CHECK((real.rotational_scan_matcher_histogram() - model.histogram).norm() < 1e-3,
               "histogram is " << real.rotational_scan_matcher_histogram().transpose()
                               << ", expected " << model.histogram.transpose());
      if (model.finished) {
        const std::string bytes = real.ToProto(true).SerializeAsString();
        if (model.final_proto.empty()) model.final_proto = bytes;
        MC_CHECK(bytes == model.final_proto, "a finished submap changed");
      }
    }
  }
  for (const auto& model : models) {
    const auto proto = model.real->ToProto(true);
    Submap3D copy(proto.submap_3d());
    Submap3D stale(model.first_proto.submap_3d());
    stale.UpdateFromProto(proto);
    MC_CHECK(stale.num_range_data() == model.count &&
                 stale.insertion_finished() == model.finished &&
                 Contents(stale.high_resolution_hybrid_grid()) == Contents(*model.high) &&
                 Contents(stale.low_resolution_hybrid_grid()) == Contents(*model.low) &&
                 stale.rotational_scan_matcher_histogram() ==
                     model.real->rotational_scan_matcher_histogram(),
             "update of an older copy");
    for (int round = 0; round < 3; ++round) {
      MC_CHECK(copy.num_range_data() == model.count &&
                   copy.insertion_finished() == model.finished,
               "state lost by serialization");
      MC_CHECK(Contents(copy.high_resolution_hybrid_grid()) == Contents(*model.high) &&
                   Contents(copy.low_resolution_hybrid_grid()) == Contents(*model.low),
               "contents lost by serialization");
      MC_CHECK(copy.rotational_scan_matcher_histogram() ==
                   model.real->rotational_scan_matcher_histogram(),
               "histogram lost by serialization");
      MC_CHECK((copy.local_pose().translation() - model.pose.translation()).norm() < 1e-6 &&
                   copy.local_pose().rotation().angularDistance(model.pose.rotation()) < 1e-6,
               "pose lost by serialization");
      if (round == 0) copy.UpdateFromProto(model.real->ToProto(true));
      if (round == 1) copy.UpdateFromProto(model.real->ToProto(false));
    }
    MC_CHECK(!model.real->ToProto(false).submap_3d().has_high_resolution_hybrid_grid(),
             "grid not left out");
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique =
      "enumeration of all bounded scan sequences on the real submap collections, "
      "against a model of the life cycle";
  return mc::Main(argc, argv,
                  {{"active_2d", [] { Active2D(3, 6, 3); }, 1, UINT64_MAX,
                    "6 scans of 3 variants, 1-3 scans per submap, both grid types"},
                   {"active_2d_long", [] { Active2D(4, 10, 1); }, 3, UINT64_MAX,
                    "10 scans, 1-4 scans per submap, both grid types"},
                   {"active_3d", [] { Active3D(3, 7, 3); }, 1, UINT64_MAX,
                    "7 scans of 3 variants, 1-3 scans per submap"},
                   {"active_3d_long", [] { Active3D(4, 10, 1); }, 3, UINT64_MAX,
                    "10 scans, 1-4 scans per submap"},
                   {"active_2d_deep", [] { Active2D(3, 8, 3); }, 2, UINT64_MAX,
                    "8 scans of 3 variants, 1-3 scans per submap, both grid types"},
                   {"active_3d_deep", [] { Active3D(4, 9, 3); }, 2, UINT64_MAX,
                    "9 scans of 3 variants, 1-4 scans per submap"}},
                  config);
}
