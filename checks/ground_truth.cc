// Relations generated from a pose graph as ground truth: which and what, for
// all small pose graphs.
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <string>
#include <vector>

#include "Eigen/Dense"
#include "cartographer/common/time.h"
#include "cartographer/ground_truth/autogenerate_ground_truth.h"
#include "cartographer/ground_truth/relations_text_file.h"
#include "cartographer/transform/transform.h"
#include "mc.h"

namespace {

using namespace cartographer;
using Eigen::Matrix3d;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using transform::Rigid3d;
using PoseGraph = mapping::proto::PoseGraph;

Quaterniond Turn(const Vector3d& v) {
  const double angle = v.norm();
  if (angle == 0.) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(angle, v / angle));
}

struct Pose {
  Vector3d p;
  Matrix3d r;
};
Pose Inverse(const Pose& a) { return {-(a.r.transpose() * a.p), a.r.transpose()}; }
Pose Times(const Pose& a, const Pose& b) { return {a.r * b.p + a.p, a.r * b.r}; }
Pose ToPose(const Rigid3d& a) { return {a.translation(), a.rotation().toRotationMatrix()}; }
double Angle(const Matrix3d& r) { return std::abs(Eigen::AngleAxisd(r).angle()); }

struct Closure {
  int submap, node;
  Pose relative;
};

void Generate(const bool thorough) {
  constexpr int kNodes = 6;
  PoseGraph graph;
  auto* const trajectory = graph.add_trajectory();
  std::vector<Pose> nodes, submaps;
  std::vector<double> covered = {0.};
  Vector3d position(0.3, -0.2, 0.1);
  const int waits = mc::choose(kNodes);  // no motion after this node
  for (int i = 0; i != kNodes; ++i) {
    const Rigid3d pose(position, Turn(Vector3d(0.1 * i, -0.05, 0.6 * i - 1.)));
    nodes.push_back(ToPose(pose));
    auto* const node = trajectory->add_node();
    node->set_node_index(i);
    node->set_timestamp(123456789 + 10000000ll * i);
    *node->mutable_pose() = transform::ToProto(pose);
    const Vector3d motion = i == waits ? Vector3d(0., 0., 0.) : Vector3d(1., 0.3 * i, 0.2);
    position += motion;
    covered.push_back(covered.back() + motion.norm());
  }
  const int num_submaps = 4;
  for (int i = 0; i != num_submaps; ++i) {
    const Rigid3d pose(Vector3d(1.1 * i, 0.2 * i, 0.), Turn(Vector3d(0.05, 0.1 * i, 0.3 - 0.5 * i)));
    submaps.push_back(ToPose(pose));
    auto* const submap = trajectory->add_submap();
    submap->set_submap_index(i);
    *submap->mutable_pose() = transform::ToProto(pose);
  }
  const auto add = [&](const int submap, const int node, const Pose& relative, const bool intra) {
    auto* const constraint = graph.add_constraint();
    constraint->mutable_submap_id()->set_trajectory_id(0);
    constraint->mutable_submap_id()->set_submap_index(submap);
    constraint->mutable_node_id()->set_trajectory_id(0);
    constraint->mutable_node_id()->set_node_index(node);
    *constraint->mutable_relative_pose() =
        transform::ToProto(Rigid3d(relative.p, Quaterniond(relative.r)));
    constraint->set_tag(intra ? PoseGraph::Constraint::INTRA_SUBMAP
                              : PoseGraph::Constraint::INTER_SUBMAP);
  };

  // The first node of each submap; a submap is finished when the one after
  // the next starts.
  const int second = 1 + mc::choose(2);
  const int third = second + 1 + mc::choose(2);
  const std::vector<int> starts = {0, second, third, 5};
  // Loop closures, wrong by some distance and angle, and where they are in the list.
  std::vector<Closure> closures;
  const int num_closures = 1 + (thorough ? mc::choose(2) : mc::choose(2));
  for (int i = 0; i != num_closures; ++i) {
    const int submap = mc::choose(i == 0 || thorough ? num_submaps : 2);
    const int node = i == 0 || thorough ? mc::choose(kNodes) : 2 + 3 * mc::choose(2);
    const double distance = mc::pick<double>({0., 0.12, 0.5});
    const double angle = i == 0 || thorough ? mc::pick<double>({0., 0.05, 0.3}) : 0.;
    // The relative pose which agrees, moved.
    Pose relative = Times(Inverse(submaps[submap]), nodes[node]);
    relative = Times(relative, {distance * Vector3d(0.6, 0., -0.8),
                                Turn(angle * Vector3d(0.48, -0.6, 0.64)).toRotationMatrix()});
    closures.push_back({submap, node, relative});
  }
  const bool early = mc::flip();
  if (early) {
    for (const Closure& c : closures) add(c.submap, c.node, c.relative, false);
  }
  for (int node = 0; node != kNodes; ++node) {
    for (int submap = 0; submap != num_submaps; ++submap) {
      const bool finished = submap + 2 < num_submaps && node >= starts[submap + 2];
      if (node < starts[submap] || finished) continue;
      add(submap, node, Times(Inverse(submaps[submap]), nodes[node]), true);
    }
  }
  if (!early) {
    for (const Closure& c : closures) add(c.submap, c.node, c.relative, false);
  }

  const double min_covered = mc::pick<double>({0., 1.5, 4.});
  const double max_distance = mc::pick<double>({0.2, 0.04});
  const double max_angle = mc::pick<double>({0.1, 0.02});
  const auto truth =
      ground_truth::GenerateGroundTruth(graph, min_covered, max_distance, max_angle);

  int k = 0;
  for (const Closure& c : closures) {
    // The last submap has no node in its middle.
    if (c.submap + 1 >= num_submaps) continue;
    const int middle = starts[c.submap + 1];
    const double distance = std::abs(covered[c.node] - covered[middle]);
    if (std::abs(distance - min_covered) < 1e-6 && min_covered != 0.) continue;
    if (distance < min_covered) continue;
    const Pose expected =
        Times(Inverse(nodes[middle]), Times(submaps[c.submap], c.relative));
    const Pose solution = Times(Inverse(nodes[middle]), nodes[c.node]);
    const Pose error = Times(solution, Inverse(expected));
    if (error.p.norm() > max_distance || Angle(error.r) > max_angle) continue;
    MC_CHECK(k < truth.relation_size(),
             "no relation of submap " << c.submap << " and node " << c.node);
    const auto& relation = truth.relation(k);
    MC_CHECK(relation.timestamp1() == trajectory->node(middle).timestamp() &&
                 relation.timestamp2() == trajectory->node(c.node).timestamp(),
             "relation " << k << " is not between node " << middle << " and " << c.node);
    const Pose got = ToPose(transform::ToRigid3(relation.expected()));
    MC_CHECK((got.p - expected.p).norm() < 1e-6 && (got.r - expected.r).norm() < 1e-6,
             "relation " << k << " is " << got.p.transpose() << " instead of "
                         << expected.p.transpose());
    MC_CHECK(std::abs(relation.covered_distance() - distance) < 1e-6,
             "covered distance " << relation.covered_distance() << " instead of " << distance);
    ++k;
  }
  MC_CHECK(k == truth.relation_size(), truth.relation_size() << " relations instead of " << k);
}

void ReadText() {
  const std::string name = "/tmp/vf_relations." + std::to_string(getpid()) + ".txt";
  struct Relation {
    double t1, t2, x, y, z, roll, pitch, yaw;
  };
  std::vector<Relation> relations;
  const int n = mc::choose(4);
  for (int i = 0; i != n; ++i) {
    const double t = mc::pick<double>({0., 1287503147.25, 1500000000.0625});
    relations.push_back({t, t + mc::pick<double>({0., 0.5, 86400.125}), 1.5 + i, -2.25 * i, 0.5,
                         0.3 * i, -0.2, mc::pick<double>({0., 2., -3.})});
  }
  const bool last_newline = mc::flip();
  {
    std::ofstream file(name);
    file.precision(20);
    for (size_t i = 0; i != relations.size(); ++i) {
      const Relation& r = relations[i];
      file << r.t1 << " " << r.t2 << " " << r.x << " " << r.y << " " << r.z << " " << r.roll << " "
           << r.pitch << " " << r.yaw;
      if (last_newline || i + 1 != relations.size()) file << "\n";
    }
  }
  const auto truth = ground_truth::ReadRelationsTextFile(name);
  std::remove(name.c_str());
  MC_CHECK(truth.relation_size() == n, truth.relation_size() << " relations");
  for (int i = 0; i != n; ++i) {
    const Relation& r = relations[i];
    const auto& got = truth.relation(i);
    // Ticks of 0.1 us since year 1.
    const auto ticks = [](const double t) {
      return 10000000ll * 719162ll * 86400ll + static_cast<long long>(t * 1e7);
    };
    MC_CHECK(std::abs(got.timestamp1() - ticks(r.t1)) <= 10 &&
                 std::abs(got.timestamp2() - ticks(r.t2)) <= 10,
             "times of relation " << i << ": " << got.timestamp1() << " instead of "
                                  << ticks(r.t1));
    const Pose pose = ToPose(transform::ToRigid3(got.expected()));
    const Matrix3d want = (Turn({0., 0., r.yaw}) * Turn({0., r.pitch, 0.}) * Turn({r.roll, 0., 0.}))
                              .toRotationMatrix();
    MC_CHECK((pose.p - Vector3d(r.x, r.y, r.z)).norm() < 1e-9 && (pose.r - want).norm() < 1e-9,
             "pose of relation " << i);
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config config;
  config.technique = "explicit enumeration of small pose graphs and relations";
  return mc::Main(argc, argv,
                  {{"generate", [] { Generate(mc::thorough()); }, 3, UINT64_MAX,
                    "6 nodes, 4 submaps, all starts of submaps, 1-2 loop closures with 9 errors, all "
                    "thresholds"},
                   {"text", [] { ReadText(); }, 3, UINT64_MAX, "0-3 relations, 27 kinds"}},
                  config);
}
