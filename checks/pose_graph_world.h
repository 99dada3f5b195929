// Small synthetic worlds for the pose graph checks (2D, or 3D with -DCHECK_3D):
// every trajectory moves in small steps through the same scene; trajectory t
// has its own local frame. Node i is inserted into submaps i-1 (which it
// finishes) and i.
#ifndef VERIF_POSE_GRAPH_WORLD_H_
#define VERIF_POSE_GRAPH_WORLD_H_

#include <memory>
#include <vector>

#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#ifdef CHECK_3D
#include "cartographer/mapping/internal/3d/pose_graph_3d.h"
#else
#include "cartographer/mapping/internal/2d/pose_graph_2d.h"
#endif

namespace world {

using namespace cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
namespace common = cartographer::common;
using transform::Rigid3d;
#ifdef CHECK_3D
using Graph = PoseGraph3D;
using SubmapType = Submap3D;
using Problem = optimization::OptimizationProblem3D;
#else
using Graph = PoseGraph2D;
using SubmapType = Submap2D;
using Problem = optimization::OptimizationProblem2D;
#endif

// Options of the pose graph: optimization after every 'n' nodes, or only on
// request if 0.
cartographer::mapping::proto::PoseGraphOptions Options(int optimize_every_n_nodes);

std::unique_ptr<Graph> MakeGraph(const cartographer::mapping::proto::PoseGraphOptions& options,
                                 common::ThreadPool* pool);

common::Time NodeTime(int trajectory, int index);
// Pose of node 'index' in the scene, and in the trajectory's local frame.
Rigid3d TrueNodePose(int trajectory, int index);
Rigid3d LocalNodePose(int trajectory, int index);
Rigid3d LocalFrame(int trajectory);  // scene <- local
Rigid3d LocalSubmapPose(int trajectory, int index);
std::shared_ptr<const TrajectoryNode::Data> MakeNode(int trajectory, int index);
std::shared_ptr<SubmapType> MakeSubmap(int trajectory, int index);
void FinishSubmap(SubmapType* submap);

// Serialized forms.
cartographer::mapping::proto::Submap SubmapProto(int trajectory, int index);
cartographer::mapping::proto::Node NodeProto(int trajectory, int index);

// Distance of the translations, plus the angle.
double Difference(const Rigid3d& a, const Rigid3d& b);

}  // namespace world

#endif  // VERIF_POSE_GRAPH_WORLD_H_
