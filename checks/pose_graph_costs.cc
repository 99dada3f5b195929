// Numeric code of the solver which is defined in headers. Linked before the
// instrumented sources, so that it is not slowed down. Left out if it does not
// compile.
#ifdef CHECK_3D
#include "cartographer/mapping/internal/optimization/cost_functions/acceleration_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/rotation_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_3d.h"
#else
#include "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_2d.h"
#endif

using namespace cartographer::mapping;
using namespace cartographer::mapping::optimization;

void* const kCostFunctions[] = {
#ifdef CHECK_3D
    reinterpret_cast<void*>(&AccelerationCostFunction3D::CreateAutoDiffCostFunction),
    reinterpret_cast<void*>(&RotationCostFunction3D::CreateAutoDiffCostFunction),
    reinterpret_cast<void*>(&LandmarkCostFunction3D::CreateAutoDiffCostFunction),
    reinterpret_cast<void*>(&SpaCostFunction3D::CreateAutoDiffCostFunction),
#else
    reinterpret_cast<void*>(&LandmarkCostFunction2D::CreateAutoDiffCostFunction),
#endif
};
void* const* CostFunctions() { return kCostFunctions; }
