// Interfaces that Ceres removed in 2.2, expressed with their replacements.
// Only for the five files which the repository's build leaves out for lack of
// them.
#ifndef VERIF_CERES_SHIM_H_
#define VERIF_CERES_SHIM_H_

#include <memory>
#include <vector>

#include "ceres/ceres.h"

namespace ceres {

using LocalParameterization = Manifold;
using QuaternionParameterization = QuaternionManifold;
using SubsetParameterization = SubsetManifold;

// x [+] delta given by a functor; derivatives by automatic differentiation.
template <typename Functor, int kGlobalSize, int kLocalSize>
class AutoDiffLocalParameterization : public Manifold {
 public:
  AutoDiffLocalParameterization() : functor_(new Functor()) {}
  explicit AutoDiffLocalParameterization(Functor* functor) : functor_(functor) {}
  int AmbientSize() const override { return kGlobalSize; }
  int TangentSize() const override { return kLocalSize; }
  bool Plus(const double* x, const double* delta, double* x_plus_delta) const override {
    return (*functor_)(x, delta, x_plus_delta);
  }
  bool PlusJacobian(const double* x, double* jacobian) const override {
    using J = Jet<double, kLocalSize>;
    J jx[kGlobalSize], jd[kLocalSize], out[kGlobalSize];
    for (int i = 0; i < kGlobalSize; ++i) jx[i] = J(x[i]);
    for (int i = 0; i < kLocalSize; ++i) jd[i] = J(0., i);
    if (!(*functor_)(jx, jd, out)) return false;
    for (int i = 0; i < kGlobalSize; ++i) {
      for (int k = 0; k < kLocalSize; ++k) jacobian[i * kLocalSize + k] = out[i].v[k];
    }
    return true;
  }
  // Not used by the solver.
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }

 private:
  std::unique_ptr<Functor> functor_;
};

}  // namespace ceres

#define SetParameterization SetManifold

#endif  // VERIF_CERES_SHIM_H_
