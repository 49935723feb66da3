// The solver, replaced by what its interface promises: residual blocks are evaluated where they are added, parameter blocks are
// recorded, and Solve may give any value to the parameter blocks that are not constant.  Automatic differentiation is not executed.
#pragma once
#define CERES_PUBLIC_INTERNAL_AUTODIFF_H_
#define CERES_PUBLIC_DYNAMIC_AUTODIFF_COST_FUNCTION_H_
#include "ceres/internal/array_selector.h"
#include "ceres/internal/fixed_array.h"
#include "ceres/internal/parameter_dims.h"
#include "ceres/internal/variadic_evaluate.h"
#include "ceres/jet.h"
#include "ceres/types.h"
#include "ceres/dynamic_cost_function.h"
#include "glog/logging.h"
namespace ceres {
namespace internal {
template <int N, typename D, typename F, typename T>
inline bool AutoDifferentiate(const F&, T const* const*, int, T*, T**) { return false; }
class ProblemImpl {};
}  // namespace internal
template <typename CostFunctor, int Stride = 4>
class DynamicAutoDiffCostFunction final : public DynamicCostFunction {
 public:
  explicit DynamicAutoDiffCostFunction(CostFunctor* f) : functor_(f) {}
  bool Evaluate(double const* const* p, double* r, double** jacobians) const override { return !jacobians && (*functor_)(p, r); }
  CostFunctor* functor_;
};
}  // namespace ceres
#include "ceres/ceres.h"
struct VfBlock { int n, nres, loss; bool ok; double b; double* p[8]; int sz[8]; double res[20]; double val[8][20]; };
struct VfParam { double* p; int n; bool fixed; bool lower; double lo; };
static VfBlock g_blocks[40];
static VfParam g_params[60];
static int g_nb, g_np;
static double g_delta;
static int g_iterations, g_threads, g_solver, g_solved;
static VfParam* vf_param(double* p, int n) {
  for (int i = 0; i < g_np; ++i) if (g_params[i].p == p) return &g_params[i];
  g_params[g_np] = VfParam{p, n, false, false, 0};
  return &g_params[g_np++];
}
namespace ceres {
// the virtual members that live in the library
CostFunction::CostFunction() : num_residuals_(0) {}
CostFunction::~CostFunction() {}
LossFunction::~LossFunction() {}
void TrivialLoss::Evaluate(double, double* o) const { o[0] = 1; o[1] = 0; }
void HuberLoss::Evaluate(double, double* o) const { o[0] = 2; o[1] = a_; }
void SoftLOneLoss::Evaluate(double, double* o) const { o[0] = 3; o[1] = b_; }
void CauchyLoss::Evaluate(double, double* o) const { o[0] = 4; o[1] = b_; }
void ArctanLoss::Evaluate(double, double* o) const { o[0] = 5; o[1] = a_; }
void TukeyLoss::Evaluate(double, double* o) const { o[0] = 6; o[1] = a_squared_; }
Problem::Problem() {}
Problem::~Problem() {}
ResidualBlockId Problem::AddResidualBlock(CostFunction* c, LossFunction* l, double* const* const p, int n) {
  VfBlock& b = g_blocks[g_nb++];
  b.n = n;
  b.nres = c->num_residuals();
  b.loss = 0;
  b.b = 0;
  if (l) {
    double o[3] = {0, 0, 0};
    l->Evaluate(1.0, o);
    b.loss = static_cast<int>(o[0]);
    b.b = o[1];
  }
  b.ok = static_cast<int>(c->parameter_block_sizes().size()) == n;
  for (int i = 0; i < n; ++i) {
    b.p[i] = p[i];
    b.sz[i] = c->parameter_block_sizes()[i];
    for (int j = 0; j < b.sz[i]; ++j) b.val[i][j] = p[i][j];
    b.ok = b.ok && vf_param(p[i], b.sz[i])->n == b.sz[i];
    for (int j = 0; j < i; ++j) b.ok = b.ok && p[i] != p[j];
  }
  const bool r = c->Evaluate(p, b.res, nullptr);
  b.ok = b.ok && r;
  return nullptr;
}
ResidualBlockId Problem::AddResidualBlock(CostFunction* c, LossFunction* l, const std::vector<double*>& p) {
  return AddResidualBlock(c, l, p.data(), static_cast<int>(p.size()));
}
void Problem::AddParameterBlock(double* v, int n) { vf_param(v, n); }
void Problem::SetParameterBlockConstant(const double* v) { vf_param(const_cast<double*>(v), -1)->fixed = true; }
void Problem::SetParameterLowerBound(double* v, int, double lo) { VfParam* p = vf_param(v, -1); p->lower = true; p->lo = lo; }
void Problem::SetParameterUpperBound(double*, int, double) {}
void Solve(const Solver::Options& o, Problem*, Solver::Summary*) {
  g_iterations = o.max_num_iterations;
  g_threads = o.num_threads;
  g_solver = static_cast<int>(o.linear_solver_type);
  ++g_solved;
  for (int i = 0; i < g_np; ++i)
    if (!g_params[i].fixed)
      for (int j = 0; j < g_params[i].n; ++j) g_params[i].p[j] += (j + 1) * g_delta;
}
bool StringToLinearSolverType(std::string v, LinearSolverType* t) {
  if (v == "DENSE_QR") *t = DENSE_QR;
  else if (v == "DENSE_SCHUR") *t = DENSE_SCHUR;
  else if (v == "SPARSE_SCHUR") *t = SPARSE_SCHUR;
  else if (v == "ITERATIVE_SCHUR") *t = ITERATIVE_SCHUR;
  else return false;
  return true;
}
bool StringToCovarianceAlgorithmType(std::string, CovarianceAlgorithmType* t) { *t = SPARSE_QR; return true; }
Covariance::Covariance(const Covariance::Options&) {}
Covariance::~Covariance() {}
bool Covariance::Compute(const std::vector<std::pair<const double*, const double*>>&, Problem*) { return false; }
bool Covariance::GetCovarianceBlock(const double*, const double*, double*) const { return false; }
std::string Solver::Summary::BriefReport() const { return std::string(); }
std::string Solver::Summary::FullReport() const { return std::string(); }
namespace internal { class CovarianceImpl {}; }
}  // namespace ceres
