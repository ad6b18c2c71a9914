// Stand-in for the solver of Ceres: records the problem and hands it to the harness.
#pragma once
#include <vector>
#include "symx.h"
#include "ceres/ceres.h"
namespace ceres {
CostFunction::CostFunction() : num_residuals_(0) {}
CostFunction::~CostFunction() {}
namespace internal { class ProblemImpl {}; }
struct Term { CostFunction* cost; LossFunction* loss; std::vector<double*> at; };
struct Recorded { std::vector<Term> terms; std::vector<double*> constant, blocks; };
static Recorded g_problem;
Problem::Problem() : impl_(new internal::ProblemImpl) { g_problem = Recorded(); }
Problem::~Problem() { for (Term& t : g_problem.terms) delete t.cost; g_problem = Recorded(); }
ResidualBlockId Problem::AddResidualBlock(CostFunction* cost, LossFunction* loss, double* const* const at, int n) {
  g_problem.terms.push_back({cost, loss, std::vector<double*>(at, at + n)});
  symx_assert(static_cast<int>(cost->parameter_block_sizes().size()) == n, "every term gets as many blocks as it has");
  return nullptr;
}
static std::vector<double> Residuals(const Term& t) {
  std::vector<double> r(t.cost->num_residuals(), 99.);
  symx_assert(t.cost->Evaluate(const_cast<double const* const*>(t.at.data()), r.data(), nullptr), "terms can be evaluated");
  return r;
}
static void OnSolve(const Solver::Options& options);
void Solve(const Solver::Options& options, Problem*, Solver::Summary*) { OnSolve(options); }
}  // namespace ceres
