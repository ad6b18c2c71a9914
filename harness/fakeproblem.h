// Stand-in for the problem and solver of Ceres, with the interface the sources under test were written against
// (ceres::LocalParameterization): records blocks and terms and hands them to the harness.
#pragma once
#include <memory>
#include <vector>
#include "symx.h"
#include "ceres/ceres.h"
namespace ceres {
CostFunction::CostFunction() : num_residuals_(0) {}
CostFunction::~CostFunction() {}
LossFunction::~LossFunction() {}
void HuberLoss::Evaluate(double, double* out) const { out[0] = 1.; out[1] = a_; out[2] = 0.; }
TolerantLoss::TolerantLoss(double a, double b) : a_(a), b_(b), c_(0.) {}
void TolerantLoss::Evaluate(double, double* out) const { out[0] = 2.; out[1] = a_; out[2] = b_; }
std::string Solver::Summary::FullReport() const { return ""; }
struct LocalParameterization { virtual ~LocalParameterization() {} virtual int Free() const = 0; };
struct QuaternionParameterization : LocalParameterization { int Free() const override { return 3; } };
template <typename Plus, int kGlobal, int kLocal> struct AutoDiffLocalParameterization : LocalParameterization { int Free() const override { return kLocal; } };
struct SubsetParameterization : LocalParameterization { int n; SubsetParameterization(int size, const std::vector<int>& c) : n(size - static_cast<int>(c.size())) {} int Free() const override { return n; } };
struct Block { double* at; int size; int free; bool constant; };
struct Term { CostFunction* cost; LossFunction* loss; std::vector<double*> at; };
struct FakeProblem {
  struct Options {};
  std::vector<Block> blocks; std::vector<Term> terms;
  std::vector<std::unique_ptr<LocalParameterization>> kept;
  FakeProblem() {}
  explicit FakeProblem(const Options&) {}
  ~FakeProblem() { for (Term& t : terms) { delete t.cost; delete t.loss; } }
  Block* Find(const double* at) { for (Block& b : blocks) if (b.at == at) return &b; return nullptr; }
  void AddParameterBlock(double* at, int size, LocalParameterization* p = nullptr) {
    symx_assert(Find(at) == nullptr, "every block is added once");
    blocks.push_back({at, size, p ? p->Free() : size, false});
    kept.emplace_back(p);
  }
  void SetParameterBlockConstant(double* at) { Block* b = Find(at); symx_assert(b != nullptr, "only blocks of the problem are fixed"); b->constant = true; }
  void SetParameterBlockVariable(double* at) { Block* b = Find(at); symx_assert(b != nullptr, "only blocks of the problem are freed"); b->constant = false; }
  void SetParameterization(double* at, LocalParameterization* p) { Block* b = Find(at); symx_assert(b != nullptr, "block of the problem"); b->free = p->Free(); kept.emplace_back(p); }
  template <typename... Ts> void AddResidualBlock(CostFunction* cost, LossFunction* loss, double* x0, Ts*... xs) {
    const std::vector<double*> at{x0, xs...};
    symx_assert(cost->parameter_block_sizes().size() == at.size(), "every term gets as many blocks as it has");
    for (size_t k = 0; k < at.size(); ++k) {
      Block* b = Find(at[k]);
      if (!b) { blocks.push_back({at[k], cost->parameter_block_sizes()[k], cost->parameter_block_sizes()[k], false}); b = &blocks.back(); }
      symx_assert(b->size == cost->parameter_block_sizes()[k], "blocks have the size their terms need");
    }
    terms.push_back({cost, loss, at});
  }
};
// what is expected, in any order
struct Wanted {
  std::vector<Term> terms;
  ~Wanted() { for (Term& t : terms) delete t.cost; }
  // takes 'cost' over; kind of loss: 0 none, 1 Huber(a), 2 tolerant(a, b)
  static std::vector<double> Residuals(const Term& t) {
    std::vector<double> r(t.cost->num_residuals(), 99.);
    symx_assert(t.cost->Evaluate(const_cast<double const* const*>(t.at.data()), r.data(), nullptr), "terms can be evaluated");
    return r;
  }
  static void Find(const FakeProblem& problem, CostFunction* cost, const std::vector<double*>& at, int loss, double a, double b, double tolerance, const char* what, std::vector<char>* used) {
    const Term want{cost, nullptr, at};
    const std::vector<double> w = Residuals(want);
    int found = 0;
    for (size_t k = 0; k < problem.terms.size(); ++k) {
      const Term& t = problem.terms[k];
      if ((*used)[k] || t.at != at || t.cost->num_residuals() != static_cast<int>(w.size())) continue;
      double l[3] = {0., 0., 0.};
      if (t.loss) t.loss->Evaluate(1., l);
      if (l[0] != loss || (loss && l[1] != a) || (loss == 2 && l[2] != b)) continue;
      const std::vector<double> r = Residuals(t);
      int same = 1;
      for (size_t q = 0; q < w.size(); ++q) { const double e = r[q] - w[q]; same &= (e <= tolerance) & (e >= -tolerance); }
      if (!same) continue;
      (*used)[k] = 1; ++found; break;
    }
    symx_assert(found == 1, what);
    delete cost;
  }
};
static void OnSolve(const Solver::Options& options, FakeProblem* problem);
static void Solve(const Solver::Options& options, FakeProblem* problem, Solver::Summary*) { OnSolve(options, problem); }
}  // namespace ceres
#define Problem FakeProblem
