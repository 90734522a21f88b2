// stand-in for AD3's FactorGraph: keeps the potentials; SolveExactMAP / SolveLPMAP end in any point the package may return
#pragma once
#include "harness.h"
#include <vector>
namespace AD3 {
class MultiVariable { public: std::vector<double> lp; size_t id; double GetLogPotential(int i) const { return lp[i]; } void SetLogPotential(int i, double v) { lp[i] = v; } };
struct Dense { std::vector<MultiVariable*> v; std::vector<double> t; };
class FactorGraph {
public:
  static FactorGraph*& last() { static FactorGraph* p = 0; return p; }
  static bool& best() { static bool b = false; return b; }   // the answer is the bound: an optimal labelling
  std::vector<MultiVariable*> vars; std::vector<Dense> fac; double eta, etaPsdd, residual, top; bool adapt; int steps, stepsPsdd, exact, lp, integral; double duals; std::vector<size_t> pick;
  FactorGraph() : eta(-1), etaPsdd(-1), residual(-1), top(0), adapt(false), steps(-1), stepsPsdd(-1), exact(0), lp(0), integral(1), duals(0) { last() = this; }
  ~FactorGraph() { for (size_t i = 0; i < vars.size(); ++i) delete vars[i]; }
  void SetVerbosity(int) {}
  MultiVariable* CreateMultiVariable(int n) { MultiVariable* v = new MultiVariable; v->lp.resize(n); for (int i = 0; i < n; ++i) v->lp[i] = sym_num("uninitialised", -3, 3, 1); v->id = vars.size(); vars.push_back(v); return v; }
  void CreateFactorDense(const std::vector<MultiVariable*>& v, const std::vector<double>& t) { size_t n = 1; for (size_t i = 0; i < v.size(); ++i) n *= v[i]->lp.size(); CHECKM(n == t.size() && v.size() > 1, "a table value for every configuration"); Dense d; d.v = v; d.t = t; fac.push_back(d); }
  void SetEtaAD3(double e) { eta = e; } void AdaptEtaAD3(bool a) { adapt = a; } void SetMaxIterationsAD3(int n) { steps = n; } void SetResidualThresholdAD3(double r) { residual = r; } void SetEtaPSDD(double e) { etaPsdd = e; } void SetMaxIterationsPSDD(int n) { stepsPsdd = n; }
  // the last variable of a factor is the fastest one
  double score(const std::vector<size_t>& x) const { double s = 0; for (size_t i = 0; i < vars.size(); ++i) s += vars[i]->lp[x[i]]; for (size_t f = 0; f < fac.size(); ++f) { size_t k = 0; for (size_t i = 0; i < fac[f].v.size(); ++i) k = k * fac[f].v[i]->lp.size() + x[fac[f].v[i]->id]; s += fac[f].t[k]; } return s; }
  int end(std::vector<double>* p, std::vector<double>* a, double* value, double* bound) {
    p->clear(); a->clear(); double b = sym_num("upper", -60, 60, 1); std::vector<size_t> x(vars.size(), 0); bool more = true; while (more) { sym_assume(b >= score(x)); more = false; for (size_t i = 0; i < x.size() && !more; ++i) { if (++x[i] < vars[i]->lp.size()) more = true; else x[i] = 0; } }
    pick.clear(); for (size_t i = 0; i < vars.size(); ++i) { size_t l = sym_choice("posterior", vars[i]->lp.size()); pick.push_back(l); for (size_t j = 0; j < vars[i]->lp.size(); ++j) p->push_back(integral ? (j == l ? 1.0 : 0.0) : j == l ? 0.5 + sym_num("most", 1, 3, 8) : 0.25); }
    *value = score(pick); if (best()) sym_assume(*value >= b); *bound = b; top = b; return 0; }
  int SolveLPMAPWithAD3(std::vector<double>* p, std::vector<double>* a, double* v, double* b) { ++lp; integral = 0; return end(p, a, v, b); }
  int SolveExactMAPWithAD3(std::vector<double>* p, std::vector<double>* a, double* v, double* b) { ++exact; return end(p, a, v, b); }
};
}
