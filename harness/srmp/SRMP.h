// stand-in for SRMP: keeps the factors; Solve ends in any labelling with any bound below all of them
#pragma once
#include "harness.h"
#include <vector>
namespace srmpLib {
struct FactorType { virtual ~FactorType() {} virtual bool potts() const = 0; };
struct PottsFactorType : FactorType { bool potts() const { return true; } };
struct GeneralFactorType : FactorType { bool potts() const { return false; } };
class Energy {
public:
  typedef int NodeId;
  struct Options { enum Method { SRMP, MPLP, MPLP_BW, CMP } method; int iter_max; double time_max, eps; int compute_solution_period; bool print_times; int sort_flag; bool verbose; int TRWS_weighting; Options() : method(SRMP), iter_max(10000), time_max(1200), eps(1e-8), compute_solution_period(10), print_times(true), sort_flag(-1), verbose(true), TRWS_weighting(0) {} };
  struct F { std::vector<int> v; std::vector<double> t; bool potts; };
  static Energy*& last() { static Energy* p = 0; return p; }
  std::vector<size_t> L, sol; std::vector<F> f; int most; size_t room; int minimal, full, fullDual; Options used; bool solved;
  Energy(int n) : most(n), room(n), minimal(0), full(-1), fullDual(-1), solved(false) { last() = this; }
  NodeId AddNode(int k) { CHECKM(L.size() < room, "no more nodes than announced"); L.push_back(k); sol.push_back(0); return (int)L.size() - 1; }
  void put(size_t n, const NodeId* v, const double* c, bool potts) { F x; x.potts = potts; size_t m = 1; for (size_t i = 0; i < n; ++i) { CHECKM((size_t)v[i] < L.size(), "the node exists"); x.v.push_back(v[i]); m *= L[v[i]]; } if (potts) { CHECKM(n == 2 && L[v[0]] == L[v[1]], "Potts terms have two nodes with the same labels"); m = 1; } x.t.assign(c, c + m); f.push_back(x); }
  void AddUnaryFactor(NodeId i, double* c) { put(1, &i, c, false); }
  void AddPairwiseFactor(NodeId i, NodeId j, double* c) { NodeId v[2] = {i, j}; put(2, v, c, false); }
  void AddFactor(int n, NodeId* v, double* c, FactorType* t, unsigned = 0) { put(n, v, c, t->potts()); }
  void SetMinimalEdges() { ++minimal; } void SetFullEdges(int m = 0) { full = m; } void SetFullEdgesDual(int m = 0) { fullDual = m; }
  double energy(const std::vector<size_t>& x) const { double e = 0; for (size_t k = 0; k < f.size(); ++k) { if (f[k].potts) { e += x[f[k].v[0]] == x[f[k].v[1]] ? 0 : f[k].t[0]; continue; } size_t p = 0; for (size_t i = 0; i < f[k].v.size(); ++i) p = p * L[f[k].v[i]] + x[f[k].v[i]]; e += f[k].t[p]; } return e; }
  double Solve(Options& o) { used = o; solved = true; double b = sym_num("lower", -60, 60, 1); std::vector<size_t> x(L.size(), 0); bool more = true; while (more) { sym_assume(b <= energy(x)); more = false; for (size_t i = 0; i < x.size() && !more; ++i) { if (++x[i] < L[i]) more = true; else x[i] = 0; } } for (size_t i = 0; i < L.size(); ++i) sol[i] = sym_choice("solution", L[i]); return b; }
  int GetSolution(NodeId i) const { return (int)sol[i]; }
};
}
