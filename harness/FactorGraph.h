// stand-in for grante: types, shared and own data, and an inference method that ends in any labelling with its energy
#pragma once
#include "harness.h"
#include <vector>
#include <string>
namespace Grante {
struct FactorType { std::string n; std::vector<unsigned> c; FactorType(const std::string& a, const std::vector<unsigned>& b, const std::vector<double>&) : n(a), c(b) {} unsigned ProdCardinalities() const { unsigned p = 1; for (size_t i = 0; i < c.size(); ++i) p *= c[i]; return p; } };
struct FactorDataSource { std::vector<double> d; FactorDataSource(const std::vector<double>& x) : d(x) {} };
struct Factor { FactorType* t; std::vector<unsigned> v; std::vector<double> own; FactorDataSource* src; Factor(FactorType* a, const std::vector<unsigned>& b, const std::vector<double>& d) : t(a), v(b), own(d), src(0) { CHECKM(d.size() == a->ProdCardinalities() && b.size() == a->c.size(), "a value for every configuration"); } Factor(FactorType* a, const std::vector<unsigned>& b, FactorDataSource* s) : t(a), v(b), src(s) { CHECKM(s->d.size() == a->ProdCardinalities() && b.size() == a->c.size(), "a value for every configuration"); } };
struct FactorGraphModel { std::vector<FactorType*> t; ~FactorGraphModel() { for (size_t i = 0; i < t.size(); ++i) delete t[i]; } void AddFactorType(FactorType* x) { for (size_t i = 0; i < t.size(); ++i) CHECKM(t[i]->n != x->n, "names of factor types differ"); t.push_back(x); } FactorType* FindFactorType(const std::string& n) { for (size_t i = 0; i < t.size(); ++i) if (t[i]->n == n) return t[i]; CHECKM(false, "the factor type exists"); return 0; } };
struct FactorGraph {
  static FactorGraph*& last() { static FactorGraph* p = 0; return p; }
  std::vector<unsigned> L; std::vector<Factor*> f; bool mapped; FactorGraph(FactorGraphModel*, const std::vector<unsigned>& c) : L(c), mapped(false) { last() = this; } ~FactorGraph() { for (size_t i = 0; i < f.size(); ++i) delete f[i]; }
  void AddFactor(Factor* x) { for (size_t i = 0; i < x->v.size(); ++i) CHECKM(x->v[i] < L.size() && L[x->v[i]] == x->t->c[i], "a factor fits its variables"); f.push_back(x); mapped = false; } void ForwardMap() { mapped = true; }
  double energy(const std::vector<unsigned>& x) const { double e = 0; for (size_t k = 0; k < f.size(); ++k) { size_t p = 0, m = 1; for (size_t i = 0; i < f[k]->v.size(); ++i) { p += m * x[f[k]->v[i]]; m *= f[k]->t->c[i]; } e += f[k]->src ? f[k]->src->d[p] : f[k]->own[p]; } return e; }
};
struct InferenceMethod { const FactorGraph* g; int kind; bool verbose; double p0, p1, p2; InferenceMethod(const FactorGraph* x, int k) : g(x), kind(k), verbose(false), p0(-1), p1(-1), p2(-1) { last() = this; } virtual ~InferenceMethod() {} static InferenceMethod*& last() { static InferenceMethod* p = 0; return p; }
  double MinimizeEnergy(std::vector<unsigned>& s) { CHECKM(g->mapped, "the energies are up to date"); s.resize(g->L.size()); for (size_t i = 0; i < s.size(); ++i) s[i] = (unsigned)sym_choice("state", g->L[i]); return g->energy(s); } };
struct BruteForceExactInference : InferenceMethod { BruteForceExactInference(const FactorGraph* x) : InferenceMethod(x, 0) {} };
struct BeliefPropagation : InferenceMethod { enum MessageSchedule { ParallelSync, Sequential }; MessageSchedule m; BeliefPropagation(const FactorGraph* x, MessageSchedule s = Sequential) : InferenceMethod(x, 1), m(s) {} void SetParameters(bool v, unsigned n, double t) { verbose = v; p0 = n; p1 = t; } };
struct DiffusionInference : InferenceMethod { DiffusionInference(const FactorGraph* x) : InferenceMethod(x, 2) {} void SetParameters(bool v, unsigned n, double t) { verbose = v; p0 = n; p1 = t; } };
struct SimulatedAnnealingInference : InferenceMethod { SimulatedAnnealingInference(const FactorGraph* x, bool v = true) : InferenceMethod(x, 3) { verbose = v; } void SetParameters(unsigned n, double a, double b) { p0 = n; p1 = a; p2 = b; } };
}
