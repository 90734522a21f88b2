// stand-in for libDAI: sorted variable sets, tables with the lowest variable fastest, and an algorithm that ends with any beliefs and any maximum
#pragma once
#include "harness.h"
#include <vector>
#include <set>
#include <string>
#include <map>
namespace dai {
class Var { public: size_t l, s; Var() : l(0), s(0) {} Var(size_t a, size_t b) : l(a), s(b) {} size_t label() const { return l; } size_t states() const { return s; } bool operator<(const Var& o) const { return l < o.l; } };
class VarSet { public: std::vector<Var> v; VarSet() {} template<class I> VarSet(I b, I e) { for (; b != e; ++b) insert(*b); } void insert(const Var& x) { size_t i = 0; while (i < v.size() && v[i].l < x.l) ++i; if (i < v.size() && v[i].l == x.l) return; v.insert(v.begin() + i, x); } VarSet& operator|=(const Var& x) { insert(x); return *this; } size_t nrStates() const { size_t n = 1; for (size_t i = 0; i < v.size(); ++i) n *= v[i].s; return n; } bool operator==(const VarSet& o) const { if (v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (v[i].l != o.v[i].l) return false; return true; } };
class Factor { public: VarSet v; std::vector<double> p; Factor() {} Factor(const VarSet& a, const double* d) : v(a), p(d, d + a.nrStates()) {} size_t nrStates() const { return p.size(); } double get(size_t i) const { return p[i]; } const VarSet& vars() const { return v; } };
class FactorGraph { public: static FactorGraph*& last() { static FactorGraph* p = 0; return p; } std::vector<Factor> f; std::vector<Var> vs; template<class A, class B> FactorGraph(A fb, A fe, B vb, B ve) : f(fb, fe), vs(vb, ve) { last() = this; } size_t nrVars() const { return vs.size(); } size_t nrFactors() const { return f.size(); } const Var& var(size_t i) const { return vs[i]; } };
class Exception { public: int c; int getCode() const { return c; } std::string message(int) const { return "m"; } std::string getMsg() const { return "g"; } std::string getDetailedMsg() const { return "d"; } };
class InfAlg { public: static InfAlg*& last() { static InfAlg* p = 0; return p; } static int& fault() { static int f = 0; return f; } static int& alive() { static int f = 0; return f; } std::string opts; const FactorGraph* g; std::vector<std::pair<VarSet, Factor> > given; std::vector<size_t> state; int inits, runs;
  InfAlg(const std::string& o, const FactorGraph& x) : opts(o), g(&x), inits(0), runs(0) { last() = this; ++alive(); } ~InfAlg() { --alive(); }
  void init() { ++inits; } double run() { CHECKM(inits > 0, "initialised before it runs"); ++runs; if (fault() == 1) { Exception e; e.c = 3; throw e; } if (fault() == 2) throw 7; for (size_t i = 0; i < g->vs.size(); ++i) state.push_back(sym_choice("state", g->vs[i].s)); return 0; }
  Factor belief(const VarSet& v) { if (fault() == 3) { Exception e; e.c = 5; throw e; } for (size_t i = 0; i < given.size(); ++i) if (given[i].first == v) return given[i].second; Factor r; r.v = v; for (size_t i = 0; i < v.nrStates(); ++i) r.p.push_back(sym_num("belief", 1, 8, 8)); given.push_back(std::make_pair(v, r)); return r; }
  Factor belief(const Var& x) { VarSet v; v.insert(x); return belief(v); }
  std::vector<size_t> findMaximum() const { if (fault() == 4) { Exception e; e.c = 6; throw e; } return state; } };
inline InfAlg* newInfAlgFromString(const std::string& s, const FactorGraph& g) { return new InfAlg(s, g); }
}
