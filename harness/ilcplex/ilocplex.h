// The part of CPLEX's Concert interface that opengm uses, over ../lpcore.h. Variables, ranges and objectives are handles; what
// a model holds is read when it is solved, as Concert's extraction does.
#pragma once
#include "../lpcore.h"
#include <memory>
#include <iostream>
#include <iomanip>
#include <set>
#include <map>
typedef double IloNum; typedef long IloInt;
#define IloInfinity 1e100
#define CPX_ON 1
#define CPX_OFF 0
enum IloNumVarType { ILOFLOAT, ILOINT, ILOBOOL };
struct IloException { std::string m; IloException(const char* s = "") : m(s) {} virtual ~IloException() {} const char* getMessage() const { return m.c_str(); } };
inline std::ostream& operator<<(std::ostream& o, const IloException& e) { return o << e.m; }
struct IloEnv { void end() {} };
struct IloNumVar { struct I { double lb, ub; IloNumVarType t; }; std::shared_ptr<I> p; IloNumVar() {} IloNumVar(IloEnv, double l, double u, IloNumVarType t = ILOFLOAT) : p(new I) { p->lb = l; p->ub = u; p->t = t; } double getLB() const { return p->lb; } double getUB() const { return p->ub; } };
template<class T> struct IloArr_ { std::shared_ptr<std::vector<T> > p; IloArr_() {} IloArr_(IloEnv, IloInt n = 0) : p(new std::vector<T>((size_t)n)) {}
  T& operator[](IloInt i) { if (i < 0 || i >= getSize()) { CHECKM(false, "index outside of an array of the solver's interface"); } return (*p)[(size_t)i]; } const T& operator[](IloInt i) const { return const_cast<IloArr_&>(*this)[i]; }
  void add(const T& v) { p->push_back(v); } void add(const IloArr_& a) { std::vector<T> c(*a.p); p->insert(p->end(), c.begin(), c.end()); } void clear() { p->clear(); } IloInt getSize() const { return (IloInt)p->size(); } void end() { p.reset(); } };
struct IloNumArray : IloArr_<double> { IloNumArray() {} IloNumArray(IloEnv e, IloInt n = 0) : IloArr_<double>(e, n) {} };
struct IloNumVarArray : IloArr_<IloNumVar> { IloNumVarArray() {} IloNumVarArray(IloEnv e, IloInt n = 0) : IloArr_<IloNumVar>(e, n) {} IloNumVarArray(IloEnv e, IloInt n, double l, double u, IloNumVarType t = ILOFLOAT) : IloArr_<IloNumVar>(e, 0) { for (IloInt i = 0; i < n; ++i) p->push_back(IloNumVar(e, l, u, t)); } };
struct IloLin_ { std::vector<IloNumVar> v; std::vector<double> c; void set(const IloNumVar& x, double a) { if (!x.p) throw IloException("empty variable handle"); for (size_t i = 0; i < v.size(); ++i) if (v[i].p == x.p) { c[i] = a; return; } v.push_back(x); c.push_back(a); } };
struct IloRange { struct I { double lo, hi; std::string name; IloLin_ e; }; std::shared_ptr<I> p; IloRange() {} IloRange(IloEnv, double l, double h, const char* n = 0) : p(new I) { p->lo = l; p->hi = h; if (n) p->name = n; } void setLinearCoef(const IloNumVar& v, double a) { p->e.set(v, a); } double getLB() const { return p->lo; } double getUB() const { return p->hi; } };
struct IloRangeArray : IloArr_<IloRange> { IloRangeArray() {} IloRangeArray(IloEnv e, IloInt n = 0) : IloArr_<IloRange>(e, n) {} };
struct IloObjective { enum Sense { Minimize = 1, Maximize = -1 }; struct I { int sense; IloLin_ e; }; std::shared_ptr<I> p; IloObjective() {} IloObjective(IloEnv, Sense s = Minimize) : p(new I) { p->sense = s; } void setSense(Sense s) { p->sense = s; } void setLinearCoef(const IloNumVar& v, double a) { p->e.set(v, a); } void setLinearCoefs(const IloNumVarArray& v, const IloNumArray& a) { if (v.getSize() != a.getSize()) throw IloException("arrays of different sizes"); std::map<void*, size_t> at; IloLin_& e = p->e; for (size_t i = 0; i < e.v.size(); ++i) at[e.v[i].p.get()] = i; for (IloInt i = 0; i < v.getSize(); ++i) { void* k = v[i].p.get(); if (at.count(k)) e.c[at[k]] = a[i]; else { at[k] = e.v.size(); e.v.push_back(v[i]); e.c.push_back(a[i]); } } } };
inline IloObjective IloMinimize(IloEnv e) { return IloObjective(e, IloObjective::Minimize); } inline IloObjective IloMaximize(IloEnv e) { return IloObjective(e, IloObjective::Maximize); }
struct IloConversion { IloNumVar v; IloNumVarType t; IloConversion(IloEnv, const IloNumVar& x, IloNumVarType y) : v(x), t(y) {} };
struct IloModel { struct I { std::vector<IloNumVar> vars; std::vector<IloRange> rows; std::vector<IloConversion> conv; IloObjective obj; }; std::shared_ptr<I> p; IloModel() {} IloModel(IloEnv) : p(new I) {}
  void add(const IloObjective& o) { if (p->obj.p && p->obj.p != o.p) throw IloException("several objectives"); p->obj = o; } void add(const IloRange& r) { for (size_t i = 0; i < p->rows.size(); ++i) if (p->rows[i].p == r.p) return; p->rows.push_back(r); } void add(const IloRangeArray& a) { for (IloInt i = 0; i < a.getSize(); ++i) add(a[i]); }
  void add(const IloNumVar& v) { for (size_t i = 0; i < p->vars.size(); ++i) if (p->vars[i].p == v.p) return; p->vars.push_back(v); } void add(const IloNumVarArray& a) { for (IloInt i = 0; i < a.getSize(); ++i) add(a[i]); } void add(const IloConversion& c) { for (size_t i = 0; i < p->conv.size(); ++i) if (p->conv[i].v.p == c.v.p) throw IloException("several conversions of a variable"); p->conv.push_back(c); } };
struct IloAlgorithm { enum Status { Unknown, Feasible, Optimal, Infeasible, Unbounded, InfeasibleOrUnbounded, Error }; struct Exception : IloException { Exception(const char* s = "") : IloException(s) {} }; struct NotExtractedException : Exception { NotExtractedException() : Exception("not extracted") {} }; };
inline std::ostream& operator<<(std::ostream& o, IloAlgorithm::Status s) { return o << (int)s; }
struct IloCplex : IloAlgorithm {
  struct Exception : IloAlgorithm::Exception { Exception(const char* s = "") : IloAlgorithm::Exception(s) {} }; typedef int CplexStatus; enum Algorithm { NoAlg = -1, AutoAlg, Primal, Dual, Network, Barrier, Sifting, Concurrent };
  enum IntParam { RootAlg, NodeAlg, RelaxPreInd, MIPEmphasis, MIPDisplay, BarDisplay, SimDisplay, NetDisplay, SiftDisplay, ClockType, Threads, Probe, Covers, Cliques, DisjCuts, MIRCuts, GUBCovers, FlowCovers, FlowPaths, ImplBd, FracCuts }; enum BoolParam { PreInd, MemoryEmphasis }; enum NumParam { EpOpt, EpMrk, EpRHS, EpInt, EpAGap, EpGap, CutUp, WorkMem, TreLim, TiLim };
  struct I { IloModel m; lpstub::Core c; std::vector<IloNumVar> col; std::map<void*, int> at; std::vector<std::vector<double> > starts; int ip[32], bp[4]; double np[16];
    static void sync(void* o) { ((I*)o)->extract(); }
    int colOf(const IloNumVar& v) { std::map<void*, int>::iterator it = at.find(v.p.get()); if (it != at.end()) return it->second; int t = v.p->t; for (size_t i = 0; i < m.p->conv.size(); ++i) if (m.p->conv[i].v.p == v.p) t = m.p->conv[i].t; int k = c.addVar(v.p->lb, v.p->ub, 0, t == ILOBOOL ? 'B' : t == ILOINT ? 'I' : 'C'); at[v.p.get()] = k; col.push_back(v); return k; }
    // the columns follow the order in which the variables were made known: those added by themselves, those of the objective, those of the rows
    void extract() { c.lb.clear(); c.ub.clear(); c.obj.clear(); c.type.clear(); c.x.clear(); c.rows.clear(); at.clear(); col.clear(); IloModel::I& w = *m.p; for (size_t i = 0; i < w.vars.size(); ++i) colOf(w.vars[i]); if (w.obj.p) { c.sense = w.obj.p->sense; IloLin_& e = w.obj.p->e; for (size_t i = 0; i < e.v.size(); ++i) if (!lpstub::Core::dropZeros() || !(e.c[i] == 0)) c.obj[colOf(e.v[i])] += e.c[i]; }
      for (size_t k = 0; k < w.rows.size(); ++k) { std::vector<int> idx; IloLin_& e = w.rows[k].p->e; for (size_t i = 0; i < e.v.size(); ++i) idx.push_back(colOf(e.v[i])); c.addRow(idx, e.c, w.rows[k].p->lo, w.rows[k].p->hi, w.rows[k].p->name); } for (size_t i = 0; i < w.conv.size(); ++i) colOf(w.conv[i].v); }
  };
  std::shared_ptr<I> p; IloCplex() {} IloCplex(const IloModel& m) : p(new I) { p->m = m; p->c.owner = p.get(); p->c.sync = &I::sync; for (int i = 0; i < 32; ++i) p->ip[i] = -100; for (int i = 0; i < 4; ++i) p->bp[i] = -100; for (int i = 0; i < 16; ++i) p->np[i] = -100; }
  void setParam(IntParam a, double v) { p->ip[a] = (int)v; } void setParam(BoolParam a, double v) { p->bp[a] = (int)v; } void setParam(NumParam a, double v) { p->np[a] = v; }
  bool solve() { p->extract(); lpstub::Core::last() = &p->c; int was = p->c.status; p->c.status = was == 2 ? 2 : 0; p->c.solve(); return p->c.status == 2; } bool solveFixed() { return p->c.status == 2; }
  Status getStatus() const { int s = p->c.status; return s == 2 ? Optimal : s == 3 ? Infeasible : s == 5 ? Unbounded : Unknown; } CplexStatus getCplexStatus() const { return p->c.status; }
  bool isMIP() const { for (size_t i = 0; i < p->c.type.size(); ++i) if (p->c.type[i] != 'C') return true; return false; }
  double getObjValue() const { if (p->c.status != 2) throw Exception("no solution"); return p->c.objVal; } double getBestObjValue() const { if (!isMIP()) throw Exception("not a MIP"); return getObjValue(); }
  double getValue(const IloNumVar& v) const { if (p->c.status != 2) throw Exception("no solution"); std::map<void*, int>::const_iterator it = p->at.find(v.p.get()); if (it == p->at.end()) throw NotExtractedException(); return p->c.x[it->second]; } void getValues(IloNumArray s, const IloNumVarArray& v) const { s.clear(); for (IloInt i = 0; i < v.getSize(); ++i) s.add(getValue(v[i])); }
  void addMIPStart(const IloNumVarArray& v, const IloNumArray& a) { if (v.getSize() != a.getSize()) throw Exception("arrays of different sizes"); std::vector<double> s; p->starts.push_back(s); for (IloInt i = 0; i < v.getSize(); ++i) p->starts.back().push_back(a[i]); } void addCuts(const IloRangeArray& a) { p->m.add(a); } void exportModel(const char* f) const { p->c.exported = f; } double getCplexTime() const { return 0; }
};
