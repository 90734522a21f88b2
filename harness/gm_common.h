// Oracle-side description of a graphical model ("Spec"): label counts plus factors given as flat value tables
// (first variable fastest). Everything here is independent of opengm; build() hands the description to opengm.
#pragma once
#include "harness.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <limits>
#include <numeric>
#include <cmath>
#include <cstring>
#include <list>
#include <queue>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>

typedef std::vector<size_t> VS;
typedef std::vector<double> VD;
enum FKind { FEXPL, FPOTTS, FABS, FSQ, FTABS, FTSQ, FCONST, FSPARSE, FPOTTSN, FPOTTSG };
struct Fac { VS vars; VS shape; VD t; int kind; VD par; };
struct Spec { VS L; std::vector<Fac> f; };

inline size_t prodS(const VS& s) { size_t p = 1; for (size_t i = 0; i < s.size(); ++i) p *= s[i]; return p; }
inline VS digits(size_t k, const VS& sh) { VS d(sh.size()); for (size_t i = 0; i < sh.size(); ++i) { d[i] = k % sh[i]; k /= sh[i]; } return d; }
inline size_t flat(const VS& d, const VS& sh) { size_t k = 0, m = 1; for (size_t i = 0; i < sh.size(); ++i) { k += d[i] * m; m *= sh[i]; } return k; }
inline VS mkVS(size_t a) { return VS(1, a); }
inline VS mkVS(size_t a, size_t b) { VS v(1, a); v.push_back(b); return v; }
inline VS mkVS(size_t a, size_t b, size_t c) { VS v = mkVS(a, b); v.push_back(c); return v; }
inline VS mkVS(size_t a, size_t b, size_t c, size_t d) { VS v = mkVS(a, b, c); v.push_back(d); return v; }
inline VS lsh(const Spec& s, const VS& vars) { VS r; for (size_t i = 0; i < vars.size(); ++i) r.push_back(s.L[vars[i]]); return r; }
inline double facAt(const Fac& f, const VS& x) { VS d; for (size_t i = 0; i < f.vars.size(); ++i) d.push_back(x[f.vars[i]]); return f.t[flat(d, f.shape)]; }
inline double energyAdd(const Spec& s, const VS& x) { double e = 0; for (size_t i = 0; i < s.f.size(); ++i) e += facAt(s.f[i], x); return e; }
inline double energyMul(const Spec& s, const VS& x) { double e = 1; for (size_t i = 0; i < s.f.size(); ++i) e *= facAt(s.f[i], x); return e; }
inline double dabs_(double a) { return a < 0 ? -a : a; }
inline double dmin_(double a, double b) { return sym_ite_d(a < b, a, b); }

// --- factor makers: symbolic parameters, concrete structure ---
struct Rng { int64_t lo, hi, den; Rng(int64_t l = -4, int64_t h = 4, int64_t d = 1) : lo(l), hi(h), den(d) {} };
inline double sy(const char* n, const Rng& r) { return sym_num(n, r.lo, r.hi, r.den); }
inline Fac fExpl(const Spec& s, const VS& v, const Rng& r) { Fac f; f.vars = v; f.shape = lsh(s, v); f.kind = FEXPL; f.t.resize(prodS(f.shape)); for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = sy("t", r); return f; }
inline double kindAt(int kind, const VS& d, const VD& p) {
  double a = (double)d[0], b = d.size() > 1 ? (double)d[1] : 0, df = a < b ? b - a : a - b;
  switch (kind) {
    case FPOTTS: return d[0] == d[1] ? p[0] : p[1];
    case FPOTTSN: { bool eq = true; for (size_t i = 1; i < d.size(); ++i) if (d[i] != d[0]) eq = false; return eq ? p[0] : p[1]; }
    case FABS: return p[0] * df;
    case FSQ: return p[0] * df * df;
    case FTABS: return p[0] * sym_ite_d(df < p[1], df, p[1]);
    case FTSQ: return p[0] * sym_ite_d(df * df < p[1], df * df, p[1]);
    case FCONST: return p[0];
  }
  return 0;
}
inline Fac fPar(const Spec& s, const VS& v, int kind, const VD& p) { Fac f; f.vars = v; f.shape = lsh(s, v); f.kind = kind; f.par = p; f.t.resize(prodS(f.shape)); for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = kindAt(kind, digits(i, f.shape), p); return f; }
inline VD mkVD(double a) { return VD(1, a); }
inline VD mkVD(double a, double b) { VD v(1, a); v.push_back(b); return v; }
inline Fac fPotts(const Spec& s, size_t a, size_t b, double e, double n) { return fPar(s, mkVS(a, b), FPOTTS, mkVD(e, n)); }

// --- handing a Spec to opengm ---
typedef opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double>, opengm::PottsFunction<double> >::type FT2;
typedef opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double>, opengm::PottsFunction<double>, opengm::PottsNFunction<double>, opengm::AbsoluteDifferenceFunction<double>, opengm::SquaredDifferenceFunction<double>, opengm::TruncatedAbsoluteDifferenceFunction<double>, opengm::TruncatedSquaredDifferenceFunction<double>, opengm::ConstantFunction<double> >::type FT8;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::ExplicitFunction<double>, opengm::DiscreteSpace<> > GmE;
typedef opengm::GraphicalModel<double, opengm::Adder, FT2, opengm::DiscreteSpace<> > Gm2;
typedef opengm::GraphicalModel<double, opengm::Adder, FT8, opengm::DiscreteSpace<> > Gm8;
typedef opengm::GraphicalModel<double, opengm::Multiplier, opengm::ExplicitFunction<double>, opengm::DiscreteSpace<> > GmEM;
typedef opengm::GraphicalModel<double, opengm::Multiplier, FT2, opengm::DiscreteSpace<> > Gm2M;

inline opengm::ExplicitFunction<double> mkExpl(const Fac& f) { opengm::ExplicitFunction<double> g(f.shape.begin(), f.shape.end()); for (size_t i = 0; i < f.t.size(); ++i) g(i) = f.t[i]; return g; }
template<class GM> typename GM::FunctionIdentifier addFn(GM& gm, const Fac& f, const GmE*) { return gm.addFunction(mkExpl(f)); }
template<int N, class GM> struct AddFn;
template<class GM> struct AddFn<1, GM> { static typename GM::FunctionIdentifier add(GM& gm, const Fac& f) { return gm.addFunction(mkExpl(f)); } };
template<class GM> struct AddFn<2, GM> { static typename GM::FunctionIdentifier add(GM& gm, const Fac& f) { if (f.kind == FPOTTS) return gm.addFunction(opengm::PottsFunction<double>(f.shape[0], f.shape[1], f.par[0], f.par[1])); return gm.addFunction(mkExpl(f)); } };
template<class GM> struct AddFn<8, GM> { static typename GM::FunctionIdentifier add(GM& gm, const Fac& f) {
  switch (f.kind) {
    case FPOTTS: return gm.addFunction(opengm::PottsFunction<double>(f.shape[0], f.shape[1], f.par[0], f.par[1]));
    case FPOTTSN: return gm.addFunction(opengm::PottsNFunction<double>(f.shape.begin(), f.shape.end(), f.par[0], f.par[1]));
    case FABS: return gm.addFunction(opengm::AbsoluteDifferenceFunction<double>(f.shape[0], f.shape[1], f.par[0]));
    case FSQ: return gm.addFunction(opengm::SquaredDifferenceFunction<double>(f.shape[0], f.shape[1], f.par[0]));
    case FTABS: return gm.addFunction(opengm::TruncatedAbsoluteDifferenceFunction<double>(f.shape[0], f.shape[1], f.par[1], f.par[0]));
    case FTSQ: return gm.addFunction(opengm::TruncatedSquaredDifferenceFunction<double>(f.shape[0], f.shape[1], f.par[1], f.par[0]));
    case FCONST: return gm.addFunction(opengm::ConstantFunction<double>(f.shape.begin(), f.shape.end(), f.par[0]));
  }
  return gm.addFunction(mkExpl(f)); } };
template<class GM> void buildGm(GM& gm, const Spec& s) {
  gm = GM(typename GM::SpaceType(s.L.begin(), s.L.end()));
  for (size_t i = 0; i < s.f.size(); ++i) { typename GM::FunctionIdentifier id = AddFn<GM::NrOfFunctionTypes, GM>::add(gm, s.f[i]); gm.addFactor(id, s.f[i].vars.begin(), s.f[i].vars.end()); }
}
// calls fn for every labelling of the model
template<class FN> void forLab(const VS& L, FN fn) { size_t n = prodS(L); for (size_t k = 0; k < n; ++k) { VS x = digits(k, L); fn(x); } }
inline bool validLab(const Spec& s, const VS& x) { if (x.size() != s.L.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (x[i] >= s.L[i]) return false; return true; }
// reads an arbitrary labelling (one path per labelling)
inline VS anyLab(const VS& L) { VS x; for (size_t i = 0; i < L.size(); ++i) x.push_back(sym_choice("lab", L[i])); return x; }

// --- topologies: pairs/hyperedges on n variables ---
struct Topo { size_t n; std::vector<VS> e; };
inline Topo topo(unsigned id) {
  Topo t; t.n = 0;
#define T_(N) t.n = N
#define E2(a, b) t.e.push_back(mkVS(a, b))
#define E3(a, b, c) t.e.push_back(mkVS(a, b, c))
  if (id >= 110 && id < 120) { // every graph on id - 110 variables
    T_(id - 110); for (size_t i = 0; i < t.n; ++i) for (size_t j = i + 1; j < t.n; ++j) if (sym_choice("edge", 2)) E2(i, j); return t;
  }
  if (id >= 100 && id < 110) { // every tree on id - 100 numbered variables (by its Pruefer sequence)
    T_(id - 100); VS p, deg(t.n, 1); for (size_t i = 0; i + 2 < t.n; ++i) { p.push_back(sym_choice("tree", t.n)); ++deg[p[i]]; }
    for (size_t i = 0; i < p.size(); ++i) { size_t l = 0; while (deg[l] != 1) ++l; E2(l < p[i] ? l : p[i], l < p[i] ? p[i] : l); --deg[l]; --deg[p[i]]; }
    if (t.n > 1) { VS v; for (size_t i = 0; i < t.n; ++i) if (deg[i] == 1) v.push_back(i); E2(v[0], v[1]); }
    return t;
  }
  switch (id) {
    case 0: T_(1); break;
    case 1: T_(2); E2(0, 1); break;
    case 2: T_(3); E2(0, 1); E2(1, 2); break;                     // chain
    case 3: T_(3); E2(0, 1); E2(1, 2); E2(0, 2); break;           // triangle
    case 4: T_(4); E2(0, 3); E2(1, 3); E2(2, 3); break;           // star
    case 5: T_(4); E2(0, 1); E2(2, 3); E2(0, 2); E2(1, 3); break; // 2x2 grid
    case 6: T_(3); E3(0, 1, 2); break;
    case 7: T_(4); E3(0, 1, 2); E2(2, 3); break;                  // higher order tree
    case 8: T_(4); E2(0, 1); E2(2, 3); break;                     // two components
    case 9: T_(3); E2(0, 2); break;                               // isolated variable
    case 10: T_(4); E2(0, 1); E2(1, 2); E2(2, 3); break;          // chain 4
    case 11: T_(4); E2(0, 1); E2(0, 2); E2(0, 3); E2(1, 2); E2(1, 3); E2(2, 3); break; // K4
    case 12: T_(2); E2(0, 1); E2(0, 1); break;                    // parallel factors
    case 13: T_(5); E2(0, 1); E2(1, 2); E2(2, 3); E2(3, 4); break;
    case 14: T_(6); E2(0, 1); E2(1, 2); E2(3, 4); E2(4, 5); E2(0, 3); E2(1, 4); E2(2, 5); break; // 2x3 grid
    case 15: T_(5); E2(0, 2); E2(1, 2); E2(2, 3); E2(3, 4); break; // tree
    case 16: T_(3); E2(0, 2); E2(1, 2); break;                    // chain with centre last
    case 17: T_(4); E3(0, 1, 3); E3(1, 2, 3); break;
    case 18: T_(4); E2(0, 1); E2(1, 2); E2(2, 3); E2(0, 3); break; // 4-cycle
    case 20: T_(3); E2(1, 2); break;                              // isolated first variable
    case 21: T_(3); break;                                        // no pairwise factor
    case 22: T_(4); E3(0, 1, 2); E3(0, 1, 2); E2(2, 3); break;     // two factors on one triple
    case 23: T_(3); E3(0, 1, 2); E3(0, 1, 2); break;
    case 24: T_(4); E2(0, 1); E2(1, 2); E2(0, 2); E2(1, 3); break; // triangle with a pendant variable
    case 25: T_(5); E2(0, 1); E2(1, 2); E2(0, 2); E3(2, 3, 4); break; // triangle with a third-order tail
    case 26: T_(5); E2(0, 1); E2(1, 2); E2(0, 2); E2(2, 3); E2(3, 4); break; // triangle with a path
    case 27: T_(5); E2(0, 3); E2(1, 3); E2(1, 2); E2(2, 3); E2(2, 4); break; // triangle with two pendants
    case 28: T_(4); E3(0, 1, 2); E2(1, 2); E2(1, 2); E2(0, 3); break; // third-order tail on a double pair
    case 29: T_(4); E3(0, 1, 2); E3(0, 1, 3); break;              // triples sharing their first pair
    case 30: T_(4); E3(0, 2, 3); E3(1, 2, 3); break;              // triples sharing their last pair
    case 31: T_(5); E2(0, 1); E2(0, 2); E2(0, 3); E2(0, 4); E2(1, 2); E2(1, 3); E2(1, 4); E2(2, 3); E2(2, 4); E2(3, 4); break; // K5
    case 19: T_(5); E3(0, 1, 2); E3(2, 3, 4); break;              // hypertree
    case 32: T_(4); E2(2, 3); E2(1, 2); E2(0, 1); break;          // chain, last edge first
  }
  return t;
}
inline VS labs(size_t n, unsigned mode) { // 0: binary, 1: ternary, 2: 2,3,2,3.., 3: 3,2,3.., 4: all 4, 5: 1,2,3,1..
  VS L; for (size_t i = 0; i < n; ++i) L.push_back(mode == 0 ? 2 : mode == 1 ? 3 : mode == 2 ? 2 + i % 2 : mode == 3 ? 3 - i % 2 : mode == 4 ? 4 : 1 + i % 3); return L;
}
// unaries: 0 none, 1 on every variable, 2 on even variables, 3 zero at label 0 (same generality up to a constant)
inline void addUnaries(Spec& s, unsigned mode, const Rng& r) {
  for (size_t v = 0; v < s.L.size(); ++v) { if (mode == 0 || (mode == 2 && v % 2)) continue; Fac f = fExpl(s, mkVS(v), r); if (mode == 3) f.t[0] = 0; s.f.push_back(f); }
}
inline Spec specExpl(unsigned tp, unsigned lm, unsigned um, const Rng& ru, const Rng& rp) {
  Topo t = topo(tp); Spec s; s.L = labs(t.n, lm); addUnaries(s, um, ru);
  for (size_t i = 0; i < t.e.size(); ++i) s.f.push_back(fExpl(s, t.e[i], rp));
  return s;
}
inline Spec specPotts(unsigned tp, unsigned lm, unsigned um, const Rng& ru, const Rng& rw) {
  Topo t = topo(tp); Spec s; s.L = labs(t.n, lm); addUnaries(s, um, ru);
  for (size_t i = 0; i < t.e.size(); ++i) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], 0, sy("w", rw)));
  return s;
}
// the value of a labelling under the model's operator, and the test that no labelling is better
template<class GM> struct IsMul { enum { v = 0 }; };
template<class V, class F, class S> struct IsMul<opengm::GraphicalModel<V, opengm::Multiplier, F, S> > { enum { v = 1 }; };
template<class GM> double energyOf(const Spec& s, const VS& x) { return IsMul<GM>::v ? energyMul(s, x) : energyAdd(s, x); }
template<class ACC> struct Less { static bool better(double a, double b) { return a < b; } };
template<> struct Less<opengm::Maximizer> { static bool better(double a, double b) { return a > b; } };
template<class GM, class ACC> bool isOptimal(const Spec& s, const VS& x) { double e = energyOf<GM>(s, x); bool ok = true; forLab(s.L, [&](const VS& y) { ok = ok & !Less<ACC>::better(energyOf<GM>(s, y), e); }); return ok; }
template<class GM, class ACC> double optValue(const Spec& s) { bool first = true; double b = 0; forLab(s.L, [&](const VS& y) { double e = energyOf<GM>(s, y); if (first) { b = e; first = false; } else b = sym_ite_d(Less<ACC>::better(e, b), e, b); }); return b; }
template<class I> VS argOf(const I& inf) { std::vector<typename I::LabelType> a; inf.arg(a); return VS(a.begin(), a.end()); }
