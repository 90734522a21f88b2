#ifndef DUAL_COMMON_H
#define DUAL_COMMON_H
// Value tables, and what is watched while a dual solver runs.
#include "gm_common.h"
#include <opengm/inference/bruteforce.hxx>
using namespace opengm;
static const double TOL = 1e-6;
template<class ACC> static bool worse(double a, double b) { return Less<ACC>::better(b, a); } // a worse than b
// value table: un bitmask of the variables with a unary, pk kind of the pairwise terms (0 tables, 1 Potts, 2 alternating), grid 1: 2x2 grid in the order GridDecomposition asks for, 2: 3x2, 3: a row of 3, 4: a column of 3
static Spec spec() {
  Topo t = topo(sym_param("topo", 1)); switch (sym_param("grid", 0)) { case 1: t.n = 4; t.e.clear(); t.e.push_back(mkVS(0, 1)); t.e.push_back(mkVS(0, 2)); t.e.push_back(mkVS(1, 3)); t.e.push_back(mkVS(2, 3)); break;
    case 2: t.n = 6; t.e.clear(); t.e.push_back(mkVS(0, 1)); t.e.push_back(mkVS(0, 3)); t.e.push_back(mkVS(1, 2)); t.e.push_back(mkVS(1, 4)); t.e.push_back(mkVS(2, 5)); t.e.push_back(mkVS(3, 4)); t.e.push_back(mkVS(4, 5)); break; case 3: t = topo(2); break; }
  Spec s; s.L = labs(t.n, sym_param("lab", 0)); int64_t R = sym_param("R", 2); Rng r(-R, R); size_t conc = sym_param("conc", 0), k = 0, pk = sym_param("pk", 0);
  auto conc_ = [&](Fac& f) { for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (double)((i * 5 + k * 3 + i * i) % 4) - 1; };
  auto add = [&](const VS& v) { bool c = k++ < conc; Fac f; if (c) { f.vars = v; f.shape = lsh(s, v); f.kind = FEXPL; f.t.resize(prodS(f.shape)); conc_(f); } else f = fExpl(s, v, r); s.f.push_back(f); };
  auto pair = [&](const VS& v) { if (v.size() == 2 && (pk == 1 || (pk == 2 && s.f.size() % 2))) { bool c = k++ < conc; s.f.push_back(fPotts(s, v[0], v[1], 0, c ? (double)(k % 3) - 1 : sym_num("w", -R, R, 1))); } else add(v); };
  bool first = sym_param("order", 0) == 1; if (first) for (size_t e = 0; e < t.e.size(); ++e) pair(t.e[e]);
  for (size_t v = 0; v < t.n; ++v) if (sym_param("un", 255) >> v & 1) add(mkVS(v));
  if (!first) for (size_t e = 0; e < t.e.size(); ++e) pair(t.e[e]);
  if (sym_param("cf", 0)) { Fac f; f.kind = FEXPL; f.t.assign(1, sym_num("c", -2, 2, 1)); s.f.push_back(f); }
  return s;
}
template<class GM, class ACC> struct Truth { const Spec& s; double opt, best; bool any; size_t seen; Truth(const Spec& q) : s(q), opt(optValue<GM, ACC>(q)), best(0), any(false), seen(0) {}
  template<class INF> bool look(const INF& inf, const char* when) { typedef typename GM::LabelType L; ++seen; double b = inf.bound(), v = inf.value(); sym_obs_d(b); CHECKM(!worse<ACC>(b, opt + (Less<ACC>::better(0, 1) ? TOL : -TOL)), "bound on the right side of the optimum");
    std::vector<L> a; InferenceTermination t = inf.arg(a); if (t == UNKNOWN || t == INFERENCE_ERROR) return false; VS x(a.begin(), a.end()); CHECKM(validLab(s, x), "one label of the range per variable"); if (!validLab(s, x)) return false;
    CHECKM(v == energyOf<GM>(s, x), "reported value is the value of the labelling"); sym_obs_d(v); if (any) CHECKM(!worse<ACC>(v, best), "value never gets worse"); best = v; any = true; return true; } };
template<class INF, class TR> struct Watch { TR& t; size_t begun, ended, steps, stop; Watch(TR& q, size_t st) : t(q), begun(0), ended(0), steps(0), stop(st) {} template<class S> void addLog(const S&) {} template<class S> void log(const S&, double) {} void begin(INF& i) { ++begun; t.look(i, "begin"); } void end(INF& i) { ++ended; t.look(i, "end"); } size_t operator()(INF& i, size_t, size_t, bool, bool) { return (*this)(i); } size_t operator()(INF& i) { ++steps; t.look(i, "step"); return stop && steps >= stop ? visitors::VisitorReturnFlag::StopInfBoundReached : visitors::VisitorReturnFlag::ContinueInf; } };
template<class GM, class ACC, class INF> static void run(const Spec& s, INF& inf, bool tight) { Truth<GM, ACC> t(s); t.look(inf, "fresh"); Watch<INF, Truth<GM, ACC> > w(t, sym_param("stop", 0)); CHECKM(inf.infer(w) != UNKNOWN, "done"); CHECKM(w.begun == 1 && w.ended == 1, "begun and ended once"); CHECKM(t.look(inf, "after"), "has a labelling");
  if (tight) { double d = inf.value() - inf.bound(); CHECKM(d <= TOL && d >= -TOL, "no gap on a tree"); CHECKM(t.best == t.opt, "optimal on a tree"); } if (sym_param("again", 0)) { inf.infer(); t.look(inf, "again"); } }
#endif
