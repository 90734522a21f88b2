#include "gm_common.h"
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
using namespace opengm;
// ---- C13 ----
template<class CUT> void qpboRun() {
  unsigned tp = sym_param("topo", 1); int64_t R = sym_param("R", 3); Rng r(-R, R, 1); if (sym_param("pos", 0)) r.lo = 0; Topo t = topo(tp); Spec s; s.L = labs(t.n, 0); unsigned um = sym_param("un", 1); bool last = sym_param("last", 0); if (!last) addUnaries(s, um, r); bool sub = true; int mode = sym_param("sub", 0);
  for (size_t i = 0; i < t.e.size(); ++i) { Fac f; if (sym_param("potts", 0)) { f = fPotts(s, t.e[i][0], t.e[i][1], 0, sy("w", r)); if (mode) sym_assume(f.par[1] >= 0); } else { f = fExpl(s, t.e[i], r); bool q = f.t[0] + f.t[3] <= f.t[1] + f.t[2]; if (mode) sym_assume(q); } s.f.push_back(f); }
  if (last) addUnaries(s, um, r); if (sym_param("cf", 0)) s.f.push_back(fExpl(s, VS(), r));
  Gm2 gm; buildGm(gm, s); typedef QPBO<Gm2, CUT> Q; Q q(gm); q.infer(); VS x = argOf(q); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) return; CHECKM(q.value() == energyAdd(s, x), "reported value is the labelling's value");
  std::vector<bool> opt; double frac = q.partialOptimality(opt); CHECKM(opt.size() == t.n, "one optimality flag per variable"); size_t c = 0; for (size_t i = 0; i < opt.size(); ++i) c += opt[i]; CHECKM(frac * (double)t.n == (double)c, "fraction of persistent variables");
  double best = optValue<Gm2, Minimizer>(s), bestP = 0; bool first = true; forLab(s.L, [&](const VS& y) { for (size_t i = 0; i < opt.size(); ++i) if (opt[i] && y[i] != x[i]) return; double e = energyAdd(s, y); if (first) { bestP = e; first = false; } else bestP = dmin_(bestP, e); });
  CHECKM(bestP == best, "the fixed labels agree with an optimal labelling"); CHECKM(q.bound() <= best, "the bound is below the optimum"); if (mode) { CHECKM(energyAdd(s, x) == best || c < t.n, "a complete labelling of a submodular model is optimal"); } if (c == t.n) CHECKM(energyAdd(s, x) == best, "a complete labelling is optimal");
  if (mode || tp <= 2) { double ties = 0; forLab(s.L, [&](const VS& y) { ties = ties + sym_ite_d(energyAdd(s, y) <= best, 1, 0); }); CHECKM((c == t.n) | (ties > 1), "a submodular model or a tree with one optimal labelling is solved completely"); }
  sym_obs_d(q.value());
}
HARNESS(c13_qpbo) { int a = sym_param("alg", 2); if (a == 0) qpboRun<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(); else if (a == 1) qpboRun<MinSTCutBoost<size_t, double, EDMONDS_KARP> >(); else qpboRun<MinSTCutBoost<size_t, double, KOLMOGOROV> >(); }
HARNESS(c13_order) { Spec s; s.L = labs(3, 0); VS v = mkVS(0, 1, 2); s.f.push_back(fExpl(s, v, Rng(-1, 1))); Gm2 gm; buildGm(gm, s); bool th = false; try { QPBO<Gm2, MinSTCutBoost<size_t, double, KOLMOGOROV> > q(gm); } catch (std::runtime_error&) { th = true; } CHECKM(th, "factors of higher order are refused"); }
