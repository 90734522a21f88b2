#include "gm_common.h"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
using namespace opengm;
// model from a topology: every factor symbolic; sym>0 restricts the number of symbolic factors (rest concrete)
static Spec mkSpec(bool pos) {
  unsigned tp = sym_param("topo", 1), lm = sym_param("lab", 0), um = sym_param("un", 1); int64_t R = sym_param("R", 3); Rng r(pos ? 1 : -R, R, 1);
  Spec s; Topo t = topo(tp); s.L = labs(t.n, lm); unsigned ord = sym_param("ford", 0); // ford 1: pairwise factors first; 2: adds a constant factor
  if (ord != 1) addUnaries(s, um, r);
  for (size_t i = 0; i < t.e.size(); ++i) { bool potts = sym_param("potts", 0) && t.e[i].size() == 2; if (potts) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], pos ? 1 : 0, sy("w", r))); else s.f.push_back(fExpl(s, t.e[i], r)); }
  if (ord == 1) addUnaries(s, um, r);
  if (ord == 2) { Fac c = fExpl(s, VS(), r); s.f.insert(s.f.begin() + 1, c); }
  unsigned conc = sym_param("conc", 0); // every conc-th entry stays symbolic
  if (conc > 1) { size_t k = 0; for (size_t i = 0; i < s.f.size(); ++i) for (size_t j = 0; j < s.f[i].t.size(); ++j, ++k) if (s.f[i].kind == FEXPL && k % conc) s.f[i].t[j] = pos ? 1 + (double)((k * 7) % 5) : (double)((k * 7) % 9) - 4; }
  return s;
}
template<class GM, class ACC, class INF> void optimal(const Spec& s, const GM& gm, const INF& inf, const char* what) {
  VS x = argOf(inf); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) return; CHECKM((isOptimal<GM, ACC>(s, x)), what); CHECKM(inf.value() == energyOf<GM>(s, x), "reported value is the labelling's value"); sym_obs_d(inf.value());
}
template<class GM, class ACC> void bruteRun(const Spec& s) {
  GM gm; buildGm(gm, s); Bruteforce<GM, ACC> b(gm); CHECK(b.infer() == NORMAL); optimal<GM, ACC>(s, gm, b, "exhaustive search is optimal");
  typename Bruteforce<GM, ACC>::Parameter p; Bruteforce<GM, ACC> c(gm, p); c.infer(); optimal<GM, ACC>(s, gm, c, "exhaustive search is optimal"); c.reset(); c.infer(); optimal<GM, ACC>(s, gm, c, "exhaustive search after reset");
}
HARNESS(c09_brute) { int m = sym_param("op", 0); if (m == 0) bruteRun<Gm2, Minimizer>(mkSpec(false)); else if (m == 1) bruteRun<Gm2, Maximizer>(mkSpec(false)); else if (m == 2) bruteRun<Gm2M, Minimizer>(mkSpec(false)); else bruteRun<Gm2M, Maximizer>(mkSpec(false)); }
template<class GM, class ACC> void astarRun(const Spec& s) {
  GM gm; buildGm(gm, s); typedef AStar<GM, ACC> A; typename A::Parameter p; size_t k = sym_param("k", 1); p.numberOfOpt_ = k; p.heuristic_ = sym_param("heur", 0); int no = sym_param("order", 0);
  if (no == 1) for (size_t i = 0; i < s.L.size(); ++i) p.nodeOrder_.push_back(i); else if (no == 2) for (size_t i = s.L.size(); i-- > 0;) p.nodeOrder_.push_back(i);
  A a(gm, p); InferenceTermination t = a.infer(); optimal<GM, ACC>(s, gm, a, "best-first search is optimal");
  std::vector<std::vector<typename GM::LabelType> > all; a.args(all); size_t n = std::min(k, prodS(s.L)); CHECKM(all.size() == n, "as many labellings as asked for"); if (k < prodS(s.L)) CHECK(t == NORMAL);
  std::vector<VS> got; for (size_t i = 0; i < all.size(); ++i) { VS x(all[i].begin(), all[i].end()); CHECKM(validLab(s, x), "k-best labelling is valid"); for (size_t j = 0; j < got.size(); ++j) CHECKM(got[j] != x, "k-best labellings are distinct"); got.push_back(x); std::vector<typename GM::LabelType> y; CHECK(a.arg(y, i + 1) == NORMAL); CHECKM(VS(y.begin(), y.end()) == x, "arg(n) is the n-th labelling"); }
  for (size_t i = 0; i < got.size(); ++i) { // no labelling outside got[0..i] is better than got[i]
    double e = energyOf<GM>(s, got[i]); bool ok = true; forLab(s.L, [&](const VS& y) { for (size_t j = 0; j < i; ++j) if (got[j] == y) return; ok = ok & !Less<ACC>::better(energyOf<GM>(s, y), e); }); CHECKM(ok, "the k-best list is ordered and complete"); }
}
HARNESS(c09_astar) { int m = sym_param("op", 0); if (m == 0) astarRun<Gm2, Minimizer>(mkSpec(false)); else if (m == 1) astarRun<Gm2, Maximizer>(mkSpec(false)); else if (m == 2) astarRun<Gm2M, Minimizer>(mkSpec(true)); else astarRun<Gm2M, Maximizer>(mkSpec(true)); }
// ---- C10 ----
template<class GM, class ACC> void dpRun(const Spec& s) {
  GM gm; buildGm(gm, s); typedef DynamicProgramming<GM, ACC> D; typename D::Parameter p; for (size_t q = 0; q < sym_param("roots", 0); ++q) p.roots_.push_back(sym_choice("root", s.L.size()));
  D d(gm, p); { std::vector<typename GM::LabelType> a; d.arg(a); CHECKM(validLab(s, VS(a.begin(), a.end())), "labelling before inference is valid"); } CHECK(d.infer() == NORMAL); optimal<GM, ACC>(s, gm, d, "dynamic programming is optimal on trees"); d.infer(); optimal<GM, ACC>(s, gm, d, "dynamic programming can be repeated");
}
HARNESS(c10_dp) { int m = sym_param("op", 0); if (m == 0) dpRun<Gm2, Minimizer>(mkSpec(false)); else if (m == 1) dpRun<Gm2, Maximizer>(mkSpec(false)); else if (m == 2) dpRun<Gm2M, Minimizer>(mkSpec(true)); else dpRun<Gm2M, Maximizer>(mkSpec(true)); }
template<class ACC> struct AccTo { static double go(double a, double b) { return sym_ite_d(Less<ACC>::better(a, b), a, b); } };
template<> struct AccTo<Integrator> { static double go(double a, double b) { return a + b; } };
template<class GM, class ACC> double accTo(double a, double b) { return AccTo<ACC>::go(a, b); }
template<class GM, class ACC, class MP> void marginals(const Spec& s, const MP& mp, bool norm) {
  typename GM::IndependentFactorType out; bool mul = IsMul<GM>::v;
  for (size_t v = 0; v < s.L.size(); ++v) { VD t(s.L[v]); std::vector<int> seen(s.L[v], 0); forLab(s.L, [&](const VS& y) { double e = energyOf<GM>(s, y); if (!seen[y[v]]) { t[y[v]] = e; seen[y[v]] = 1; } else t[y[v]] = accTo<GM, ACC>(e, t[y[v]]); });
    mp.marginal(v, out); CHECK(out.size() == s.L[v] && out.numberOfVariables() == 1 && out.variableIndex(0) == v); for (size_t i = 0; i < t.size(); ++i) { if (norm) { if (mul) CHECKM(out(i) * t[0] == t[i] * out((size_t)0), "marginal"); else CHECKM(out(i) - out((size_t)0) == t[i] - t[0], "marginal"); } else CHECKM(out(i) == t[i], "marginal without normalisation"); } }
  for (size_t f = 0; f < s.f.size(); ++f) { if (s.f[f].vars.empty()) continue; const VS& sh = s.f[f].shape; VD t(prodS(sh)); std::vector<int> seen(t.size(), 0); forLab(s.L, [&](const VS& y) { double e = energyOf<GM>(s, y); VS d; for (size_t i = 0; i < sh.size(); ++i) d.push_back(y[s.f[f].vars[i]]); size_t k = flat(d, sh); if (!seen[k]) { t[k] = e; seen[k] = 1; } else t[k] = accTo<GM, ACC>(e, t[k]); });
    mp.factorMarginal(f, out); CHECK(out.size() == t.size()); for (size_t i = 0; i < t.size(); ++i) { VS d = digits(i, sh); double o = out(d.begin()); VS z(sh.size(), 0); double o0 = out(z.begin()); if (norm) { if (mul) CHECKM(o * t[0] == t[i] * o0, "factor marginal"); else CHECKM(o - o0 == t[i] - t[0], "factor marginal"); } else CHECKM(o == t[i], "factor marginal without normalisation"); } }
}
template<class GM, class ACC, class UR> void mpTree(const Spec& s) {
  GM gm; buildGm(gm, s); typedef MessagePassing<GM, ACC, UR, MaxDistance> M; typename M::Parameter p(s.L.size() * 2 + 2); int mode = sym_param("mode", 0); bool norm = !sym_param("nonorm", 0); p.useNormalization_ = norm;
  if (mode == 1) p.isAcyclic_ = false; if (mode == 2) { p.isAcyclic_ = false; p.inferSequential_ = true; } if (mode == 3) p.isAcyclic_ = true;
  M mp(gm, p); mp.infer(); if (sym_param("marg", 0) == 0) optimal<GM, ACC>(s, gm, mp, "message passing is optimal on trees"); else marginals<GM, ACC>(s, mp, norm);
}
template<class GM, class ACC> void mpTreeUR(const Spec& s) { if (sym_param("trbp", 0)) mpTree<GM, ACC, TrbpUpdateRules<GM, ACC> >(s); else mpTree<GM, ACC, BeliefPropagationUpdateRules<GM, ACC> >(s); }
HARNESS(c10_mp) { int m = sym_param("op", 0); if (m == 0) mpTreeUR<Gm2, Minimizer>(mkSpec(false)); else if (m == 1) mpTreeUR<Gm2, Maximizer>(mkSpec(false)); else if (m == 2) mpTreeUR<Gm2M, Minimizer>(mkSpec(true)); else mpTreeUR<Gm2M, Maximizer>(mkSpec(true)); }
// sum-product on trees: the marginals are the sums over all completions
template<class MP> void sumProduct(const Spec& s, int mode) { Gm2M gm; buildGm(gm, s); typename MP::Parameter p(s.L.size() * 2 + 2); p.useNormalization_ = false; if (mode == 1) p.isAcyclic_ = false; if (mode == 2) { p.isAcyclic_ = false; p.inferSequential_ = true; } MP mp(gm, p); mp.infer(); marginals<Gm2M, Integrator>(s, mp, false); }
HARNESS(c10_sum) { int mode = sym_param("mode", 0); Spec s = mkSpec(true); if (sym_param("trbp", 0)) sumProduct<MessagePassing<Gm2M, Integrator, TrbpUpdateRules<Gm2M, Integrator>, MaxDistance> >(s, mode); else sumProduct<MessagePassing<Gm2M, Integrator, BeliefPropagationUpdateRules<Gm2M, Integrator>, MaxDistance> >(s, mode); }
// ---- C11 ----
template<class GM, class ACC, class UR> void mpLoopy(const Spec& s) {
  GM gm; buildGm(gm, s); typedef MessagePassing<GM, ACC, UR, MaxDistance> M; size_t steps = sym_param("steps", 2); double damp = sym_param("damp", 0) * 0.5; typename M::Parameter p(steps, 0.0, damp); p.useNormalization_ = sym_param("nonorm", 0) == 0; p.inferSequential_ = sym_param("seq", 0); if (sym_param("acyc", 0) == 0) p.isAcyclic_ = false;
  M mp(gm, p); mp.infer(); VS x = argOf(mp); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) return; double e = energyOf<GM>(s, x); CHECKM(mp.value() == e, "reported value is the labelling's value"); double b = mp.bound(); CHECKM(!Less<ACC>::better(optValue<GM, ACC>(s), b), "the bound is not better than attainable");
  std::vector<typename GM::IndependentFactorType> m1(s.L.size()); for (size_t v = 0; v < s.L.size(); ++v) mp.marginal(v, m1[v]); if (!sym_param("again", 0)) return;
  mp.reset(); mp.infer(); VS y = argOf(mp); CHECKM(x == y, "reset and run again gives the same labelling"); for (size_t v = 0; v < s.L.size(); ++v) { typename GM::IndependentFactorType m2; mp.marginal(v, m2); for (size_t i = 0; i < s.L[v]; ++i) CHECKM(m2(i) == m1[v](i), "reset and run again gives the same marginals"); }
}
template<class GM, class ACC> void mpLoopyUR(const Spec& s) { if (sym_param("trbp", 0)) mpLoopy<GM, ACC, TrbpUpdateRules<GM, ACC> >(s); else mpLoopy<GM, ACC, BeliefPropagationUpdateRules<GM, ACC> >(s); }
HARNESS(c11_loopy) { int m = sym_param("op", 0); if (m == 0) mpLoopyUR<Gm2, Minimizer>(mkSpec(false)); else if (m == 1) mpLoopyUR<Gm2, Maximizer>(mkSpec(false)); else if (m == 2) mpLoopyUR<Gm2M, Minimizer>(mkSpec(true)); else mpLoopyUR<Gm2M, Maximizer>(mkSpec(true)); }
// the message equations, written down once more: rho = 1 and no exponents for plain propagation
template<class GM, class ACC> struct RefMP {
  const Spec& s; bool norm, mul, rw; double damp; VD rho; std::vector<VS> fov; // factors of a variable
  std::vector<std::vector<VD> > f2v, v2f, v2fOld;
  double one() const { return mul ? 1 : 0; } double op(double a, double b) const { return mul ? a * b : a + b; } double iop(double a, double b) const { return mul ? a / b : a - b; }
  RefMP(const Spec& q, bool nrm, double d, const VD& r) : s(q), norm(nrm), mul(IsMul<GM>::v), rw(!r.empty()), damp(d), rho(r), fov(q.L.size()), f2v(q.f.size()) { if (!rw) rho.assign(s.f.size(), 1);
    for (size_t f = 0; f < s.f.size(); ++f) for (size_t k = 0; k < s.f[f].vars.size(); ++k) { fov[s.f[f].vars[k]].push_back(f); f2v[f].push_back(VD(s.f[f].shape[k], one())); } v2f = v2fOld = f2v;
    for (size_t f = 0; f < s.f.size(); ++f) if (s.f[f].vars.size() == 1) fac(f, 0, true); }
  size_t pos(size_t f, size_t v) const { size_t k = 0; while (s.f[f].vars[k] != v) ++k; return k; }
  void normalise(VD& m) const { double b = m[0]; for (size_t i = 1; i < m.size(); ++i) b = accTo<GM, ACC>(m[i], b); for (size_t i = 0; i < m.size(); ++i) m[i] = iop(m[i], b); }
  void mix(VD& m, const VD& old) const { if (damp != 0) for (size_t i = 0; i < m.size(); ++i) m[i] = damp * m[i] + (1 - damp) * old[i]; }
  double pw(double m, size_t f) const { return rw ? m * rho[f] : m; }
  VD belief(size_t f) const { const Fac& q = s.f[f]; VD b(q.t); for (size_t i = 0; i < b.size(); ++i) { VS d = digits(i, q.shape); if (rw) b[i] = b[i] / rho[f]; for (size_t j = 0; j < d.size(); ++j) b[i] = op(b[i], v2f[f][j][d[j]]); } return b; }
  void fac(size_t f, size_t k, bool first) { const Fac& q = s.f[f]; VD b(q.t); VD m(q.shape[k]); std::vector<int> seen(m.size(), 0);
    for (size_t i = 0; i < b.size(); ++i) { VS d = digits(i, q.shape); double e = rw ? b[i] / rho[f] : b[i]; for (size_t j = 0; j < d.size(); ++j) if (j != k) e = op(e, v2f[f][j][d[j]]); double& o = m[d[k]]; o = seen[d[k]] ? accTo<GM, ACC>(e, o) : e; seen[d[k]] = 1; }
    if (!first) mix(m, f2v[f][k]); if (norm) normalise(m); f2v[f][k] = m; }
  void var(size_t v) { for (size_t a = 0; a < fov[v].size(); ++a) { size_t f = fov[v][a], k = pos(f, v); VD old = v2f[f][k], m(s.L[v], one()); if (fov[v].size() < 2) continue;
      for (size_t i = 0; i < m.size(); ++i) { for (size_t c = 0; c < fov[v].size(); ++c) { size_t g = fov[v][c]; double x = f2v[g][pos(g, v)][i]; m[i] = c == a ? (rw ? op(m[i], x * (rho[g] - 1)) : m[i]) : op(m[i], pw(x, g)); } }
      mix(m, old); v2fOld[f][k] = old; v2f[f][k] = m; } }
  double moved() const { double c = 0; for (size_t f = 0; f < v2f.size(); ++f) for (size_t k = 0; k < v2f[f].size(); ++k) for (size_t i = 0; i < v2f[f][k].size(); ++i) { double d = v2f[f][k][i] - v2fOld[f][k][i]; d = sym_ite_d(d < 0, -d, d); c = sym_ite_d(d > c, d, c); } return c; }
  void parallel() { for (size_t v = 0; v < s.L.size(); ++v) var(v); for (size_t f = 0; f < s.f.size(); ++f) if (s.f[f].vars.size() >= 2) for (size_t k = 0; k < s.f[f].vars.size(); ++k) fac(f, k, false); }
  void sweep(bool back, const VS& order) { for (size_t o = 0; o < order.size(); ++o) { size_t v = order[back ? order.size() - 1 - o : o]; for (size_t a = 0; a < fov[v].size(); ++a) fac(fov[v][a], pos(fov[v][a], v), false); var(v); } }
};
template<class GM, class ACC, class UR> struct SetRho { template<class P> static VD go(P&, const Spec&) { return VD(); } };
template<class GM, class ACC> struct SetRho<GM, ACC, TrbpUpdateRules<GM, ACC> > { template<class P> static VD go(P& p, const Spec& s) { VD r; for (size_t f = 0; f < s.f.size(); ++f) r.push_back(s.f[f].vars.size() < 2 ? 1 : (f % 2 ? 0.5 : 0.25)); p.specialParameter_ = r; return r; } };
template<class GM, class ACC, class UR> void mpEquations(const Spec& s) {
  GM gm; buildGm(gm, s); typedef MessagePassing<GM, ACC, UR, MaxDistance> M; size_t steps = sym_param("steps", 2), seq = sym_param("seq", 0); double damp = sym_param("damp", 0) * 0.25, bnd = sym_param("bnd", 0); typename M::Parameter p(steps, bnd, damp); bool norm = sym_param("nonorm", 0) == 0; p.useNormalization_ = norm; p.inferSequential_ = seq != 0; p.isAcyclic_ = false;
  VS order; for (size_t v = 0; v < s.L.size(); ++v) order.push_back(seq == 2 ? (v + 1) % s.L.size() : v); if (seq == 2) p.sortedNodeList_.assign(order.begin(), order.end());
  VD rho = SetRho<GM, ACC, UR>::go(p, s); M mp(gm, p); RefMP<GM, ACC> r(s, norm, damp, rho); mp.infer();
  for (size_t n = 0; n < steps; ++n) { if (seq) r.sweep(n % 2, order); else r.parallel(); if (bnd > 0 && r.moved() < bnd) break; }
  typename GM::IndependentFactorType out;
  for (size_t v = 0; v < s.L.size(); ++v) { VD m(s.L[v], r.one()); for (size_t c = 0; c < r.fov[v].size(); ++c) { size_t g = r.fov[v][c]; for (size_t i = 0; i < m.size(); ++i) m[i] = r.op(m[i], r.pw(r.f2v[g][r.pos(g, v)][i], g)); } if (norm) r.normalise(m);
    mp.marginal(v, out); for (size_t i = 0; i < m.size(); ++i) CHECKM(out(i) == m[i], "marginal after the given number of steps"); }
  for (size_t f = 0; f < s.f.size(); ++f) { if (s.f[f].vars.empty()) continue; VD b = r.belief(f); if (norm) r.normalise(b); mp.factorMarginal(f, out); for (size_t i = 0; i < b.size(); ++i) { VS d = digits(i, s.f[f].shape); CHECKM(out(d.begin()) == b[i], "factor marginal after the given number of steps"); } }
}
template<class GM, class ACC> void mpEqUR(const Spec& s) { if (sym_param("trbp", 0)) mpEquations<GM, ACC, TrbpUpdateRules<GM, ACC> >(s); else mpEquations<GM, ACC, BeliefPropagationUpdateRules<GM, ACC> >(s); }
HARNESS(c11_equations) { int m = sym_param("op", 0); if (m == 0) mpEqUR<Gm2, Minimizer>(mkSpec(false)); else if (m == 1) mpEqUR<Gm2, Maximizer>(mkSpec(false)); else if (m == 2) mpEquations<Gm2M, Minimizer, BeliefPropagationUpdateRules<Gm2M, Minimizer> >(mkSpec(true)); else if (m == 3) mpEquations<Gm2M, Maximizer, BeliefPropagationUpdateRules<Gm2M, Maximizer> >(mkSpec(true)); else mpEquations<Gm2M, Integrator, BeliefPropagationUpdateRules<Gm2M, Integrator> >(mkSpec(true)); }
