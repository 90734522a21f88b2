// C30: Gibbs and Swendsen-Wang sampling for every stream of random numbers.
#include "gm_common.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <cstdlib>
#include <stack>
static std::vector<int64_t> drawn; static bool fixedRand = false; static int64_t nextRand = 0; static const int64_t RMAX = 255; // a random source with 256 outcomes
static int sym_rand() { int64_t r; if (fixedRand) r = nextRand; else r = sym_i64("rand", 0, RMAX - (drawn.size() % 4 == 3 ? 0 : 1)); drawn.push_back(r); return (int)r; }
#define rand sym_rand
#undef RAND_MAX
#define RAND_MAX 255
#include <opengm/utilities/random.hxx>
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/swendsenwang.hxx>
#undef rand
using namespace opengm;
static double u01(int64_t r) { return (double)r / (double)RMAX; }
template<class OP> struct Prob { static double ratio(double nw, double old) { return std::exp(old - nw); } };
template<> struct Prob<Multiplier> { static double ratio(double nw, double old) { return nw / old; } };
static Spec spec(bool mul) {
  Topo t = topo(sym_param("topo", 1)); Spec s; s.L = labs(t.n, sym_param("lab", 0)); int64_t R = sym_param("R", 2); Rng r(mul ? 1 : -R, R); size_t conc = sym_param("conc", 0);
  auto fill = [&](Fac& f, size_t k) { if (conc) for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (double)((i * 5 + k * 3 + conc) % 4) + (mul ? 1 : -1); };
  for (size_t v = 0; v < t.n && sym_param("un", 1); ++v) { Fac f; f.vars = mkVS(v); f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(prodS(f.shape), 0); if (conc) fill(f, v); else f = fExpl(s, f.vars, r); s.f.push_back(f); }
  for (size_t e = 0; e < t.e.size(); ++e) { Fac f; f.vars = t.e[e]; f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(prodS(f.shape), 0); if (conc) fill(f, e + 7); else f = fExpl(s, f.vars, r); s.f.push_back(f); }
  return s;
}
template<class GM, class ACC> struct Watch {
  typedef Gibbs<GM, ACC> G; const Spec& s; VS prev; double best; size_t visits, acc, kept, rej; bool temp; size_t burn; GibbsMarginalVisitor<G>* mv; std::vector<std::vector<size_t> > cnt; std::vector<size_t> pc; size_t begun, ended;
  Watch(const Spec& s_, const VS& x0, bool t, size_t b) : s(s_), prev(x0), best(energyOf<GM>(s_, x0)), visits(0), acc(0), kept(0), rej(0), temp(t), burn(b), mv(0), begun(0), ended(0) { for (size_t v = 0; v < s.L.size(); ++v) cnt.push_back(std::vector<size_t>(s.L[v], 0)); if (s.L.size() > 1) pc.assign(s.L[0] * s.L[1], 0); }
  void look(G& g) {
    VS x; for (size_t v = 0; v < s.L.size(); ++v) x.push_back(g.markovState(v)); CHECKM(validLab(s, x), "valid labelling"); double e = energyOf<GM>(s, x), e0 = energyOf<GM>(s, prev);
    CHECKM(g.markovValue() == e, "value of the current state"); size_t diff = 0; for (size_t v = 0; v < x.size(); ++v) diff += x[v] != prev[v]; CHECKM(diff <= 1, "one variable at a time");
    best = sym_ite_d(Less<ACC>::better(e, best), e, best); CHECKM(g.currentBestValue() == best, "value of the best state so far"); VS b; for (size_t v = 0; v < x.size(); ++v) b.push_back(g.currentBestState(v)); CHECKM(validLab(s, b) && energyOf<GM>(s, b) == best, "the best state has that value");
    VS a = argOf(g); CHECKM(a == x, "during inference the labelling is the current state"); sym_obs_d(e);
    if (visits || diff) { }
    double r = u01(drawn.back());
    if (diff && Less<ACC>::better(e0, e) && !temp) CHECKM(r < Prob<typename GM::OperatorType>::ratio(e, e0), "a worse state needs a draw below the probability");
    if (!diff && s.L.size() == 1 && s.L[0] == 2) { VS y(1, 1 - x[0]); double e1 = energyOf<GM>(s, y); CHECKM(!Less<ACC>::better(e1, e0), "a better state is always accepted"); if (!temp) CHECKM(!(r < Prob<typename GM::OperatorType>::ratio(e1, e0)), "a draw below the probability accepts"); }
    CHECKM(g.accepted() == (diff == 1), "accepted means moved"); if (!g.burningIn()) { ++kept; if (diff) ++acc; else ++rej; for (size_t v = 0; v < x.size(); ++v) ++cnt[v][x[v]]; if (x.size() > 1) ++pc[x[0] + s.L[0] * x[1]]; }
    ++visits; prev = x;
  }
  void begin(G& g) { ++begun; if (mv) mv->begin(g); } void end(G& g) { ++ended; if (mv) mv->end(g); }
  size_t operator()(G& g) { if (mv) (*mv)(g); look(g); return 0; }
};
template<class GM, class ACC> void gibbs() {
  typedef Gibbs<GM, ACC> G; Spec s = spec(IsMul<GM>::v); GM gm; buildGm(gm, s); size_t steps = sym_param("steps", 3), burn = sym_param("burn", 0), start = sym_param("start", 0), n = s.L.size(); bool temp = sym_param("temp", 0); VS x0(n, 0); if (start) x0 = anyLab(s.L);
  std::vector<size_t> sp; if (start == 1) sp = x0; typename G::Parameter p(steps, burn, temp, 0.25, 1, sym_param("per", 1), sym_param("cyc", 0) ? G::Parameter::CYCLIC : G::Parameter::RANDOM, sp); G g(gm, p); if (start == 2) { std::vector<typename GM::LabelType> l(x0.begin(), x0.end()); g.setStartingPoint(l.begin()); }
  for (size_t run = 0; run < 1 + sym_param("again", 0); ++run) {
    if (run) { g.reset(); if (start == 2) x0.assign(n, 0); }
    CHECKM(g.markovValue() == energyOf<GM>(s, x0) && g.currentBestValue() == energyOf<GM>(s, x0) && argOf(g) == x0 && g.value() == energyOf<GM>(s, x0), "before sampling");
    Watch<GM, ACC> w(s, x0, temp, burn); GibbsMarginalVisitor<G> mv(gm); if (sym_param("marg", 0)) { for (size_t v = 0; v < n; ++v) CHECKM(mv.addMarginal(v) == v, "number of the marginal"); if (n > 1) { size_t vi[] = {0, 1}; mv.addMarginal(vi, vi + 2); } CHECKM(mv.numberOfMarginals() == n + (n > 1), "number of marginals"); w.mv = &mv; }
    CHECKM(g.infer(w) == NORMAL && w.begun == 1 && w.ended == 1, "normal end"); VS a = argOf(g); CHECKM(validLab(s, a) && energyOf<GM>(s, a) == w.best && g.value() == w.best && g.currentBestValue() == w.best, "the result is the best state seen"); CHECKM(w.visits <= steps + burn, "number of steps");
    if (w.mv) { CHECKM(mv.numberOfSamples() == w.kept && mv.numberOfAcceptedSamples() == w.acc && mv.numberOfRejectedSamples() == w.rej, "number of samples"); for (size_t v = 0; v < n; ++v) for (size_t k = 0; k < s.L[v]; ++k) CHECKM(mv.marginal(v)(&k) == (double)w.cnt[v][k], "marginal counts"); if (n > 1) for (size_t k = 0; k < w.pc.size(); ++k) { size_t q[] = {k % s.L[0], k / s.L[0]}; CHECKM(mv.marginal(n)(q) == (double)w.pc[k], "pair counts"); } }
  }
  std::vector<typename GM::LabelType> l; CHECKM(g.arg(l, 2) == UNKNOWN, "no second best"); bool t = false; p.startPoint_.assign(n + 1, 0); try { G h(gm, p); } catch (RuntimeError&) { t = true; } CHECKM(t, "a start of the wrong length is refused");
}
HARNESS(c30_gibbs) { if (sym_param("mul", 0)) gibbs<GmEM, Maximizer>(); else gibbs<GmE, Minimizer>(); }
template<class G> struct Flip { const GmE& gm; std::vector<size_t> x; size_t k; Flip(const GmE& g) : gm(g), x(g.numberOfVariables(), 0), k(0) {} void begin(G&) {} void end(G&) {} size_t operator()(G& g) { size_t d = 0; for (size_t v = 0; v < x.size(); ++v) { d += g.markovState(v) != x[v]; x[v] = g.markovState(v); } CHECKM(d == 1, "equal values are always accepted"); ++k; size_t ones = 0; for (size_t v = 0; v < x.size(); ++v) ones += x[v]; size_t n = x.size(), m = k % (2 * n); CHECKM(ones == (m <= n ? m : 2 * n - m), "cyclic proposals take each variable in turn"); nextRand = (k / n) % 2 ? 0 : 1; return 0; } };
HARNESS(c30_cyclic) { // constant values, so that every proposal is accepted
  typedef Gibbs<GmE, Minimizer> G; size_t n = sym_param("n", 3); Spec s; s.L = VS(n, 2); Fac f; f.vars = mkVS(0); f.shape = mkVS(2); f.kind = FEXPL; f.t.assign(2, sym_num("c", -3, 3, 1)); s.f.push_back(f); GmE gm; buildGm(gm, s);
  G::Parameter p(8 * n, 0, sym_param("temp", 0), 0.9, 1, 1, G::Parameter::CYCLIC); G g(gm, p); fixedRand = true; nextRand = 1; Flip<G> w(gm); g.infer(w); CHECKM(w.k >= 2 * n, "steps"); }
HARNESS(c30_random) {
  size_t lo = sym_param("lo", 0), n = sym_param("n", 3); RandomUniform<size_t> a(lo, lo + n); size_t x = a(); CHECKM(x >= lo && x < lo + n, "integer range"); sym_obs_u(x); RandomUniform<double> d((double)lo, (double)(lo + n)); double y = d(); CHECKM(y >= (double)lo && y < (double)(lo + n), "real range"); sym_obs_d(y);
  VD w; double sum = 0; for (size_t i = 0; i < n; ++i) { w.push_back((double)((i * 2 + lo) % 3)); sum += w[i]; } if (sum > 0) { RandomDiscreteWeighted<size_t, double> q(w.begin(), w.end()); size_t z = q(); CHECKM(z < n && w[z] > 0, "only values with positive weight"); double r = u01(drawn.back()), c = 0; for (size_t i = 0; i < z; ++i) c += w[i]; CHECKM(r >= c / sum - 1e-9 && r <= (c + w[z]) / sum + 1e-9, "the value whose share the draw falls into"); }
  fixedRand = true; std::set<size_t> got; for (nextRand = 0; nextRand < 12; ++nextRand) got.insert(a()); CHECKM(got.size() == n, "every value can be drawn"); }
// Swendsen-Wang
template<class GM, class ACC> struct WatchSW {
  typedef SwendsenWang<GM, ACC> G; const Spec& s; VS prev; double best; std::vector<VD> q; size_t visits, acc, kept, rej; size_t burn; bool metro; SwendsenWangMarginalVisitor<G>* mv; std::vector<std::vector<size_t> > cnt;
  WatchSW(const Spec& s_, const VS& x0, size_t b) : s(s_), prev(x0), best(energyOf<GM>(s_, x0)), visits(0), acc(0), kept(0), rej(0), burn(b), metro(false), mv(0) { for (size_t v = 0; v < s.L.size(); ++v) cnt.push_back(std::vector<size_t>(s.L[v], 0)); }
  double P(const VS& x) { double e = energyOf<GM>(s, x); return IsMul<GM>::v ? e : std::exp(-e); }
  // x and y differ on the cluster only; an edge out of it is cut with probability 1 - q where its ends agree
  double ratio(const VS& x, const VS& y, const std::vector<bool>& in) { double r = P(y) / P(x); for (size_t u = 0; u < x.size(); ++u) for (size_t v = 0; v < x.size(); ++v) if (in[u] && !in[v] && q[u][v] >= 0) { if (x[u] == x[v]) r /= (1 - q[u][v]); if (y[u] == y[v]) r *= (1 - q[u][v]); } return r; }
  void operator()(const G& g, const size_t it, const size_t size, const bool ok, const bool burning) {
    VS x; for (size_t v = 0; v < s.L.size(); ++v) x.push_back(g.markovState(v)); CHECKM(validLab(s, x), "valid labelling"); double e = energyOf<GM>(s, x); CHECKM(g.markovValue() == e, "value of the current state"); CHECKM(it == visits && burning == (visits < burn) && (ok || !burning), "step");
    VS d; for (size_t v = 0; v < x.size(); ++v) if (x[v] != prev[v]) d.push_back(v); CHECKM(d.empty() || (ok && d.size() == size), "only an accepted step moves, and moves the whole cluster"); CHECKM(size >= 1 && size <= x.size(), "cluster size");
    for (size_t i = 1; i < d.size(); ++i) CHECKM(x[d[i]] == x[d[0]] && prev[d[i]] == prev[d[0]] && s.L[d[i]] == s.L[d[0]], "one label before, one label after");
    if (d.size() > 1) { std::set<size_t> c; c.insert(d[0]); for (size_t k = 0; k < d.size(); ++k) for (size_t f = 0; f < s.f.size(); ++f) { bool hit = false; for (size_t v : s.f[f].vars) hit |= c.count(v) > 0; if (hit) for (size_t v : s.f[f].vars) if (x[v] != prev[v]) c.insert(v); } CHECKM(c.size() == d.size(), "the cluster is connected"); }
    if (!burning) { if (ok) best = sym_ite_d(Less<ACC>::better(e, best), e, best); ++kept; if (ok) ++acc; else ++rej; for (size_t v = 0; v < x.size(); ++v) ++cnt[v][x[v]];
      if (metro) { double r = u01(drawn.back()); std::vector<bool> in(x.size(), false); if (ok) { for (size_t v : d) in[v] = true; if (!d.empty()) { double t = ratio(prev, x, in); CHECKM(t >= 1 - 1e-9 || r <= t + 1e-9, "acceptance follows the Metropolis-Hastings ratio"); } }
        else { bool can = false; for (size_t m = 1; m < (size_t(1) << x.size()); ++m) { size_t k = 0, first = 0; VS y(x); for (size_t v = 0; v < x.size(); ++v) { in[v] = m >> v & 1; if (in[v]) { if (!k++) first = v; y[v] = 1 - x[v]; } } bool same = k == size; for (size_t v = 0; v < x.size(); ++v) same = same && (!in[v] || x[v] == x[first]); if (!same) continue; double t = ratio(x, y, in); can = can | (t < 1 && r >= t - 1e-9); } CHECKM(can, "rejection follows the Metropolis-Hastings ratio"); } } }
    CHECKM(g.currentBestValue() == best, "value of the best state so far"); VS b; for (size_t v = 0; v < x.size(); ++v) b.push_back(g.currentBestState(v)); CHECKM(validLab(s, b) && energyOf<GM>(s, b) == best, "the best state has that value"); if (mv) (*mv)(g, it, size, ok, burning); sym_obs_d(e); ++visits; prev = x;
  }
};
template<class GM, class ACC> void sw() {
  typedef SwendsenWang<GM, ACC> G; Spec s = spec(IsMul<GM>::v); GM gm; buildGm(gm, s); size_t steps = sym_param("steps", 2), burn = sym_param("burn", 0), start = sym_param("start", 0), n = s.L.size(); VS x0(n, 0); if (start) x0 = anyLab(s.L); std::vector<typename GM::LabelType> sp; if (start) sp.assign(x0.begin(), x0.end());
  typename G::Parameter p(steps, burn, 1e-6, sp); G g(gm, p);
  for (size_t run = 0; run < 1 + sym_param("again", 0); ++run) {
    if (run) g.reset(); CHECKM(g.markovValue() == energyOf<GM>(s, x0) && g.currentBestValue() == energyOf<GM>(s, x0), "before sampling");
    CHECKM(argOf(g) == x0, "labelling before sampling"); WatchSW<GM, ACC> w(s, x0, burn); w.metro = sym_param("metro", 0); SwendsenWangMarginalVisitor<G> mv(gm); for (size_t v = 0; v < n; ++v) mv.addMarginal(v); w.mv = &mv;
    for (size_t u = 0; u < n; ++u) { w.q.push_back(VD(n, -1)); for (size_t v = 0; v < n; ++v) { bool e = false; Spec l; l.L = s.L; for (const Fac& f : s.f) { bool a = std::find(f.vars.begin(), f.vars.end(), u) != f.vars.end(), b = std::find(f.vars.begin(), f.vars.end(), v) != f.vars.end(); e = e || (a && b); if (a || b) l.f.push_back(f); } if (u == v || !e || !w.metro) continue; double eq = 0, un = 0; forLab(l.L, [&](const VS& x) { double p = IsMul<GM>::v ? energyMul(l, x) : std::exp(-energyAdd(l, x)); if (x[u] == x[v]) eq += p; else un += p; }); w.q[u][v] = un / (eq + un); } }
    CHECKM(g.infer(w) == NORMAL, "normal end"); VS a = argOf(g); CHECKM(validLab(s, a) && energyOf<GM>(s, a) == w.best && g.value() == w.best, "the result is the best state seen after the burn-in"); CHECKM(w.visits == steps + burn && mv.numberOfSamples() == w.kept && w.kept == steps && mv.numberOfAcceptedSamples() == w.acc && mv.numberOfRejectedSamples() == w.rej && mv.numberOfMarginals() == n, "number of samples");
    for (size_t v = 0; v < n; ++v) for (size_t k = 0; k < s.L[v]; ++k) CHECKM(mv.marginal(v)(&k) == (double)w.cnt[v][k], "marginal counts");
  }
  bool t = false; p.initialState_.assign(n + 1, 0); try { G h(gm, p); } catch (RuntimeError&) { t = true; } CHECKM(t, "a start of the wrong length is refused");
}
HARNESS(c30_sw) { if (sym_param("mul", 0)) sw<GmEM, Maximizer>(); else sw<GmE, Minimizer>(); }
