// C39: multicut and multiway cut over the constraints an outside solver is given (a small exact solver stands in for it)
#include "gm_common.h"
#include "ilcplex/ilocplex.h"
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/inference/multicut.hxx>
using namespace opengm; using lpstub::Core;
typedef meta::TypeListGenerator<ExplicitFunction<double>, PottsFunction<double>, PottsNFunction<double>, PottsGFunction<double> >::type FTM; typedef GraphicalModel<double, Adder, FTM, DiscreteSpace<> > GmM; typedef Multicut<GmM, Minimizer> MCut;
typedef std::function<double(const VS&)> Term;
struct Mod { VS L; GmM gm; std::vector<Term> t; double energy(const VS& x) const { double e = 0; for (size_t i = 0; i < t.size(); ++i) e += t[i](x); return e; } };
static Rng R() { return sym_param("wide", 0) ? Rng(-6, 6, 2) : Rng(-2, 2, 1); }
static double wt(const char* n, size_t k) { size_t f = sym_param("fixed", 0); if (f) return (double)((int)((k * 7 + f * 5 + k * k * 3) % 7) - 3); if (sym_param("half", 1)) return sym_num(n, -2, 1, 1) + 0.5; return sy(n, R()); }
template<class F> void addTo(Mod& m, const F& f, const VS& v, Term t) { m.gm.addFactor(m.gm.addFunction(f), v.begin(), v.end()); m.t.push_back(t); }
static void addPotts(Mod& m, const VS& v, double eq, double ne) { if (v.size() == 2) addTo(m, PottsFunction<double>(m.L[v[0]], m.L[v[1]], eq, ne), v, [=](const VS& x) { return x[v[0]] == x[v[1]] ? eq : ne; }); else { VS sh; for (size_t i = 0; i < v.size(); ++i) sh.push_back(m.L[v[i]]); addTo(m, PottsNFunction<double>(sh.begin(), sh.end(), eq, ne), v, [=](const VS& x) { for (size_t i = 1; i < v.size(); ++i) if (x[v[i]] != x[v[0]]) return ne; return eq; }); } }
// which entries are equal: one bit per pair
static size_t pat(const VS& x, const VS& v) { size_t b = 0, k = 1; for (size_t i = 1; i < v.size(); ++i) for (size_t j = 0; j < i; ++j, k *= 2) if (x[v[i]] == x[v[j]]) b += k; return b; }
static void addGen(Mod& m, const VS& v) {
  VS sh, id; for (size_t i = 0; i < v.size(); ++i) { sh.push_back(m.L[v[i]]); id.push_back(i); } VS big(v.size(), v.size()); std::map<size_t, double> val; PottsGFunction<double> f(sh.begin(), sh.end()); size_t n = 0; forLab(big, [&](const VS& y) { size_t p = pat(y, id); if (val.count(p)) return; double w = wt("gen", n++); val[p] = w; VS c(y); for (size_t i = 0; i < c.size(); ++i) { size_t k = 0; while (y[k] != y[i]) ++k; size_t d = 0; for (size_t q = 0; q < k; ++q) { bool first = true; for (size_t r = 0; r < q; ++r) if (y[r] == y[q]) first = false; if (first) ++d; } c[i] = d; } bool in = true; for (size_t i = 0; i < c.size(); ++i) if (c[i] >= sh[i]) in = false; if (in) f.setByLabel(c.begin(), w); });
  addTo(m, f, v, [=](const VS& x) { return val.find(pat(x, v))->second; });
}
static void addTable(Mod& m, const VS& v) { VS sh; for (size_t i = 0; i < v.size(); ++i) sh.push_back(m.L[v[i]]); ExplicitFunction<double> f(sh.begin(), sh.end(), 0.0); VD t(prodS(sh)); for (size_t i = 0; i < t.size(); ++i) { t[i] = wt("table", i + 3 * v[0]); VS d = digits(i, sh); f(d.begin()) = t[i]; } addTo(m, f, v, [=](const VS& x) { VS y; for (size_t i = 0; i < v.size(); ++i) y.push_back(x[v[i]]); return t[flat(y, sh)]; }); }
// bits of "extra": 1 higher-order Potts over the first three, 2 generalised Potts over the first three, 4 a factor without variables,
// 8 tables for the pairs (two labels), 16 a second Potts factor on the first pair, 32 over all variables instead of three
static void build(Mod& m) {
  Topo tp = topo(sym_param("tp", 3)); size_t n = tp.n, L = sym_param("labels", 0); if (!L) L = n; m.L.assign(n, L); m.gm = GmM(GmM::SpaceType(m.L.begin(), m.L.end())); unsigned ex = sym_param("extra", 0), un = sym_param("um", 0); size_t k = 0;
  for (size_t v = 0; v < n; ++v) if (un == 1 || (un == 2 && v == 0)) addTable(m, mkVS(v));
  for (size_t i = 0; i < tp.e.size(); ++i) { VS v = tp.e[i]; if (ex & 64) std::swap(v[0], v[1]); if (ex & 64 && v[0] > v[1]) std::swap(v[0], v[1]); if (ex & 8) addTable(m, v); else { double w = wt("w", k++); double eq = ex & 128 ? wt("eq", k + 5) : 0; addPotts(m, v, eq, w); } }
  VS h; for (size_t v = 0; v < (ex & 32 ? n : 3); ++v) h.push_back(v); if (ex & 1) addPotts(m, h, wt("eq3", 11), wt("w3", 12)); if (ex & 2) addGen(m, h); if (ex & 16) addPotts(m, tp.e[0], 0, wt("w2", 13));
  if (ex & 4) { double c = wt("const", 17); VS none; ExplicitFunction<double> f(none.begin(), none.end(), c); m.gm.addFactor(m.gm.addFunction(f), none.begin(), none.end()); m.t.push_back([=](const VS&) { return c; }); }
}
static void setPar(MCut::Parameter& p) {
  static const char* WF[] = {"", "(CC)(IC)(CC-I)", "(CC-B)(IC)(CC-IFD)", "(CC-FD)(IC)(CC-I)", "(CC-FDB,OWC)(IC)(CC-I)", "(IC)(CC-I)", "(IC)(CC-IFD)", "(IC)(TTC-I,CC-I)", "(TTC)(IC)(TTC-I)", "(MTC)(CC)(IC)(TTC,CC)", "(CC,OWC)", "(TTC,CC)", "(TTC,MTC,CC-FDB)", "(IC)(TTC)", "(CC,IC)(CC-IFD,TTC-I)", "()"};
  p.workFlow_ = WF[sym_param("wf", 0)]; p.useOldPriorityQueue_ = sym_param("oldq", 0); p.useChordalSearch_ = sym_param("chordal", 0); p.initializeWith3Cycles_ = sym_param("three", 0); p.useBufferedStates_ = sym_param("buffer", 0); unsigned r = sym_param("round", 0); p.MWCRounding_ = r == 0 ? p.NEAREST : r == 1 ? p.DERANDOMIZED : p.PSEUDODERANDOMIZED; if (unsigned mx = sym_param("per", 0)) p.maximalNumberOfConstraintsPerRound_ = mx; p.reductionMode_ = sym_param("mode", 3);
}
static void check(const Mod& m, MCut& inf, bool exact, bool fractional) {
  VS y(9, 7); CHECKM(inf.arg(y) == NORMAL, "an answer"); CHECKM(y.size() == m.L.size(), "size of the answer"); for (size_t v = 0; v < y.size(); ++v) CHECKM(y[v] < m.L[v], "the answer is a labelling"); double e = m.energy(y), b = inf.bound(); CHECKM(inf.value() == e, "value of the answer"); sym_obs_d(e); sym_obs_d(b);
  bool best = true, low = true, isE = false; double eps = 0.0001; forLab(m.L, [&](const VS& x) { double w = m.energy(x); best = best & (e <= w); low = low & (b <= w + eps); isE = isE | ((b - w < eps) & (w - b < eps)); }); if (!fractional) CHECKM(low, "the bound is below every labelling's value"); if (exact) { CHECKM(best, "no labelling is better"); CHECKM(b - e < eps && e - b < eps, "the bound is the optimal value"); }
}
HARNESS(c39_multicut) {
  Mod m; build(m); MCut::Parameter p; setPar(p); Core::fractional() = sym_param("frac", 0); Core::dropZeros() = sym_param("drop", 0); Core::keep() = !sym_param("fresh", 0); Core::known() = sym_param("fixed", 0) && !sym_param("frac", 0);
  MCut inf(m.gm, p); CHECKM(&inf.graphicalModel() == &m.gm && inf.name() == "Multicut", "model and name"); InferenceTermination t; if (sym_param("visitor", 0)) { MCut::TimingVisitorType tv; t = inf.infer(tv); } else t = inf.infer(); CHECKM(t == NORMAL, "inference ends");
  check(m, inf, sym_param("exact", 1), sym_param("frac", 0)); Core::fractional() = 0;
  // the partition that the edges of the answer describe
  if (sym_param("exact", 1) && !p.useBufferedStates_) { VS y; inf.arg(y); std::vector<double> l = inf.getEdgeLabeling(); std::vector<size_t> s = inf.getSegmentation(); std::set<std::pair<size_t, size_t> > done; size_t k = 0; CHECKM(s.size() == m.L.size(), "size of the segmentation"); for (size_t f = 0; f < m.gm.numberOfFactors(); ++f) if (m.gm[f].numberOfVariables() == 2) { size_t a = m.gm[f].variableIndex(0), b = m.gm[f].variableIndex(1); if (!done.insert(std::make_pair(a, b)).second) continue; CHECKM((s[a] == s[b]) == (y[a] == y[b]), "adjacent variables are in one segment when they have one label"); CHECKM((l[k] < 0.5) == (y[a] == y[b]), "an edge is cut when its ends differ"); ++k; } }
}

// a fractional solution is rounded to a nearest label, or to the best of the candidates of derandomised rounding
HARNESS(c39_rounding) {
  Mod m; build(m); MCut::Parameter p; setPar(p); p.workFlow_ = "()"; Core::nextArbitrary() = true; Core::arbitraryNumber() = sym_param("few", 1000); MCut inf(m.gm, p); inf.infer(); Core& c = *Core::last(); size_t n = m.L.size(), T = m.L[0]; VD s; for (size_t i = 0; i < n * T; ++i) s.push_back(c.x[i]); Core::nextArbitrary() = false;
  VS y; CHECKM(inf.arg(y) == NORMAL && y.size() == n, "an answer"); for (size_t v = 0; v < n; ++v) { CHECKM(y[v] < T, "the answer is a labelling"); sym_obs_u(y[v]); } unsigned r = sym_param("round", 0);
  if (r == 0) { for (size_t v = 0; v < n; ++v) for (size_t l = 0; l < T; ++l) CHECKM(s[v * T + y[v]] <= s[v * T + l], "a nearest label"); return; }
  double e = m.energy(y); bool isOne = false; VD th(s); if (r == 1) { th.push_back(1e-8); th.push_back(1 - 1e-8); }
  for (size_t k = 0; k < th.size(); ++k) { if (r == 1 && k < s.size() && (s[k] == 0 || s[k] == 1)) continue; for (int o = 0; o < 2; ++o) { VS x(n, T - 1); for (size_t v = 0; v < n; ++v) for (size_t i = 0; i + 1 < T; ++i) { size_t l = o ? T - 2 - i : i; if (s[v * T + l] <= th[k]) { x[v] = l; break; } } CHECKM(e <= m.energy(x), "no candidate is better"); isOne = isOne || x == y; } } CHECKM(isOne, "the answer is a candidate");
}
// edge weights alone: the best partition and its cost
HARNESS(c39_weights) {
  Topo t = topo(sym_param("tp", 3)); std::map<opengm::UInt64Type, double> w; std::map<std::pair<size_t, size_t>, double> e; for (size_t i = 0; i < t.e.size(); ++i) { size_t a = t.e[i][0], b = t.e[i][1]; double c = wt("w", i); if (sym_param("flip", 0)) std::swap(a, b); w[a * t.n + b] = c; e[std::make_pair(t.e[i][0], t.e[i][1])] = c; }
  MCut::Parameter p; setPar(p); Core::keep() = true; MCut inf(t.n, w, p); CHECKM(inf.infer() == NORMAL, "inference ends"); std::vector<size_t> s = inf.getSegmentation(); double b = inf.bound(); sym_obs_d(b); VS L(t.n, t.n); CHECKM(s.size() == t.n, "size of the segmentation"); std::map<std::pair<size_t, size_t>, double>::iterator it; double mine = 0; for (it = e.begin(); it != e.end(); ++it) if (s[it->first.first] != s[it->first.second]) mine += it->second; bool best = true; forLab(L, [&](const VS& x) { double c = 0; for (it = e.begin(); it != e.end(); ++it) if (x[it->first.first] != x[it->first.second]) c += it->second; best = best & (mine <= c); }); CHECKM(best, "no partition is cheaper"); CHECKM(b == mine, "the bound is the cost of the partition");
  size_t k = 0; std::vector<double> l = inf.getEdgeLabeling(); CHECKM(l.size() == e.size(), "number of edges"); double again = 0; for (it = e.begin(); it != e.end(); ++it, ++k) { size_t q = inf.getLPIndex(it->first.first, it->first.second); CHECKM(q < l.size() && q == inf.getLPIndex(it->first.second, it->first.first), "index of an edge"); CHECKM((l[q] < 0.5) == (s[it->first.first] == s[it->first.second]), "labels of the edges"); } VS y; CHECKM(inf.arg(y) == NORMAL && y.size() == t.n, "an answer"); for (it = e.begin(); it != e.end(); ++it) CHECKM((y[it->first.first] == y[it->first.second]) == (s[it->first.first] == s[it->first.second]), "arg is the partition");
}
// rows the user adds hold in the answer
HARNESS(c39_constraint) {
  Mod m; build(m); MCut::Parameter p; setPar(p); Core::keep() = true; Core::known() = sym_param("fixed", 0); MCut inf(m.gm, p); Topo t = topo(sym_param("tp", 3)); size_t a = sym_choice("a", t.e.size()), b = sym_choice("b", t.e.size()); sym_assume(a < b); std::vector<size_t> vi; VD co; vi.push_back(inf.getLPIndex(t.e[a][0], t.e[a][1])); co.push_back(1); vi.push_back(inf.getLPIndex(t.e[b][0], t.e[b][1])); co.push_back(sym_choice("minus", 2) ? -1 : 1); double lo = (double)sym_choice("lo", 2), hi = lo + (double)sym_choice("hi", 2); inf.addConstraint(vi.begin(), vi.end(), co.begin(), lo, hi);
  std::function<bool(const VS&)> ok = [=](const VS& x) { double s = (x[t.e[a][0]] != x[t.e[a][1]] ? 1 : 0) + co[1] * (x[t.e[b][0]] != x[t.e[b][1]] ? 1 : 0); return s >= lo && s <= hi; }; bool any = false; forLab(m.L, [&](const VS& x) { any = any || ok(x); }); sym_assume(any); inf.infer(); VS y; inf.arg(y); CHECKM(ok(y), "the answer satisfies the added row"); double e = m.energy(y); bool best = true; forLab(m.L, [&](const VS& x) { if (ok(x)) best = best & (e <= m.energy(x)); }); CHECKM(best, "no labelling that satisfies the row is better"); CHECKM(inf.bound() == e, "the bound is the optimal value");
}
// cuts inside a class: the best pair of a labelling and a consistent cut
HARNESS(c39_asymmetric) {
  Mod m; build(m); MCut::Parameter p; setPar(p); Core::keep() = true; Core::known() = sym_param("fixed", 0); unsigned al = sym_param("allow", 1); for (size_t l = 0; l < m.L[0]; ++l) p.allowCutsWithin_.push_back(al >> l & 1); MCut inf(m.gm, p); CHECKM(inf.infer() == NORMAL, "inference ends"); double b = inf.bound(); sym_obs_d(b); Topo t = topo(sym_param("tp", 3)); size_t n = m.L.size(), T = m.L[0]; bool low = true, is = false; VS big(n, T * n);   // label and part of every node
  VD w; for (size_t i = 0; i < t.e.size(); ++i) { VS z(n, 0), d(n, 0); d[t.e[i][0]] = 1; size_t f = i + m.t.size() - t.e.size(); w.push_back(m.t[f](d) - m.t[f](z)); }
  forLab(VS(n, T), [&](const VS& x) { double u = 0; for (size_t f = 0; f + t.e.size() < m.t.size(); ++f) u += m.t[f](x); for (size_t f = m.t.size() - t.e.size(); f < m.t.size(); ++f) { VS z(n, 0); u += m.t[f](z); } forLab(VS(n, n), [&](const VS& q) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (q[i] == q[j] && x[i] != x[j]) return; double c = u; for (size_t i = 0; i < t.e.size(); ++i) { size_t v0 = t.e[i][0], v1 = t.e[i][1]; bool cut = q[v0] != q[v1]; if (cut && x[v0] == x[v1] && !p.allowCutsWithin_[x[v0]]) return; if (cut) c += w[i]; } low = low & (b <= c); is = is | (b == c); }); });
  CHECKM(low, "no labelling with a consistent cut is cheaper"); CHECKM(is, "the bound is the cost of one"); { std::vector<double> l = inf.getEdgeLabeling(); VS y; inf.arg(y); for (size_t i = 0; i < t.e.size(); ++i) { if (y[t.e[i][0]] != y[t.e[i][1]]) CHECKM(l[i] > 0.5, "an edge between two labels is cut"); else if (!p.allowCutsWithin_[y[t.e[i][0]]]) CHECKM(l[i] < 0.5, "an edge inside a class that may not be cut is not"); } }
}
// parameters, and what is refused
HARNESS(c39_parameters) {
  typedef Multicut<GmM, Maximizer> Mx; Mx::Parameter q; q.workFlow_ = "(CC)(IC)(CC-I)"; q.useBufferedStates_ = sym_choice("b", 2); q.initializeWith3Cycles_ = sym_choice("i", 2); q.useChordalSearch_ = sym_choice("c", 2); q.useOldPriorityQueue_ = sym_choice("o", 2); q.reductionMode_ = 1 + sym_choice("r", 3); q.allowCutsWithin_.push_back(true); q.numThreads_ = 3; q.cutUp_ = 17; q.timeOut_ = 5; q.maximalNumberOfConstraintsPerRound_ = 9; q.MWCRounding_ = q.DERANDOMIZED; MCut::Parameter p(q); CHECKM(p.workFlow_ == q.workFlow_ && p.useBufferedStates_ == q.useBufferedStates_ && p.initializeWith3Cycles_ == q.initializeWith3Cycles_ && p.useChordalSearch_ == q.useChordalSearch_ && p.useOldPriorityQueue_ == q.useOldPriorityQueue_ && p.reductionMode_ == q.reductionMode_ && p.allowCutsWithin_ == q.allowCutsWithin_ && p.numThreads_ == 3 && p.cutUp_ == 17 && p.timeOut_ == 5 && p.maximalNumberOfConstraintsPerRound_ == 9 && p.MWCRounding_ == q.DERANDOMIZED && p.edgeRoundingValue_ == q.edgeRoundingValue_, "parameters taken over");
}
HARNESS(c39_refused) {
  typedef Multicut<GmM, Maximizer> Mx; typedef GraphicalModel<double, Multiplier, FTM, DiscreteSpace<> > GmX; typedef Multicut<GmX, Minimizer> MX;
  size_t L[] = {3, 3, 3}; GmM g(GmM::SpaceType(L, L + 3)); size_t v[] = {0, 1}; ExplicitFunction<double> f(L, L + 2, 0.0); for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) f(a, b) = a == b ? 0 : 1; size_t a = sym_choice("a", 3), b = sym_choice("b2", 3); bool broken = sym_choice("broken", 2); if (broken) f(a, b) += sym_num("d", 1, 2, 1); g.addFactor(g.addFunction(f), v, v + 2); bool threw = false; try { MCut inf(g, MCut::Parameter()); } catch (RuntimeError&) { threw = true; } CHECKM(threw == broken, "a factor that is not a Potts factor is refused, one that is not");
  threw = false; try { Mx inf(g, Mx::Parameter()); } catch (RuntimeError&) { threw = true; } CHECKM(threw, "maximisation is refused"); GmX gx(GmX::SpaceType(L, L + 3)); threw = false; try { MX inf(gx, MX::Parameter()); } catch (RuntimeError&) { threw = true; } CHECKM(threw, "products are refused");
  GmM g2(GmM::SpaceType(L, L + 3)); g2.addFactor(g2.addFunction(PottsFunction<double>(3, 3, 0, 1)), v, v + 2); for (size_t r = 0; r < 5; ++r) { MCut::Parameter z; z.reductionMode_ = r; threw = false; try { MCut inf(g2, z); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (r == 0 || r == 4), "reduction modes are 1, 2 and 3"); }
  static const char* BAD[] = {"(CC-I)", "(CC-IFD)", "(TTC-I)"}; for (int k = 0; k < 3; ++k) { GmM g3(g2); if (k == 2) { ExplicitFunction<double> u(L, L + 1, 0.0); u(1) = 1; g3.addFactor(g3.addFunction(u), v, v + 1); } MCut::Parameter z; z.workFlow_ = BAD[k]; MCut inf(g3, z); threw = false; try { inf.infer(); } catch (RuntimeError&) { threw = true; } CHECKM(threw, "integer separation before integrality is refused"); }
  { MCut inf(g2, MCut::Parameter()); VS y; CHECKM(inf.arg(y, 2) == UNKNOWN, "no second best answer"); }
}
