#include "gm_common.h"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/auxiliary/minstcutkolmogorov.hxx>
#include <opengm/inference/auxiliary/minstcutibfs.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
using namespace opengm;
typedef opengm::external::MinSTCutKolmogorov<size_t, double> CutK; typedef opengm::external::MinSTCutIBFS<size_t, double> CutI;
// ---- C12: minimum cuts ----
template<class CUT> void cutRun() {
  size_t n = sym_param("n", 2), net = sym_param("net", 0); struct E { size_t a, b; double c; }; std::vector<E> es; int R = sym_param("R", 3);
  auto add = [&](size_t a, size_t b) { E e = {a, b, sym_num("c", 0, R, 1)}; es.push_back(e); };
  if (net == 0) { for (size_t i = 2; i < n + 2; ++i) { add(0, i); add(i, 1); } for (size_t i = 2; i < n + 2; ++i) for (size_t j = i + 1; j < n + 2; ++j) add(i, j); }
  else if (net == 1) { for (size_t i = 2; i < n + 1; ++i) { add(i, i + 1); add(i + 1, i); } add(0, 2); add(n + 1, 1); add(0, n + 1); }
  else if (net == 2) { for (size_t i = 2; i < n + 2; ++i) { add(0, i); add(0, i); add(i, 1); } for (size_t i = 2; i < n + 1; ++i) { add(i + 1, i); add(i + 1, i); } }
  else { size_t m = sym_param("m", 3); for (size_t k = 0; k < m; ++k) { size_t a = sym_choice("from", n + 1); if (a) ++a; size_t b = sym_choice("to", n + 1) + 1; if (a == b || (a == 0 && b == 1)) sym_discard(); add(a, b); } }
  CUT cut(n + 2, es.size()); for (size_t i = 0; i < es.size(); ++i) cut.addEdge(es[i].a, es[i].b, es[i].c); std::vector<bool> seg; cut.calculateCut(seg); CHECKM(seg.size() == n + 2, "one side per node");
  auto capOf = [&](size_t mask) { double c = 0; auto side = [&](size_t v) { return v == 0 ? 0 : v == 1 ? 1 : (int)((mask >> (v - 2)) & 1); }; for (size_t i = 0; i < es.size(); ++i) if (side(es[i].a) == 0 && side(es[i].b) == 1) c += es[i].c; return c; };
  size_t mask = 0; for (size_t v = 0; v < n; ++v) if (seg[v + 2]) mask |= size_t(1) << v; double c = capOf(mask); sym_obs_d(c); bool ok = true; for (size_t k = 0; k < (size_t(1) << n); ++k) ok = ok & (c <= capOf(k)); CHECKM(ok, "minimum cut");
}
HARNESS(c12_cut) { int a = sym_param("alg", 0); if (a == 0) cutRun<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(); else if (a == 1) cutRun<MinSTCutBoost<size_t, double, EDMONDS_KARP> >(); else if (a == 2) cutRun<MinSTCutBoost<size_t, double, KOLMOGOROV> >(); else cutRun<CutK>(); }
// ---- C12: graph cut inference ----
template<class ACC, class CUT> void gcRun() {
  bool mx = Less<ACC>::better(1, 0); unsigned tp = sym_param("topo", 1); int64_t R = sym_param("R", 3); Rng r(-R, R, 1); Topo t = topo(tp); Spec s; s.L = labs(t.n, 0); addUnaries(s, sym_param("un", 1), r);
  for (size_t i = 0; i < t.e.size(); ++i) { if (t.e[i].size() > 2) { // third order: a sum of submodular pairs plus a term a*x0*x1*x2 or a*(1-x0)(1-x1)(1-x2), a<=0
      Fac f; f.vars = t.e[i]; f.kind = FEXPL; f.shape = VS(3, 2); double a = sym_num("a", -R, 0, 1), b = sym_num("b", -R, 0, 1), c = sym_num("c", -R, R, 1), w[3]; for (int q = 0; q < 3; ++q) w[q] = sym_param("c3", 0) ? -q : sym_num("w", -R, 0, 1); for (size_t k = 0; k < 8; ++k) { VS d = digits(k, f.shape); double v = (d[0] && d[1] && d[2] ? a : 0) + (!d[0] && !d[1] && !d[2] ? b : 0) + (d[0] && d[1] ? w[0] : 0) + (d[1] && d[2] ? w[1] : 0) + (d[0] && d[2] ? w[2] : 0) + (d[1] ? c : 0); f.t.push_back(mx ? -v : v); } s.f.push_back(f); continue; }
    Fac f; if (sym_param("potts", 0)) f = fPotts(s, t.e[i][0], t.e[i][1], 0, mx ? -sym_num("w", 0, R, 1) : sym_num("w", 0, R, 1)); else { f = fExpl(s, t.e[i], r); bool sub = f.t[0] + f.t[3] <= f.t[1] + f.t[2], sup = f.t[0] + f.t[3] >= f.t[1] + f.t[2]; sym_assume(mx ? sup : sub); } s.f.push_back(f); }
  if (sym_param("cf", 0)) s.f.insert(s.f.begin(), fExpl(s, VS(), r)); if (sym_param("un2", 0)) addUnaries(s, 1, r);
  Gm2 gm; buildGm(gm, s); typedef GraphCut<Gm2, ACC, CUT> G; typename G::Parameter p((double)sym_param("scale", 1)); G g(gm, p); { std::vector<Gm2::LabelType> a; g.arg(a); CHECKM(validLab(s, VS(a.begin(), a.end())), "labelling before inference is valid"); }
  g.infer(); VS x = argOf(g); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) return; bool ok = isOptimal<Gm2, ACC>(s, x); CHECKM(ok, "graph cut is optimal on submodular models"); CHECKM(g.value() == energyAdd(s, x), "reported value is the labelling's value"); sym_obs_d(g.value());
}
template<class ACC> void gcAlg() { int a = sym_param("alg", 0); if (a == 0) gcRun<ACC, MinSTCutBoost<size_t, double, PUSH_RELABEL> >(); else if (a == 1) gcRun<ACC, MinSTCutBoost<size_t, double, EDMONDS_KARP> >(); else if (a == 2) gcRun<ACC, MinSTCutBoost<size_t, double, KOLMOGOROV> >(); else if (a == 3) gcRun<ACC, CutK>(); else gcRun<ACC, CutI>(); }
HARNESS(c12_graphcut) { if (sym_param("op", 0) == 0) gcAlg<Minimizer>(); else gcAlg<Maximizer>(); }
HARNESS(c12_refuse) { // variables with more than two labels and factors of high order are refused
  Spec s; s.L = labs(2, 0); size_t v = sym_choice("var", 2); s.L[v] = 3; addUnaries(s, 1, Rng(-2, 2)); Gm2 gm; buildGm(gm, s); bool thrown = false; try { GraphCut<Gm2, Minimizer, MinSTCutBoost<size_t, double, KOLMOGOROV> > g(gm); } catch (RuntimeError&) { thrown = true; } CHECKM(thrown, "only binary variables are accepted");
  Spec q; q.L = labs(4, 0); VS all = mkVS(0, 1, 2, 3); q.f.push_back(fExpl(q, all, Rng(-1, 1))); Gm2 g4; buildGm(g4, q); thrown = false; try { GraphCut<Gm2, Minimizer, MinSTCutBoost<size_t, double, KOLMOGOROV> > g(g4); } catch (RuntimeError&) { thrown = true; } CHECKM(thrown, "factors of order four are refused");
}
// ---- C16: alpha expansion and alpha-beta swap ----
// pairwise terms: 0 Potts with weight>=0, 1 truncated linear table (metric), 2 arbitrary metric table, 3 semi-metric (swap only), 4 arbitrary
static Spec moveSpec(int kind) {
  Topo t = topo(sym_param("topo", 1)); int64_t R = sym_param("R", 3); Rng r(-R, R, 1); Spec s; size_t nl = sym_param("nl", 3); s.L = VS(t.n, nl); if (int u = sym_param("uneq", 0)) for (size_t v = 0; v < t.n; ++v) if (u > 0 ? v + 1 == (size_t)u : v + 1 != (size_t)-u) s.L[v] = nl - 1; // one variable (not) short of a label
  addUnaries(s, sym_param("un", 1), r);
  for (size_t i = 0; i < t.e.size(); ++i) { if (kind == 0) { s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], 0, sym_num("w", 0, R, 1))); continue; }
    Fac f; f.vars = t.e[i]; f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(nl * nl, 0); if (kind == 4 || f.shape[0] != nl || f.shape[1] != nl) { f = fExpl(s, t.e[i], r); s.f.push_back(f); continue; } double base = sym_num("base", -R, R, 1);
    for (size_t a = 0; a < nl; ++a) for (size_t b = a + 1; b < nl; ++b) { double v; if (kind == 1) v = 0; else v = sym_num("d", 0, R, 1); f.t[a + nl * b] = f.t[b + nl * a] = v; }
    if (kind == 1) { double w = sym_num("w", 0, R, 1), T = sym_num("T", 0, 2, 1); for (size_t a = 0; a < nl; ++a) for (size_t b = 0; b < nl; ++b) { double d = a < b ? b - a : a - b; f.t[a + nl * b] = w * dmin_(d, T); } }
    if (kind == 2) { bool m = true; for (size_t a = 0; a < nl; ++a) for (size_t b = 0; b < nl; ++b) for (size_t c = 0; c < nl; ++c) m = m & (f.t[a + nl * c] <= f.t[a + nl * b] + f.t[b + nl * c]); sym_assume(m); }
    for (size_t k = 0; k < f.t.size(); ++k) f.t[k] += base; s.f.push_back(f); }
  if (sym_param("cf", 0)) s.f.insert(s.f.begin(), fExpl(s, VS(), r)); if (sym_param("un2", 0)) addUnaries(s, 1, r);
  unsigned conc = sym_param("conc", 0); if (conc > 1) { size_t k = 0; for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].vars.size() == 1) for (size_t j = 0; j < s.f[i].t.size(); ++j, ++k) if (k % conc) s.f[i].t[j] = (double)((k * 7) % 9) - 4; }
  return s;
}
template<class CUT> void expandRun() {
  int kind = sym_param("kind", 0); Spec s = moveSpec(kind); Gm2 gm; buildGm(gm, s); typedef GraphCut<Gm2, Minimizer, CUT> G; typedef AlphaExpansion<Gm2, G> E; typename E::Parameter p; size_t nl = *std::max_element(s.L.begin(), s.L.end()); int st = sym_param("start", 0); VS start(s.L.size(), 0);
  if (st) { start = anyLab(s.L); if (st == 1) { p.labelInitialType_ = E::Parameter::EXPLICIT_LABEL; p.label_.assign(start.begin(), start.end()); } } if (st == 3) p.labelInitialType_ = E::Parameter::LOCALOPT_LABEL;
  if (sym_param("order", 0)) { p.orderType_ = E::Parameter::EXPLICIT_ORDER; VS perm(nl); for (size_t i = 0; i < nl; ++i) perm[i] = i; size_t k = sym_choice("perm", nl == 3 ? 6 : nl == 2 ? 2 : 24); for (size_t i = 0; i < k; ++i) std::next_permutation(perm.begin(), perm.end()); p.labelOrder_.assign(perm.begin(), perm.end()); }
  if (sym_param("steps", 0)) p.maxNumberOfSteps_ = sym_param("steps", 0); typename E::Parameter pp(p); E e(gm, pp); if (st == 2) { std::vector<Gm2::LabelType> v(start.begin(), start.end()); e.setStartingPoint(v.begin()); }
  if (st != 3) { VS y = argOf(e); CHECKM(y == start, "the labelling before inference is the start"); } else { start = argOf(e); CHECKM(validLab(s, start), "the start is valid"); if (!validLab(s, start)) return; bool ok = true; for (size_t v = 0; v < s.L.size(); ++v) for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].vars.size() == 1 && s.f[i].vars[0] == v) for (size_t l = 0; l < s.L[v]; ++l) ok = ok & (s.f[i].t[start[v]] <= s.f[i].t[l]); CHECKM(ok || sym_param("un2", 0), "the local start minimises the unary factors"); }
  VS first, start0(start); int rounds = 1 + sym_param("again", 0); for (int q = 0; q < rounds; ++q) { if (q) { e.reset(); if (st == 2) start = VS(s.L.size(), 0); CHECKM(argOf(e) == start, "reset returns to the start"); }
    e.infer(); VS x = argOf(e); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) return; if (!q) first = x; else if (start == start0) CHECKM(x == first, "from the same start to the same end"); double v = energyAdd(s, x); CHECKM(v <= energyAdd(s, start), "never worse than the start"); CHECKM(e.value() == v, "reported value is the labelling's value"); sym_obs_d(v);
    if (kind < 3 && !sym_param("steps", 0)) { bool ok = true; for (size_t a = 0; a < nl; ++a) for (size_t m = 1; m < (size_t(1) << s.L.size()); ++m) { VS y = x; for (size_t i = 0; i < y.size(); ++i) if ((m >> i & 1) && a < s.L[i]) y[i] = a; ok = ok & (v <= energyAdd(s, y)); } CHECKM(ok, "no expansion move improves the result"); if (nl == 2) CHECKM((isOptimal<Gm2, Minimizer>(s, x)), "two labels: optimal"); } }
}
HARNESS(c16_expansion) { int a = sym_param("alg", 2); if (a == 0) expandRun<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(); else if (a == 1) expandRun<MinSTCutBoost<size_t, double, EDMONDS_KARP> >(); else if (a == 2) expandRun<MinSTCutBoost<size_t, double, KOLMOGOROV> >(); else if (a == 3) expandRun<CutK>(); else expandRun<CutI>(); }
template<class CUT> void swapRun() {
  int kind = sym_param("kind", 0); Spec s = moveSpec(kind); Gm2 gm; buildGm(gm, s); typedef GraphCut<Gm2, Minimizer, CUT> G; typedef AlphaBetaSwap<Gm2, G> E; typename E::Parameter p; p.maxNumberOfIterations_ = sym_param("iters", 40); size_t nl = *std::max_element(s.L.begin(), s.L.end()); VS start(s.L.size(), 0); E e(gm, p); if (sym_param("start", 2)) { start = anyLab(s.L); std::vector<Gm2::LabelType> v(start.begin(), start.end()); e.setStartingPoint(v.begin()); } CHECKM(argOf(e) == start, "the labelling before inference is the start");
  VS first, start0(start); int rounds = 1 + sym_param("again", 0); for (int q = 0; q < rounds; ++q) { if (q) { e.reset(); start = VS(s.L.size(), 0); CHECKM(argOf(e) == start, "reset returns to the start"); }
    e.infer(); VS x = argOf(e); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) return; if (!q) first = x; else if (start == start0) CHECKM(x == first, "from the same start to the same end"); double v = energyAdd(s, x); CHECKM(v <= energyAdd(s, start), "never worse than the start"); CHECKM(e.value() == v, "reported value is the labelling's value"); sym_obs_d(v);
    if (kind < 4 && sym_param("iters", 40) >= 40) { bool ok = true; for (size_t a = 0; a < nl; ++a) for (size_t b = a + 1; b < nl; ++b) for (size_t m = 0; m < (size_t(1) << s.L.size()); ++m) { VS y = x; for (size_t i = 0; i < y.size(); ++i) if (b < s.L[i] && (y[i] == a || y[i] == b)) y[i] = (m >> i & 1) ? b : a; ok = ok & (v <= energyAdd(s, y)); } CHECKM(ok, "no swap move improves the result"); } }
}
HARNESS(c16_swap) { int a = sym_param("alg", 2); if (a == 0) swapRun<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(); else if (a == 1) swapRun<MinSTCutBoost<size_t, double, EDMONDS_KARP> >(); else swapRun<MinSTCutBoost<size_t, double, KOLMOGOROV> >(); }
HARNESS(c16_param) { // converting parameters keeps every field
  typedef MinSTCutBoost<size_t, double, KOLMOGOROV> CUT; typedef AlphaExpansion<Gm2, GraphCut<Gm2, Minimizer, CUT> > E; typedef AlphaExpansion<GmE, GraphCut<GmE, Minimizer, CUT> > F; E::Parameter p; p.maxNumberOfSteps_ = 1 + sym_choice("steps", 3); p.labelInitialType_ = E::Parameter::EXPLICIT_LABEL; p.labelOrder_.push_back(sym_choice("o", 2)); p.label_.push_back(sym_choice("l", 2)); p.label_.push_back(1);
  p.parameter_.scale_ = 2; GraphCut<GmE, Minimizer, CUT>::Parameter gp(p.parameter_); CHECKM(gp.scale_ == 2, "scale is kept");
}
