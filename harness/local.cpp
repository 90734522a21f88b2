#include "gm_common.h"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/movemaker.hxx>
using namespace opengm;
// model: every factor symbolic; conc>1 keeps only every conc-th table entry symbolic
static Spec mkSpec(bool pos) {
  unsigned tp = sym_param("topo", 1), lm = sym_param("lab", 0), um = sym_param("un", 1); int64_t R = sym_param("R", 3); Rng r(pos ? sym_param("zero", 0) ? 0 : 1 : -R, R, 1);
  Spec s; Topo t = topo(tp); s.L = labs(t.n, lm); addUnaries(s, um, r);
  for (size_t i = 0; i < t.e.size(); ++i) { bool potts = sym_param("potts", 0) && t.e[i].size() == 2; if (potts) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], pos ? 1 : 0, sy("w", r))); else s.f.push_back(fExpl(s, t.e[i], r)); }
  if (sym_param("cf", 0)) s.f.insert(s.f.begin(), fExpl(s, VS(), r));
  unsigned conc = sym_param("conc", 0); if (conc > 1) { size_t k = 0; for (size_t i = 0; i < s.f.size(); ++i) for (size_t j = 0; j < s.f[i].t.size(); ++j, ++k) if (s.f[i].kind == FEXPL && k % conc) s.f[i].t[j] = pos ? 1 + (double)((k * 7) % 5) : (double)((k * 7) % 9) - 4; }
  return s;
}
// every labelling reachable from x by changing only the variables in vs is not better
template<class GM, class ACC> bool noBetterOn(const Spec& s, const VS& x, const VS& vs) { double e = energyOf<GM>(s, x); VS L; for (size_t i = 0; i < vs.size(); ++i) L.push_back(s.L[vs[i]]); bool ok = true; forLab(L, [&](const VS& y) { VS z = x; for (size_t i = 0; i < vs.size(); ++i) z[vs[i]] = y[i]; ok = ok & !Less<ACC>::better(energyOf<GM>(s, z), e); }); return ok; }
static std::vector<VS> connectedSets(const Spec& s, size_t k) {
  size_t n = s.L.size(); std::vector<std::vector<int> > adj(n, std::vector<int>(n, 0)); for (size_t f = 0; f < s.f.size(); ++f) for (size_t a = 0; a < s.f[f].vars.size(); ++a) for (size_t b = 0; b < s.f[f].vars.size(); ++b) adj[s.f[f].vars[a]][s.f[f].vars[b]] = 1;
  std::vector<VS> r; for (size_t m = 1; m < (size_t(1) << n); ++m) { VS v; for (size_t i = 0; i < n; ++i) if (m >> i & 1) v.push_back(i); if (v.size() > k) continue; std::set<size_t> seen; seen.insert(v[0]); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < v.size(); ++i) if (!seen.count(v[i])) for (size_t j = 0; j < v.size(); ++j) if (seen.count(v[j]) && adj[v[i]][v[j]]) { seen.insert(v[i]); ch = true; break; } } if (seen.size() == v.size()) r.push_back(v); } return r; }
template<class GM, class ACC, class INF> VS afterInfer(const Spec& s, INF& inf, const VS& start) {
  VS x = argOf(inf); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) { sym_discard(); } double e = energyOf<GM>(s, x); CHECKM(!Less<ACC>::better(energyOf<GM>(s, start), e), "never worse than the start"); CHECKM(inf.value() == e, "reported value is the labelling's value"); sym_obs_d(inf.value()); return x; }
template<class GM, class ACC> void icmRun(const Spec& s) {
  GM gm; buildGm(gm, s); typedef ICM<GM, ACC> I; VS start(s.L.size(), 0); int how = sym_param("start", 1); if (how) start = anyLab(s.L); std::vector<typename GM::LabelType> st(start.begin(), start.end()); bool fac = sym_param("fac", 0);
  typename I::Parameter p(fac ? I::FACTOR : I::SINGLE_VARIABLE); if (how == 1) p.startPoint_ = st; I icm(gm, p); if (how == 2) icm.setStartingPoint(st.begin());
  { VS x = argOf(icm); CHECKM(x == start, "the labelling before inference is the start"); CHECKM(icm.value() == energyOf<GM>(s, start), "value before inference"); }
  int rounds = 1 + sym_param("again", 0); for (int q = 0; q < rounds; ++q) { if (q) { if (sym_choice("how", 2)) { icm.reset(); start = how == 1 ? start : VS(s.L.size(), 0); } else { start = anyLab(s.L); st.assign(start.begin(), start.end()); icm.setStartingPoint(st.begin()); } }
    icm.infer(); VS x = afterInfer<GM, ACC>(s, icm, start); bool ok = true; for (size_t v = 0; v < s.L.size(); ++v) ok = ok & noBetterOn<GM, ACC>(s, x, mkVS(v)); CHECKM(ok, "no single variable can be improved");
    if (fac) { ok = true; for (size_t f = 0; f < s.f.size(); ++f) if (s.f[f].vars.size()) ok = ok & noBetterOn<GM, ACC>(s, x, s.f[f].vars); CHECKM(ok, "no factor can be improved"); } }
}
#define OPS(F) int op = sym_param("op", 0); if (op == 0) F<Gm2, Minimizer>(mkSpec(false)); else if (op == 1) F<Gm2, Maximizer>(mkSpec(false)); else if (op == 2) F<Gm2M, Minimizer>(mkSpec(true)); else F<Gm2M, Maximizer>(mkSpec(true));
HARNESS(c15_icm) { OPS(icmRun) }
template<class GM, class ACC> void lazyRun(const Spec& s) {
  GM gm; buildGm(gm, s); typedef LazyFlipper<GM, ACC> I; VS start(s.L.size(), 0); int how = sym_param("start", 1); if (how) start = anyLab(s.L); std::vector<typename GM::LabelType> st(start.begin(), start.end()); size_t k = sym_param("size", 2);
  int ml = sym_param("multi", 2); Tribool tb = ml == 0 ? Tribool(Tribool::False) : ml == 1 ? Tribool(Tribool::True) : Tribool(Tribool::Maybe); typename I::Parameter p(k, tb); if (how == 1) p.startingPoint_ = st; I inf(gm, p); if (how == 2) inf.setStartingPoint(st.begin()); CHECK(inf.maxSubgraphSize() == k);
  { VS x = argOf(inf); CHECKM(x == start, "the labelling before inference is the start"); CHECKM(inf.value() == energyOf<GM>(s, start), "value before inference"); }
  std::vector<VS> sets = connectedSets(s, k); int rounds = 1 + sym_param("again", 0); for (int q = 0; q < rounds; ++q) { if (q) { start = anyLab(s.L); st.assign(start.begin(), start.end()); inf.setStartingPoint(st.begin()); }
    inf.infer(); VS x = afterInfer<GM, ACC>(s, inf, start); bool ok = true; for (size_t i = 0; i < sets.size(); ++i) ok = ok & noBetterOn<GM, ACC>(s, x, sets[i]); CHECKM(ok, "no connected subset up to the size can be improved"); }
}
HARNESS(c15_lazy) { OPS(lazyRun) }
// models in which only one connected set (then, with two=1, a second one that the first makes attractive) can be improved: every graph / every numbering of a path, every such set
static Spec graphSpec() {
  size_t n = sym_param("n", 4), k = sym_param("size", 3); bool two = sym_param("two", 0); Spec s; s.L.assign(n, 2 + sym_param("extra", 0)); std::vector<VS> e; VS inS(n, 0), inT(n, 0);
  if (!two) { for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (sym_choice("edge", 2)) e.push_back(mkVS(i, j)); size_t m = 1 + sym_choice("set", (size_t(1) << n) - 1), c = 0; for (size_t i = 0; i < n; ++i) if (m >> i & 1) inS[i] = 1, ++c; if (c > k) sym_discard();
    size_t first = 0; while (!inS[first]) ++first; VS seen(n, 0); seen[first] = 1; for (size_t q = 0; q < n; ++q) for (size_t i = 0; i < e.size(); ++i) if (inS[e[i][0]] && inS[e[i][1]] && (seen[e[i][0]] || seen[e[i][1]])) seen[e[i][0]] = seen[e[i][1]] = 1; for (size_t i = 0; i < n; ++i) if (inS[i] && !seen[i]) sym_discard(); }
  else { VS left, perm; for (size_t i = 0; i < n; ++i) left.push_back(i); int f0 = sym_param("first", -1); for (size_t i = 0; i < n; ++i) { size_t c = i == 0 && f0 >= 0 ? (size_t)f0 : sym_choice("pos", left.size()); perm.push_back(left[c]); left.erase(left.begin() + c); } size_t a = sym_param("a", k); for (size_t i = 0; i < n; ++i) { (i < a ? inS : inT)[perm[i]] = 1; if (i) e.push_back(mkVS(std::min(perm[i - 1], perm[i]), std::max(perm[i - 1], perm[i]))); } }
  double W = sym_num("W", 20, 24, 1), g = sym_num("g", 5, 6, 1), c = sym_num("c", 4, 5, 4), w = sym_num("w", 4, 5, 1), o = sym_num("o", 7, 9, 1);
  for (size_t i = 0; i < n; ++i) { Fac f; f.vars = mkVS(i); f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(s.L[i], 40.0); f.t[0] = 0; f.t[1] = inS[i] ? -g : inT[i] ? c : o; s.f.push_back(f); }
  for (size_t i = 0; i < e.size(); ++i) { size_t a = e[i][0], b = e[i][1]; bool same = (inS[a] && inS[b]) || (inT[a] && inT[b]), link = (inS[a] && inT[b]) || (inS[b] && inT[a]); s.f.push_back(fPotts(s, a, b, 0, same ? W : link ? w : 0)); }
  return s;
}
HARNESS(c15_graph) { lazyRun<Gm2, Minimizer>(graphSpec()); }
// ---- C19 ----
static VS anySubset(size_t n) { if (sym_param("sing", 0)) return mkVS(sym_choice("subset", n)); size_t k = sym_choice("subset", 1 + n + n * (n - 1)); VS v; if (k == 0) { for (size_t i = 0; i < n; ++i) v.push_back(n - 1 - i); return v; } --k; if (k < n) return mkVS(k); k -= n; size_t a = k / (n - 1), b = k % (n - 1); if (b >= a) ++b; return mkVS(a, b); } // all (descending), singles, ordered pairs
template<class GM, class ACC> void mmRun(const Spec& s) {
  GM gm; buildGm(gm, s); typedef Movemaker<GM> M; typedef typename GM::IndexType I; typedef typename GM::LabelType LT; size_t n = s.L.size(); VS cur(n, 0); M* mp; if (sym_param("init", 0)) { cur = anyLab(s.L); mp = new M(gm, cur.begin()); } else mp = new M(gm); M& m = *mp;
  auto same = [&]() { bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (m.state(i) == cur[i]); CHECKM(ok, "the labelling is the moved one"); CHECKM(VS(m.stateBegin(), m.stateEnd()) == cur, "state iterators"); CHECKM(m.value() == energyOf<GM>(s, cur), "incremental value is the model's value"); }; same();
  int only = sym_param("only", -1); size_t steps = sym_param("steps", 2); for (size_t q = 0; q < steps; ++q) {
    size_t script = sym_param("ops", 0), op = q == 0 && only >= 0 ? only : 9; if (script) { for (size_t z = q + 1; z < steps; ++z) script /= 10; op = script % 10; } if (op == 9) op = sym_choice("op", 6); VS vs; if (op < 4) vs = anySubset(n); std::vector<I> vi(vs.begin(), vs.end());
    if (op == 0 || op == 1) { VS d; for (size_t i = 0; i < vs.size(); ++i) d.push_back(sym_choice("to", s.L[vs[i]])); std::vector<LT> to(d.begin(), d.end()); VS nx = cur; for (size_t i = 0; i < vs.size(); ++i) nx[vs[i]] = d[i];
      double v = m.valueAfterMove(vi.begin(), vi.end(), to.begin()); CHECKM(v == energyOf<GM>(s, nx), "predicted value is the value of the moved labelling"); same(); if (op == 1) { CHECKM(m.move(vi.begin(), vi.end(), to.begin()) == v, "a move has the predicted value"); cur = nx; } }
    else if (op == 2 || op == 3) { VS L; for (size_t i = 0; i < vs.size(); ++i) L.push_back(s.L[vs[i]]); double before = energyOf<GM>(s, cur); VS old = cur; double r = op == 2 ? m.template moveOptimally<ACC>(vi.begin(), vi.end()) : m.template moveOptimallyWithAllLabelsChanging<ACC>(vi.begin(), vi.end());
      VS nw(m.stateBegin(), m.stateEnd()); CHECKM(validLab(s, nw), "the labelling is valid"); if (!validLab(s, nw)) return; bool ok = true; for (size_t i = 0; i < n; ++i) if (std::find(vs.begin(), vs.end(), i) == vs.end()) ok = ok & (nw[i] == old[i]); CHECKM(ok, "variables outside the subset stay"); double e = energyOf<GM>(s, nw); CHECKM(r == m.value(), "returned value"); CHECKM(!Less<ACC>::better(before, e), "an optimal move is never worse");
      ok = true; forLab(L, [&](const VS& y) { VS z = old; bool all = true; for (size_t i = 0; i < vs.size(); ++i) { z[vs[i]] = y[i]; if (y[i] == old[vs[i]]) all = false; } if (op == 2 || all) ok = ok & !Less<ACC>::better(energyOf<GM>(s, z), e); }); CHECKM(ok, "the optimal move is the best over the subset"); if (op == 3 && nw != old) { bool all = true; for (size_t i = 0; i < vs.size(); ++i) all = all & (nw[vs[i]] != old[vs[i]]); CHECKM(all, "every label of the subset changed"); } cur = nw; }
    else if (op == 4) { cur = anyLab(s.L); m.initialize(cur.begin()); } else { m.reset(); cur = VS(n, 0); }
    same(); }
  delete mp;
}
HARNESS(c19_moves) { OPS(mmRun) }
template<class GM, class ACC> void proposeRun(const Spec& s) { // a proposal from exhaustive search on the sub-model is optimal given the rest
  GM gm; buildGm(gm, s); typedef Movemaker<GM> M; size_t n = s.L.size(); VS cur = anyLab(s.L); M m(gm, cur.begin()); typedef Bruteforce<typename M::SubGmType, ACC> B; typename B::Parameter bp; size_t mask = 1 + sym_choice("mask", (size_t(1) << n) - 1); std::vector<typename GM::IndexType> vi; for (size_t i = 0; i < n; ++i) if (mask >> i & 1) vi.push_back(i);
  std::vector<typename GM::LabelType> to; typedef typename std::vector<typename GM::IndexType>::iterator It; m.template proposeMoveAccordingToInference<B, typename B::Parameter, It, It>(bp, vi.begin(), vi.end(), to); CHECKM(to.size() == vi.size(), "one label per variable of the subset"); VS x = cur; for (size_t i = 0; i < vi.size(); ++i) x[vi[i]] = to[i]; CHECKM(validLab(s, x), "the proposal is valid"); if (!validLab(s, x)) return; CHECKM((noBetterOn<GM, ACC>(s, x, VS(vi.begin(), vi.end()))), "the proposal is the best over the subset"); VS now(m.stateBegin(), m.stateEnd()); CHECKM(now == cur, "a proposal does not move"); sym_obs_d(energyOf<GM>(s, x)); }
HARNESS(c19_propose) { OPS(proposeRun) }
