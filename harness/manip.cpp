#include "gm_common.h"
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
#include <opengm/inference/bruteforce.hxx>
using namespace opengm;
static Spec mkSpec() {
  unsigned tp = sym_param("topo", 1), lm = sym_param("lab", 0), um = sym_param("un", 1); int64_t R = sym_param("R", 3); Rng r(-R, R, 1);
  Spec s; Topo t = topo(tp); s.L = labs(t.n, lm); addUnaries(s, um, r);
  for (size_t i = 0; i < t.e.size(); ++i) if (sym_param("potts", 0) && t.e[i].size() == 2) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], 0, sy("w", r))); else s.f.push_back(fExpl(s, t.e[i], r));
  if (sym_param("cf", 0)) s.f.insert(s.f.begin() + s.f.size() / 2, fExpl(s, VS(), r));
  unsigned conc = sym_param("conc", 0); if (conc > 1) { size_t k = 0; for (size_t i = 0; i < s.f.size(); ++i) for (size_t j = 0; j < s.f[i].t.size(); ++j, ++k) if (s.f[i].kind == FEXPL && k % conc) s.f[i].t[j] = (double)((k * 7) % 9) - 4; }
  return s;
}
struct Fix { std::vector<char> f; VS l; };
static Fix drawFix(const Spec& s) { Fix F; F.f.assign(s.L.size(), 0); F.l.assign(s.L.size(), 0); for (size_t v = 0; v < s.L.size(); ++v) { size_t c = sym_choice("fix", s.L[v] + 1); if (c) { F.f[v] = 1; F.l[v] = c - 1; } } return F; }
// value of x under FIX (all factors) or DROP (only factors without fixed variables)
template<class GM> double refVal(const Spec& s, const Fix& F, bool drop, const VS& x) { double e = IsMul<GM>::v ? 1 : 0; for (size_t i = 0; i < s.f.size(); ++i) { bool has = false; for (size_t j = 0; j < s.f[i].vars.size(); ++j) has = has || F.f[s.f[i].vars[j]]; if (drop && has) continue; double v = facAt(s.f[i], x); if (IsMul<GM>::v) e *= v; else e += v; } return e; }
template<class GM> void checkBuilt(GraphicalModelManipulator<GM>& m, const Spec& s, const Fix& F, bool drop, bool sub) {
  typedef typename GraphicalModelManipulator<GM>::MGM MGM; typedef typename GM::LabelType LT;
  VS fr; for (size_t v = 0; v < s.L.size(); ++v) { CHECKM(m.isFixed(v) == (F.f[v] != 0), "isFixed"); if (!F.f[v]) fr.push_back(v); }
  VS FL; for (size_t i = 0; i < fr.size(); ++i) FL.push_back(s.L[fr[i]]);
  if (!sub) {
    m.buildModifiedModel(); const MGM& g = m.getModifiedModel(); CHECKM(m.isLocked(), "locked");
    CHECKM(g.numberOfVariables() == fr.size(), "number of free variables"); for (size_t i = 0; i < fr.size(); ++i) CHECKM(g.numberOfLabels(i) == s.L[fr[i]], "label counts of the reduced model");
    forLab(FL, [&](const VS& y) { VS x = F.l; for (size_t i = 0; i < fr.size(); ++i) x[fr[i]] = y[i];
      std::vector<LT> ml(y.begin(), y.end()), ol; m.modifiedState2OriginalState(ml, ol); VS o(ol.begin(), ol.end()); CHECKM(o == x, "labelling mapped back");
      double v; if (y.empty()) { LT d = 0; v = g.evaluate(&d); } else v = g.evaluate(ml.begin());
      CHECKM(v == refVal<GM>(s, F, drop, x), "value of the reduced model"); });
  } else {
    m.buildModifiedSubModels(); size_t n = m.numberOfSubmodels(); CHECKM(m.isLocked(), "locked");
    // reference components of the free variables
    VS comp(s.L.size(), 0); size_t nc = 0; { std::vector<int> c(s.L.size(), -1); for (size_t v = 0; v < s.L.size(); ++v) if (!F.f[v] && c[v] < 0) { c[v] = nc; bool ch = true; while (ch) { ch = false; for (size_t f = 0; f < s.f.size(); ++f) { bool t = false; for (size_t j = 0; j < s.f[f].vars.size(); ++j) if (c[s.f[f].vars[j]] == (int)nc) t = true; if (t) for (size_t j = 0; j < s.f[f].vars.size(); ++j) { size_t w = s.f[f].vars[j]; if (!F.f[w] && c[w] < 0) { c[w] = nc; ch = true; } } } } ++nc; } for (size_t v = 0; v < s.L.size(); ++v) comp[v] = c[v] < 0 ? 0 : c[v]; }
    CHECKM(n == (nc ? nc : 1), "one submodel per connected component");
    std::vector<VS> cv(n); for (size_t i = 0; i < fr.size(); ++i) cv[comp[fr[i]]].push_back(fr[i]);
    for (size_t i = 0; i < n; ++i) { CHECKM(m.getModifiedSubModel(i).numberOfVariables() == cv[i].size(), "variables of the submodel"); for (size_t j = 0; j < cv[i].size(); ++j) CHECKM(m.getModifiedSubModel(i).numberOfLabels(j) == s.L[cv[i][j]], "labels of the submodel"); }
    forLab(FL, [&](const VS& y) { VS x = F.l; for (size_t i = 0; i < fr.size(); ++i) x[fr[i]] = y[i];
      std::vector<std::vector<LT> > sc(n); double v = IsMul<GM>::v ? 1 : 0; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < cv[i].size(); ++j) sc[i].push_back(x[cv[i][j]]); LT d = 0; double w = sc[i].empty() ? m.getModifiedSubModel(i).evaluate(&d) : m.getModifiedSubModel(i).evaluate(sc[i].begin()); if (IsMul<GM>::v) v *= w; else v += w; }
      std::vector<LT> ol; m.modifiedSubStates2OriginalState(sc, ol); VS o(ol.begin(), ol.end()); CHECKM(o == x, "submodel labellings mapped back");
      CHECKM(v == refVal<GM>(s, F, drop, x), "values of the submodels add up"); });
  }
}
template<class GM> void runFix() {
  typedef GraphicalModelManipulator<GM> M; Spec s = mkSpec(); GM gm; buildGm(gm, s); bool drop = sym_param("drop", 0); bool sub = sym_param("sub", 0); size_t rounds = sym_param("rounds", 1);
  M m(gm, drop ? M::DROP : M::FIX); CHECKM(&m.getOriginalModel() == &gm && !m.isLocked(), "fresh manipulator");
  Fix F = drawFix(s); for (size_t v = 0; v < s.L.size(); ++v) if (F.f[v]) { if (sym_param("twice", 0)) m.fixVariable(v, s.L[v] - 1); m.fixVariable(v, F.l[v]); }
  if (sym_param("freeone", 0)) { size_t v = sym_choice("free", s.L.size()); m.freeVariable(v); F.f[v] = 0; F.l[v] = 0; }
  if (sym_param("lock", 1)) { m.lock(); CHECKM(m.isLocked(), "lock"); m.fixVariable(0, 0); m.freeVariable(0); m.freeAllVariables(); }
  checkBuilt(m, s, F, drop, sub); if (sym_param("both", 0)) checkBuilt(m, s, F, drop, !sub);
  for (size_t r = 1; r < rounds; ++r) { m.unlock(); CHECKM(!m.isLocked(), "unlock"); for (size_t v = 0; v < s.L.size(); ++v) CHECKM(!m.isFixed(v), "unlocking frees the variables"); Fix G = drawFix(s); for (size_t v = 0; v < s.L.size(); ++v) if (G.f[v]) m.fixVariable(v, G.l[v]); m.lock(); checkBuilt(m, s, G, drop, sub); }
}
HARNESS(c20_fix) { switch (sym_param("op", 0)) { case 0: runFix<Gm2>(); break; case 1: runFix<GmEM>(); break; } }
// tentacle elimination: fixed labels kept, the reduced model's value at y is the value of the labelling mapped back,
// and that labelling is optimal among all completions of y
template<class GM, class ACC> void runTent() {
  typedef GraphicalModelManipulator<GM> M; typedef typename M::MGM MGM; typedef typename GM::LabelType LT;
  Spec s = mkSpec(); GM gm; buildGm(gm, s); M m(gm); Fix F = drawFix(s); bool sub = sym_param("sub", 0); size_t n = s.L.size();
  for (size_t v = 0; v < n; ++v) if (F.f[v]) m.fixVariable(v, F.l[v]);
  m.template lockAndTentacelElimination<ACC>(); CHECKM(m.isLocked(), "locked");
  VS fr; for (size_t v = 0; v < n; ++v) { if (F.f[v]) CHECKM(m.isFixed(v), "user-fixed variable stays fixed"); if (!m.isFixed(v)) fr.push_back(v); }
  VS FL; for (size_t i = 0; i < fr.size(); ++i) FL.push_back(s.L[fr[i]]);
  VS orig; for (size_t v = 0; v < n; ++v) if (!F.f[v]) orig.push_back(v); VS OL; for (size_t i = 0; i < orig.size(); ++i) OL.push_back(s.L[orig[i]]);
  if (sub) m.buildModifiedSubModels(); else m.buildModifiedModel();
  std::vector<VS> cv; if (sub) { // components of what is left
    std::vector<int> c(n, -1); for (size_t i = 0; i < fr.size(); ++i) { size_t v = fr[i]; if (c[v] >= 0) continue; int id = cv.size(); c[v] = id; bool ch = true; while (ch) { ch = false; for (size_t f = 0; f < s.f.size(); ++f) { bool t = false; for (size_t j = 0; j < s.f[f].vars.size(); ++j) if (c[s.f[f].vars[j]] == id) t = true; if (t) for (size_t j = 0; j < s.f[f].vars.size(); ++j) { size_t w = s.f[f].vars[j]; if (!m.isFixed(w) && c[w] < 0) { c[w] = id; ch = true; } } } } cv.push_back(VS()); }
    for (size_t i = 0; i < fr.size(); ++i) cv[c[fr[i]]].push_back(fr[i]); if (cv.empty()) cv.resize(1); CHECKM(m.numberOfSubmodels() == cv.size(), "submodels"); }
  forLab(FL, [&](const VS& y) {
    std::vector<LT> ml(y.begin(), y.end()), ol; LT d = 0; double v = IsMul<GM>::v ? 1 : 0;
    if (!sub) { CHECKM(m.getModifiedModel().numberOfVariables() == fr.size(), "free variables"); m.modifiedState2OriginalState(ml, ol); v = y.empty() ? m.getModifiedModel().evaluate(&d) : m.getModifiedModel().evaluate(ml.begin()); }
    else { std::vector<std::vector<LT> > sc(cv.size()); for (size_t i = 0; i < cv.size(); ++i) { for (size_t j = 0; j < cv[i].size(); ++j) for (size_t k = 0; k < fr.size(); ++k) if (fr[k] == cv[i][j]) sc[i].push_back(y[k]); double w = sc[i].empty() ? m.getModifiedSubModel(i).evaluate(&d) : m.getModifiedSubModel(i).evaluate(sc[i].begin()); if (IsMul<GM>::v) v *= w; else v += w; } m.modifiedSubStates2OriginalState(sc, ol); }
    VS x(ol.begin(), ol.end()); CHECKM(validLab(s, x), "labelling mapped back is valid");
    for (size_t k = 0; k < n; ++k) if (F.f[k]) CHECKM(x[k] == F.l[k], "fixed labels survive"); for (size_t i = 0; i < fr.size(); ++i) CHECKM(x[fr[i]] == y[i], "free labels survive");
    double e = energyOf<GM>(s, x); CHECKM(v == e, "value of the reduced model is the value of the labelling mapped back");
    bool ok = true; forLab(OL, [&](const VS& z) { VS w = F.l; for (size_t i = 0; i < orig.size(); ++i) w[orig[i]] = z[i]; bool same = true; for (size_t i = 0; i < fr.size(); ++i) same = same && w[fr[i]] == y[i]; if (same) ok = ok & !Less<ACC>::better(energyOf<GM>(s, w), e); });
    CHECKM(ok, "eliminated variables take their best labels"); });
  if (sym_param("again", 0)) { m.unlock(); Fix G = drawFix(s); for (size_t v = 0; v < n; ++v) if (G.f[v]) m.fixVariable(v, G.l[v]); m.lock(); checkBuilt(m, s, G, false, sub); }
}
HARNESS(c20_tentacles) { switch (sym_param("op", 0)) { case 0: runTent<Gm2, Minimizer>(); break; case 1: runTent<Gm2, Maximizer>(); break; } }
