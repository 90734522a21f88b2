// C01 / C02: GraphicalModel storage, evaluation, copying and factor-graph structure.
#include "gm_common.h"
using namespace opengm;

static Spec mixSpec(unsigned tp, unsigned lm, unsigned rot) {
  Topo t = topo(tp); Spec s; s.L = labs(t.n, lm); Rng r(-6, 6, 2);
  for (size_t v = 0; v < t.n; ++v) { if ((v + rot) % 3 == 1) s.f.push_back(fPar(s, mkVS(v), FCONST, mkVD(sy("c", r)))); else s.f.push_back(fExpl(s, mkVS(v), r)); }
  for (size_t i = 0; i < t.e.size(); ++i) {
    const VS& e = t.e[i]; unsigned k = (i + rot) % 8;
    if (e.size() == 3) { if (k % 2) s.f.push_back(fPar(s, e, FPOTTSN, mkVD(sy("a", r), sy("b", r)))); else s.f.push_back(fExpl(s, e, r)); continue; }
    switch (k) {
      case 0: s.f.push_back(fPar(s, e, FPOTTS, mkVD(sy("a", r), sy("b", r)))); break;
      case 1: s.f.push_back(fExpl(s, e, r)); break;
      case 2: s.f.push_back(fPar(s, e, FABS, mkVD(sy("a", r)))); break;
      case 3: s.f.push_back(fPar(s, e, FTSQ, mkVD(sy("a", r), sy("b", Rng(0, 4, 1))))); break;
      case 4: s.f.push_back(fPar(s, e, FSQ, mkVD(sy("a", r)))); break;
      case 5: s.f.push_back(fPar(s, e, FTABS, mkVD(sy("a", r), sy("b", Rng(0, 4, 1))))); break;
      case 6: s.f.push_back(fPar(s, e, FPOTTSN, mkVD(sy("a", r), sy("b", r)))); break;
      default: s.f.push_back(fPar(s, e, FCONST, mkVD(sy("a", r)))); break;
    }
  }
  return s;
}
// the model says exactly what the description says
template<class GM> void sameModel(const GM& gm, const Spec& s, double (*en)(const Spec&, const VS&)) {
  CHECK(gm.numberOfVariables() == s.L.size()); CHECK(gm.numberOfFactors() == s.f.size());
  size_t mo = 0;
  for (size_t v = 0; v < s.L.size(); ++v) CHECK(gm.numberOfLabels(v) == s.L[v] && gm.space().numberOfLabels(v) == s.L[v]);
  for (size_t f = 0; f < s.f.size(); ++f) {
    CHECK(gm.numberOfVariables(f) == s.f[f].vars.size() && gm[f].numberOfVariables() == s.f[f].vars.size()); mo = std::max(mo, s.f[f].vars.size());
    for (size_t i = 0; i < s.f[f].vars.size(); ++i) { CHECK(gm.variableOfFactor(f, i) == s.f[f].vars[i]); CHECK(gm[f].variableIndex(i) == s.f[f].vars[i]); CHECK(gm[f].numberOfLabels(i) == s.L[s.f[f].vars[i]]); CHECK(gm[f].shape(i) == s.L[s.f[f].vars[i]]); }
    CHECK(gm[f].size() == s.f[f].t.size());
    for (size_t k = 0; k < s.f[f].t.size(); ++k) { VS d = digits(k, s.f[f].shape); if (d.empty()) d.push_back(0); CHECKM(gm[f](d.begin()) == s.f[f].t[k], "factor value equals its function's value"); }
  }
  CHECK(gm.factorOrder() == mo);
  for (size_t v = 0; v < s.L.size(); ++v) {
    VS fs; for (size_t f = 0; f < s.f.size(); ++f) if (std::find(s.f[f].vars.begin(), s.f[f].vars.end(), v) != s.f[f].vars.end()) fs.push_back(f);
    CHECK(gm.numberOfFactors(v) == fs.size()); for (size_t j = 0; j < fs.size() && j < gm.numberOfFactors(v); ++j) CHECK(gm.factorOfVariable(v, j) == fs[j]);
  }
  forLab(s.L, [&](const VS& x) { double e = gm.evaluate(x.begin()); sym_obs_d(e); CHECKM(e == en(s, x), "evaluate() equals the combination of all factor values"); });
}
HARNESS(c01_eval) { Spec s = mixSpec(sym_param("topo", 2), sym_param("lab", 2), sym_param("rot", 0)); Gm8 gm; buildGm(gm, s); sameModel(gm, s, energyAdd); }
HARNESS(c01_eval_mul) {
  Spec s = specExpl(sym_param("topo", 2), sym_param("lab", 2), 1, Rng(-3, 3, 1), Rng(-3, 3, 1)); GmEM gm; buildGm(gm, s);
  forLab(s.L, [&](const VS& x) { double e = gm.evaluate(x.begin()); sym_obs_d(e); CHECKM(e == energyMul(s, x), "evaluate() under Multiplier equals the product of all factor values"); });
}
// models whose label space is compact (same number of labels everywhere), and grown by addVariable
HARNESS(c01_spaces) {
  unsigned n = 3; Rng r(-4, 4, 2);
  { typedef GraphicalModel<double, Adder, ExplicitFunction<double>, SimpleDiscreteSpace<size_t, size_t> > G; Spec s = specExpl(2, 1, 1, r, r); G gm(SimpleDiscreteSpace<size_t, size_t>(n, 3));
    for (size_t i = 0; i < s.f.size(); ++i) gm.addFactor(gm.addFunction(mkExpl(s.f[i])), s.f[i].vars.begin(), s.f[i].vars.end());
    sameModel(gm, s, energyAdd); }
  { typedef GraphicalModel<float, Adder, ExplicitFunction<float, unsigned, unsigned char>, DiscreteSpace<unsigned, unsigned char> > G; G gm; unsigned char L[3] = {2, 3, 2};
    for (unsigned v = 0; v < n; ++v) CHECK(gm.addVariable(L[v]) == v);
    CHECK(gm.numberOfVariables() == 3); float t[12]; unsigned sh[2] = {3, 2}; unsigned vi[2] = {1, 2}; ExplicitFunction<float, unsigned, unsigned char> f(sh, sh + 2), g(L, L + 1);
    for (int i = 0; i < 6; ++i) { t[i] = (float)sy("t", r); f(i) = t[i]; }
    for (int i = 0; i < 2; ++i) { t[6 + i] = (float)sy("t", r); g(i) = t[6 + i]; }
    gm.addFactor(gm.addFunction(f), vi, vi + 2); unsigned w[1] = {0}; gm.addFactor(gm.addFunction(g), w, w + 1);
    for (unsigned a = 0; a < 2; ++a) for (unsigned b = 0; b < 3; ++b) for (unsigned c = 0; c < 2; ++c) { unsigned char x[3] = {(unsigned char)a, (unsigned char)b, (unsigned char)c}; CHECK((double)gm.evaluate(x) == (double)t[b + 3 * c] + (double)t[6 + a]); } }
}
// arbitrary factor structure, built in an arbitrary order, sharing functions between factors
HARNESS(c01_build) {
  unsigned n = sym_param("n", 3), m = sym_param("m", 3); bool fin = sym_param("fin", 0); Spec s; s.L = VS(n, 2); Rng r(-4, 4, 2);
  Gm2 gm(DiscreteSpace<>(s.L.begin(), s.L.end()));
  std::vector<Gm2::FunctionIdentifier> ids; std::vector<Fac> fn;
  for (unsigned i = 0; i < m; ++i) {
    unsigned sub = 1 + sym_choice("subset", (1u << n) - 1); Fac f; for (unsigned v = 0; v < n; ++v) if (sub >> v & 1) f.vars.push_back(v);
    f.shape = VS(f.vars.size(), 2); size_t reuse = m; for (size_t k = 0; k < fn.size(); ++k) if (fn[k].shape == f.shape) reuse = k;
    Gm2::FunctionIdentifier id;
    if (reuse < m && sym_choice("share", 2)) { id = ids[reuse]; f.t = fn[reuse].t; }
    else { f.kind = FEXPL; if (f.vars.size() == 2 && i % 2) { VS v = f.vars; f = fPar(s, v, FPOTTS, mkVD(sy("a", r), sy("b", r))); } else { VS v = f.vars; f = fExpl(s, v, r); } id = AddFn<2, Gm2>::add(gm, f); }
    size_t fi = fin ? gm.addFactorNonFinalized(id, f.vars.begin(), f.vars.end()) : gm.addFactor(id, f.vars.begin(), f.vars.end());
    CHECKM(fi == i, "addFactor returns consecutive indices"); s.f.push_back(f); ids.push_back(id); fn.push_back(f);
  }
  if (fin) gm.finalize();
  for (size_t i = 0; i < m; ++i) CHECKM((gm[i].functionIndex() == ids[i].functionIndex) & (gm[i].functionType() == ids[i].functionType), "a factor names its function");
  sameModel(gm, s, energyAdd);
}
// copies are faithful and independent, through an arbitrary history of copies and assignments
HARNESS(c01_copy) {
  unsigned steps = sym_param("steps", 2); Rng r(-4, 4, 2);
  std::vector<Gm2*> g; std::vector<Spec> sp;
  { Spec s = specPotts(2, 2, 1, r, r); g.push_back(new Gm2); buildGm(*g[0], s); sp.push_back(s); }
  { Spec s = specExpl(9, 3, 2, r, r); g.push_back(new Gm2); buildGm(*g[1], s); sp.push_back(s); }
  { g.push_back(new Gm2); sp.push_back(Spec()); }
  for (unsigned k = 0; k < steps; ++k) {
    unsigned a = sym_choice("op", 6), i = sym_choice("src", g.size()), j = sym_choice("dst", g.size());
    switch (a) {
      case 0: g.push_back(new Gm2(*g[i])); { Spec c = sp[i]; sp.push_back(c); } break;
      case 1: *g[j] = *g[i]; { Spec c = sp[i]; sp[j] = c; } break;
      case 2: delete g[i]; g[i] = new Gm2; sp[i] = Spec(); break;
      case 3: { VS L = mkVS(2, 3); g[i]->assign(DiscreteSpace<>(L.begin(), L.end())); sp[i] = Spec(); sp[i].L = L; } break;
      case 4: { size_t v = g[i]->addVariable(2); CHECK(v == sp[i].L.size()); sp[i].L.push_back(2); Fac f = fExpl(sp[i], mkVS(v), r); g[i]->addFactor(g[i]->addFunction(mkExpl(f)), f.vars.begin(), f.vars.end()); sp[i].f.push_back(f); } break;
      case 5: if (!sp[i].f.empty() && sp[i].f[0].kind == FEXPL) { // change a function in place: only this model sees it
          Gm2& gm = *g[i]; Gm2::FunctionIdentifier id(gm[0].functionIndex(), gm[0].functionType()); double nv = sy("nv", r); gm.getFunction<ExplicitFunction<double> >(id)(0) = nv; sp[i].f[0].t[0] = nv; } break;
    }
  }
  for (size_t i = 0; i < g.size(); ++i) sameModel(*g[i], sp[i], energyAdd);
  for (size_t i = 0; i < g.size(); ++i) delete g[i];
}
// addSharedFunction: the returned function always has the values asked for
HARNESS(c01_shared) {
  Rng r(-2, 2, 1); Spec s; s.L = VS(3, 2); Gm2 gm(DiscreteSpace<>(s.L.begin(), s.L.end())); unsigned m = sym_param("m", 3);
  for (unsigned i = 0; i < m; ++i) {
    VS v = mkVS(i % 2, 1 + i % 2); Fac f; Gm2::FunctionIdentifier id; bool ex = sym_choice("expl", 2);
    if (ex) { f = fExpl(s, mkVS(i % 3), r); id = gm.addSharedFunction(mkExpl(f)); } else { f = fPotts(s, v[0], v[1], sy("a", r), sy("b", r)); id = gm.addSharedFunction(PottsFunction<double>(2, 2, f.par[0], f.par[1])); }
    gm.addFactor(id, f.vars.begin(), f.vars.end()); s.f.push_back(f);
  }
  sameModel(gm, s, energyAdd);
  // equal functions of one type are stored once
  size_t dist[2] = {0, 0};
  for (size_t i = 0; i < s.f.size(); ++i) { bool dup = false; for (size_t j = 0; j < i; ++j) if (s.f[j].kind == s.f[i].kind && s.f[j].shape == s.f[i].shape) { bool eq = true; for (size_t k = 0; k < s.f[i].t.size(); ++k) if (s.f[j].t[k] != s.f[i].t[k]) eq = false; if (eq) dup = true; } if (!dup) ++dist[s.f[i].kind == FPOTTS]; }
  CHECKM(gm.numberOfFunctions(0) == dist[0] && gm.numberOfFunctions(1) == dist[1], "addSharedFunction stores each distinct function once");
}
// invalid variable index sequences are refused, and the model stays usable
HARNESS(c01_reject) {
  Rng r(-4, 4, 2); Spec s = specPotts(2, 0, 1, r, r); Gm2 gm; buildGm(gm, s); unsigned nf = sym_param("nf", 0);
  size_t a = sym_u64("a", 0, 4), b = sym_u64("b", 0, 4); VS v = mkVS(a, b); bool ok = a < b && b < 3; bool threw = false;
  Fac f; f.vars = v; f.shape = mkVS(2, 2); f.kind = FPOTTS; f.par = mkVD(sy("p", r), sy("q", r)); f.t.resize(4); for (size_t i = 0; i < 4; ++i) f.t[i] = kindAt(FPOTTS, digits(i, f.shape), f.par);
  Gm2::FunctionIdentifier id = AddFn<2, Gm2>::add(gm, f);
  try { if (nf) { gm.addFactorNonFinalized(id, v.begin(), v.end()); gm.finalize(); } else gm.addFactor(id, v.begin(), v.end()); } catch (std::runtime_error&) { threw = true; }
  CHECKM(threw == !ok, "addFactor throws exactly for unsorted, repeated or out-of-range variable indices");
  if (!threw) s.f.push_back(f);
  sameModel(gm, s, energyAdd);
  CHECK(gm.isValidIndexSequence(v.begin(), v.end()) == ok);
}
// order-0 factors (constants) contribute to every labelling
HARNESS(c01_const) {
  Rng r(-4, 4, 2); Spec s = specExpl(sym_param("topo", 1), 2, 1, r, r); Gm2 gm; buildGm(gm, s); double c = sy("c", r); ExplicitFunction<double> f(c); VS none; gm.addFactor(gm.addFunction(f), none.begin(), none.end());
  CHECK(gm[gm.numberOfFactors() - 1].numberOfVariables() == 0);
  Gm2 h(gm); forLab(s.L, [&](const VS& x) { CHECK(gm.evaluate(x.begin()) == energyAdd(s, x) + c); CHECK(h.evaluate(x.begin()) == energyAdd(s, x) + c); });
}

// ---------------- C02 ----------------
typedef FactorGraph<GmE, size_t> FG;
static bool has(const VS& v, size_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
struct Gr { size_t n; std::vector<VS> f; };
static Gr anyGraph(unsigned n, unsigned m, unsigned maxo) {
  Gr g; g.n = n; for (unsigned i = 0; i < m; ++i) { unsigned sub = 1 + sym_choice("subset", (1u << n) - 1); VS v; for (unsigned k = 0; k < n; ++k) if (sub >> k & 1) v.push_back(k); if (v.size() > maxo) sym_discard(); g.f.push_back(v); } return g;
}
static GmE mk(const Gr& g) { VS L(g.n, 2); GmE gm((DiscreteSpace<>(L.begin(), L.end()))); for (size_t i = 0; i < g.f.size(); ++i) { VS sh(g.f[i].size(), 2); gm.addFactor(gm.addFunction(ExplicitFunction<double>(sh.begin(), sh.end(), 0.0)), g.f[i].begin(), g.f[i].end()); } return gm; }
static std::vector<VS> adj(const Gr& g) { std::vector<VS> a(g.n); for (size_t i = 0; i < g.n; ++i) for (size_t j = 0; j < g.n; ++j) if (i != j) for (size_t f = 0; f < g.f.size(); ++f) if (has(g.f[f], i) && has(g.f[f], j)) { a[i].push_back(j); break; } return a; }
static size_t comps(const Gr& g, VS& lab) { lab.resize(g.n); for (size_t i = 0; i < g.n; ++i) lab[i] = i; for (size_t it = 0; it < g.n; ++it) for (size_t f = 0; f < g.f.size(); ++f) { size_t m = g.n; for (size_t k = 0; k < g.f[f].size(); ++k) m = std::min(m, lab[g.f[f][k]]); for (size_t k = 0; k < g.f[f].size(); ++k) lab[g.f[f][k]] = m; } std::set<size_t> s(lab.begin(), lab.end()); return s.size(); }
HARNESS(c02_queries) {
  Gr g = anyGraph(sym_param("n", 3), sym_param("m", 3), 8); GmE gm = mk(g); std::vector<VS> a = adj(g); size_t n = g.n, m = g.f.size();
  std::vector<std::set<size_t> > l1; gm.variableAdjacencyList(l1); std::vector<RandomAccessSet<size_t> > l2; gm.variableAdjacencyList(l2); marray::Matrix<bool> M; gm.variableAdjacencyMatrix(M);
  CHECK(l1.size() == n && l2.size() == n && M.shape(0) == n && M.shape(1) == n);
  for (size_t i = 0; i < n; ++i) {
    CHECK(VS(l1[i].begin(), l1[i].end()) == a[i]); CHECK(VS(l2[i].begin(), l2[i].end()) == a[i]);
    VS fo; for (size_t f = 0; f < m; ++f) if (has(g.f[f], i)) fo.push_back(f);
    CHECK(VS(gm.factorsOfVariableBegin(i), gm.factorsOfVariableEnd(i)) == fo);
    for (size_t j = 0; j < n; ++j) { bool c = has(a[i], j); CHECK((bool)M(i, j) == c); CHECK(gm.variableVariableConnection(i, j) == c); }
    for (size_t f = 0; f < m; ++f) { bool c = has(g.f[f], i); CHECK(gm.variableFactorConnection(i, f) == c); CHECK(gm.factorVariableConnection(f, i) == c); }
    for (size_t k = 1; k <= n; ++k) { VS ids; for (size_t q = 0; q < fo.size(); ++q) if (g.f[fo[q]].size() == k) ids.push_back(fo[q]); CHECK(gm.numberOfNthOrderFactorsOfVariable(i, k) == ids.size()); marray::Vector<size_t> w; CHECK(gm.numberOfNthOrderFactorsOfVariable(i, k, w) == ids.size()); VS ww(w.begin(), w.end()); std::sort(ww.begin(), ww.end()); CHECK(ww == ids); }
  }
  std::vector<std::set<size_t> > f1; gm.factorAdjacencyList(f1); std::vector<RandomAccessSet<size_t> > f2; gm.factorAdjacencyList(f2); CHECK(f1.size() == m && f2.size() == m);
  size_t mo = 0;
  for (size_t f = 0; f < m; ++f) { VS nb; mo = std::max(mo, g.f[f].size()); CHECK(VS(gm.variablesOfFactorBegin(f), gm.variablesOfFactorEnd(f)) == g.f[f]);
    for (size_t h = 0; h < m; ++h) if (h != f) { bool c = false; for (size_t k = 0; k < g.f[f].size(); ++k) if (has(g.f[h], g.f[f][k])) c = true; if (c) nb.push_back(h); CHECK(gm.factorFactorConnection(f, h) == c); }
    CHECK(!gm.factorFactorConnection(f, f)); CHECK(VS(f1[f].begin(), f1[f].end()) == nb); CHECK(VS(f2[f].begin(), f2[f].end()) == nb);
    if (g.f[f].size() == 2) { CHECK(gm.secondVariableOfSecondOrderFactor(g.f[f][0], f) == g.f[f][1]); CHECK(gm.secondVariableOfSecondOrderFactor(g.f[f][1], f) == g.f[f][0]); } }
  CHECK(gm.maxFactorOrder() == mo); for (size_t k = 0; k <= n; ++k) CHECK(gm.maxFactorOrder(k) == (mo <= k));
}
// acyclic <=> the bipartite variable/factor graph is a forest; connected <=> one component
HARNESS(c02_global) {
  Gr g = anyGraph(sym_param("n", 3), sym_param("m", 3), 8); GmE gm = mk(g); VS lab; size_t nc = comps(g, lab); size_t edges = 0; for (size_t f = 0; f < g.f.size(); ++f) edges += g.f[f].size();
  bool forest = edges + nc == g.n + g.f.size(); CHECK(gm.isAcyclic() == forest);
  marray::Vector<size_t> rep; CHECK(gm.isConnected(rep) == (nc == 1)); CHECKM(rep.size() == nc, "one representative per connected component"); std::set<size_t> seen; for (size_t i = 0; i < rep.size(); ++i) { CHECK(rep[i] < g.n); seen.insert(lab[rep[i]]); } CHECKM(seen.size() == nc, "representatives lie in distinct components");
}
HARNESS(c02_chain) {
  Gr g = anyGraph(sym_param("n", 4), sym_param("m", 4), 3); GmE gm = mk(g); bool low = true; size_t pairs = 0; for (size_t f = 0; f < g.f.size(); ++f) { if (g.f[f].size() > 2) low = false; if (g.f[f].size() == 2) ++pairs; }
  VS lab; size_t nc = comps(g, lab); std::vector<VS> a = adj(g); bool chain = low && nc == 1 && pairs == g.n - 1; for (size_t i = 0; i < g.n; ++i) if (a[i].size() > 2) chain = false;
  marray::Vector<size_t> ids; bool r = gm.isChain(ids); CHECKM(r == chain, "isChain exactly for simple paths (plus unary factors)");
  if (r && chain) { CHECK(ids.size() == g.n); std::set<size_t> u(ids.begin(), ids.end()); CHECK(u.size() == g.n); for (size_t i = 0; i + 1 < ids.size(); ++i) CHECKM(has(a[ids[i]], ids[i + 1]), "consecutive chain variables are neighbours"); }
}
// grids under an arbitrary relabelling of the variables, plus near-grids
HARNESS(c02_grid) {
  unsigned w = sym_param("w", 2), h = sym_param("h", 2), un = sym_param("un", 1); Gr g; g.n = w * h; VS perm; std::vector<bool> used(g.n, false);
  unsigned sw = sym_param("swaps", 0); if (sw) { for (unsigned i = 0; i < g.n; ++i) perm.push_back(sw == 2 ? g.n - 1 - i : sw == 3 && i / w % 2 ? i / w * w + w - 1 - i % w : i); size_t i = sym_choice("swap", g.n), j = sym_choice("with", g.n); std::swap(perm[i], perm[j]); } // larger grids (in order, backwards, as a snake): two variables change places
  else for (unsigned i = 0; i < g.n; ++i) { unsigned k = sym_choice("perm", g.n - i); unsigned q = 0; for (;; ++q) if (!used[q]) { if (!k) break; --k; } used[q] = true; perm.push_back(q); }
  std::vector<VS> e; for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) { if (x + 1 < w) e.push_back(mkVS(perm[y * w + x], perm[y * w + x + 1])); if (y + 1 < h) e.push_back(mkVS(perm[y * w + x], perm[y * w + w + x])); }
  for (size_t i = 0; i < e.size(); ++i) std::sort(e[i].begin(), e[i].end());
  if (un) for (unsigned i = 0; i < g.n; ++i) g.f.push_back(mkVS(i));
  unsigned drop = sym_param("drop", 0) ? sym_choice("drop", e.size()) : e.size(); for (size_t i = 0; i < e.size(); ++i) if (i != drop) g.f.push_back(e[i]);
  bool extra = sym_param("extra", 0); if (extra) { size_t i = sym_choice("from", g.n), j = sym_choice("to", g.n); if (i >= j || std::find(e.begin(), e.end(), mkVS(i, j)) != e.end()) sym_discard(); g.f.push_back(mkVS(i, j)); }
  GmE gm = mk(g); marray::Matrix<size_t> ids; bool r = gm.isGrid(ids); std::vector<VS> a = adj(g);
  if (drop != e.size() && w > 2 && h > 2) CHECKM(!r, "a grid short of an edge is none");
  if (extra && drop == e.size()) CHECKM(!r, "a grid with a further edge is none");
  if (drop == e.size() && !extra) CHECKM(r, "a full grid is recognised under every variable order");
  if (r) { size_t d0 = ids.shape(0), d1 = ids.shape(1); CHECK(d0 * d1 == g.n); std::set<size_t> u; size_t ne = 0;
    for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) { u.insert(ids(i, j)); CHECK(ids(i, j) < g.n); if (i + 1 < d0) { ++ne; CHECKM(has(a[ids(i, j)], ids(i + 1, j)), "grid neighbours are connected"); } if (j + 1 < d1) { ++ne; CHECKM(has(a[ids(i, j)], ids(i, j + 1)), "grid neighbours are connected"); } }
    CHECK(u.size() == g.n); size_t pe = 0; for (size_t f = 0; f < g.f.size(); ++f) if (g.f[f].size() == 2) ++pe; CHECKM(ne == pe, "the grid accounts for every pairwise factor"); }
}
// function identifiers: == is identity, < a strict total order (they are used as map keys)
HARNESS(c02_fid) {
  typedef GmE::FunctionIdentifier F; F x[3]; for (int i = 0; i < 3; ++i) x[i] = F(sym_u64("fi", 0, 1000), (unsigned char)sym_u64("ft", 0, 200));
  F &a = x[0], &b = x[1], &c = x[2]; bool eq = a.functionIndex == b.functionIndex && a.functionType == b.functionType;
  CHECK((a == b) == eq); CHECKM((int)(a < b) + (int)(b < a) + (int)eq == 1, "exactly one of a<b, b<a, a==b"); CHECKM(!(a < b && b < c) || a < c, "< is transitive"); CHECK((a > b) == (b < a)); CHECK((a <= b) == !(b < a)); CHECK((a >= b) == !(a < b));
}
