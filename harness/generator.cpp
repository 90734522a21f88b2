// C35: synthetic model generators, for every outcome of the random source.
#include "gm_common.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <cstdlib>
static uint64_t curSeed = 0, curIdx = 0; static std::map<std::pair<uint64_t, uint64_t>, int64_t> stream;
static int sym_rand() { std::pair<uint64_t, uint64_t> k(curSeed, curIdx++); std::map<std::pair<uint64_t, uint64_t>, int64_t>::iterator it = stream.find(k); if (it != stream.end()) return (int)it->second; int64_t base = sym_param("base", 0) == 0 ? 0 : sym_param("base", 0) == 1 ? 999900 : 2147483647 - 254; int64_t r = base + sym_i64("rand", 0, 254); stream[k] = r; return (int)r; }
static void sym_srand(uint64_t s) { curSeed = s; curIdx = 0; }
#include <opengm/functions/constant.hxx>
#define rand sym_rand
#define srand sym_srand
#undef RAND_MAX
#define RAND_MAX 2147483647
#include <opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx>
#undef rand
#undef srand
using namespace opengm;
typedef meta::TypeListGenerator<ExplicitFunction<double>, PottsFunction<double>, ConstantFunction<double>, AbsoluteDifferenceFunction<double> >::type FTG;
typedef GraphicalModel<double, Adder, FTG, DiscreteSpace<> > GmG;
typedef SyntheticModelGenerator2<GmG> G2; typedef SyntheticModelGenerator<GmG> G1;
static bool isInt(double v) { bool ok = false; for (int k = -8; k <= 8; ++k) ok = ok | (v == k); return ok; }
static void sameModel(const GmG& a, const GmG& b) { CHECKM(a.numberOfVariables() == b.numberOfVariables() && a.numberOfFactors() == b.numberOfFactors(), "the same seed gives the same model"); for (size_t v = 0; v < a.numberOfVariables(); ++v) CHECKM(a.numberOfLabels(v) == b.numberOfLabels(v), "same labels"); for (size_t f = 0; f < a.numberOfFactors(); ++f) { VS sh; for (size_t i = 0; i < a[f].numberOfVariables(); ++i) { CHECKM(a[f].variableIndex(i) == b[f].variableIndex(i), "same scope"); sh.push_back(a[f].numberOfLabels(i)); } forLab(sh, [&](const VS& x) { CHECKM(a[f](x.begin()) == b[f](x.begin()), "same values"); }); } }
// judges the values of the factor f under the announced kind
static void judgeValues(const GmG& gm, size_t f, int kind, const VD& p) {
  VS sh; for (size_t i = 0; i < gm[f].numberOfVariables(); ++i) { CHECKM(gm[f].numberOfLabels(i) == gm.numberOfLabels(gm[f].variableIndex(i)), "shape"); sh.push_back(gm[f].numberOfLabels(i)); }
  double off = 0, step = 0; bool hoff = false, hstep = false;
  forLab(sh, [&](const VS& x) { double v = gm[f](x.begin()); bool eq = x.size() < 2 || x[0] == x[1]; sym_obs_d(v);
    switch (kind) {
      case G2::CONSTF: CHECKM(v == p[0], "constant"); break;
      case G2::URANDOM: CHECKM(v >= p[0] && (v < p[1] || p[0] == p[1]), "in range"); break;
      case G2::IRANDOM: CHECKM(v >= p[0] && v < p[1] && isInt(v - p[0]), "integer in range"); break;
      case G2::GPOTTS: CHECKM(v == (eq ? 0 : p[0]), "Potts with the given value"); break;
      case G2::RGPOTTS: if (eq) CHECKM(v == 0, "zero for equal labels"); else { CHECKM(v >= p[0] && (v < p[1] || p[0] == p[1]), "in range"); if (hoff) CHECKM(v == off, "one value"); off = v; hoff = true; } break;
      case G2::RPOTTS: if (eq) CHECKM(v == 0, "zero for equal labels"); else { CHECKM(v <= p[0] && v > -p[0], "in range"); if (hoff) CHECKM(v == off, "one value"); off = v; hoff = true; } break;
      case G2::L1: { double d = x[0] > x[1] ? (double)(x[0] - x[1]) : (double)(x[1] - x[0]); if (d == 0) CHECKM(v == 0, "zero for equal labels"); else if (hstep) CHECKM(v <= step * d + 1e-9 && v >= step * d - 1e-9, "proportional to the distance"); else { step = v / d; hstep = true; CHECKM(step > 0, "positive"); } } break;
    } });
}
static void judge(const GmG& gm, const std::vector<VS>& want, const G2::Parameter& p, size_t n, size_t nl) {
  CHECKM(gm.numberOfVariables() == n, "number of variables"); for (size_t v = 0; v < n; ++v) CHECKM(p.randomNumberOfStates_ ? (gm.numberOfLabels(v) >= 1) & (gm.numberOfLabels(v) <= nl) : gm.numberOfLabels(v) == nl, "number of labels");
  size_t un = p.functionTypes_[0] == G2::EMPTY ? 0 : n; CHECKM(gm.numberOfFactors() == un + want.size(), "number of factors"); std::vector<int> seen(n, 0); std::vector<int> used(want.size(), 0); long first[2] = {-1, -1};
  for (size_t f = 0; f < gm.numberOfFactors(); ++f) { VS vars(gm[f].variableIndicesBegin(), gm[f].variableIndicesEnd()); size_t kind = vars.size() == 1 ? 0 : 1; bool ok = false; if (!kind) { ok = un && !seen[vars[0]]; if (ok) seen[vars[0]] = 1; } else for (size_t w = 0; w < want.size() && !ok; ++w) if (!used[w] && want[w] == vars) { used[w] = 1; ok = true; } CHECKM(ok, "an announced factor, once"); if (!ok) continue;
    judgeValues(gm, f, p.functionTypes_[kind], p.functionParameters_[kind]);
    if (p.sharedFunctions_[kind] && !p.randomNumberOfStates_) { if (first[kind] < 0) first[kind] = (long)f; else { size_t g = (size_t)first[kind]; VS sh; for (size_t i = 0; i < vars.size(); ++i) sh.push_back(nl); forLab(sh, [&](const VS& x) { CHECKM(gm[f](x.begin()) == gm[g](x.begin()), "shared function"); }); } } }
}
static G2::Parameter par() {
  static const G2::FunctionTypes K[] = {G2::EMPTY, G2::CONSTF, G2::URANDOM, G2::IRANDOM, G2::GPOTTS, G2::RGPOTTS, G2::L1, G2::RPOTTS}; G2::Parameter p; p.functionTypes_[0] = K[sym_param("u", 2)]; p.functionTypes_[1] = K[sym_param("b", 2)]; p.sharedFunctions_[0] = sym_param("su", 0); p.sharedFunctions_[1] = sym_param("sb", 0); p.randomNumberOfStates_ = sym_param("rnd", 0);
  for (int k = 0; k < 2; ++k) { G2::FunctionTypes t = p.functionTypes_[k]; VD v; if (t == G2::URANDOM || t == G2::RGPOTTS) { double a = sym_num("lo", -2, 2, 1), d = sym_num("d", 0, 3, 1); v = mkVD(a, a + d); } else if (t == G2::IRANDOM) { double a = sym_num("lo", -2, 2, 1); size_t d = 1 + sym_choice("d", 3); v = mkVD(a, a + (double)d); } else if (t == G2::RPOTTS) v = mkVD(sym_num("p", 1, 3, 1)); else v = mkVD(sym_num("p", -3, 3, 1)); p.functionParameters_[k] = v; }
  return p;
}
static VS pr(size_t a, size_t b) { return a < b ? mkVS(a, b) : mkVS(b, a); }
static void grid() { size_t h = sym_param("h", 2), w = sym_param("w", 2), nl = sym_param("nl", 2), order = sym_param("order", 0); G2::Parameter p = par(); G2 g; GmG gm = order ? g.buildHigherOrderGrid(5, h, w, nl, order, p) : g.buildGrid(5, h, w, nl, p); if (!order) order = 2;
  std::vector<VS> want; for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) { VS a, b; for (size_t k = 0; k < order; ++k) { a.push_back(i + k + h * j); b.push_back(i + h * (j + k)); } if (i + order <= h) want.push_back(a); if (j + order <= w) want.push_back(b); }
  judge(gm, want, p, h * w, nl); if (sym_param("twice", 0)) { GmG other = g.buildGrid(6, 1, 2, nl, p); sameModel(gm, g.buildGrid(5, h, w, nl, p)); } }
HARNESS(c35_grid) { grid(); }
HARNESS(c35_higher_order) { grid(); }
HARNESS(c35_full) { size_t n = sym_param("n", 3), nl = sym_param("nl", 2); G2::Parameter p = par(); G2 g; GmG gm = g.buildFull(9, n, nl, p); std::vector<VS> want; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) want.push_back(mkVS(i, j)); judge(gm, want, p, n, nl); if (sym_param("twice", 0)) sameModel(gm, g.buildFull(9, n, nl, p)); }
HARNESS(c35_star) { size_t n = sym_param("n", 3), nl = sym_param("nl", 2); G2::Parameter p = par(); G2 g; GmG gm = g.buildStar(3, n, nl, p); size_t root = n; for (size_t r = 0; r < n && root == n; ++r) { size_t c = 0; for (size_t f = 0; f < gm.numberOfFactors(); ++f) if (gm[f].numberOfVariables() == 2 && (gm[f].variableIndex(0) == r || gm[f].variableIndex(1) == r)) ++c; if (c + 1 == n) root = r; } CHECKM(root < n, "there is a centre"); if (root == n) return; std::vector<VS> want; for (size_t i = 0; i < n; ++i) if (i != root) want.push_back(pr(i, root)); judge(gm, want, p, n, nl); if (sym_param("twice", 0)) sameModel(gm, g.buildStar(3, n, nl, p)); }
HARNESS(c35_runs) { // the generator for grids with factors along runs of any length
  static const G1::Parameter::FunctionTypes K[] = {G1::Parameter::CONSTF, G1::Parameter::URANDOM, G1::Parameter::IRANDOM, G1::Parameter::POTTS, G1::Parameter::L1}; size_t w = sym_param("w", 2), h = sym_param("h", 2), nl = sym_param("nl", 2), spec = sym_param("spec", 21), given = sym_param("given", 0), shared = sym_param("shared", 0); bool rnd = sym_param("rnd", 0);
  G1::Parameter p(nl, rnd); VS ord; VS ty; double lo = sym_num("lo", -1, 1, 1); size_t d = 2; for (; spec; spec /= 100) { size_t o = spec % 10, t = spec / 10 % 10; ord.push_back(o); ty.push_back(t); p.functionsType_.push_back(K[t]); double l = t == 2 ? -1 : lo; p.functionsMinMax_.push_back(G1::Parameter::MinMax(l, l + (double)d)); p.functionsOrder_.push_back(o); p.sharedFunctions_.push_back(shared); VD v; if (given) { size_t m = t == 0 || t == 4 ? 1 : t == 3 ? 2 : prodS(VS(o, nl)); for (size_t i = 0; i < m; ++i) v.push_back(sym_num("v", -3, 3, 1)); } p.functionsParameter_.push_back(v); }
  CHECKM(p.sanityCheck(), "consistent parameters"); GmG gm = G1::buildGrid(4, w, h, p); CHECKM(gm.numberOfVariables() == w * h, "number of variables"); for (size_t v = 0; v < w * h; ++v) CHECKM(rnd ? (gm.numberOfLabels(v) >= 1) & (gm.numberOfLabels(v) <= nl) : gm.numberOfLabels(v) == nl, "number of labels");
  std::vector<VS> want; VS wty; for (size_t q = 0; q < ord.size(); ++q) for (size_t j = 0; j < w; ++j) for (size_t k = 0; k < h; ++k) { VS a, b; for (size_t l = 0; l < ord[q]; ++l) { a.push_back(j + l + k * w); b.push_back(j + (k + l) * w); } if (j + ord[q] <= w) { want.push_back(a); wty.push_back(q); } if (k + ord[q] <= h && ord[q] > 1) { want.push_back(b); wty.push_back(q); } }
  CHECKM(gm.numberOfFactors() == want.size(), "number of factors"); std::vector<int> used(want.size(), 0); std::map<std::pair<size_t, VS>, size_t> first;
  for (size_t f = 0; f < gm.numberOfFactors(); ++f) { VS vars(gm[f].variableIndicesBegin(), gm[f].variableIndicesEnd()); size_t m = want.size(); for (size_t c = 0; c < want.size() && m == want.size(); ++c) if (!used[c] && want[c] == vars) m = c; CHECKM(m < want.size(), "an announced factor, once"); if (m == want.size()) continue; used[m] = 1; size_t q = wty[m], t = ty[q]; const VD& v = p.functionsParameter_[q]; double l = p.functionsMinMax_[q].first, u = p.functionsMinMax_[q].second; VS sh; for (size_t i = 0; i < vars.size(); ++i) sh.push_back(gm.numberOfLabels(vars[i])); double eq = 0, ne = 0, st = 0; bool he = false, hn = false, hs = false;
    forLab(sh, [&](const VS& x) { double y = gm[f](x.begin()); sym_obs_d(y); double dist = x.size() < 2 ? 0 : x[0] > x[1] ? (double)(x[0] - x[1]) : (double)(x[1] - x[0]);
      if (given) { CHECKM(y == (t == 0 ? v[0] : t == 3 ? (x[0] == x[1] ? v[0] : v[1]) : t == 4 ? v[0] * dist : v[flat(x, VS(x.size(), nl))]), "the given value"); return; }
      if (t != 4) CHECKM(y >= l && y < u, "in range"); if (t == 2) CHECKM(isInt(y), "integer"); if (t == 0) { if (he) CHECKM(y == eq, "constant"); eq = y; he = true; }
      if (t == 3) { if (x[0] == x[1]) { if (he) CHECKM(y == eq, "one value for equal labels"); eq = y; he = true; } else { if (hn) CHECKM(y == ne, "one value for unequal labels"); ne = y; hn = true; } }
      if (t == 4) { if (dist == 0) CHECKM(y == 0, "zero for equal labels"); else if (dist == 1) { CHECKM(y >= l && y < u, "in range"); st = y; hs = true; } else if (hs) CHECKM(y == st * dist, "proportional to the distance"); } });
    if (shared) { std::pair<size_t, VS> key(q, sh); if (!first.count(key)) first[key] = f; else { size_t g = first[key]; forLab(sh, [&](const VS& x) { CHECKM(gm[f](x.begin()) == gm[g](x.begin()), "shared function"); }); } } }
}
