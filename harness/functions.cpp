// C03 values, C04 flags and summaries, C05 serialisation of the built-in function types
#include "gm_common.h"
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
using namespace opengm;
static VS shapeParam() { VS s; size_t d = sym_param("dim", 2); size_t c = sym_param("shape", 233); VS r; for (size_t i = 0; i < d; ++i) { r.push_back(c % 10); c /= 10; } for (size_t i = d; i-- > 0;) s.push_back(r[i]); return s; }
template<class F> void checkShape(const F& f, const VS& sh) { CHECKM(f.dimension() == sh.size(), "dimension"); for (size_t i = 0; i < sh.size(); ++i) CHECKM(f.shape(i) == sh[i], "shape"); CHECKM(f.size() == prodS(sh), "size"); }
template<class F> void checkTable(const F& f, const VS& sh, const VD& t) {
  checkShape(f, sh);
  for (size_t k = 0; k < t.size(); ++k) { VS x = digits(k, sh); x.push_back(0); double v = f(x.begin()); CHECKM(v == t[k], "value"); sym_obs_d(v); }
}
// partition code of a label tuple: first-occurrence numbering
static VS pattern(const VS& x) { VS p; for (size_t i = 0; i < x.size(); ++i) { size_t j = 0; while (x[j] != x[i]) ++j; p.push_back(j); } return p; }
static VD tableOf(const VS& sh, std::function<double(const VS&)> g) { VD t; for (size_t k = 0; k < prodS(sh); ++k) t.push_back(g(digits(k, sh))); return t; }

// kinds
enum { K_POTTS, K_ABS, K_SQ, K_TABS, K_TSQ, K_POTTSN, K_CONST, K_EXPL, K_SPARSE, K_POTTSG, K_LCOST, K_LCOST1, K_LCOSTS, K_LCOST1S, K_SUM, K_SUMS, K_FOE, K_SINGLE, K_LPOTTS, K_LUNARY, K_LWS, K_SSTATIC };
typedef ExplicitFunction<double> FE; typedef SparseFunction<double, size_t, size_t, std::map<size_t, double> > FSp;
struct Mk { int kind; VS sh; VD p; VD t; std::vector<size_t> aux; double cover; };
// draws symbolic parameters and computes the oracle table
static VD kindTable(Mk& m) {
  const VS& sh = m.sh;
  switch (m.kind) {
    case K_POTTS: case K_POTTSN: m.p.push_back(sym_num("eq", -6, 6, 2)); m.p.push_back(sym_num("ne", -6, 6, 2)); return tableOf(sh, [&](const VS& x) { bool e = true; for (size_t i = 1; i < x.size(); ++i) e = e && x[i] == x[0]; return e ? m.p[0] : m.p[1]; });
    case K_ABS: case K_SQ: m.p.push_back(sym_num("w", -6, 6, 2)); return tableOf(sh, [&](const VS& x) { double d = x[0] > x[1] ? x[0] - x[1] : x[1] - x[0]; return m.p[0] * (m.kind == K_SQ ? d * d : d); });
    case K_TABS: case K_TSQ: { m.p.push_back(sym_num("w", -6, 6, 2)); int64_t tr = sym_param("trunc", 99); m.p.push_back(tr == 99 ? sym_num("trunc", 0, 20, 2) : tr * 0.5); return tableOf(sh, [&](const VS& x) { double d = x[0] > x[1] ? x[0] - x[1] : x[1] - x[0]; if (m.kind == K_TSQ) d = d * d; return m.p[0] * sym_ite_d(d < m.p[1], d, m.p[1]); }); }
    case K_CONST: m.p.push_back(sym_num("c", -6, 6, 2)); return VD(prodS(sh), m.p[0]);
    case K_EXPL: for (size_t i = 0; i < prodS(sh); ++i) m.p.push_back(sym_num("t", -6, 6, 2)); return m.p;
    case K_SPARSE: { m.p.push_back(sym_num("def", -6, 6, 2)); VD t(prodS(sh), m.p[0]); for (size_t i = 0; i < t.size(); ++i) if (sym_choice("has", 2)) { t[i] = sym_num("t", -6, 6, 2); m.aux.push_back(i); m.p.push_back(t[i]); } return t; }
    case K_LCOST: case K_LCOSTS: { size_t M = 0; for (size_t i = 0; i < sh.size(); ++i) M = std::max(M, sh[i]); for (size_t i = 0; i < M; ++i) m.p.push_back(sym_num("cost", -6, 6, 2)); return tableOf(sh, [&](const VS& x) { std::set<size_t> u(x.begin(), x.end()); double r = 0; for (size_t l : u) r += m.p[l]; return r; }); }
    case K_LCOST1: case K_LCOST1S: { size_t M = 0; for (size_t i = 0; i < sh.size(); ++i) M = std::max(M, sh[i]); m.p.push_back(sym_num("cost", -6, 6, 2)); m.aux.push_back(sym_choice("label", M)); return tableOf(sh, [&](const VS& x) { return std::find(x.begin(), x.end(), m.aux[0]) != x.end() ? m.p[0] : 0.0; }); }
    case K_SUM: case K_SUMS: { size_t share = sym_choice("share", 2); m.aux.push_back(share); size_t M = 0, tot = 0; for (size_t i = 0; i < sh.size(); ++i) { M = std::max(M, sh[i]); tot += sh[i]; } size_t n = share ? M : tot;
      for (size_t i = 0; i < n; ++i) m.p.push_back(sym_num("coef", -4, 4, 2)); m.p.push_back(sym_num("lambda", -4, 4, 2)); m.p.push_back(sym_num("bound", -4, 4, 2));
      return tableOf(sh, [&](const VS& x) { double s = -m.p[n + 1]; size_t off = 0; for (size_t i = 0; i < x.size(); ++i) { s += m.p[share ? x[i] : off + x[i]]; off += sh[i]; } return sym_ite_d(s < 0, -s, s) * m.p[n]; }); }
    case K_SINGLE: case K_SSTATIC: for (size_t i = 0; i < sh[0]; ++i) m.p.push_back(sym_num("t", -6, 6, 2)); return m.p;
  }
  return VD();
}
template<class F> F mk(const Mk& m);
template<> PottsFunction<double> mk(const Mk& m) { return PottsFunction<double>(m.sh[0], m.sh[1], m.p[0], m.p[1]); }
template<> PottsNFunction<double> mk(const Mk& m) { return PottsNFunction<double>(m.sh.begin(), m.sh.end(), m.p[0], m.p[1]); }
template<> AbsoluteDifferenceFunction<double> mk(const Mk& m) { return AbsoluteDifferenceFunction<double>(m.sh[0], m.sh[1], m.p[0]); }
template<> SquaredDifferenceFunction<double> mk(const Mk& m) { return SquaredDifferenceFunction<double>(m.sh[0], m.sh[1], m.p[0]); }
template<> TruncatedAbsoluteDifferenceFunction<double> mk(const Mk& m) { return TruncatedAbsoluteDifferenceFunction<double>(m.sh[0], m.sh[1], m.p[1], m.p[0]); }
template<> TruncatedSquaredDifferenceFunction<double> mk(const Mk& m) { return TruncatedSquaredDifferenceFunction<double>(m.sh[0], m.sh[1], m.p[1], m.p[0]); }
template<> ConstantFunction<double> mk(const Mk& m) { return ConstantFunction<double>(m.sh.begin(), m.sh.end(), m.p[0]); }
template<> FE mk(const Mk& m) { if (m.sh.empty()) return FE(m.p[0]); FE f(m.sh.begin(), m.sh.end(), 0.0); for (size_t k = 0; k < m.p.size(); ++k) { VS x = digits(k, m.sh); f(x.begin()) = m.p[k]; } return f; }
template<> FSp mk(const Mk& m) { FSp f(m.sh.begin(), m.sh.end(), m.p[0]); for (size_t i = m.aux.size(); i-- > 0;) { VS x = digits(m.aux[i], m.sh); f.insert(x.begin(), m.p[i + 1]); } return f; }
template<> LabelCostFunction<double> mk(const Mk& m) {
  switch (m.kind) { case K_LCOST: return LabelCostFunction<double>(m.sh.begin(), m.sh.end(), m.p.begin(), m.p.end()); case K_LCOSTS: return LabelCostFunction<double>(m.sh.size(), m.sh[0], m.p.begin(), m.p.end());
    case K_LCOST1: return LabelCostFunction<double>(m.sh.begin(), m.sh.end(), m.aux[0], m.p[0]); default: return LabelCostFunction<double>(m.sh.size(), m.sh[0], m.aux[0], m.p[0]); } }
template<> SumConstraintFunction<double> mk(const Mk& m) { size_t n = m.p.size() - 2; if (m.kind == K_SUM) return SumConstraintFunction<double>(m.sh.begin(), m.sh.end(), m.p.begin(), m.p.begin() + n, (bool)m.aux[0], m.p[n], m.p[n + 1]); return SumConstraintFunction<double>(m.sh.size(), m.sh[0], m.p.begin(), m.p.begin() + n, (bool)m.aux[0], m.p[n], m.p[n + 1]); }
template<> DynamicSingleSiteFunction<double> mk(const Mk& m) { DynamicSingleSiteFunction<double> f(m.sh[0]); for (size_t i = 0; i < m.sh[0]; ++i) f[i] = m.p[i]; return f; }
typedef StaticSingleSiteFunction<double, 3, HeapStorage> FStat; typedef StaticSingleSiteFunction<double, 3, StackStorage> FStatS;
template<> FStat mk(const Mk& m) { FStat f; for (size_t i = 0; i < 3; ++i) { VS x = mkVS(i); f(x.begin()) = m.p[i]; } return f; }
template<> FStatS mk(const Mk& m) { FStatS f; for (size_t i = 0; i < 3; ++i) { VS x = mkVS(i); f(x.begin()) = m.p[i]; } return f; }
template<class FN> void dispatch(int kind, FN fn, Mk& m) {
  switch (kind) {
    case K_POTTS: fn(mk<PottsFunction<double> >(m)); break; case K_ABS: fn(mk<AbsoluteDifferenceFunction<double> >(m)); break; case K_SQ: fn(mk<SquaredDifferenceFunction<double> >(m)); break;
    case K_TABS: fn(mk<TruncatedAbsoluteDifferenceFunction<double> >(m)); break; case K_TSQ: fn(mk<TruncatedSquaredDifferenceFunction<double> >(m)); break; case K_POTTSN: fn(mk<PottsNFunction<double> >(m)); break;
    case K_CONST: fn(mk<ConstantFunction<double> >(m)); break; case K_EXPL: fn(mk<FE>(m)); break; case K_SPARSE: fn(mk<FSp>(m)); break;
    case K_LCOST: case K_LCOST1: case K_LCOSTS: case K_LCOST1S: fn(mk<LabelCostFunction<double> >(m)); break; case K_SUM: case K_SUMS: fn(mk<SumConstraintFunction<double> >(m)); break;
  }
}
struct VCheck { const Mk& m; template<class F> void operator()(const F& f) { checkTable(f, m.sh, m.t); F g(f); F h; h = f; checkTable(g, m.sh, m.t); checkTable(h, m.sh, m.t); } };
HARNESS(c03_value) { Mk m; m.kind = sym_param("kind", 0); m.sh = shapeParam(); m.t = kindTable(m); VCheck v = {m}; dispatch(m.kind, v, m); }
HARNESS(c03_single) {
  Mk m; m.kind = K_SINGLE; m.sh = mkVS(3); m.t = kindTable(m); VCheck v = {m};
  { FStat f = mk<FStat>(m); v(f); } { FStatS f = mk<FStatS>(m); v(f); } DynamicSingleSiteFunction<double> f = mk<DynamicSingleSiteFunction<double> >(m);
  DynamicSingleSiteFunction<double> g(f); DynamicSingleSiteFunction<double> h(sym_choice("len", 5)), e; h = f; e = f; DynamicSingleSiteFunction<double>* fs[] = {&f, &g, &h, &e};
  for (int k = 0; k < 4; ++k) { CHECK(fs[k]->size() == 3 && fs[k]->dimension() == 1 && fs[k]->shape(0) == 3); for (size_t i = 0; i < 3; ++i) { VS x = mkVS(i); CHECKM((*fs[k])(x.begin()) == m.t[i], "single-site value"); } }
  size_t n = sym_choice("n", 4) + 1; f.assign(n, m.p[0]); CHECK(f.size() == n); for (size_t i = 0; i < n; ++i) CHECK(f[i] == m.p[0]); CHECK(g[1] == m.p[1]);
}
// generalised Potts: the value depends exactly on the partition induced by equal labels
HARNESS(c03_pottsg) {
  VS sh = shapeParam(); size_t d = sh.size(); const size_t bell[] = {1, 1, 2, 5, 15, 52}; VD v; for (size_t i = 0; i < bell[d]; ++i) v.push_back(sym_num("v", -6, 6, 2));
  PottsGFunction<double> f(sh.begin(), sh.end(), v.begin()); checkShape(f, sh); std::map<VS, double> val; std::vector<VS> keys;
  for (size_t k = 0; k < prodS(sh); ++k) { VS x = digits(k, sh), p = pattern(x); double y = f(x.begin()); sym_obs_d(y); if (val.count(p)) CHECKM(val[p] == y, "value depends only on which labels are equal"); else { val[p] = y; keys.push_back(x); }
    if (d == 2) CHECKM(y == v[x[0] == x[1]], "documented order of the values, two variables");
    if (d == 3) CHECKM(y == v[x[0] == x[1] && x[1] == x[2] ? 4 : x[1] == x[2] ? 3 : x[0] == x[2] ? 2 : x[0] == x[1] ? 1 : 0], "documented order of the values, three variables"); }
  // setting one partition changes exactly that one
  size_t w = sym_choice("which", keys.size()); double nv = sym_num("nv", -6, 6, 2); PottsGFunction<double> g(f); VS kx = keys[w]; g.setByLabel(kx.begin(), nv);
  for (size_t k = 0; k < prodS(sh); ++k) { VS x = digits(k, sh), p = pattern(x); double y = g(x.begin()); CHECKM(y == (p == pattern(kx) ? nv : val[p]), "setting the value of one partition"); }
  PottsGFunction<double> z(sh.begin(), sh.end()); for (size_t i = 0; i < keys.size(); ++i) z.setByLabel(keys[i].begin(), val[pattern(keys[i])]);
  for (size_t k = 0; k < prodS(sh); ++k) { VS x = digits(k, sh); CHECKM(z(x.begin()) == val[pattern(x)], "function set label by label"); }
}
HARNESS(c03_foe) {
  size_t ord = sym_param("order", 2), ne = sym_param("experts", 2), L = 3; VD ex, al; for (size_t i = 0; i < ord * ne; ++i) ex.push_back(sym_num("ex", -2, 2, 1)); for (size_t i = 0; i < ne; ++i) al.push_back(sym_num("al", -2, 2, 1));
  FoEFunction<double> f(ex, al, L), g(ex.begin(), al.begin(), L, ord, ne); VS sh(ord, L); checkShape(f, sh); checkShape(g, sh);
  for (size_t k = 0; k < prodS(sh); ++k) { VS x = digits(k, sh); double v = 0; for (size_t e = 0; e < ne; ++e) { double dot = 0; for (size_t j = 0; j < ord; ++j) dot += ex[e * ord + j] * (double)x[j]; v += al[e] * std::log(1 + 0.5 * dot * dot); } CHECKM(f(x.begin()) == v, "fields of experts value"); CHECKM(g(x.begin()) == v, "fields of experts value (iterator constructor)"); }
}
// ---- C04 ----
static bool okPotts(const VS& sh, const VD& t) { bool r = true; int e = -1, n = -1; for (size_t k = 0; k < t.size(); ++k) { VS x = digits(k, sh); bool eq = true; for (size_t i = 1; i < x.size(); ++i) eq = eq && x[i] == x[0]; int& q = eq ? e : n; if (q < 0) q = k; else r = r & (t[k] == t[q]); } return r; }
static bool okGen(const VS& sh, const VD& t) { bool r = true; std::map<VS, size_t> m; for (size_t k = 0; k < t.size(); ++k) { VS p = pattern(digits(k, sh)); if (m.count(p)) r = r & (t[k] == t[m[p]]); else m[p] = k; } return r; }
// is there w (and, if trunc, t >= 1) with table = w * min(dist, t)?
static bool okDiff(const VS& sh, const VD& t, bool sq, bool trunc) {
  VS one = mkVS(1, 0); double w = t[flat(one, sh)]; size_t far = sh[0] >= sh[1] ? sh[0] - 1 : (sh[1] - 1) * sh[0]; double top = t[far]; bool r = true;
  for (size_t k = 0; k < t.size(); ++k) { VS x = digits(k, sh); double d = x[0] > x[1] ? x[0] - x[1] : x[1] - x[0]; if (sq) d = d * d; double lin = w * d;
    if (!trunc) r = r & (t[k] == lin); else { double e = sym_ite_d(w < 0, sym_ite_d(lin > top, lin, top), sym_ite_d(lin < top, lin, top)); r = r & (t[k] == e); } }
  return r;
}
struct FlagCheck { const Mk& m; bool exact;
  static void one(bool got, bool form, bool exact, const char* a, const char* b) { if (exact) { if (form) CHECKM(got, a); } if (got) CHECKM(form, b); }
  template<class F> void flags(const F& f) {
    const VS& sh = m.sh; const VD& t = m.t;
    one(f.isPotts(), okPotts(sh, t), exact, "a Potts table is recognised", "only a Potts table is called Potts");
    if (sh.size() >= 2 && sh.size() <= 4) one(f.isGeneralizedPotts(), okGen(sh, t), exact && sh.size() <= 3, "a generalised Potts table is recognised", "only a generalised Potts table is called that");
    if (sh.size() == 2 && sh[0] == 2 && sh[1] == 2) one(f.isSubmodular(), t[0] + t[3] <= t[1] + t[2], exact, "a submodular table is recognised", "only a submodular table is called submodular");
    if (sh.size() == 2 && sh[0] > 1 && sh[1] > 1) {
      one(f.isAbsoluteDifference(), okDiff(sh, t, false, false), exact, "an absolute difference is recognised", "only an absolute difference is called that");
      one(f.isSquaredDifference(), okDiff(sh, t, true, false), exact, "a squared difference is recognised", "only a squared difference is called that");
      one(f.isTruncatedAbsoluteDifference(), okDiff(sh, t, false, true), exact, "a truncated absolute difference is recognised", "only a truncated absolute difference is called that");
      one(f.isTruncatedSquaredDifference(), okDiff(sh, t, true, true), exact, "a truncated squared difference is recognised", "only a truncated squared difference is called that");
    } else if (sh.size() != 2) CHECKM(!f.isAbsoluteDifference() && !f.isSquaredDifference() && !f.isTruncatedAbsoluteDifference() && !f.isTruncatedSquaredDifference(), "difference forms need two variables");
  }
  template<class F> void summ(const F& f) {
    const VD& t = m.t; double mn = t[0], mx = t[0], s = 0, pr = 1; for (size_t k = 0; k < t.size(); ++k) { mn = sym_ite_d(t[k] < mn, t[k], mn); mx = sym_ite_d(t[k] > mx, t[k], mx); s += t[k]; pr *= t[k]; }
    CHECKM(f.min() == mn, "minimum"); CHECKM(f.max() == mx, "maximum"); CHECKM(f.sum() == s, "sum"); if (t.size() <= 6 && m.kind != K_SUM) CHECKM(f.product() == pr, "product");
    CHECKM(f.minMax().min() == mn && f.minMax().max() == mx, "minimum and maximum in one sweep"); sym_obs_d(f.min()); sym_obs_d(f.sum());
    CHECKM((f.template accumulate<Minimizer>() == mn) & (f.template accumulate<Maximizer>() == mx), "accumulated minimum and maximum"); CHECKM(f.template accumulate<Adder>() == s, "accumulated sum"); if (t.size() > 0) CHECKM(f.template accumulate<Integrator>() == s, "integral");
    if (t.size() <= 6 && m.kind != K_SUM) CHECKM(f.template accumulate<Multiplier>() == pr, "accumulated product");
  }
  template<class F> void operator()(const F& f) { if (sym_param("what", 0) == 0) flags(f); else { summ(f); } } };
template<> void FlagCheck::operator()(const SumConstraintFunction<double>& f) { if (sym_param("what", 0) == 0) flags(f); else summ(f); }
HARNESS(c04_flags) { Mk m; m.kind = sym_param("kind", 0); m.sh = shapeParam(); m.t = kindTable(m); FlagCheck v = {m, m.kind == K_EXPL && m.sh.size() >= 2}; if (m.sh.size() == 1) return; dispatch(m.kind, v, m); }
HARNESS(c04_summary) { Mk m; m.kind = sym_param("kind", 0); m.sh = shapeParam(); m.t = kindTable(m); FlagCheck v = {m, false}; dispatch(m.kind, v, m); }
HARNESS(c04_pottsg) {
  VS sh = shapeParam(); size_t d = sh.size(); const size_t bell[] = {1, 1, 2, 5, 15, 52}; VD v; for (size_t i = 0; i < bell[d]; ++i) v.push_back(sym_num("v", -2, 2, 1));
  PottsGFunction<double> f(sh.begin(), sh.end(), v.begin()); Mk m; m.kind = K_POTTSG; m.sh = sh; m.t = tableOf(sh, [&](const VS& x) { return f(x.begin()); });
  FlagCheck c = {m, false}; if (sym_param("what", 0) == 0) { if (f.isPotts()) CHECKM(okPotts(sh, m.t), "only a Potts table is called Potts"); CHECKM(f.isGeneralizedPotts(), "generalised Potts"); bool big = true; for (size_t i = 0; i < d; ++i) big = big && sh[i] >= d; if (big) { if (okPotts(sh, m.t)) CHECKM(f.isPotts(), "a generalised Potts function that is Potts is recognised"); } } else c.summ(f);
}
// the same questions asked through a factor of a model and through the independent copy of a factor
HARNESS(c04_factor) {
  Mk m; m.kind = sym_param("kind", 0); m.sh = shapeParam(); m.t = kindTable(m); Gm8 gm; { VS L(m.sh); L.push_back(2); gm = Gm8(Gm8::SpaceType(L.begin(), L.end())); } Gm8::FunctionIdentifier id;
  Fac fc; fc.shape = m.sh; fc.kind = m.kind == K_POTTS ? FPOTTS : m.kind == K_ABS ? FABS : m.kind == K_SQ ? FSQ : m.kind == K_TABS ? FTABS : m.kind == K_TSQ ? FTSQ : m.kind == K_POTTSN ? FPOTTSN : m.kind == K_CONST ? FCONST : FEXPL; fc.par = m.p; fc.t = m.t;
  Fac other; other.shape = mkVS(2); other.kind = FEXPL; other.t = mkVD(7, 9); Gm8::FunctionIdentifier o = AddFn<8, Gm8>::add(gm, other); VS ov = mkVS(m.sh.size()); gm.addFactor(o, ov.begin(), ov.end());
  id = AddFn<8, Gm8>::add(gm, fc); VS vs; for (size_t i = 0; i < m.sh.size(); ++i) vs.push_back(i); gm.addFactor(id, vs.begin(), vs.end()); const Gm8::FactorType& f = gm[1];
  FlagCheck c = {m, m.kind == K_EXPL && m.sh.size() > 1}; if (sym_param("what", 0) == 0) { if (m.sh.size() > 1) c.flags(f); }
  else { double mn = m.t[0], mx = m.t[0], s = 0; for (size_t k = 0; k < m.t.size(); ++k) { mn = sym_ite_d(m.t[k] < mn, m.t[k], mn); mx = sym_ite_d(m.t[k] > mx, m.t[k], mx); s += m.t[k]; }
    CHECKM(f.min() == mn, "factor minimum"); CHECKM(f.max() == mx, "factor maximum"); CHECKM(f.sum() == s, "factor sum"); CHECKM(f.size() == prodS(m.sh), "factor size"); if (m.t.size() <= 4) { double pr = 1; for (size_t k = 0; k < m.t.size(); ++k) pr *= m.t[k]; CHECKM(f.product() == pr, "factor product"); } }
}
// ---- C05 ----
template<class F> void roundTrip(const F& f, const VS& sh, const VD& t, F& g) {
  typedef FunctionSerialization<F> S; size_t ni = S::indexSequenceSize(f), nv = S::valueSequenceSize(f); std::vector<size_t> I(ni); std::vector<double> V(nv); S::serialize(f, I.begin(), V.begin());
  S::deserialize(I.begin(), V.begin(), g); checkTable(g, sh, t); CHECKM(S::indexSequenceSize(g) == ni && S::valueSequenceSize(g) == nv, "announced sizes of the read function");
  std::vector<size_t> I2(ni); std::vector<double> V2(nv); S::serialize(g, I2.begin(), V2.begin()); for (size_t i = 0; i < ni; ++i) CHECKM(I[i] == I2[i], "writing again gives the same index sequence"); for (size_t i = 0; i < nv; ++i) CHECKM(V[i] == V2[i], "writing again gives the same value sequence");
  checkTable(f, sh, t);
}
struct SerCheck { const Mk& m; template<class F> void operator()(const F& f) { F g; roundTrip(f, m.sh, m.t, g); roundTrip(f, m.sh, m.t, g); } };
HARNESS(c05_round) { Mk m; m.kind = sym_param("kind", 0); m.sh = shapeParam(); m.t = kindTable(m); SerCheck v = {m}; dispatch(m.kind, v, m); }
HARNESS(c05_pottsg) { VS sh = shapeParam(); const size_t bell[] = {1, 1, 2, 5, 15, 52}; VD v; for (size_t i = 0; i < bell[sh.size()]; ++i) v.push_back(sym_num("v", -6, 6, 2)); PottsGFunction<double> f(sh.begin(), sh.end(), v.begin()), g; VD t = tableOf(sh, [&](const VS& x) { return f(x.begin()); }); roundTrip(f, sh, t, g); }
HARNESS(c05_single) { Mk m; m.kind = K_SINGLE; m.sh = mkVS(3); m.t = kindTable(m); FStat a = mk<FStat>(m), b; for (size_t i = 0; i < 3; ++i) { VS x = mkVS(i); b(x.begin()) = 0; } roundTrip(a, m.sh, m.t, b); FStatS c = mk<FStatS>(m), d; for (size_t i = 0; i < 3; ++i) { VS x = mkVS(i); d(x.begin()) = 0; } roundTrip(c, m.sh, m.t, d); DynamicSingleSiteFunction<double> e = mk<DynamicSingleSiteFunction<double> >(m), f; roundTrip(e, m.sh, m.t, f); }
HARNESS(c05_foe) { size_t ord = 2, ne = 2, L = 2; VD ex, al; for (size_t i = 0; i < ord * ne; ++i) ex.push_back(sym_num("ex", -1, 1, 1)); for (size_t i = 0; i < ne; ++i) al.push_back(sym_num("al", -2, 2, 1)); FoEFunction<double> f(ex, al, L), g; VS sh(ord, L); VD t = tableOf(sh, [&](const VS& x) { return f(x.begin()); }); roundTrip(f, sh, t, g); }
typedef learning::Weights<double> W;
HARNESS(c05_learn) {
  W w(4); for (size_t i = 0; i < 4; ++i) w.setWeight(i, sym_num("w", -3, 3, 1)); int k = sym_param("kind", 0);
  if (k == 0) { std::vector<size_t> ids; ids.push_back(sym_choice("id", 4)); ids.push_back(sym_choice("id", 4)); VD ft = mkVD(sym_num("f", -3, 3, 1), sym_num("f", -3, 3, 1)); functions::learnable::LPotts<double> f(w, 3, ids, ft), g; VS sh(2, 3); VD t = tableOf(sh, [&](const VS& x) { return x[0] == x[1] ? 0.0 : w.getWeight(ids[0]) * ft[0] + w.getWeight(ids[1]) * ft[1]; });
    std::vector<size_t> I(FunctionSerialization<functions::learnable::LPotts<double> >::indexSequenceSize(f)); VD V(FunctionSerialization<functions::learnable::LPotts<double> >::valueSequenceSize(f)); FunctionSerialization<functions::learnable::LPotts<double> >::serialize(f, I.begin(), V.begin()); FunctionSerialization<functions::learnable::LPotts<double> >::deserialize(I.begin(), V.begin(), g); g.setWeights(w); checkTable(f, sh, t); checkTable(g, sh, t); }
  else if (k == 1) { std::vector<functions::learnable::FeaturesAndIndices<double, size_t> > fi(2); VS sh(1, 2); for (size_t l = 0; l < 2; ++l) { size_t n = sym_choice("nf", 3); for (size_t i = 0; i < n; ++i) { fi[l].weightIds.push_back(l == 0 ? i : 3 - i); fi[l].features.push_back(sym_num("f", -3, 3, 1)); } } typedef functions::learnable::LUnary<double, size_t, size_t> F; F f(w, fi), g;
    VD t = tableOf(sh, [&](const VS& x) { double s = 0; for (size_t i = 0; i < fi[x[0]].features.size(); ++i) s += fi[x[0]].features[i] * w.getWeight(fi[x[0]].weightIds[i]); return s; }); std::vector<size_t> I(FunctionSerialization<F>::indexSequenceSize(f)); VD V(FunctionSerialization<F>::valueSequenceSize(f)); FunctionSerialization<F>::serialize(f, I.begin(), V.begin()); FunctionSerialization<F>::deserialize(I.begin(), V.begin(), g); g.setWeights(w); checkTable(f, sh, t); checkTable(g, sh, t); }
  else { typedef functions::learnable::LWeightedSumOfFunctions<double> F; VS sh = mkVS(2, 3); std::vector<marray::Marray<double> > ft; std::vector<size_t> ids; for (size_t q = 0; q < 2; ++q) { marray::Marray<double> a(sh.begin(), sh.end()); for (size_t i = 0; i < 6; ++i) a(i) = sym_num("f", -3, 3, 1); ft.push_back(a); ids.push_back(sym_choice("id", 4)); } F f(sh, w, ids, ft), g;
    VD t = tableOf(sh, [&](const VS& x) { return w.getWeight(ids[0]) * ft[0](x.begin()) + w.getWeight(ids[1]) * ft[1](x.begin()); }); std::vector<size_t> I(FunctionSerialization<F>::indexSequenceSize(f)); VD V(FunctionSerialization<F>::valueSequenceSize(f)); FunctionSerialization<F>::serialize(f, I.begin(), V.begin()); FunctionSerialization<F>::deserialize(I.begin(), V.begin(), g); g.setWeights(w); checkTable(f, sh, t); checkTable(g, sh, t); }
}
