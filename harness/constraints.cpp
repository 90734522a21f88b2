// C25: indicator variables, linear constraints, constraint functions
#include "gm_common.h"
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
using namespace opengm;
typedef LinearConstraintFunction<double> LCF; typedef LabelOrderFunction<double> LOF; typedef NumLabelsLimitationFunction<double> NLF;
typedef LCF::LinearConstraintType LC; typedef LC::IndicatorVariableType IV; typedef std::pair<size_t, size_t> VL; typedef LinearConstraintTraits::LinearConstraintOperator OP;
static const IV::LogicalOperatorType LOP[] = {IV::And, IV::Or, IV::Not}; static const OP::ValueType COP[] = {OP::LessEqual, OP::Equal, OP::GreaterEqual};
struct Ind { std::vector<VL> p; int op; };
static bool indVal(const Ind& a, const VS& x) { bool all = true, any = false; for (size_t i = 0; i < a.p.size(); ++i) { bool e = x[a.p[i].first] == a.p[i].second; all = all && e; any = any || e; } return a.op == 0 ? all : a.op == 1 ? any : !any; }
static Ind anyInd(size_t n, const VS& L, size_t k) { Ind a; for (size_t i = 0; i < k; ++i) { size_t v = sym_choice("iv", n); a.p.push_back(VL(v, sym_choice("il", L[v]))); } a.op = sym_choice("iop", 3); return a; }
static IV mkInd(const Ind& a, int how) {
  if (how == 0) { IV v(a.p, LOP[a.op]); return v; } if (how == 1) { IV v(a.p.begin(), a.p.end(), LOP[a.op]); return v; }
  if (how == 2) { IV v; v.setLogicalOperatorType(LOP[a.op]); v.reserve(3); for (size_t i = 0; i < a.p.size(); ++i) if (i % 2) v.add(a.p[i]); else v.add(a.p[i].first, a.p[i].second); return v; }
  if (how == 3) { IV v; v.add(a.p); v.setLogicalOperatorType(LOP[a.op]); return v; } if (how == 4) { IV v; v.add(a.p.begin(), a.p.end()); v.setLogicalOperatorType(LOP[a.op]); return v; }
  if (a.p.size() == 1 && how == 5) return IV(a.p[0], LOP[a.op]); if (a.p.size() == 1 && how == 6) return IV(a.p[0].first, a.p[0].second, LOP[a.op]); return IV(a.p, LOP[a.op]);
}
HARNESS(c25_indicator) {
  VS L = mkVS(2, 3); size_t k = sym_param("k", 2); Ind a = anyInd(2, L, k); IV v = mkInd(a, sym_choice("how", k == 1 ? 7 : 5)), w(v);
  CHECKM((size_t)std::distance(v.begin(), v.end()) == k && v.getLogicalOperatorType() == LOP[a.op], "pairs and operator"); std::vector<VL> p(a.p), q(v.begin(), v.end()); std::sort(p.begin(), p.end()); CHECKM(p == q, "the same pairs, sorted");
  forLab(L, [&](const VS& x) { CHECKM(v(x.begin()) == indVal(a, x) && w(x.begin()) == indVal(a, x), "indicator value"); }); CHECKM(v == mkInd(a, 0) && !(v != mkInd(a, 0)), "equal however built");
}
// the comparison operators form a total order
HARNESS(c25_order_relation) {
  VS L = mkVS(2, 2); Ind a[3]; IV v[3]; size_t k = sym_param("sizes", 222); size_t n = sym_param("n", 2); for (size_t i = 0; i < n; ++i) { a[i] = anyInd(2, L, k % 10); if (sym_param("sameop", 1)) sym_assume(a[i].op == 0); k /= 10; std::sort(a[i].p.begin(), a[i].p.end()); v[i] = IV(a[i].p, LOP[a[i].op]); }
  bool eq = a[0].p == a[1].p && a[0].op == a[1].op; bool lt = v[0] < v[1], gt = v[0] > v[1]; CHECKM((v[0] == v[1]) == eq && (v[0] != v[1]) == !eq, "equality"); CHECKM((int)lt + (int)gt + (int)eq == 1, "exactly one of smaller, equal and larger"); CHECKM((v[0] <= v[1]) == (lt || eq) && (v[0] >= v[1]) == (gt || eq), "smaller or equal, larger or equal"); CHECKM((v[1] > v[0]) == lt && (v[1] < v[0]) == gt, "the other way round");
  if (n == 3) { if (lt && v[1] < v[2]) CHECKM(v[0] < v[2], "transitive"); }
}
struct Con { std::vector<Ind> v; VD c; double b; int op; };
static double conLhs(const Con& c, const VS& x) { double s = 0; for (size_t i = 0; i < c.v.size(); ++i) if (indVal(c.v[i], x)) s += c.c[i]; return s; }
static double viol(double lhs, double b, int op) { double w = lhs - b; double hi = sym_ite_d(w > 0, w, 0), lo = sym_ite_d(w < 0, -w, 0); return op == 0 ? hi : op == 1 ? hi + lo : lo; }
static LC mkCon(const Con& c, int how) {
  std::vector<IV> iv; for (size_t i = 0; i < c.v.size(); ++i) iv.push_back(mkInd(c.v[i], how % 5)); VD co(c.c);
  if (how == 0) return LC(iv, co, c.b, COP[c.op]); if (how == 1) return LC(iv.begin(), iv.end(), co.begin(), c.b, COP[c.op]);
  LC l; l.setBound(c.b); l.setConstraintOperator(COP[c.op]); l.reserve(2); if (how == 2) for (size_t i = 0; i < iv.size(); ++i) l.add(iv[i], co[i]); else if (how == 3) l.add(iv, co); else { std::vector<IV> one(1, iv[0]); VD oc(1, co[0]); l.add(one, oc); l.add(iv.begin() + 1, iv.end(), co.begin() + 1); } return l;
}
static Con anyCon(size_t n, const VS& L, size_t m, size_t k, int fixedOp) { Con c; for (size_t i = 0; i < m; ++i) { Ind a; if (fixedOp < 0) a = anyInd(n, L, k); else { size_t v = (i + fixedOp) % n; a.p.push_back(VL(v, i % L[v])); if (k > 1) a.p.push_back(VL((v + 1) % n, 0)); a.op = k > 1 ? (i + fixedOp) % 3 : 0; } c.v.push_back(a); c.c.push_back(sym_num("c", -4, 4, 2)); } c.b = sym_num("b", -4, 4, 2); c.op = sym_choice("cop", 3); return c; }
HARNESS(c25_constraint) {
  VS L = mkVS(2, 3); size_t m = sym_param("m", 2); Con c = anyCon(2, L, m, sym_param("k", 1), -1); LC l = mkCon(c, sym_param("how", 0)), d(l);
  CHECKM((size_t)std::distance(l.indicatorVariablesBegin(), l.indicatorVariablesEnd()) == m && (size_t)std::distance(l.coefficientsBegin(), l.coefficientsEnd()) == m, "numbers of indicator variables and coefficients"); for (size_t i = 0; i < m; ++i) CHECKM(l.coefficientsBegin()[i] == c.c[i] && l.indicatorVariablesBegin()[i] == mkInd(c.v[i], 0), "terms"); CHECKM(l.getBound() == c.b && l.getConstraintOperator() == COP[c.op], "bound and operator");
  forLab(L, [&](const VS& x) { double want = viol(conLhs(c, x), c.b, c.op); CHECKM(l(x.begin()) == want && d(x.begin()) == want, "amount of violation"); sym_obs_d(l(x.begin())); });
}
template<class F> struct Chal { std::vector<size_t> ids; VD w; };
template<class F> void getChal(Chal<F>& r, const F& f, typename F::ViolatedLinearConstraintsIteratorType b, typename F::ViolatedLinearConstraintsIteratorType e, typename F::ViolatedLinearConstraintsWeightsIteratorType w) { for (; b != e; ++b, ++w) { const typename F::LinearConstraintType& l = *b; size_t i = 0; for (typename F::LinearConstraintsIteratorType it = f.linearConstraintsBegin(); it != f.linearConstraintsEnd(); ++it, ++i) if (&*it == &l) break; r.ids.push_back(i); r.w.push_back(*w); } }
template<class F> Chal<F> challenge(const F& f, const VS& x, double tol) { typename F::ViolatedLinearConstraintsIteratorType b, e; typename F::ViolatedLinearConstraintsWeightsIteratorType w; f.challenge(b, e, w, x.begin(), tol); Chal<F> r; getChal(r, f, b, e, w); return r; }
template<class F> Chal<F> challengeRelaxed(const F& f, const VD& y, double tol) { typename F::ViolatedLinearConstraintsIteratorType b, e; typename F::ViolatedLinearConstraintsWeightsIteratorType w; f.challengeRelaxed(b, e, w, y.begin(), tol); Chal<F> r; getChal(r, f, b, e, w); return r; }
// the list `r` names exactly the constraints violated by more than tol, with their violation
template<class F> void sameChal(const Chal<F>& r, const VD& v, double tol, const char* what) { size_t n = 0; for (size_t i = 0; i < v.size(); ++i) { bool bad = v[i] > tol; if (!bad) continue; ++n; bool found = false; for (size_t j = 0; j < r.ids.size(); ++j) if (r.ids[j] == i) { found = true; CHECKM(r.w[j] == v[i], "weight of a violated constraint"); } CHECKM(found, what); } CHECKM(r.ids.size() == n, what); }
// the function's constraints, as seen through its interface, agree with `cons`-violations at integral and relaxed points
template<class F> void viaInterface(const F& f, const VS& L, std::function<bool(const VS&)> valid, double tol, bool relaxed) {
  std::vector<IV> order(f.indicatorVariablesOrderBegin(), f.indicatorVariablesOrderEnd()); for (size_t i = 0; i < order.size(); ++i) for (size_t j = 0; j < i; ++j) CHECKM(order[i] != order[j], "every indicator variable is listed once");
  CHECKM(f.isLinearConstraint(), "is a linear constraint");
  forLab(L, [&](const VS& x) {
    VD v; bool ok = true; for (typename F::LinearConstraintsIteratorType it = f.linearConstraintsBegin(); it != f.linearConstraintsEnd(); ++it) { v.push_back((*it)(x.begin())); ok = ok & (v.back() <= 0); } CHECKM(ok == valid(x), "the constraints hold exactly at the valid labellings");
    sameChal(challenge(f, x, tol), v, tol, "violated constraints at a labelling");
    VD y; for (size_t i = 0; i < order.size(); ++i) y.push_back(order[i](x.begin())); sameChal(challengeRelaxed(f, y, tol), v, tol, "violated constraints at the indicators of a labelling"); });
  if (!relaxed) return;
  VD y; for (size_t i = 0; i < order.size(); ++i) y.push_back(sym_num("y", 0, 4, 4)); VD v;
  for (typename F::LinearConstraintsIteratorType it = f.linearConstraintsBegin(); it != f.linearConstraintsEnd(); ++it) { double lhs = 0; size_t k = 0; for (typename F::LinearConstraintType::IndicatorVariablesIteratorType i = it->indicatorVariablesBegin(); i != it->indicatorVariablesEnd(); ++i, ++k) { bool found = false; for (size_t j = 0; j < order.size(); ++j) if (order[j] == *i) { lhs += it->coefficientsBegin()[k] * y[j]; found = true; } CHECKM(found, "every indicator variable is listed"); } v.push_back(viol(lhs, it->getBound(), it->getConstraintOperator() == OP::LessEqual ? 0 : it->getConstraintOperator() == OP::Equal ? 1 : 2)); }
  sameChal(challengeRelaxed(f, y, tol), v, tol, "violated constraints at a relaxed point");
}
template<class F> void values(const F& f, const VS& L, std::function<bool(const VS&)> valid, double good, double bad) {
  CHECKM(f.dimension() == L.size() && f.size() == prodS(L), "dimension and size"); for (size_t i = 0; i < L.size(); ++i) CHECKM(f.shape(i) == L[i], "shape"); bool anyOk = false, anyBad = false;
  forLab(L, [&](const VS& x) { bool ok = valid(x); VS z(x); z.push_back(0); double v = f(z.begin()); CHECKM(v == sym_ite_d(ok, good, bad), "value"); sym_obs_d(v); anyOk = anyOk | ok; anyBad = anyBad | !ok; });
  double mn = good < bad ? good : bad, mx = good < bad ? bad : good;
  if (anyOk && anyBad) { CHECKM(f.min() == mn && f.max() == mx && f.minMax().min() == mn && f.minMax().max() == mx, "minimum and maximum when both values occur"); } else { double only = anyOk ? good : bad; CHECKM(f.min() == only && f.max() == only && f.minMax().min() == only && f.minMax().max() == only, "minimum and maximum when one value occurs"); }
}
template<class F> void serial(const F& f, F& g) { typedef FunctionSerialization<F> S; size_t ni = S::indexSequenceSize(f), nv = S::valueSequenceSize(f); std::vector<size_t> I(ni); VD V(nv); S::serialize(f, I.begin(), V.begin()); S::deserialize(I.begin(), V.begin(), g); CHECKM(S::indexSequenceSize(g) == ni && S::valueSequenceSize(g) == nv, "announced sizes"); }
HARNESS(c25_linear) {
  VS L = sym_param("nv", 2) == 2 ? mkVS(2, 3) : mkVS(2, 2, 2); size_t m = sym_param("m", 2); std::vector<Con> cs; std::vector<LC> lc; for (size_t i = 0; i < m; ++i) { cs.push_back(anyCon(L.size(), L, sym_param("terms", 2), sym_param("k", 1), sym_param("free", 0) ? -1 : (int)i + (int)sym_param("sh", 0))); lc.push_back(mkCon(cs[i], i % 5)); }
  double good = sym_num("good", -4, 4, 1), bad = sym_num("bad", -4, 4, 1); std::function<bool(const VS&)> valid = [&](const VS& x) { bool ok = true; for (size_t i = 0; i < m; ++i) ok = ok & (viol(conLhs(cs[i], x), cs[i].b, cs[i].op) <= 0); return ok; }; int what = sym_param("what", 0);
  LCF a(L.begin(), L.end(), lc, good, bad); if (what == 0) { LCF b(L.begin(), L.end(), lc.begin(), lc.end(), good, bad), c; c = a; values(b, L, valid, good, bad); values(c, L, valid, good, bad); }
  else if (what == 1) { LCF g; serial(a, g); lc.clear(); values(g, L, valid, good, bad); viaInterface(g, L, valid, 0, false); }
  else { LCF c(a); a = LCF(); viaInterface(c, L, valid, sym_num("tol", 0, 2, 2), what == 3); }
}
HARNESS(c25_labelorder) {
  size_t n1 = sym_param("n1", 2), n2 = sym_param("n2", 3), n = n1 > n2 ? n1 : n2; VS L = mkVS(n1, n2); VD o; for (size_t i = 0; i < n; ++i) o.push_back(sym_num("o", -4, 4, 2)); double good = sym_num("good", -4, 4, 1), bad = sym_num("bad", -4, 4, 1); std::function<bool(const VS&)> valid = [&](const VS& x) { return o[x[0]] <= o[x[1]]; }; int what = sym_param("what", 0);
  if (what == 0) { LOF a(n1, n2, o, good, bad), b(n1, n2, o.begin(), good, bad), c, d(n1, n2, o); c = b; values(a, L, valid, good, bad); values(c, L, valid, good, bad); values(d, L, valid, 0, 1); } else if (what == 1) { LOF a(n1, n2, o, good, bad), g; serial(a, g); values(g, L, valid, good, bad); viaInterface(g, L, valid, 0, false); } else { LOF a(n1, n2, o.begin(), good, bad), c(a); a = LOF(); viaInterface(c, L, valid, sym_num("tol", 0, 2, 2), what == 3); }
}
HARNESS(c25_limit) {
  VS L; size_t code = sym_param("shape", 23); for (; code; code /= 10) L.insert(L.begin(), code % 10); size_t k = sym_choice("max", sym_param("maxmax", 4)); bool same = true; for (size_t i = 1; i < L.size(); ++i) same = same && L[i] == L[0]; double good = sym_num("good", -4, 4, 1), bad = sym_num("bad", -4, 4, 1); std::function<bool(const VS&)> valid = [&](const VS& x) { std::set<size_t> s(x.begin(), x.end()); return s.size() <= k; }; int what = sym_param("what", 0);
  std::vector<NLF> fs; fs.push_back(NLF(L.begin(), L.end(), k, good, bad)); if (same) fs.push_back(NLF(L.size(), L[0], k, good, bad));
  for (size_t i = 0; i < fs.size(); ++i) { if (what == 0) { values(fs[i], L, valid, good, bad); } else if (what == 1) { NLF g; serial(fs[i], g); values(g, L, valid, good, bad); viaInterface(g, L, valid, 0, false); } else { NLF c(fs[i]); fs[i] = NLF(); viaInterface(c, L, valid, sym_num("tol", 0, 2, 2), what == 3); } }
}
// inside a model
typedef meta::TypeListGenerator<ExplicitFunction<double>, LCF, LOF, NLF>::type FTC; typedef GraphicalModel<double, Adder, FTC, DiscreteSpace<> > GmC;
HARNESS(c25_model) {
  VS L = mkVS(2, 3, 2); GmC gm(GmC::SpaceType(L.begin(), L.end())); VD o; for (size_t i = 0; i < 3; ++i) o.push_back(sym_num("o", -3, 3, 1)); double good = sym_num("good", -4, 4, 1), bad = sym_num("bad", -4, 4, 1); Spec s; s.L = L; Fac u = fExpl(s, mkVS(1), Rng()); { VS v = mkVS(1); gm.addFactor(gm.addFunction(mkExpl(u)), v.begin(), v.end()); }
  { VS v = mkVS(0, 1); gm.addFactor(gm.addFunction(LOF(2, 3, o, good, bad)), v.begin(), v.end()); } { VS v = mkVS(0, 1, 2); gm.addFactor(gm.addFunction(NLF(L.begin(), L.end(), 2, good, bad)), v.begin(), v.end()); } Con c = anyCon(2, mkVS(3, 2), 2, 1, 0); { std::vector<LC> lc(1, mkCon(c, 0)); VS sh = mkVS(3, 2), v = mkVS(1, 2); gm.addFactor(gm.addFunction(LCF(sh.begin(), sh.end(), lc, good, bad)), v.begin(), v.end()); }
  CHECKM(!gm[0].isLinearConstraint() && gm[1].isLinearConstraint() && gm[2].isLinearConstraint() && gm[3].isLinearConstraint(), "which factors are linear constraints");
  forLab(L, [&](const VS& x) { std::set<size_t> d(x.begin(), x.end()); VS y = mkVS(x[1], x[2]); double e = u.t[x[1]] + sym_ite_d(o[x[0]] <= o[x[1]], good, bad) + (d.size() <= 2 ? good : bad) + sym_ite_d(viol(conLhs(c, y), c.b, c.op) <= 0, good, bad); CHECKM(gm.evaluate(x.begin()) == e, "value of the model"); sym_obs_d(gm.evaluate(x.begin())); });
}
