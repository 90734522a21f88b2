// C06: function views
#include "gm_common.h"
#include <opengm/functions/view.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/functions/view_convert_function.hxx>
#include <opengm/functions/scaled_view.hxx>
#include <opengm/functions/accumulated_view.hxx>
#include <opengm/functions/modelviewfunction.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
using namespace opengm;
static VS bits(size_t m, size_t n) { VS r; for (size_t j = 0; j < n; ++j) if (m >> j & 1) r.push_back(j); return r; }
template<class F> void isTable(const F& f, const VS& sh, const VD& t) {
  CHECKM(size_t(f.dimension()) == sh.size(), "dimension"); for (size_t i = 0; i < sh.size(); ++i) CHECKM(size_t(f.shape(i)) == sh[i], "shape"); CHECKM(size_t(f.size()) == prodS(sh), "size"); CHECKM(size_t(f.size()) == prodS(sh), "size again");
  for (size_t k = 0; k < t.size(); ++k) { VS d = digits(k, sh); d.push_back(0); double v = f(d.begin()); CHECKM(v == t[k], "value"); sym_obs_d(v); }
}
template<class GM> Fac draw(const Spec& s, const VS& v) { Rng r(-3, 3, 2); if (sym_param("potts", 0) && v.size() == 2) { double e = sy("e", r), n = sy("n", r); return fPar(s, v, FPOTTS, mkVD(e, n)); } return fExpl(s, v, r); }
// fixing any subset of positions (listed in any order) of any factor
template<class GM> void fixBody() {
  typedef ViewFixVariablesFunction<GM> V; typedef PositionAndLabel<typename GM::IndexType, typename GM::LabelType> PL;
  Spec s; s.L = labs(sym_param("n", 3), sym_param("lab", 2)); size_t n = s.L.size(); VS va = bits(sym_choice("A", size_t(1) << n), n); s.f.push_back(draw<GM>(s, mkVS(0, 1))); s.f.push_back(draw<GM>(s, va)); GM gm; buildGm(gm, s); const Fac& a = s.f[1]; size_t d = va.size();
  size_t m = sym_choice("fixed", d + 1); VS pos, lab; std::vector<PL> pl; std::list<PL> li; for (size_t i = 0; i < m; ++i) { size_t p = sym_choice("pos", d); sym_assume(std::find(pos.begin(), pos.end(), p) == pos.end()); pos.push_back(p); lab.push_back(sym_choice("l", a.shape[p])); pl.push_back(PL(p, lab.back())); li.push_back(pl.back()); }
  VS fr, sh; for (size_t i = 0; i < d; ++i) if (std::find(pos.begin(), pos.end(), i) == pos.end()) { fr.push_back(i); sh.push_back(a.shape[i]); }
  VD t; size_t q = prodS(sh); for (size_t k = 0; k < q; ++k) { VS x = digits(k, sh), y(d, 0); for (size_t i = 0; i < fr.size(); ++i) y[fr[i]] = x[i]; for (size_t i = 0; i < m; ++i) y[pos[i]] = lab[i]; t.push_back(a.t[flat(y, a.shape)]); }
  if (sym_param("ctor", 0)) { V v(gm[1], li); isTable(v, sh, t); V w(v); isTable(w, sh, t); } else { V v(gm[1], pl); isTable(v, sh, t); V w; w = v; isTable(w, sh, t); isTable(v, sh, t); pl.clear(); isTable(v, sh, t); }
  // inside a model
  typedef typename meta::TypeListGenerator<ExplicitFunction<double>, V, ViewFunction<GM> >::type FT; typedef GraphicalModel<double, typename GM::OperatorType, FT, DiscreteSpace<> > H; Spec u; VS vv; for (size_t i = 0; i < fr.size(); ++i) { vv.push_back(i); u.L.push_back(sh[i]); } u.L.push_back(2);
  pl.clear(); for (size_t i = 0; i < m; ++i) pl.push_back(PL(pos[i], lab[i])); H h(typename H::SpaceType(u.L.begin(), u.L.end())); V v(gm[1], pl); h.addFactor(h.addFunction(v), vv.begin(), vv.end()); h.addFactor(h.addFunction(v), vv.begin(), vv.end());
  isTable(h[0], sh, t); forLab(u.L, [&](const VS& x) { VS dd(x.begin(), x.begin() + sh.size()); double e = t[flat(dd, sh)]; CHECKM(h.evaluate(x.begin()) == (meta::Compare<typename GM::OperatorType, Adder>::value ? e + e : e * e), "model of views"); });
}
HARNESS(c06_fix) { if (sym_param("mul", 0)) fixBody<Gm2M>(); else fixBody<Gm2>(); }
template<class GM> void viewBody() {
  Spec s; s.L = labs(3, sym_param("lab", 2)); VS va = bits(sym_choice("A", 8), 3); s.f.push_back(draw<GM>(s, va)); s.f.push_back(draw<GM>(s, mkVS(0, 2))); s.f.push_back(draw<GM>(s, va)); s.f.push_back(draw<GM>(s, va)); GM gm; buildGm(gm, s); bool mul = !meta::Compare<typename GM::OperatorType, Adder>::value;
  { ViewFunction<GM> v(gm[0]), w; isTable(v, s.f[0].shape, s.f[0].t); w = v; isTable(w, s.f[0].shape, s.f[0].t); }
  { double k = sym_num("scale", -4, 4, 2); ScaledViewFunction<GM> v(gm, 2, k); VD t = s.f[2].t; for (size_t i = 0; i < t.size(); ++i) t[i] *= k; isTable(v, s.f[2].shape, t); ScaledViewFunction<GM> z(s.f[1].shape); isTable(z, s.f[1].shape, VD(s.f[1].t.size(), mul ? 1.0 : 0.0)); z = v; isTable(z, s.f[2].shape, t); }
  { size_t m = 1 + sym_choice("m", 3); size_t ids[3] = {0, 2, 3}; std::vector<const typename GM::FactorType*> fs; VD t = s.f[0].t; fs.push_back(&gm[0]); for (size_t i = 1; i < m; ++i) { fs.push_back(&gm[ids[i]]); for (size_t k = 0; k < t.size(); ++k) t[k] = mul ? t[k] * s.f[ids[i]].t[k] : t[k] + s.f[ids[i]].t[k]; } AccumulatedViewFunction<GM> v(fs.begin(), fs.end()); isTable(v, s.f[0].shape, t); AccumulatedViewFunction<GM> o(gm[3]); isTable(o, s.f[3].shape, s.f[3].t); o = v; fs.clear(); isTable(o, s.f[0].shape, t); }
  { typedef marray::Marray<double> MA; typedef ModelViewFunction<GM, MA> V; const Fac& f = s.f[1]; double k = sym_num("scale", -4, 4, 2), z = sym_num("off", -4, 4, 2); MA off(f.shape.begin(), f.shape.end(), 0.0); VD o; for (size_t i = 0; i < f.t.size(); ++i) { o.push_back(sym_num("o", -4, 4, 2)); VS d = digits(i, f.shape); off(d.begin()) = o.back(); }
    V a(gm, 1, k, &off), b(gm, 1, k), c(&off); VD t(f.t.size()), u(t); for (size_t i = 0; i < t.size(); ++i) { u[i] = k * f.t[i]; t[i] = u[i] + o[i]; } isTable(a, f.shape, t); isTable(b, f.shape, u); isTable(c, f.shape, o); V a2(a), c2(b); c2 = c;
    for (size_t i = 0; i < t.size(); ++i) { VS d = digits(i, f.shape); off(d.begin()) = z; t[i] = u[i] + z; o[i] = z; } isTable(a, f.shape, t); isTable(c, f.shape, o); isTable(a2, f.shape, t); isTable(c2, f.shape, o); isTable(b, f.shape, u); }
}
HARNESS(c06_view) { if (sym_param("mul", 0)) viewBody<Gm2M>(); else viewBody<Gm2>(); }
template<class GM, class ACC> void convBody() {
  Spec s; s.L = labs(2, sym_param("lab", 2)); VS v = bits(sym_choice("A", 4), 2); Fac f = fExpl(s, v, Rng(1, 4, 1)); s.f.push_back(f); GM gm; buildGm(gm, s); typedef ViewConvertFunction<GM, ACC, double> V; double it = double(1 + sym_choice("T", 3)) / 2; V a(gm[0]), b(gm[0], it), c; c = b; bool mul = !meta::Compare<typename GM::OperatorType, Adder>::value, mn = meta::Compare<ACC, Minimizer>::value;
  const V* vs[3] = {&a, &b, &c}; for (size_t j = 0; j < 3; ++j) { CHECK(vs[j]->dimension() == f.vars.size() && vs[j]->size() == f.t.size()); for (size_t i = 0; i < f.vars.size(); ++i) CHECK(vs[j]->shape(i) == f.shape[i]); }
  typedef detail_convert_function::ValueToProbability<typename GM::OperatorType, ACC, double> VP;
  for (size_t k = 0; k < f.t.size(); ++k) { VS d = digits(k, f.shape); d.push_back(0); double x = f.t[k], e = mul ? (mn ? 1 / x : x) : exp(mn ? -x : x); CHECKM(fabs(a(d.begin()) - e) < 1e-9, "probability"); CHECKM(fabs(VP::convert(x) - e) < 1e-9, "conversion"); double g = mul ? e : exp(it * (mn ? -x : x)); CHECKM(fabs(b(d.begin()) - g) < 1e-9, "probability at temperature"); CHECKM(fabs(c(d.begin()) - g) < 1e-9, "copy"); }
}
HARNESS(c06_convert) { switch (sym_param("k", 0)) { case 0: convBody<Gm2, Minimizer>(); break; case 1: convBody<Gm2, Maximizer>(); break; case 2: convBody<Gm2M, Minimizer>(); break; case 3: convBody<Gm2M, Maximizer>(); break; } }
// views follow the viewed function
HARNESS(c06_track) {
  typedef functions::learnable::LPotts<double> LP; typedef meta::TypeListGenerator<ExplicitFunction<double>, LP>::type FT; typedef GraphicalModel<double, Adder, FT, DiscreteSpace<> > GM; learning::Weights<double> w(1); w.setWeight(0, sym_num("w", -4, 4, 2));
  VS L = mkVS(2, 2, 2); GM gm(GM::SpaceType(L.begin(), L.end())); std::vector<size_t> id(1, 0); VD ft(1, 2.0); LP f(w, 2, id, ft); VS v = mkVS(0, 2); gm.addFactor(gm.addFunction(f), v.begin(), v.end()); typedef PositionAndLabel<GM::IndexType, GM::LabelType> PL;
  size_t l = sym_choice("l", 2), p = sym_choice("p", 2); std::vector<PL> pl(1, PL(p, l)); ViewFixVariablesFunction<GM> a(gm[0], pl); ViewFunction<GM> b(gm[0]); ScaledViewFunction<GM> c(gm, 0, 3.0); AccumulatedViewFunction<GM> d(gm[0]);
  for (size_t r = 0; r < 2; ++r) { double x = sym_num("w", -4, 4, 2); w.setWeight(0, x); for (size_t i = 0; i < 4; ++i) { VS q = mkVS(i % 2, i / 2); double e = q[0] == q[1] ? 0 : 2 * x; CHECK(b(q.begin()) == e); CHECK(c(q.begin()) == 3 * e); CHECK(d(q.begin()) == e); VS z = mkVS(q[0]); CHECK(a(z.begin()) == (q[0] == l ? 0 : 2 * x)); } }
}
// explicit copy and flat storage of a model
template<class GM> void explBody() {
  Spec s; s.L = labs(3, sym_param("lab", 2)); Rng r(-3, 3, 2); bool q = sym_param("rev", 0); 
  for (size_t i = 0; i < 6; ++i) switch (q ? 5 - i : i) { case 0: s.f.push_back(fExpl(s, mkVS(1), r)); break; case 1: { double e = sy("e", r), n = sy("n", r); s.f.push_back(fPotts(s, 0, 2, e, n)); break; } case 2: s.f.push_back(fExpl(s, mkVS(0, 1), r)); break; case 3: s.f.push_back(fExpl(s, mkVS(0, 1, 2), r)); break; case 4: if (GM::NrOfFunctionTypes > 2) { double w = sy("w", r); s.f.push_back(fPar(s, mkVS(1, 2), FABS, mkVD(w, 0))); } break; case 5: if (sym_param("scalar", 0)) s.f.push_back(fExpl(s, VS(), r)); break; }
  GM gm; buildGm(gm, s); { VS v = mkVS(0); typename GM::FunctionIdentifier id; size_t k = sym_choice("share", s.f.size()); VS vv = s.f[k].vars; id = typename GM::FunctionIdentifier(gm[k].functionIndex(), gm[k].functionType()); gm.addFactor(id, vv.begin(), vv.end()); s.f.push_back(s.f[k]); }
  typedef ConvertToExplicit<GM> C; typename C::ExplicitGraphicalModelType ex; if (sym_param("dirty", 0)) { VS l = mkVS(4, 4); ex = typename C::ExplicitGraphicalModelType(DiscreteSpace<>(l.begin(), l.end())); ExplicitFunction<double> u(l.begin(), l.end(), 3.0); VS v = mkVS(0, 1); ex.addFactor(ex.addFunction(u), v.begin(), v.end()); } C::convert(gm, ex);
  CHECK(ex.numberOfVariables() == 3 && ex.numberOfFactors() == s.f.size()); for (size_t i = 0; i < 3; ++i) CHECK(ex.numberOfLabels(i) == s.L[i]); for (size_t i = 0; i < s.f.size(); ++i) { CHECK(ex[i].numberOfVariables() == s.f[i].vars.size()); for (size_t j = 0; j < s.f[i].vars.size(); ++j) CHECK(ex[i].variableIndex(j) == s.f[i].vars[j]); isTable(ex[i], s.f[i].shape, s.f[i].t); }
  forLab(s.L, [&](const VS& x) { CHECK(ex.evaluate(x.begin()) == gm.evaluate(x.begin())); });
  ExplicitStorage<GM> st(gm); for (size_t i = 0; i < s.f.size(); ++i) { const double* p = st[gm[i]]; for (size_t k = 0; k < s.f[i].t.size(); ++k) CHECKM(p[k] == s.f[i].t[k], "flat storage"); }
}
HARNESS(c06_explicit) { switch (sym_param("m", 0)) { case 0: explBody<Gm2>(); break; case 1: explBody<Gm8>(); break; case 2: explBody<Gm2M>(); break; } }
