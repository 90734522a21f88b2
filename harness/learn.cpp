// C28: learnable functions are linear in the shared weights, with the true gradient; weights, constraints, regulariser, loss
#include "gm_common.h"
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/unary_loss_function.hxx>
using namespace opengm;
namespace fl = opengm::functions::learnable;
typedef learning::Weights<double> W; typedef fl::LPotts<double> LP; typedef fl::LUnary<double, size_t, size_t> LU; typedef fl::LWeightedSumOfFunctions<double> LW;
typedef meta::TypeListGenerator<ExplicitFunction<double>, LP, LU, LW>::type FTL; typedef GraphicalModel<double, Adder, FTL, DiscreteSpace<> > GmL;
static void drawW(W& w) { for (size_t i = 0; i < w.size(); ++i) w.setWeight(i, sym_num("w", -3, 3, 1)); }
// one term: coefficient of weight `id` at label tuple number k
struct Lin { VS sh; VS ids; std::vector<VD> g; };   // g[number][tuple]
static double linVal(const Lin& l, const W& w, size_t k) { double s = 0; for (size_t i = 0; i < l.ids.size(); ++i) s += w.getWeight(l.ids[i]) * l.g[i][k]; return s; }
template<class F> void values(const F& f, const Lin& l, const W& w) { for (size_t k = 0; k < prodS(l.sh); ++k) { VS x = digits(k, l.sh); double v = f(x.begin()); CHECKM(v == linVal(l, w, k), "value is the combination of weights and features"); sym_obs_d(v); } }
template<class F> void checkLin(const F& f0, const Lin& l, W& w, bool ordered) {
  F f(f0); CHECKM(f.dimension() == l.sh.size() && f.size() == prodS(l.sh), "dimension and size"); for (size_t i = 0; i < l.sh.size(); ++i) CHECKM(f.shape(i) == l.sh[i], "shape");
  values(f, l, w); size_t n = f.numberOfWeights(); CHECKM(n == l.ids.size(), "number of weights"); if (ordered) for (size_t i = 0; i < n; ++i) CHECKM(f.weightIndex(i) == l.ids[i], "weight index");
  for (size_t k = 0; k < prodS(l.sh); ++k) { VS x = digits(k, l.sh);
    for (size_t i = 0; i < n; ++i) CHECKM(f.weightGradient(i, x.begin()) == l.g[i][k], "gradient is the coefficient");
    for (size_t id = 0; id < w.size(); ++id) { double tot = 0; for (size_t i = 0; i < n; ++i) if (f.weightIndex(i) == id) tot += f.weightGradient(i, x.begin()); double before = f(x.begin()), old = w.getWeight(id); w.setWeight(id, old + 1); CHECKM(f(x.begin()) - before == tot, "gradient is the change of the value"); w.setWeight(id, old); } }
  W w2(w); values(f, l, w); w[0] = sym_num("w", -3, 3, 1); values(f, l, w); CHECKM(w2.getWeight(0) == w2[0] && w2.numberOfWeights() == w.numberOfWeights(), "weights read back"); values(f0, l, w);
  W w3(w.size()); drawW(w3); f.setWeights(w3); values(f, l, w3); values(f0, l, w);
  // inside a model, next to another factor
  GmL gm; { VS L(l.sh); L.push_back(2); gm = GmL(GmL::SpaceType(L.begin(), L.end())); } GmL::FunctionIdentifier id = gm.addFunction(f0); VS vs; for (size_t i = 0; i < l.sh.size(); ++i) vs.push_back(i); gm.addFactor(id, vs.begin(), vs.end());
  GmL cp(gm); w.setWeight(w.size() - 1, sym_num("w", -3, 3, 1)); for (size_t k = 0; k < prodS(l.sh); ++k) { VS x = digits(k, l.sh); x.push_back(1); CHECKM(gm[0](x.begin()) == linVal(l, w, k), "the factor follows the weights"); CHECKM(gm.evaluate(x.begin()) == linVal(l, w, k), "the model follows the weights"); CHECKM(cp.evaluate(x.begin()) == linVal(l, w, k), "the copied model follows the weights"); }
}
HARNESS(c28_lpotts) {
  W w(sym_param("nw", 3)); drawW(w); size_t n = sym_param("n", 2), L = sym_param("L", 3); Lin l; l.sh = mkVS(L, L); std::vector<double> ft; for (size_t i = 0; i < n; ++i) { l.ids.push_back(sym_choice("id", w.size())); ft.push_back(sym_num("f", -3, 3, 1)); VD g; for (size_t k = 0; k < L * L; ++k) g.push_back(k % L == k / L ? 0 : ft[i]); l.g.push_back(g); }
  LP f(w, L, l.ids, ft); CHECKM(f.isPotts() && f.isGeneralizedPotts(), "Potts"); checkLin(f, l, w, true);
  LP g(L, l.ids, ft); g.setWeights(w); values(g, l, w);
}
HARNESS(c28_lunary) {
  W w(sym_param("nw", 4)); drawW(w); Lin l; size_t L = sym_param("L", 2); l.sh = mkVS(L); std::vector<fl::FeaturesAndIndices<double, size_t> > fi(L); size_t next = 0; int rot = sym_choice("rot", 2);
  for (size_t a = 0; a < L; ++a) { size_t n = sym_choice("nf", 3); for (size_t i = 0; i < n && next < w.size(); ++i) { size_t id = rot ? w.size() - 1 - next : next; ++next; double ft = sym_num("f", -3, 3, 1); fi[a].weightIds.push_back(id); fi[a].features.push_back(ft); l.ids.push_back(id); VD g(L, 0); g[a] = ft; l.g.push_back(g); } }
  LU f(w, fi); checkLin(f, l, w, true);
}
HARNESS(c28_lunary_shared) {
  size_t L = sym_param("L", 2), n = sym_param("n", 2); bool first = sym_choice("const", 2); size_t rows = L - first; W w(rows * n + 1); drawW(w); VS s2 = mkVS(rows, n), s1 = mkVS(n); marray::Marray<size_t> ids(s2.begin(), s2.end()); marray::Marray<double> ft(s1.begin(), s1.end()); VD fv; for (size_t i = 0; i < n; ++i) { fv.push_back(sym_num("f", -3, 3, 1)); ft(i) = fv[i]; }
  Lin l; l.sh = mkVS(L); bool rev = sym_choice("rev", 2); for (size_t a = 0; a < rows; ++a) for (size_t i = 0; i < n; ++i) { size_t id = a * n + i; if (rev) id = rows * n - 1 - id; ids(a, i) = id; l.ids.push_back(id); VD g(L, 0); g[a + first] = fv[i]; l.g.push_back(g); }
  LU f(w, L, ids, ft, first); checkLin(f, l, w, true);
}
HARNESS(c28_lws) {
  W w(sym_param("nw", 2)); drawW(w); size_t n = sym_param("n", 2); Lin l; l.sh = sym_param("dim", 2) == 1 ? mkVS(3) : sym_param("dim", 2) == 2 ? mkVS(2, 3) : mkVS(2, 1, 2); std::vector<marray::Marray<double> > ft; for (size_t i = 0; i < n; ++i) { l.ids.push_back(sym_choice("id", w.size())); marray::Marray<double> a(l.sh.begin(), l.sh.end()); VD g; for (size_t k = 0; k < prodS(l.sh); ++k) { g.push_back(sym_num("f", -3, 3, 1)); VS x = digits(k, l.sh); a(x.begin()) = g[k]; } ft.push_back(a); l.g.push_back(g); }
  LW f(l.sh, w, l.ids, ft); checkLin(f, l, w, true); for (size_t i = 0; i < n; ++i) { VS x(l.sh.size(), 0); ft[i](x.begin()) = 9; } values(f, l, w);
}
HARNESS(c28_plain) { // functions without weights
  Spec s; s.L = mkVS(2, 3); Fac a = fExpl(s, mkVS(0, 1), Rng()); ExplicitFunction<double> f = mkExpl(a); W w(2); f.setWeights(w); CHECKM(f.numberOfWeights() == 0, "no weights"); VS x = mkVS(1, 2); CHECKM(f.weightGradient(0, x.begin()) == 0, "no gradient"); CHECKM(f(x.begin()) == a.t[5], "value unchanged");
}
HARNESS(c28_weights) {
  size_t n = sym_param("n", 3); VD v; W w(n); CHECKM(w.numberOfWeights() == n && w.size() == n, "number of weights"); for (size_t i = 0; i < n; ++i) v.push_back(sym_num("w", -3, 3, 2)); for (size_t i = 0; i < n; ++i) w.setWeight(i, v[i]); W c(w), d; d = w; w.setWeight(0, 7); for (size_t i = 0; i < n; ++i) { CHECKM(c.getWeight(i) == v[i] && d.getWeight(i) == v[i] && c[i] == v[i], "copied weights are independent"); CHECKM(w.getWeight(i) == (i ? v[i] : 7), "weight"); }
  double lam = sym_num("lambda", 0, 4, 2); double l1 = 0, l2 = 0; for (size_t i = 0; i < n; ++i) { l1 += dabs_(v[i]); l2 += v[i] * v[i]; }
  typedef learning::WeightRegularizer<double> R; { R r(-1, lam); CHECKM(r.evaluate(c) == 0 && r.regularizerNorm() == -1, "no regulariser"); } { R r(1, lam); CHECKM(r.evaluate(c) == l1 * lam && r.regularizerNorm() == 1 && r.lambda() == lam, "L1"); } { R r(2, lam); CHECKM(r.evaluate(c) == l2 * lam && r.regularizationType() == R::L2Regularizer, "L2"); }
  int64_t bad = sym_i64("norm", -3, 5); bool thrown = false; try { R r((int)bad, lam); } catch (const std::exception&) { thrown = true; } CHECKM(thrown == !(bad == -1 || bad == 1 || bad == 2), "other norms are refused");
}
HARNESS(c28_constraints) {
  typedef learning::WeightConstraints<double> C; size_t n = sym_param("n", 2), m = sym_param("m", 2); C a(n); for (size_t i = 0; i < n; ++i) CHECKM(a.weightLowerBound(i) < -1e300 && a.weightUpperBound(i) > 1e300, "unbounded by default"); VD lo, hi; for (size_t i = 0; i < n; ++i) { lo.push_back(sym_num("lo", -4, 4, 1)); hi.push_back(sym_num("hi", -4, 4, 1)); }
  C b(lo.begin(), lo.end(), hi.begin()); a.setLowerBounds(lo.begin(), lo.end()); a.setUpperBounds(hi.begin(), hi.end()); for (size_t i = 0; i < n; ++i) { CHECKM(a.weightLowerBound(i) == lo[i] && a.weightUpperBound(i) == hi[i] && b.weightLowerBound(i) == lo[i] && b.weightUpperBound(i) == hi[i], "weight bounds"); CHECKM(a.weightLowerBounds()[i] == lo[i] && a.weightUpperBounds()[i] == hi[i], "all weight bounds"); }
  VS size; VD cl, ch; CHECKM(a.numberOfConstraints() == 0, "no constraint"); for (size_t c = 0; c < m; ++c) { size_t k = sym_choice("k", 3); VS idx; VD co; for (size_t i = 0; i < k; ++i) { idx.push_back(i); co.push_back(sym_num("c", -3, 3, 1)); } cl.push_back(sym_num("cl", -4, 4, 1)); ch.push_back(sym_num("ch", -4, 4, 1)); size.push_back(k); a.addConstraint(idx.begin(), idx.end(), co.begin(), cl[c], ch[c]); }
  CHECKM(a.numberOfConstraints() == m && a.constraintLowerBounds().size() == m && a.constraintUpperBounds().size() == m && a.constraintSizes().size() == m, "number of constraints"); for (size_t c = 0; c < m; ++c) { CHECKM(a.constraintSize(c) == size[c], "constraint size"); CHECKM(a.constraintLowerBound(c) == cl[c] && a.constraintUpperBound(c) == ch[c], "constraint bounds"); CHECKM(a.constraintLowerBounds()[c] == cl[c] && a.constraintUpperBounds()[c] == ch[c] && a.constraintSizes()[c] == size[c], "all constraint bounds"); }
}
HARNESS(c28_loss) {
  typedef UnaryLossFunction<double, size_t, size_t> F; size_t L = sym_param("L", 3); size_t gt = sym_choice("gt", L); double m = sym_num("m", -3, 3, 1); F::SharedMultiplers s1, s2; VS a = mkVS(L), b = mkVS(L, L); s1.labelMult_ = marray::Marray<double>(a.begin(), a.end()); s2.labelMult_ = marray::Marray<double>(b.begin(), b.end()); VD v1, v2; for (size_t i = 0; i < L; ++i) { v1.push_back(sym_num("p", -3, 3, 1)); s1.labelMult_(i) = v1[i]; } for (size_t i = 0; i < L * L; ++i) { v2.push_back(sym_num("q", -3, 3, 1)); VS x = digits(i, b); s2.labelMult_(x.begin()) = v2[i]; }
  for (int t = 0; t < 6; ++t) { F f(L, gt, (F::LossType)t, m, t == 3 ? s2 : s1, false); CHECKM(f.dimension() == 1 && f.size() == L && f.shape(0) == L, "shape"); for (size_t l = 0; l < L; ++l) { double d = l > gt ? l - gt : gt - l, ne = l != gt; VS x = mkVS(l); double want = t == 0 ? -m * ne : t == 1 ? m * ne * v1[l] : t == 2 ? m * ne * v1[gt] : t == 3 ? m * ne * v2[l + L * gt] : t == 4 ? m * d : m * d * d; CHECKM(f(x.begin()) == want, "loss"); sym_obs_d(f(x.begin())); } }
}
