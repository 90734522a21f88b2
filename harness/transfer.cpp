// C33: soft-constraint functions as slack variables and linear constraints
#include "gm_common.h"
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/inference/auxiliary/lp_functiontransfer.hxx>
using namespace opengm;
static const size_t BIG_ = 7;
typedef LPFunctionTransfer<double> T; typedef T::LinearConstraintType LC; typedef T::IndicatorVariableType IV; typedef LabelCostFunction<double> LCF; typedef SumConstraintFunction<double> SCF;
typedef meta::TypeListGenerator<ExplicitFunction<double>, LCF, SCF, PottsFunction<double> >::type FTT; typedef GraphicalModel<double, Adder, FTT, DiscreteSpace<> > GmT;
static double lhsOf(const LC& c, const VS& x, const std::vector<IV>& slack, const VD& s) {
  double r = 0; size_t k = 0; for (LC::IndicatorVariablesIteratorType i = c.indicatorVariablesBegin(); i != c.indicatorVariablesEnd(); ++i, ++k) { double v = -1; for (size_t j = 0; j < slack.size(); ++j) if (slack[j] == *i) v = s[j];
    if (v == -1) { for (IV::IteratorType p = i->begin(); p != i->end(); ++p) CHECKM(p->first < x.size(), "indicators speak about the function's variables"); v = (*i)(x.begin()); } r += c.coefficientsBegin()[k] * v; } return r; }
static bool holds(const std::vector<LC>& cs, const VS& x, const std::vector<IV>& slack, const VD& s) { bool ok = true; for (size_t i = 0; i < cs.size(); ++i) { double l = lhsOf(cs[i], x, slack, s), b = cs[i].getBound(); LC::LinearConstraintOperatorValueType o = cs[i].getConstraintOperator(); ok = ok & (o == LC::LinearConstraintOperatorType::LessEqual ? l <= b : o == LC::LinearConstraintOperatorType::Equal ? l == b : l >= b); } return ok; }
// everything the transfer says about f; value(x) and best slack are the oracle's
static void judge(const VS& L, size_t n, const std::vector<IV>& order, const VD& co, const std::vector<IV>& vars, const std::vector<LC>& cs, std::function<double(const VS&)> value, std::function<VD(const VS&)> best, bool forced) {
  CHECKM(order.size() == n && co.size() == n, "one objective coefficient per slack variable");
  for (size_t i = 0; i < n; ++i) { CHECKM(order[i].begin() != order[i].end() && order[i].begin()->first >= L.size(), "slack variables are new variables"); for (size_t j = 0; j < i; ++j) CHECKM(order[i] != order[j], "slack variables are distinct"); CHECKM(std::find(vars.begin(), vars.end(), order[i]) != vars.end(), "slack variables are listed"); }
  for (size_t i = 0; i < cs.size(); ++i) for (LC::IndicatorVariablesIteratorType v = cs[i].indicatorVariablesBegin(); v != cs[i].indicatorVariablesEnd(); ++v) CHECKM(std::find(vars.begin(), vars.end(), *v) != vars.end(), "indicator variables of the constraints are listed");
  VD s; for (size_t i = 0; i < n; ++i) s.push_back(sym_num("slack", 0, 40, 2));
  forLab(L, [&](const VS& x) { double v = value(x), obj = 0, ob = 0; for (size_t i = 0; i < n; ++i) obj += co[i] * s[i]; bool ok = holds(cs, x, order, s); CHECKM(!ok | (forced ? obj == v : obj >= v), "no slack that satisfies the constraints is below the function value");
    VD b = best(x); CHECKM(b.size() == n, "number of slack variables"); for (size_t i = 0; i < n; ++i) ob += co[i] * b[i]; CHECKM(holds(cs, x, order, b), "the best slack satisfies the constraints"); CHECKM(ob == v, "the best slack costs the function value"); sym_obs_d(ob); });
}
template<class F> void all(const F& f0, const VS& L, std::function<double(const VS&)> value, std::function<VD(const VS&)> best, bool forced) {
  F f(f0); CHECKM(T::isTransferable<F>(), "is transferable"); if (sym_param("gm", 0) == 0) {
    std::vector<IV> order(3, IV(BIG_, size_t(7))), vars(1, IV(BIG_, size_t(7))); VD co(3, 9); std::vector<LC> cs(5); T::getSlackVariablesOrder(f, order); T::getSlackVariablesObjectiveCoefficients(f, co); T::getIndicatorVariables(f, vars); T::getLinearConstraints(f, cs);
    judge(L, T::numSlackVariables(f), order, co, vars, cs, value, best, forced); forLab(L, [&](const VS& x) { CHECKM(f(x.begin()) == value(x), "function value"); });
  } else {  // through a factor of a model
    GmT gm(GmT::SpaceType(L.begin(), L.end())); VS v; for (size_t i = 0; i < L.size(); ++i) v.push_back(i); gm.addFactor(gm.addFunction(f), v.begin(), v.end());
    T::IsTransferableFunctor a; T::NumSlackVariablesFunctor b; gm[0].callFunctor(a); gm[0].callFunctor(b); CHECKM(a.isTransferable_, "the factor is transferable"); std::vector<IV> order, vars; VD co; std::vector<LC> cs;
    T::GetSlackVariablesOrderFunctor o; o.order_ = &order; gm[0].callFunctor(o); T::GetSlackVariablesObjectiveCoefficientsFunctor c; c.coefficients_ = &co; gm[0].callFunctor(c); T::GetIndicatorVariablesFunctor i; i.variables_ = &vars; gm[0].callFunctor(i); T::GetLinearConstraintsFunctor l; l.constraints_ = &cs; gm[0].callFunctor(l);
    judge(L, b.numSlackVariables_, order, co, vars, cs, value, best, forced);
  }
}
static VS shapeOf(size_t c) { VS L; for (; c; c /= 10) L.insert(L.begin(), c % 10); return L; }
HARNESS(c33_labelcost) {
  VS L = shapeOf(sym_param("shape", 22)); size_t M = 0; bool same = true; for (size_t i = 0; i < L.size(); ++i) { M = std::max(M, L[i]); same = same && L[i] == L[0]; } bool sh = sym_param("same", 0) && same; VD c; size_t single = M, ctor = sym_param("single", 0);
  if (ctor) { single = sym_choice("label", M); c.assign(M, 0.0); c[single] = sym_num("cost", -6, 6, 2); } else for (size_t i = 0; i < M; ++i) c.push_back(sym_num("cost", -6, 6, 2));
  LCF f = ctor ? (sh ? LCF(L.size(), M, single, c[single]) : LCF(L.begin(), L.end(), single, c[single])) : (sh ? LCF(L.size(), M, c.begin(), c.end()) : LCF(L.begin(), L.end(), c.begin(), c.end()));
  std::vector<bool> used(M, false); for (size_t l = 0; l < M; ++l) used[l] = ctor ? l == single : c[l] != 0;   // forks: one slack per non-zero cost
  all(f, L, [&](const VS& x) { std::set<size_t> u(x.begin(), x.end()); double r = 0; for (size_t l : u) r += c[l]; return r; }, [&](const VS& x) { VD b; for (size_t l = 0; l < M; ++l) if (used[l]) b.push_back(std::find(x.begin(), x.end(), l) != x.end() ? 1 : 0); return b; }, true);
}
HARNESS(c33_sum) {
  VS L = shapeOf(sym_param("shape", 22)); size_t M = 0, tot = 0; bool same = true; for (size_t i = 0; i < L.size(); ++i) { M = std::max(M, L[i]); tot += L[i]; same = same && L[i] == L[0]; } bool share = sym_param("share", 0), sh = sym_param("same", 0) && same; VD c; for (size_t i = 0; i < (share ? M : tot); ++i) c.push_back(sym_num("coef", -6, 6, 2)); double lam = sym_param("lambda", 3) / 2.0, bound = sym_num("bound", -6, 6, 2);
  SCF f = sh ? SCF(L.size(), M, c.begin(), c.end(), share, lam, bound) : SCF(L.begin(), L.end(), c.begin(), c.end(), share, lam, bound);
  auto dev = [&](const VS& x) { double r = -bound; size_t off = 0; for (size_t i = 0; i < L.size(); ++i) { r += c[share ? x[i] : off + x[i]]; off += L[i]; } return sym_ite_d(r < 0, -r, r); };
  all(f, L, [&](const VS& x) { return lam * dev(x); }, [&](const VS& x) { return VD(1, dev(x)); }, false);
}
template<class F> void refused(const F& f) { CHECKM(!T::isTransferable<F>(), "not transferable"); int n = 0; std::vector<IV> o; VD co; std::vector<LC> cs;
  try { T::numSlackVariables(f); } catch (RuntimeError&) { ++n; } try { T::getSlackVariablesOrder(f, o); } catch (RuntimeError&) { ++n; } try { T::getSlackVariablesObjectiveCoefficients(f, co); } catch (RuntimeError&) { ++n; } try { T::getIndicatorVariables(f, o); } catch (RuntimeError&) { ++n; } try { T::getLinearConstraints(f, cs); } catch (RuntimeError&) { ++n; } CHECKM(n == 5, "other functions are refused"); }
HARNESS(c33_other) { double a = sym_num("a", -3, 3, 1); PottsFunction<double> p(2, 2, a, 0); refused(p); VS L = mkVS(2, 2); ExplicitFunction<double> e(L.begin(), L.end(), a); refused(e); GmT gm(GmT::SpaceType(L.begin(), L.end())); T::IsTransferableFunctor t; t.isTransferable_ = true; VS v = mkVS(0, 1); gm.addFactor(gm.addFunction(p), v.begin(), v.end()); gm[0].callFunctor(t); CHECKM(!t.isTransferable_, "the factor is not transferable"); }
