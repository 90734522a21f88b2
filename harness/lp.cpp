// C38: the linear programme of a model; the solver's answer read back (a small exact solver stands in for Gurobi)
#include "gm_common.h"
#ifdef LP_CPLEX
#include "ilcplex/ilocplex.h"
#else
#include "gurobi_c++.h"
#endif
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#ifdef LP_CPLEX
#include <opengm/inference/lpcplex.hxx>
#include <opengm/inference/lpcplex2.hxx>
#define LP1 LPCplex
#define LP2 LPCplex2
#define NAMED(n) "LPCplex" n
#else
#include <opengm/inference/lpgurobi.hxx>
#include <opengm/inference/lpgurobi2.hxx>
#define LP1 LPGurobi
#define LP2 LPGurobi2
#define NAMED(n) "LPGurobi" n
#endif
#define ENTRY_(x) ENTRY__(x)
#ifdef LP_CPLEX
#define ENTRY__(x) HARNESS(x##_cplex)
#else
#define ENTRY__(x) HARNESS(x)
#endif
using namespace opengm; using lpstub::Core;
typedef LinearConstraintFunction<double> LCF; typedef LabelOrderFunction<double> LOF; typedef NumLabelsLimitationFunction<double> NLF; typedef LabelCostFunction<double> LCo; typedef SumConstraintFunction<double> SCo;
typedef meta::TypeListGenerator<ExplicitFunction<double>, LCF, LOF, NLF, LCo, SCo>::type FTL; typedef GraphicalModel<double, Adder, FTL, DiscreteSpace<> > GmL;
typedef LCF::LinearConstraintType LC; typedef LC::IndicatorVariableType IV; typedef std::pair<size_t, size_t> VL; typedef LinearConstraintTraits::LinearConstraintOperator OP;
typedef std::function<bool(const VS&)> Pred; typedef std::function<double(const VS&)> Val;
struct Mod { Spec s; GmL gm; std::vector<Pred> hard; std::vector<Val> soft; double con; Mod() : con(0) {}
  double energy(const VS& x) const { double e = con + energyAdd(s, x); for (size_t i = 0; i < soft.size(); ++i) e += soft[i](x); return e; } bool valid(const VS& x) const { for (size_t i = 0; i < hard.size(); ++i) if (!hard[i](x)) return false; return true; } };
// explicit part: topology, label counts, unaries, optionally factors without variables, second unaries and parallel factors
static void base(Mod& m) {
  bool fix = sym_param("fixed", 0); Rng r(fix ? 0 : -4, fix ? 0 : 4, 1); m.s = specExpl(sym_param("tp", 1), sym_param("lm", 0), sym_param("um", 0), r, r); unsigned ex = sym_param("extra", 0);
  if (ex & 1) m.s.f.push_back(fExpl(m.s, mkVS(m.s.L.size() - 1), r)); if (ex & 2) m.s.f.push_back(fExpl(m.s, m.s.f[m.s.f.size() - 1].vars.size() > 1 ? m.s.f.back().vars : mkVS(0, 1), r)); Core::known() = fix; if (fix) for (size_t j = 0; j < m.s.f.size(); ++j) for (size_t i = 0; i < m.s.f[j].t.size(); ++i) m.s.f[j].t[i] = (double)((i * 7 + j * 3 + fix) % 5) - 2 + (double)(i * 3 + j) / 16;
  m.gm = GmL(GmL::SpaceType(m.s.L.begin(), m.s.L.end())); for (size_t i = 0; i < m.s.f.size(); ++i) m.gm.addFactor(m.gm.addFunction(mkExpl(m.s.f[i])), m.s.f[i].vars.begin(), m.s.f[i].vars.end()); if (ex & 4) for (int i = 0; i < 2; ++i) { double c = sy("const", r); VS none; ExplicitFunction<double> f(none.begin(), none.end(), c); m.gm.addFactor(m.gm.addFunction(f), none.begin(), none.end()); m.con += c; }
}
// the labelling a point of the programme stands for; every variable has exactly one label
static VS decode(const Mod& m, const VD& p) { VS x; size_t k = 0; for (size_t v = 0; v < m.s.L.size(); ++v) { size_t n = 0, l = 0; for (size_t i = 0; i < m.s.L[v]; ++i, ++k) if (p[k] == 1) { ++n; l = i; } CHECKM(n == 1, "a feasible point gives every variable one label"); x.push_back(l); } return x; }
// the feasible 0/1 points are the valid labellings, each once, and cost what the labelling costs up to the constant
static void formulation(const Mod& m, Core& c, bool constInside, bool slack) {
  const std::vector<VD>& pts = c.points(); std::map<VS, int> seen; CHECKM(!c.unbounded, "no feasible labelling has an unbounded slack");
  for (size_t i = 0; i < pts.size(); ++i) { VS x = decode(m, pts[i]); CHECKM(m.valid(x), "a feasible point satisfies the constraints"); ++seen[x]; double o = c.objective(pts[i]); CHECKM(o + (constInside ? 0 : m.con) == m.energy(x), "the programme's cost of a labelling"); sym_obs_d(o); }
  size_t n = 0; forLab(m.s.L, [&](const VS& x) { if (m.valid(x)) { ++n; CHECKM(seen.count(x) && seen[x] == 1, "every valid labelling is one feasible point"); } }); CHECKM(n == seen.size(), "number of feasible points");
}
template<class ACC> bool noWorse(double a, double b) { return meta::Compare<ACC, Minimizer>::value ? a <= b : a >= b; }
template<class INF> void answer(const Mod& m, INF& inf, bool exact) {
  VS y(7, 9); CHECKM(inf.arg(y) == NORMAL, "an answer"); CHECKM(validLab(m.s, y), "answer is a labelling"); double e = m.energy(y), v = inf.value(), b = inf.bound(); CHECKM(v == e, "value of the answer"); sym_obs_d(v); sym_obs_d(b); CHECKM(m.valid(y), "the answer satisfies the constraints");
  bool best = true; forLab(m.s.L, [&](const VS& x) { if (m.valid(x)) best = best & noWorse<typename INF::AccumulationType>(e, m.energy(x)); }); CHECKM(best, "no valid labelling is better"); if (exact) CHECKM(b == e, "the bound is the optimal value");
}
template<class P> void setPar(P& p) {
  unsigned in = sym_param("integer", 3); p.integerConstraintNodeVar_ = in & 1; p.integerConstraintFactorVar_ = in & 2; p.useSoftConstraints_ = sym_param("softc", 0); p.useFunctionTransfer_ = sym_param("transfer", 0); p.mergeParallelFactors_ = sym_param("merge", 0); p.nameConstraints_ = sym_param("names", 0);
  unsigned rel = sym_param("relax", 0); p.relaxation_ = rel == 0 ? P::LocalPolytope : rel == 1 ? P::LoosePolytope : P::TightPolytope; p.maxNumConstraintsPerIter_ = sym_param("per", 0); p.challengeHeuristic_ = sym_param("weighted", 0) ? P::Weighted : P::Random; p.maxNumIterations_ = sym_param("iters", 1000); p.tolerance_ = 0.0625;
}
template<class ACC> void run2(Mod& m) {
  typedef LP2<GmL, ACC> INF; typename INF::Parameter p; setPar(p); INF inf(m.gm, p); Core& c = *Core::last(); c.refresh(); bool tight = p.relaxation_ == INF::Parameter::TightPolytope || (p.relaxation_ == INF::Parameter::LocalPolytope && m.hard.empty());
  CHECKM(&inf.graphicalModel() == &m.gm && inf.name() == NAMED("2"), "model and name"); { VS y; CHECKM(inf.arg(y) == UNKNOWN && y == VS(m.s.L.size(), 0), "zeros before inference"); }
  for (size_t i = 0; i < c.type.size(); ++i) { size_t nn = 0; for (size_t v = 0; v < m.s.L.size(); ++v) nn += m.s.L[v]; if (c.binary(i)) CHECKM((c.type[i] == 'B') == (i < nn ? p.integerConstraintNodeVar_ : p.integerConstraintFactorVar_), "which variables are integral"); }
  if (tight && sym_param("form", 1)) formulation(m, c, false, false);
  if (!sym_param("infer", 1)) return;
  bool any = m.hard.empty(); forLab(m.s.L, [&](const VS& x) { any = any || m.valid(x); }); sym_assume(any);
  InferenceTermination t; unsigned vis = sym_param("visitor", 0); if (vis == 0) t = inf.infer(); else { typename INF::TimingVisitorType tv; t = inf.infer(tv); } CHECKM(t == NORMAL, "a feasible programme is solved"); answer(m, inf, true);
  if (p.maxNumConstraintsPerIter_) for (size_t i = 1; i < c.rowsAt.size(); ++i) CHECKM(c.rowsAt[i] - c.rowsAt[i - 1] <= p.maxNumConstraintsPerIter_ && c.rowsAt[i] > c.rowsAt[i - 1], "at most the allowed number of rows is added, and at least one");
}
static void run(Mod& m) { if (sym_param("max", 0)) run2<Maximizer>(m); else run2<Minimizer>(m); }
ENTRY_(c38_explicit) { Mod m; base(m); run(m); }
// hard constraints of every kind
struct Ind { std::vector<VL> p; int op; }; static const IV::LogicalOperatorType LOP[] = {IV::And, IV::Or, IV::Not}; static const OP::ValueType COP[] = {OP::LessEqual, OP::Equal, OP::GreaterEqual};
static bool indVal(const Ind& a, const VS& x) { bool all = true, any = false; for (size_t i = 0; i < a.p.size(); ++i) { bool e = x[a.p[i].first] == a.p[i].second; all = all && e; any = any || e; } return a.op == 0 ? all : a.op == 1 ? any : !any; }
template<class F> void addHard(Mod& m, const F& f, const VS& v, Pred local) { m.gm.addFactor(m.gm.addFunction(f), v.begin(), v.end()); m.hard.push_back([=](const VS& x) { VS y; for (size_t i = 0; i < v.size(); ++i) y.push_back(x[v[i]]); return local(y); }); }
static VS allVars(const Mod& m) { VS v; for (size_t i = 0; i < m.s.L.size(); ++i) v.push_back(i); return v; }
// one linear constraint function of `nc` constraints of `terms` indicators of `k` pairs over the variables v
static void addLinear(Mod& m, const VS& v) {
  VS sh = lsh(m.s, v); size_t nc = sym_param("nc", 1), terms = sym_param("terms", 1), k = sym_param("k", 2); std::vector<LC> lc; std::vector<Pred> ps;
  for (size_t j = 0; j < nc; ++j) { std::vector<Ind> is; VD co; LC l; for (size_t t = 0; t < terms; ++t) { Ind a; a.op = sym_param("op", 3) < 3 ? (sym_param("op", 3) + t) % 3 : sym_choice("op", 3); for (size_t q = 0; q < k; ++q) { size_t w = (q + t + j) % v.size(); size_t lab = sym_param("anylab", 1) ? sym_choice("lab", sh[w]) : (q + t + j) % sh[w]; a.p.push_back(VL(w, lab)); } is.push_back(a); double c = t ? (double)((int)sym_choice("c", 2) * 2 - 1) : 1; co.push_back(c); IV iv(a.p, LOP[a.op]); l.add(iv, c); }
    int op = sym_choice("cop", 3); double b = terms > 1 ? 0 : (double)sym_choice("b", 2); l.setBound(b); l.setConstraintOperator(COP[op]); lc.push_back(l); ps.push_back([=](const VS& x) { double s = 0; for (size_t t = 0; t < is.size(); ++t) if (indVal(is[t], x)) s += co[t]; return op == 0 ? s <= b : op == 1 ? s == b : s >= b; }); }
  addHard(m, LCF(sh.begin(), sh.end(), lc), v, [=](const VS& x) { for (size_t j = 0; j < ps.size(); ++j) if (!ps[j](x)) return false; return true; });
}
static void addOrder(Mod& m, size_t a, size_t b) { VS v = mkVS(a, b); size_t n = std::max(m.s.L[a], m.s.L[b]); VD o; for (size_t i = 0; i < n; ++i) o.push_back((double)sym_choice("o", 2 + (n > 2))); addHard(m, LOF(m.s.L[a], m.s.L[b], o), v, [=](const VS& x) { return o[x[0]] <= o[x[1]]; }); }
static void addLimit(Mod& m, const VS& v) { VS sh = lsh(m.s, v); size_t k = 1 + sym_choice("limit", sh.size()); addHard(m, NLF(sh.begin(), sh.end(), k), v, [=](const VS& x) { std::set<size_t> s(x.begin(), x.end()); return s.size() <= k; }); }
ENTRY_(c38_constraints) {
  Mod m; base(m); unsigned kinds = sym_param("kinds", 1); VS v = allVars(m); size_t nv = sym_param("nv", v.size()); v.resize(nv);
  if (kinds & 1) addLinear(m, v); if (kinds & 2) addOrder(m, 0, 1); if (kinds & 4) addLimit(m, v); if (kinds & 8) addLinear(m, v); if (kinds & 16) { addOrder(m, 0, 1); VS w = mkVS(1, 2); m.gm.addFactor(m.gm[m.gm.numberOfFactors() - 1].functionIndex() == 0 ? GmL::FunctionIdentifier(0, m.gm[m.gm.numberOfFactors() - 1].functionType()) : GmL::FunctionIdentifier(0, 2), w.begin(), w.end()); Pred p = m.hard.back(); m.hard.push_back([=](const VS& x) { return p(mkVS(x[1], x[2])); }); }
  if (sym_param("softc", 0)) { std::vector<Pred> h; h.swap(m.hard); m.soft.push_back([=](const VS& x) { double s = 0; for (size_t i = 0; i < h.size(); ++i) if (!h[i](x)) s += 1; return s; }); }
  run(m);
}
ENTRY_(c38_transfer) {
  Mod m; base(m); unsigned kinds = sym_param("kinds", 1); VS v = allVars(m), sh = lsh(m.s, v); size_t M = *std::max_element(sh.begin(), sh.end());
  if (kinds & 1) { VD c; for (size_t i = 0; i < M; ++i) c.push_back(i == sym_param("zero", 9) ? 0.0 : sym_num("cost", 1, 5, 2)); m.gm.addFactor(m.gm.addFunction(LCo(sh.begin(), sh.end(), c.begin(), c.end())), v.begin(), v.end()); m.soft.push_back([=](const VS& x) { std::set<size_t> u(x.begin(), x.end()); double r = 0; for (size_t l : u) r += c[l]; return r; }); }
  if (kinds & 2) { VD c; size_t tot = 0; for (size_t i = 0; i < sh.size(); ++i) tot += sh[i]; for (size_t i = 0; i < tot; ++i) c.push_back((double)(i % 3) - 1); double bound = (double)sym_choice("bound", 3) - 1, lam = sym_param("lambda", 3) / 2.0; m.gm.addFactor(m.gm.addFunction(SCo(sh.begin(), sh.end(), c.begin(), c.end(), false, lam, bound)), v.begin(), v.end()); m.soft.push_back([=](const VS& x) { double r = -bound; size_t off = 0; for (size_t i = 0; i < sh.size(); ++i) { r += c[off + x[i]]; off += sh[i]; } return lam * (r < 0 ? -r : r); }); }
  if (kinds & 4) { VS w = mkVS(0, 1), s2 = lsh(m.s, w); size_t lab = sym_choice("label", M); double c = sym_num("one", 1, 5, 2); m.gm.addFactor(m.gm.addFunction(LCo(s2.begin(), s2.end(), lab, c)), w.begin(), w.end()); m.soft.push_back([=](const VS& x) { return x[0] == lab || x[1] == lab ? c : 0.0; }); }
  if (kinds & 8) addOrder(m, 0, 1);
  run(m);
}
// whatever point the solver returns, the answer takes a largest entry of every variable
ENTRY_(c38_rounding) {
  Mod m; base(m); bool v1 = sym_param("v1", 0); VS y; Core::nextArbitrary() = true; double b; Core* c; typedef LP2<GmL, Minimizer> I2; typedef LP1<GmL, Minimizer> I1; I2::Parameter p2; p2.relaxation_ = I2::Parameter::TightPolytope; I1::Parameter p1;
  if (v1) { I1 inf(m.gm, p1); c = Core::last(); inf.infer(); inf.arg(y); b = inf.bound(); size_t k = 0; for (size_t v = 0; v < m.s.L.size(); ++v) for (size_t l = 0; l < m.s.L[v]; ++l, ++k) CHECKM(inf.lpNodeVi(v, l) == k, "index of a node variable"); CHECKM(inf.value() == m.energy(y), "value of the answer"); 
    for (size_t v = 0; v < m.s.L.size(); ++v) { GmL::IndependentFactorType out; inf.variable(v, out); for (size_t l = 0; l < m.s.L[v]; ++l) CHECKM(out(l) == c->x[inf.lpNodeVi(v, l)], "relaxed labels of a variable"); }
    for (size_t f = 0; f < m.s.f.size(); ++f) { GmL::IndependentFactorType out; inf.factorVariable(f, out); for (size_t i = 0; i < m.s.f[f].t.size(); ++i) { VS d = digits(i, m.s.f[f].shape); CHECKM(out(d.begin()) == c->x[inf.lpFactorVi(f, i)] && inf.lpFactorVi(f, i) == inf.lpFactorVi(f, d.begin(), d.end()), "relaxed labels of a factor"); } }
    size_t k2 = 0; for (size_t v = 0; v < y.size(); ++v) { for (size_t l = 0; l < m.s.L[v]; ++l, ++k2) CHECKM(c->x[k2] <= c->x[k2 - l + y[v]], "a largest entry is taken"); } CHECKM(b == c->objVal + m.con, "the bound is the solver's plus the constant"); }
  else { I2 inf(m.gm, p2); c = Core::last(); inf.infer(); inf.arg(y); b = inf.bound(); CHECKM(inf.value() == m.energy(y), "value of the answer"); size_t k2 = 0; for (size_t v = 0; v < y.size(); ++v) { for (size_t l = 0; l < m.s.L[v]; ++l, ++k2) CHECKM(c->x[k2] <= c->x[k2 - l + y[v]], "a largest entry is taken"); } CHECKM(b == c->objVal + m.con, "the bound is the solver's plus the constant"); size_t n = 0; for (I2::LPInferenceBaseType::SolverSolutionIteratorType it = inf.solutionBegin(); it != inf.solutionEnd(); ++it, ++n) CHECKM(*it == c->x[n] && inf.solution(n) == c->x[n], "relaxed solution"); CHECKM(n == c->x.size() && inf.objectiveFunctionValue() == c->objVal, "relaxed solution"); }
  Core::nextArbitrary() = false;
}
// the older interface
ENTRY_(c38_first) {
  Mod m; base(m); typedef LP1<GmL, Minimizer> INF; INF::Parameter p; p.integerConstraint_ = sym_param("integer", 1); INF inf(m.gm, p); Core& c = *Core::last(); c.refresh(); CHECKM(&inf.graphicalModel() == &m.gm && inf.name() == NAMED(""), "model and name"); { VS y; CHECKM(inf.arg(y) == UNKNOWN && y == VS(m.s.L.size(), 0), "zeros before inference"); } size_t nn = 0; for (size_t v = 0; v < m.s.L.size(); ++v) nn += m.s.L[v]; for (size_t i = 0; i < c.type.size(); ++i) CHECKM((c.type[i] == 'B') == (i < nn && p.integerConstraint_), "which variables are integral");
  formulation(m, c, false, false);
  if (sym_param("add", 0)) { size_t f = 0; while (f < m.s.f.size() && m.s.f[f].vars.size() < 2) ++f; VS d; for (size_t i = 0; i < m.s.f[f].vars.size(); ++i) d.push_back(sym_choice("d", m.s.f[f].shape[i])); std::vector<size_t> vi; VD co; vi.push_back(inf.lpFactorVi(f, d.begin(), d.end())); co.push_back(1); vi.push_back(inf.lpNodeVi(m.s.f[f].vars[0], 0)); co.push_back(2); double lo = (double)sym_choice("lo", 2), hi = lo + (double)sym_choice("hi", 2); if (sym_param("add", 0) == 2) inf.addConstraint(vi.begin(), vi.end(), co.begin(), lo, hi, "c"); else inf.addConstraint(vi.begin(), vi.end(), co.begin(), lo, hi); VS fv = m.s.f[f].vars; m.hard.push_back([=](const VS& x) { bool all = true; for (size_t i = 0; i < fv.size(); ++i) all = all && x[fv[i]] == d[i]; double s = (all ? 1 : 0) + (x[fv[0]] == 0 ? 2 : 0); return s >= lo && s <= hi; }); formulation(m, c, false, false); bool any = false; forLab(m.s.L, [&](const VS& x) { any = any || m.valid(x); }); sym_assume(any); }
  inf.infer(); answer(m, inf, true);
}
