#include "gm_common.h"
#include <cmath>
#include <opengm/opengm.hxx>
#include <opengm/inference/external/libdai/bp.hxx>
#include <opengm/inference/external/libdai/dec_map.hxx>
#include <opengm/inference/external/libdai/double_loop_generalized_bp.hxx>
#include <opengm/inference/external/libdai/exact.hxx>
#include <opengm/inference/external/libdai/fractional_bp.hxx>
#include <opengm/inference/external/libdai/gibbs.hxx>
#include <opengm/inference/external/libdai/junction_tree.hxx>
#include <opengm/inference/external/libdai/mean_field.hxx>
#include <opengm/inference/external/libdai/tree_expectation_propagation.hxx>
#include <opengm/inference/external/libdai/tree_reweighted_bp.hxx>
using namespace opengm; namespace ld = opengm::external::libdai;
// ---- C41: the libDAI wrappers; what the package computes is done by a stand-in ----
template<class OP> struct GmOf { typedef GraphicalModel<double, OP, meta::TypeListGenerator<ExplicitFunction<double>, PottsFunction<double> >::type> T; };
template<class OP, class ACC> struct Tr;
template<> struct Tr<Adder, Minimizer> { static double to(double v) { return std::exp(-1.0 * v); } static double from(double v) { return -1.0 * std::log(v); } };
template<> struct Tr<Adder, Maximizer> { static double to(double v) { return std::exp(1.0 * v); } static double from(double v) { return std::log(v); } };
template<> struct Tr<Multiplier, Maximizer> { static double to(double v) { return v; } static double from(double v) { return v; } };
template<> struct Tr<Multiplier, Integrator> { static double to(double v) { return v; } static double from(double v) { return v; } };
template<> struct Tr<Multiplier, Minimizer> { static double to(double v) { return 1.0 / v; } static double from(double v) { return 1.0 / v; } };
template<class ACC> static bool summing() { return meta::Compare<ACC, Integrator>::value; }
template<class OP> static Spec daiModel(typename GmOf<OP>::T& gm) {
  bool mul = meta::Compare<OP, Multiplier>::value; Rng r = mul ? Rng(1, 3, 4) : Rng(-2, 2, 1); Topo t = topo(sym_param("topo", 1)); Spec s; s.L.assign(t.n, 2); unsigned mix = sym_param("mix", 0), ex = sym_param("ex", 0); if (mix) s.L[mix - 1] = 3; if (ex & 1) s.f.push_back(fExpl(s, VS(), r)); for (size_t v = 0; v < t.n; ++v) s.f.push_back(fExpl(s, mkVS(v), r));
  for (size_t i = 0; i < t.e.size(); ++i) { if ((ex & 2) && t.e[i].size() == 2) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], sy("same", r), sy("other", r))); else s.f.push_back(fExpl(s, t.e[i], r)); }
  gm = typename GmOf<OP>::T(typename GmOf<OP>::T::SpaceType(s.L.begin(), s.L.end()));
  for (size_t i = 0; i < s.f.size(); ++i) { Fac& f = s.f[i]; if (f.kind == FEXPL) gm.addFactor(gm.addFunction(mkExpl(f)), f.vars.begin(), f.vars.end()); else { VS a(2, 0), b(2, 0); b[1] = 1; gm.addFactor(gm.addFunction(PottsFunction<double>(s.L[f.vars[0]], s.L[f.vars[1]], f.t[flat(a, f.shape)], f.t[flat(b, f.shape)])), f.vars.begin(), f.vars.end()); } }
  return s;
}
static size_t lowFirst(const VS& shape, const VS& x) { size_t k = 0, m = 1; for (size_t i = 0; i < shape.size(); ++i) { k += x[i] * m; m *= shape[i]; } return k; }
typedef std::map<std::string, std::string> Opt;
static std::string num(double v) { std::stringstream s; s << v; return s.str(); }
static void options(const std::string& got, const std::string& name, const Opt& want) {
  CHECKM(got.compare(0, name.size() + 1, name + "[") == 0 && got[got.size() - 1] == ']', "the algorithm asked for"); std::string b = "," + got.substr(name.size() + 1, got.size() - name.size() - 2) + ","; for (Opt::const_iterator i = want.begin(); i != want.end(); ++i) CHECKM(b.find("," + i->first + "=" + i->second + ",") != std::string::npos, "parameters are passed on");
}
template<class OP, class ACC> struct Dai {
  typedef typename GmOf<OP>::T G; typedef Tr<OP, ACC> T;
  static void factors(const Spec& s) { dai::FactorGraph& g = *dai::FactorGraph::last(); CHECKM(g.vs.size() == s.L.size() && g.f.size() == s.f.size(), "variables and factors"); for (size_t v = 0; v < s.L.size(); ++v) CHECKM(g.vs[v].l == v && g.vs[v].s == s.L[v], "the variables"); for (size_t i = 0; i < s.f.size(); ++i) { const Fac& f = s.f[i]; dai::VarSet vs; for (size_t k = 0; k < f.vars.size(); ++k) vs.insert(dai::Var(f.vars[k], f.shape[k])); CHECKM(g.f[i].v == vs, "the factor's variables"); forLab(f.shape, [&](const VS& x) { CHECKM(g.f[i].p[lowFirst(f.shape, x)] == T::to(f.t[flat(x, f.shape)]), "the factor's values"); }); } }
  template<class Q> static void run(const typename Q::Parameter& p, const std::string& name, const Opt& o, bool hasArg) {
    G gm; Spec s = daiModel<OP>(gm); dai::InfAlg::alive() = 0; int fault = sym_param("fault", 0); dai::InfAlg::fault() = fault;
    { Q q(gm, p); dai::InfAlg* a = dai::InfAlg::last(); options(a->opts, name, o); CHECKM(a->inits == 1 && a->g == dai::FactorGraph::last(), "the algorithm is set up"); factors(s); CHECKM(&q.graphicalModel() == &gm && q.name().size(), "the model is kept");
      bool threw = false; if (sym_param("early", 0)) { q.reset(); a = dai::InfAlg::last(); options(a->opts, name, o); CHECKM(dai::InfAlg::alive() == 1 && a->inits == 1 && a->runs == 0, "reset starts over"); factors(s); }
      typename Q::EmptyVisitorType vis; InferenceTermination r = NORMAL; try { r = sym_param("visit", 0) ? q.infer(vis) : q.infer(); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (fault == 1), "errors of the package are reported"); CHECKM(threw || r == (fault == 2 ? INFERENCE_ERROR : NORMAL), "inference ends"); CHECKM(a->runs == 1, "it ran"); if (fault == 1 || fault == 2) return;
      for (size_t v = 0; v < s.L.size(); ++v) { typename Q::IndependentFactorType m; threw = false; try { r = q.marginal(v, m); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (fault == 3), "errors of the package are reported"); if (threw) continue; CHECKM(r == NORMAL && m.numberOfVariables() == 1 && m.variableIndex(0) == v && m.size() == s.L[v], "a marginal of the variable"); dai::Factor b = a->belief(dai::Var(v, s.L[v])); for (size_t l = 0; l < s.L[v]; ++l) CHECKM(m(&l) == T::from(b.p[l]), "the package's beliefs, transformed back"); if (v == 0) sym_obs_d(b.p[0]); }
      for (size_t i = 0; i < s.f.size(); ++i) { const Fac& f = s.f[i]; if (f.vars.empty()) continue; typename Q::IndependentFactorType m; threw = false; try { r = q.factorMarginal(i, m); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (fault == 3), "errors of the package are reported"); if (threw) continue; CHECKM(r == NORMAL && m.numberOfVariables() == f.vars.size(), "a marginal of the factor"); for (size_t k = 0; k < f.vars.size(); ++k) CHECKM(m.variableIndex(k) == f.vars[k], "with its variables"); dai::Factor b = a->belief(dai::FactorGraph::last()->f[i].v); forLab(f.shape, [&](const VS& x) { CHECKM(m(x.begin()) == T::from(b.p[lowFirst(f.shape, x)]), "the package's beliefs, transformed back"); }); }
      VS y; threw = false; try { r = q.arg(y); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (fault == 4 || !hasArg), "an answer, if there can be one"); if (!threw) { CHECKM(r == NORMAL && y == a->state && validLab(s, y), "the package's answer"); if (!summing<ACC>()) CHECKM(q.value() == gm.evaluate(y.begin()), "the value is the answer's"); for (size_t i = 0; i < y.size(); ++i) sym_obs_u(y[i]); VS z; CHECKM(q.arg(z, 2) != NORMAL, "no second best answer"); } }
    CHECKM(dai::InfAlg::alive() == 0, "the algorithm is given back");
  }
  static void go() {
    unsigned c = sym_param("algo", 0), e = sym_param("rule", 0); const char* R[] = {"PARALL", "SEQFIX", "SEQRND", "SEQMAX"}; Opt o; o["verbose"] = "1"; std::string inf = summing<ACC>() ? "SUMPROD" : "MAXPROD";
    if (c == 0 || c == 4) { o["updates"] = R[e]; o["damping"] = num(0.25); o["maxiter"] = "7"; o["tol"] = num(0.125); o["inference"] = inf; o["logdomain"] = "0"; }
    if (c == 0) { typedef ld::Bp<G, ACC> Q; typedef typename Q::UpdateRule U; U u[] = {Q::PARALL, Q::SEQFIX, Q::SEQRND, Q::SEQMAX}; run<Q>(typename Q::Parameter(7, 0.25, 0.125, u[e], 1), "BP", o, true); }
    if (c == 1) { typedef ld::DoubleLoopGeneralizedBP<G, ACC> Q; typename Q::Clusters k[] = {Q::MIN, Q::BETHE, Q::DELTA, Q::LOOP}; const char* n[] = {"MIN", "BETHE", "DELTA", "LOOP"}; o["clusters"] = n[e]; if (e == 3) o["loopdepth"] = "5"; o["doubleloop"] = e & 1 ? "1" : "0"; o["init"] = e & 1 ? "RANDOM" : "UNIFORM"; o["maxiter"] = "7"; o["tol"] = num(0.125); run<Q>(typename Q::Parameter(e & 1, k[e], 5, e & 1 ? Q::RANDOM : Q::UNIFORM, 7, 0.125, 1), "HAK", o, true); }
    if (c == 2) { typedef ld::Exact<G, ACC> Q; o["logdomain"] = "0"; run<Q>(typename Q::Parameter(1), "EXACT", o, true); }
    if (c == 3) { typedef ld::Gibbs<G, ACC> Q; o["maxiter"] = "7"; o["burnin"] = "5"; o["restart"] = "3"; run<Q>(typename Q::Parameter(7, 5, 3, 1), "GIBBS", o, true); }
    if (c == 4) { typedef ld::FractionalBp<G, ACC> Q; typename Q::UpdateRule u[] = {Q::PARALL, Q::SEQFIX, Q::SEQRND, Q::SEQMAX}; run<Q>(typename Q::Parameter(7, 0.25, 0.125, u[e], 1), "FBP", o, true); }
    if (c == 5) { typedef ld::JunctionTree<G, ACC> Q; typename Q::Heuristic h[] = {Q::MINFILL, Q::WEIGHTEDMINFILL, Q::MINWEIGHT, Q::MINNEIGHBORS}; const char* n[] = {"MINFILL", "WEIGHTEDMINFILL", "MINWEIGHT", "MINNEIGHBORS"}; o["updates"] = e & 1 ? "SHSH" : "HUGIN"; o["heuristic"] = n[e]; o["inference"] = inf; run<Q>(typename Q::Parameter(e & 1 ? Q::SHSH : Q::HUGIN, h[e], 1), "JTREE", o, true); }
    if (c == 6) { typedef ld::MeanField<G, ACC> Q; o["updates"] = e & 1 ? "HARDSPIN" : "NAIVE"; o["init"] = e & 2 ? "RANDOM" : "UNIFORM"; o["maxiter"] = "7"; o["tol"] = num(0.125); o["damping"] = num(0.25); run<Q>(typename Q::Parameter(7, 0.25, 0.125, e & 1 ? Q::HARDSPIN : Q::NAIVE, e & 2 ? Q::RANDOM : Q::UNIFORM, 1), "MF", o, false); }
    if (c == 7) { typedef ld::TreeExpectationPropagation<G, ACC> Q; o["type"] = e & 1 ? "ALT" : "ORG"; o["maxiter"] = "7"; o["tol"] = num(0.125); run<Q>(typename Q::Parameter(e & 1 ? Q::ALT : Q::ORG, 7, 120, 0.125, 1), "TREEEP", o, true); }
    if (c == 8) { typedef ld::TreeReweightedBp<G, ACC> Q; typename Q::UpdateRule u[] = {Q::PARALL, Q::SEQFIX, Q::SEQRND, Q::SEQMAX}; o["updates"] = R[e]; o["damping"] = num(0.25); o["maxiter"] = "7"; o["tol"] = num(0.125); o["ntrees"] = "4"; o["inference"] = inf; o["logdomain"] = "0"; run<Q>(typename Q::Parameter(7, 0.25, 0.125, 4, u[e], 1), "TRWBP", o, true); }
    if (c == 9) { typedef ld::Bp<G, ACC> S; typedef ld::DecMap<S> Q; o["ianame"] = "BP"; o["reinit"] = "0"; typename S::Parameter sp(7, 0.25, 0.125, S::SEQMAX, 0); std::string t = sp.toString(); o["iaopts"] = t.substr(2); run<Q>(typename Q::Parameter(sp, 0, 1), "DECMAP", o, true); }
  }
};
HARNESS(c41_libdai) { switch (sym_param("kind", 0)) { case 0: Dai<Adder, Minimizer>::go(); break; case 1: Dai<Adder, Maximizer>::go(); break; case 2: Dai<Multiplier, Maximizer>::go(); break; case 3: Dai<Multiplier, Integrator>::go(); break; default: Dai<Multiplier, Minimizer>::go(); } }
// a product to be minimised may not have zeros
HARNESS(c41_libdai_zero) { typedef GmOf<Multiplier>::T G; G gm(G::SpaceType(1, 2)); size_t sh[] = {2}, v[] = {0}; double a = sym_num("a", -1, 1, 1), b = sym_num("b", -1, 1, 1); ExplicitFunction<double> f(sh, sh + 1); f(0) = a; f(1) = b; gm.addFactor(gm.addFunction(f), v, v + 1); bool threw = false; try { ld::Exact<G, Minimizer> q(gm); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (a == 0 || b == 0), "zeros are refused, nothing else"); sym_obs_d(a); }
