#include "gm_common.h"
#include <cmath>
#include <opengm/opengm.hxx>
#include <opengm/inference/external/ad3.hxx>
#include <opengm/inference/external/srmp.hxx>
#include <opengm/inference/external/mplp.hxx>
#include <opengm/inference/external/grante.hxx>
using namespace opengm;
// ---- C41: wrappers of AD3, SRMP, MPLP and GRANTE; what the packages compute is done by stand-ins ----
static Rng R() { return Rng(-(int64_t)sym_param("R", 2), (int64_t)sym_param("R", 2), 1); }
// "un": which variables have unary terms; "ex": 1 a factor without variables, 2 a second factor on the first set, 4 second unary terms; "potts": which factors are Potts; "mix": this variable (from 1) has a label more
static Spec spec() {
  size_t L = sym_param("L", 2); Topo t = topo(sym_param("topo", 1)); Spec s; s.L.assign(t.n, L); unsigned mx = sym_param("mix", 0), un = sym_param("un", 255), ex = sym_param("ex", 0), po = sym_param("potts", 0); if (mx) s.L[mx - 1] = L + 1; if (ex & 1) s.f.push_back(fExpl(s, VS(), R())); for (size_t v = 0; v < t.n; ++v) for (int q = 0; q < (ex & 4 ? 2 : 1); ++q) if (un >> v & 1) s.f.push_back(fExpl(s, mkVS(v), R()));
  size_t few = sym_param("few", 99); for (size_t i = 0; i < t.e.size() + (ex & 2 ? 1 : 0); ++i) { VS v = t.e[i % t.e.size()]; if (po >> i & 1) { s.f.push_back(fPotts(s, v[0], v[1], sy("same", R()), sy("other", R()))); continue; } Fac f = fExpl(s, v, R()); for (size_t k = few; k < f.t.size(); ++k) f.t[k] = (double)((k * k + i) % 5) - 2; s.f.push_back(f); }
  return s;
}
template<class Q> static VS answer(Q& q, const Spec& s) { CHECKM(q.infer() == NORMAL, "inference ends"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); CHECKM(q.value() == e, "the value is the answer's"); sym_obs_d(e); for (size_t i = 0; i < y.size(); ++i) sym_obs_u(y[i]); return y; }
template<class ACC> static void ad3run() {
  Spec s = spec(); Gm2 gm; buildGm(gm, s); typedef external::AD3Inf<Gm2, ACC> Q; bool mx = meta::Compare<ACC, Maximizer>::value; unsigned kind = sym_param("kind", 1); typename Q::Parameter p(kind == 0 ? Q::AD3_LP : kind == 1 ? Q::AD3_ILP : Q::PSDD_LP, 0.25, sym_param("adapt", 1), 7, 0.125, 0);
  bool threw = false; try { Q q(gm, p); AD3::FactorGraph& g = *AD3::FactorGraph::last(); CHECKM(g.vars.size() == s.L.size(), "a variable each"); for (size_t i = 0; i < s.L.size(); ++i) CHECKM(g.vars[i]->lp.size() == s.L[i], "with its labels"); forLab(s.L, [&](const VS& x) { CHECKM(g.score(x) == (mx ? energyAdd(s, x) : -energyAdd(s, x)), "the package's score is the model's value"); });
    VS z; CHECKM(q.arg(z) == NORMAL && validLab(s, z), "there is a labelling before inference"); VS y = answer(q, s); CHECKM(y == g.pick, "the most likely labels are the answer"); double b = q.bound(); CHECKM(mx ? b == g.top : b == -g.top, "the bound is the package's"); forLab(s.L, [&](const VS& x) { CHECKM(mx ? b >= energyAdd(s, x) : b <= energyAdd(s, x), "the bound holds for every labelling"); }); CHECKM(g.lp + g.exact == 1 && (kind != 0 || g.lp) && (kind != 1 || g.exact), "the solver asked for"); if (kind < 2) CHECKM(g.eta == 0.25 && g.adapt == (bool)p.adaptEta_ && g.steps == 7 && g.residual == 0.125, "parameters are passed on"); else CHECKM(g.etaPsdd == 0.25 && g.stepsPsdd == 7, "parameters are passed on"); size_t n = 0; for (size_t i = 0; i < s.L.size(); ++i) n += s.L[i]; CHECKM(q.posteriors().size() == n, "a posterior for every label"); CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer"); } catch (std::runtime_error&) { threw = true; }
  CHECKM(threw == (bool)(sym_param("ex", 0) & 1), "models with factors without variables are refused, no others");
}
HARNESS(c41_ad3) { if (sym_param("max", 0)) ad3run<Maximizer>(); else ad3run<Minimizer>(); }
// a model built in place, with a factor of any order
HARNESS(c41_ad3_direct) {
  size_t n = sym_param("order", 2) , N = n + 1; unsigned same = sym_param("same", 0); VS L; for (size_t i = 0; i < N; ++i) L.push_back(!same && n < 5 && (i == 2 || i == 4 || (i == 0 && n == 3)) ? 3 : 2); typedef external::AD3Inf<Gm2, Minimizer> Q; Q::Parameter p; Spec s; s.L = L; double a = sy("a", R()), b = sy("b", R()); VS v; for (size_t i = 0; i < n; ++i) v.push_back(same ? i : i + (i >= n / 2)); Fac f; f.vars = v; f.shape = lsh(s, v); f.kind = FEXPL; for (size_t k = 0; k < prodS(f.shape); ++k) f.t.push_back((k % 3 == 0 ? a : k % 3 == 1 ? b : 0.0) + (double)k); s.f.push_back(f); Fac u = fExpl(s, mkVS(N - 1), R()); s.f.push_back(u); s.f.push_back(u);
  bool threw = false; try { Q* q = same ? new Q(N, 2, p, true) : new Q(L.begin(), L.end(), p); ExplicitFunction<double> g = mkExpl(f), h = mkExpl(u); q->addFactor(f.vars.begin(), f.vars.end(), g); q->addFactor(u.vars.begin(), u.vars.end(), h); q->addFactor(u.vars.begin(), u.vars.end(), h); AD3::FactorGraph& fg = *AD3::FactorGraph::last(); forLab(L, [&](const VS& x) { CHECKM(fg.score(x) == -energyAdd(s, x), "the package's score is the value"); }); if (n < 4) { q->infer(); VS y; CHECKM(q->arg(y) == NORMAL && y == fg.pick, "the most likely labels are the answer"); } delete q; } catch (RuntimeError&) { threw = true; }
  CHECKM(threw == (n > 10), "orders up to ten are accepted"); sym_obs_d(a + b);
}
HARNESS(c41_srmp) {
  Spec s = spec(); Gm2 gm; buildGm(gm, s); typedef external::SRMP<Gm2> Q; typedef srmpLib::Energy E; Q::Parameter p; p.method = E::Options::MPLP_BW; p.iter_max = 7; p.time_max = 0.25; p.eps = 0.125; p.compute_solution_period = 3; p.print_times = sym_param("flag", 0); p.sort_flag = 2; p.TRWS_weighting = 1; unsigned rel = sym_param("relax", 0); p.BLPRelaxation_ = rel == 1; p.FullRelaxation_ = rel == 2; p.FullRelaxationMethod_ = 3; p.FullDualRelaxation_ = rel == 3; p.FullDualRelaxationMethod_ = 4;
  Q q(gm, p); E& e = *E::last(); CHECKM(e.L == s.L, "the variables and their labels"); VS z; CHECKM(q.arg(z) == NORMAL && validLab(s, z), "there is a labelling before inference"); VS y = answer(q, s); CHECKM(y == e.sol, "the package's solution is the answer"); double b = q.bound(); forLab(s.L, [&](const VS& x) { CHECKM(b <= energyAdd(s, x), "the bound holds for every labelling"); }); double d = energyAdd(s, y) - e.energy(y); forLab(s.L, [&](const VS& x) { CHECKM(e.energy(x) + d == energyAdd(s, x), "the package's energy is the model's up to a constant"); });
  CHECKM(e.minimal == (rel == 1) && e.full == (rel == 2 ? 3 : -1) && e.fullDual == (rel == 3 ? 4 : -1), "the relaxation asked for"); const E::Options& o = e.used; CHECKM(o.method == p.method && o.iter_max == 7 && o.time_max == 0.25 && o.eps == 0.125 && o.compute_solution_period == 3 && o.print_times == p.print_times && o.sort_flag == 2 && !o.verbose && o.TRWS_weighting == 1, "parameters are passed on"); CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
}
struct Stop { size_t n, at; void begin(external::MPLP<Gm2>&) {} void end(external::MPLP<Gm2>&) { ++n; } size_t operator()(external::MPLP<Gm2>& q) { VS y; q.arg(y); CHECKM(q.value() == q.graphicalModel().evaluate(y.begin()), "the value is the answer's at every visit"); return at && --at == 0 ? visitors::VisitorReturnFlag::StopInfTimeout : visitors::VisitorReturnFlag::ContinueInf; } };
HARNESS(c41_mplp) {
  Spec s = spec(); Gm2 gm; buildGm(gm, s); typedef external::MPLP<Gm2> Q; Q::Parameter p; p.maxIterLP_ = sym_param("lp", 1); p.maxIterTight_ = sym_param("tight", 1); p.maxIterLater_ = 3; p.UAIsettings_ = sym_param("uai", 0); p.doGlobalDecoding_ = sym_param("deco", 0); p.useDecimation_ = sym_param("deci", 0); p.addEdgeIntersections_ = sym_param("inter", 1); p.lookForCSPs_ = sym_param("csp", 0);
  Q q(gm, p); MPLPAlg& a = *MPLPAlg::latest(); CHECKM(a.CSP_instance == (p.lookForCSPs_ || p.UAIsettings_), "parameters are passed on"); VS z; CHECKM(q.arg(z) == NORMAL && validLab(s, z), "there is a labelling before inference"); forLab(s.L, [&](const VS& x) { std::vector<int> y(x.begin(), x.end()); CHECKM(a.score(y) == -energyAdd(s, y.size() ? x : x), "the package's score is the model's value, negated"); });
  Stop v; v.n = 0; v.at = sym_param("stop", 0); CHECKM(q.infer(v) == NORMAL && v.n == 1, "inference ends"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y), b = q.bound(); CHECKM(q.value() == e, "the value is the answer's"); forLab(s.L, [&](const VS& x) { CHECKM(b <= energyAdd(s, x), "the bound holds for every labelling"); }); CHECKM(a.runs >= 1 && a.iters <= (int)(p.maxIterLP_ + 1 + p.maxIterTight_ * 600), "the limits are kept"); sym_obs_d(e); sym_obs_u(a.runs); CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
}
HARNESS(c41_grante) {
  Spec s = spec(); Gm2 gm(Gm2::SpaceType(s.L.begin(), s.L.end())); unsigned share = sym_param("share", 0); typedef external::GRANTE<Gm2> Q; typedef Grante::InferenceMethod M; Gm2::FunctionIdentifier first; size_t from = 99;
  for (size_t i = 0; i < s.f.size(); ++i) { Fac& f = s.f[i]; if (share && f.vars.size() == 2 && from != 99 && f.shape == s.f[from].shape && ((share >> i) & 1)) { f.t = s.f[from].t; gm.addFactor(first, f.vars.begin(), f.vars.end()); continue; } Gm2::FunctionIdentifier id = AddFn<2, Gm2>::add(gm, f); if (f.vars.size() == 2 && from == 99) { first = id; from = i; } gm.addFactor(id, f.vars.begin(), f.vars.end()); }
  Q::Parameter p; unsigned k = sym_param("kind", 0); p.inferenceType_ = k == 0 ? Q::Parameter::BRUTEFORCE : k == 1 ? Q::Parameter::BP : k == 2 ? Q::Parameter::DIFFUSION : Q::Parameter::SA; p.numberOfIterations_ = 7; p.tolerance_ = 0.25; p.verbose_ = sym_param("flag", 0); p.BPSchedule_ = sym_param("flag", 0) ? Grante::BeliefPropagation::ParallelSync : Grante::BeliefPropagation::Sequential; p.SASteps_ = 5; p.SAT0_ = 4; p.SATfinal_ = 0.5;
  Q q(gm, p); Grante::FactorGraph& g = *Grante::FactorGraph::last(); M& m = *M::last(); CHECKM(g.L.size() == s.L.size(), "a variable each"); forLab(s.L, [&](const VS& x) { std::vector<unsigned> y(x.begin(), x.end()); CHECKM(g.energy(y) == energyAdd(s, x), "the package's energy is the model's"); });
  CHECKM(m.kind == (int)k && m.g == &g, "the method asked for"); if (k == 1 || k == 2) CHECKM(m.p0 == 7 && m.p1 == 0.25 && m.verbose == p.verbose_ && (k == 2 || static_cast<Grante::BeliefPropagation&>(m).m == p.BPSchedule_), "parameters are passed on"); if (k == 3) CHECKM(m.p0 == 5 && m.p1 == 4 && m.p2 == 0.5 && m.verbose == p.verbose_, "parameters are passed on");
  if (sym_param("early", 0)) { VS z; CHECKM(q.arg(z) != NORMAL || validLab(s, z), "an answer before inference is a labelling"); } answer(q, s); forLab(s.L, [&](const VS& x) { CHECKM(q.bound() <= energyAdd(s, x), "the bound holds for every labelling"); }); VS z; CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
}
