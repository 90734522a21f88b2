// C17: every solver, at every point of its life, hands out a labelling of the model and that labelling's value.
#include "gm_common.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <cstdlib>
#include <stack>
static size_t draws = 0; static int sym_rand() { return (int)sym_u64("rand", 0, draws++ % 3 == 2 ? 4 : 3); }
#define rand sym_rand
#undef RAND_MAX
#define RAND_MAX 4
#include <opengm/utilities/random.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/greedygremlin.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
#include <opengm/inference/self_fusion.hxx>
#undef rand
using namespace opengm;
// kind 0: any tables; 1: Potts terms with non-negative weights (what cuts can do) and unaries
static Spec spec(int kind, bool mul) {
  Topo t = topo(sym_param("topo", 1)); Spec s; s.L = labs(t.n, sym_param("lab", 0)); int64_t R = sym_param("R", 2); Rng r(mul ? 1 : -R, R); size_t conc = sym_param("conc", 0), k = 0;
  auto conc_ = [&](Fac& f) { for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (double)((i * 5 + k * 3 + i * i) % 4) + (mul ? 1 : -1); };
  auto add = [&](const VS& v) { Fac f = fExpl(s, v, r); if (k++ < conc) conc_(f); s.f.push_back(f); };
  if (sym_param("cf", 0)) { Fac f; f.kind = FEXPL; f.t.assign(1, sym_num("c", mul ? 1 : -2, 2, 1)); s.f.push_back(f); }
  for (size_t v = 0; v < t.n; ++v) if (sym_param("un", 255) >> v & 1) add(mkVS(v));
  for (size_t e = 0; e < t.e.size(); ++e) { if (kind == 1) { double w = k++ < conc ? 1 : sym_num("w", 0, R, 1); s.f.push_back(fPotts(s, t.e[e][0], t.e[e][1], 0, w)); } else add(t.e[e]); }
  return s;
}
template<class GM, class ACC> struct Truth { const Spec& s; double opt; bool boundOk; Truth(const Spec& q, bool b) : s(q), opt(optValue<GM, ACC>(q)), boundOk(b) {}
  template<class INF> bool look(const INF& inf, const char* when) { typedef typename GM::LabelType L; std::vector<L> a; InferenceTermination t = inf.arg(a); if (t == UNKNOWN || t == INFERENCE_ERROR) return false; VS x(a.begin(), a.end()); CHECKM(validLab(s, x), "one label of the range per variable"); if (!validLab(s, x)) return false;
    double e = energyOf<GM>(s, x); CHECKM(inf.value() == e, "reported value is the value of the labelling"); if (boundOk) CHECKM(!Less<ACC>::better(opt, inf.bound()), "bound on the right side of the optimum"); sym_obs_d(e); return true; } };
template<class INF, class TR> struct Watch { TR& t; size_t begun, ended, steps, stop; Watch(TR& q, size_t st) : t(q), begun(0), ended(0), steps(0), stop(st) {} template<class S> void addLog(const S&) {} template<class S> void log(const S&, double) {} void begin(INF& i) { ++begun; t.look(i, "begin"); } void end(INF& i) { ++ended; t.look(i, "end"); } size_t operator()(INF& i, size_t, size_t, bool, bool) { return (*this)(i); } size_t operator()(INF& i) { ++steps; t.look(i, "step"); return stop && steps >= stop ? visitors::VisitorReturnFlag::StopInfBoundReached : visitors::VisitorReturnFlag::ContinueInf; } };
// flags: 1 has a starting point that is the labelling before inference; 2 never loses to the starting point; 4 exact; 8 no meaningful reset; 16 may be visited; 32 draws random numbers; 64 needs infer() before it hands out a labelling
template<class INF> void life(int kind, const typename INF::Parameter& p, int fl) {
  typedef typename INF::GraphicalModelType GM; typedef typename INF::AccumulationType ACC; typedef Truth<GM, ACC> TR; bool mul = !(energyOf<GM>(Spec(), VS()) == 0); Spec s = spec(kind, mul); GM gm; buildGm(gm, s); TR t(s, true); size_t mode = sym_param("mode", 0); typedef std::vector<typename GM::LabelType> LV;
  INF inf(gm, p); CHECKM(&inf.graphicalModel() == &gm && inf.name().size() > 0, "knows its model"); if (!(fl & 64)) t.look(inf, "fresh");
  if (mode == 1 && (fl & 1)) { VS x0 = anyLab(s.L); LV l(x0.begin(), x0.end()); inf.setStartingPoint(l.begin()); CHECKM(t.look(inf, "started") && argOf(inf) == x0, "the starting point is where it stands"); CHECKM(inf.infer() != UNKNOWN, "done"); CHECKM(t.look(inf, "after"), "result after inference"); if (fl & 2) CHECKM(!Less<ACC>::better(energyOf<GM>(s, x0), inf.value()), "not worse than the starting point"); return; }
  if (mode == 2 && (fl & 16)) { Watch<INF, TR> w(t, sym_param("stop", 0)); CHECKM(inf.infer(w) != UNKNOWN && w.begun == 1 && w.ended == 1, "begun and ended once"); CHECKM(t.look(inf, "after"), "result after inference"); return; }
  if (mode) return;
  CHECKM(inf.infer() != UNKNOWN, "done"); CHECKM(t.look(inf, "after"), "result after inference"); VS x1 = argOf(inf); if (fl & 4) CHECKM((isOptimal<GM, ACC>(s, x1)), "exact");
  if (sym_param("again", 1)) { inf.infer(); t.look(inf, "again"); VS x2 = argOf(inf); if (!(fl & 32)) CHECKM(!Less<ACC>::better(energyOf<GM>(s, x1), energyOf<GM>(s, x2)), "running again does not lose"); }
  { LV l; InferenceTermination q = UNKNOWN; try { q = inf.arg(l, 1000); } catch (RuntimeError&) {} CHECKM(q != NORMAL || l.size() == s.L.size(), "no thousandth labelling"); }
}
template<class INF> void relife(int kind, const typename INF::Parameter& p, int fl) { // reset brings back a fresh solver
  typedef typename INF::GraphicalModelType GM; typedef typename INF::AccumulationType ACC; typedef Truth<GM, ACC> TR; bool mul = !(energyOf<GM>(Spec(), VS()) == 0); Spec s = spec(kind, mul); GM gm; buildGm(gm, s); TR t(s, true); INF inf(gm, p), fresh(gm, p); inf.infer(); inf.reset(); if (!(fl & 64)) t.look(inf, "reset"); inf.infer(); CHECKM(t.look(inf, "after"), "result after reset"); fresh.infer(); if (!(fl & 32)) CHECKM(argOf(inf) == argOf(fresh), "same as a fresh solver"); }
#define LIFE(GM, ACC, KIND) \
  typedef Bruteforce<GM, ACC> Bf; typedef AStar<GM, ACC> As; typedef DynamicProgramming<GM, ACC> Dp; typedef ICM<GM, ACC> Ic; typedef LazyFlipper<GM, ACC> Lf; typedef MessagePassing<GM, ACC, BeliefPropagationUpdateRules<GM, ACC>, MaxDistance> Bp; typedef MessagePassing<GM, ACC, TrbpUpdateRules<GM, ACC>, MaxDistance> Tr; \
  typedef GreedyGremlin<GM, ACC> Gr; typedef InfAndFlip<GM, ACC, Ic> If; typedef InfAndFlip<GM, ACC, Gr> Ig; typedef FusionBasedInf<GM, proposal_gen::AlphaExpansionGen<GM, ACC> > Fb; typedef SelfFusion<Ic> Sf;
template<class GM, class ACC> void general(int a) { LIFE(GM, ACC, 0)
  switch (a) { case 0: life<Bf>(0, typename Bf::Parameter(), 4 | 8 | 16); break; case 1: life<As>(0, typename As::Parameter(), 4 | 16); break; case 2: life<Dp>(0, typename Dp::Parameter(), 4 | 8 | 16); break; case 3: life<Ic>(0, typename Ic::Parameter(), 1 | 2 | 16); break; case 4: life<Lf>(0, typename Lf::Parameter(size_t(sym_param("sub", 1))), 1 | 2 | 16); break;
    case 5: life<Bp>(0, typename Bp::Parameter(sym_param("it", 2)), 16 | 64); break; case 6: life<Tr>(0, typename Tr::Parameter(sym_param("it", 2)), 16 | 64); break; case 8: life<Gr>(0, typename Gr::Parameter(), 16); break;
    case 9: { typename If::Parameter p(sym_param("sub", 1)); life<If>(0, p, 2 | 16); break; } case 10: { typename Ig::Parameter p(sym_param("sub", 1)); life<Ig>(0, p, 2 | 16); break; } case 11: life<Fb>(0, typename Fb::Parameter(typename Fb::ProposalParameter(), typename Fb::FusionParameter(), 2), 1 | 2 | 16); break; case 12: life<Sf>(0, typename Sf::Parameter(), 0); break; } }
template<class GM, class ACC> void again(int a) { LIFE(GM, ACC, 0)
  switch (a) { case 1: relife<As>(0, typename As::Parameter(), 4 | 16); break; case 3: relife<Ic>(0, typename Ic::Parameter(), 0); break; case 4: relife<Lf>(0, typename Lf::Parameter(size_t(sym_param("sub", 1))), 0); break; case 5: relife<Bp>(0, typename Bp::Parameter(sym_param("it", 2)), 64); break; case 6: relife<Tr>(0, typename Tr::Parameter(sym_param("it", 2)), 64); break; case 8: relife<Gr>(0, typename Gr::Parameter(), 0); break; case 9: { typename If::Parameter p(sym_param("sub", 1)); relife<If>(0, p, 0); break; } } }
HARNESS(c17_life) { int a = sym_param("a", 0); switch (sym_param("op", 0)) { case 0: general<Gm2, Minimizer>(a); break; case 1: general<GmE, Maximizer>(a); break; case 2: general<GmEM, Minimizer>(a); break; case 3: general<GmEM, Maximizer>(a); break; } }
HARNESS(c17_reset) { int a = sym_param("a", 1); if (sym_param("op", 0) == 0) again<Gm2, Minimizer>(a); else again<GmE, Maximizer>(a); }
HARNESS(c17_cuts) { typedef MinSTCutBoost<size_t, double, KOLMOGOROV> CUT; typedef GraphCut<Gm2, Minimizer, CUT> G; typedef AlphaExpansion<Gm2, G> E; typedef AlphaBetaSwap<Gm2, G> S; typedef QPBO<Gm2, CUT> Q;
  switch (sym_param("a", 0)) { case 0: life<G>(1, G::Parameter(), 4 | 16); break; case 1: life<E>(1, E::Parameter(), 1 | 2 | 16); break; case 2: life<S>(1, S::Parameter(), 1 | 2 | 16); break; case 3: relife<E>(1, E::Parameter(), 0); break; case 4: relife<S>(1, S::Parameter(), 0); break; } }
