// C29: fusing two labellings, the proposal generators and the solvers built on fusion.
#include "gm_common.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <cstdlib>
#include <stack>
static size_t draws = 0; static int sym_rand() { return (int)sym_u64("rand", 0, draws++ % 3 == 2 ? 4 : 3); } // a random source with 5 outcomes; the largest never twice in a row
#define rand sym_rand
#undef RAND_MAX
#define RAND_MAX 4
#include <opengm/utilities/random.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
#include <opengm/inference/self_fusion.hxx>
#undef rand
using namespace opengm;
static Spec spec(bool mul = false) {
  Topo t = topo(sym_param("topo", 1)); Spec s; s.L = labs(t.n, sym_param("lab", 0)); int64_t R = sym_param("R", 2); Rng r(mul ? 1 : -R, R); size_t conc = sym_param("conc", 0), k = 0;
  auto add = [&](const VS& v) { if (k++ < conc) { Fac f; f.vars = v; f.shape = lsh(s, v); f.kind = FEXPL; f.t.resize(prodS(f.shape)); for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (double)((i * 5 + k * 3 + i * i) % 4) + (mul ? 1 : -1); s.f.push_back(f); } else { Fac f = fExpl(s, v, r); size_t few = sym_param("few", 0); if (few) for (size_t i = 0; i < f.t.size(); ++i) if ((i * 3 + 1) % f.t.size() >= few) f.t[i] = (double)((i * i + k) % 4) - 1; s.f.push_back(f); } };
  if (sym_param("cf", 0)) { Fac f; f.kind = FEXPL; f.t.assign(1, sym_num("c", mul ? 1 : -2, 2, 1)); s.f.push_back(f); }
  for (size_t v = 0; v < t.n; ++v) if (sym_param("un", 1) >> v & 1) add(mkVS(v));
  for (size_t e = 0; e < t.e.size(); ++e) add(t.e[e]);
  return s;
}
static VS pick(const Spec& s, const char* p, size_t dflt) { size_t k = sym_param(p, dflt); return k == 99 ? anyLab(s.L) : digits(k % prodS(s.L), s.L); }
// a solver that gives up, and one that answers with the worst labelling
template<class GM, class ACC> struct GiveUp { struct Parameter {}; GiveUp(const GM&, const Parameter&) {} template<class I> void setStartingPoint(I) {} InferenceTermination infer() { return UNKNOWN; } InferenceTermination arg(std::vector<typename GM::LabelType>& x) const { x.assign(1, 7); return UNKNOWN; } };
template<class GM, class ACC> struct Any { struct Parameter {}; const GM& gm; Any(const GM& g, const Parameter&) : gm(g) {} template<class I> void setStartingPoint(I) {} InferenceTermination infer() { return NORMAL; } InferenceTermination arg(std::vector<typename GM::LabelType>& x) const { x.resize(gm.numberOfVariables()); for (size_t v = 0; v < x.size(); ++v) x[v] = sym_choice("any", 2); return NORMAL; } };
template<class GM, class ACC> void fused(const Spec& s, const VS& a, const VS& b, const VS& r, double val, bool exact) {
  size_t n = s.L.size(); CHECKM(r.size() == n, "one label each"); for (size_t v = 0; v < n; ++v) CHECKM(r[v] == a[v] || r[v] == b[v], "label of one of the parents");
  double ea = energyOf<GM>(s, a), eb = energyOf<GM>(s, b), er = energyOf<GM>(s, r); CHECKM(val == er, "value of the fused labelling"); CHECKM(!Less<ACC>::better(ea, er), "not worse than the first"); CHECKM(!Less<ACC>::better(eb, er), "not worse than the second"); sym_obs_d(er);
  if (exact) for (size_t m = 0; m < (size_t(1) << n); ++m) { VS y(n); bool skip = false; for (size_t v = 0; v < n; ++v) { y[v] = m >> v & 1 ? b[v] : a[v]; if ((m >> v & 1) && a[v] == b[v]) skip = true; } if (!skip) CHECKM(!Less<ACC>::better(energyOf<GM>(s, y), er), "best of all mixtures"); } }
template<class GM, class ACC> void mover() {
  bool mul = !(energyOf<GM>(Spec(), VS()) == 0); Spec s = spec(mul); GM gm; buildGm(gm, s); FusionMover<GM, ACC> fm(gm); typedef typename FusionMover<GM, ACC>::SubGmType SG; size_t solver = sym_param("solver", 0);
  VS a = pick(s, "A", 99), b = pick(s, "B", 99); double ea = gm.evaluate(a.begin()), eb = gm.evaluate(b.begin());
  for (size_t round = 0; round < (sym_param("again", 0) ? 2 : 1); ++round) {
    if (round) { VS c = a; a = b; b = c; if (sym_param("again", 0) == 2) { b = a; b[0] = (b[0] + 1) % s.L[0]; } ea = gm.evaluate(a.begin()); eb = gm.evaluate(b.begin()); }
    VS r(s.L.size(), 5); fm.setup(a, b, r, ea, eb); size_t diff = 0; for (size_t v = 0; v < a.size(); ++v) diff += a[v] != b[v]; CHECKM(fm.numberOfFusionMoveVariable() == diff && fm.valueA() == ea && fm.valueB() == eb, "what differs"); if (!diff) { CHECKM(r == a, "nothing to fuse"); continue; }
    double val; if (solver == 0) val = fm.template fuse<Bruteforce<SG, ACC> >(typename Bruteforce<SG, ACC>::Parameter()); else if (solver == 1) val = fm.template fuse<LazyFlipper<SG, ACC> >(typename LazyFlipper<SG, ACC>::Parameter(sym_param("sub", 2)), true);
    else if (solver == 2) val = fm.template fuse<DynamicProgramming<SG, ACC> >(typename DynamicProgramming<SG, ACC>::Parameter()); else if (solver == 3) val = fm.template fuse<GiveUp<SG, ACC> >(typename GiveUp<SG, ACC>::Parameter(), true); else val = fm.template fuse<Any<SG, ACC> >(typename Any<SG, ACC>::Parameter());
    CHECKM(fm.valueResult() == val, "reported twice"); fused<GM, ACC>(s, a, b, r, val, solver == 0 || solver == 2 || (solver == 1 && sym_param("sub", 2) >= diff)); } }
HARNESS(c29_mover_min) { mover<Gm2, Minimizer>(); }
HARNESS(c29_mover_max) { mover<GmE, Maximizer>(); }
HARNESS(c29_mover_mul) { mover<GmEM, Maximizer>(); }
// the two views the mover hands to its solver
HARNESS(c29_views) {
  Spec s = spec(); GmE gm; buildGm(gm, s); VS a = anyLab(s.L), b = anyLab(s.L); 
  for (size_t f = 0; f < gm.numberOfFactors(); ++f) { size_t k = gm[f].numberOfVariables(); if (!k) continue; VS d; for (size_t i = 0; i < k; ++i) if (a[gm[f].variableIndex(i)] != b[gm[f].variableIndex(i)]) d.push_back(i);
    auto want = [&](const VS& y, const VS& where) { VS x(a); for (size_t i = 0; i < where.size(); ++i) if (y[i]) x[gm[f].variableIndex(where[i])] = b[gm[f].variableIndex(where[i])]; return facAt(s.f[f], x); };
    { FuseViewFixFunction<GmE> v(gm[f], a, b); CHECKM(v.dimension() == d.size() && v.size() == (size_t(1) << d.size()), "one binary choice per open variable"); for (size_t i = 0; i < d.size(); ++i) CHECKM(v.shape(i) == 2, "binary"); forLab(VS(d.size(), 2), [&](VS& y) { CHECKM(v(y.begin()) == want(y, d), "value of the restricted factor"); }); }
    if (d.size() == k) { FuseViewFunction<GmE> v(gm[f], a, b); CHECKM(v.dimension() == k && v.size() == (size_t(1) << k), "one binary choice per variable"); for (size_t i = 0; i < k; ++i) CHECKM(v.shape(i) == 2, "binary"); forLab(VS(k, 2), [&](VS& y) { CHECKM(v(y.begin()) == want(y, d), "value of the factor"); }); } } }
// the reduction of higher-order binary terms to pairs of variables, handed to an exact pairwise solver
struct Quad { typedef int NodeId; typedef std::pair<std::pair<int, int>, VD> P; std::vector<VD> un; std::vector<P> pw; VS lab; size_t edges; static size_t vars, aux;
  Quad(int, int) : edges(0) {} Quad() : edges(0) {} void SetMaxEdgeNum(int m) { edges = m; } NodeId AddNode(int k = 1) { NodeId r = un.size(); for (int i = 0; i < k; ++i) un.push_back(VD(2, 0)); return r; }
  void AddUnaryTerm(NodeId i, double a, double b) { CHECKM(i >= 0 && (size_t)i < un.size(), "known node"); un[i][0] += a; un[i][1] += b; }
  void AddPairwiseTerm(NodeId i, NodeId j, double a, double b, double c, double d) { CHECKM(i >= 0 && j >= 0 && i != j && (size_t)i < un.size() && (size_t)j < un.size(), "known nodes"); VD t; t.push_back(a); t.push_back(b); t.push_back(c); t.push_back(d); pw.push_back(P(std::make_pair(i, j), t)); CHECKM(pw.size() <= edges, "announced number of pairs"); }
  double at(const VS& x) const { double e = 0; for (size_t i = 0; i < un.size(); ++i) e += un[i][x[i]]; for (size_t i = 0; i < pw.size(); ++i) e += pw[i].second[2 * x[pw[i].first.first] + x[pw[i].first.second]]; return e; }
  // variables beyond the first n only couple to the first ones and to each other in a star from the last; minimise them out
  double best(const VS& x, size_t n) const { size_t m = un.size() - n; double b = 0; for (size_t k = 0; k < (size_t(1) << m); ++k) { VS y(x); for (size_t i = 0; i < m; ++i) y.push_back(k >> i & 1); double e = at(y); b = k ? sym_ite_d(e < b, e, b) : e; } return b; }
  void Solve() { size_t n = vars; CHECKM(un.size() >= n, "all variables"); VS L(n, 2); VS x; for (size_t i = 0; i < n; ++i) x.push_back(sym_choice("opt", 2)); double e = best(x, n); forLab(L, [&](VS& y) { sym_assume(!(best(y, n) < e)); }); lab = x; }
  int GetLabel(int i) const { return (int)lab[i]; } };
size_t Quad::vars = 0;
HARNESS(c29_fixfuse) { // fusing by reduction to pairs
  Spec s = spec(); GmE gm; buildGm(gm, s); FusionMover<GmE, Minimizer> fm(gm); VS a = pick(s, "A", 0), b = pick(s, "B", prodS(s.L) - 1); double ea = gm.evaluate(a.begin()), eb = gm.evaluate(b.begin()); VS r(s.L.size(), 5); fm.setup(a, b, r, ea, eb); if (!fm.numberOfFusionMoveVariable()) return; Quad::vars = fm.numberOfFusionMoveVariable();
  double val = fm.fuseFixQpbo<Quad>(); CHECKM(fm.valueResult() == val, "reported twice"); fused<GmE, Minimizer>(s, a, b, r, val, true); }
HARNESS(c29_reduce) { // the reduction itself: minimising out the new variables leaves the polynomial
  size_t n = sym_param("n", 3), neg = sym_param("neg", 0); HigherOrderEnergy<double, 4> h; CHECKM(h.AddVars(n) == 0 && (size_t)h.NumVars() == n, "numbered from 0"); std::vector<std::pair<size_t, double> > terms; size_t mask = sym_param("mask", 255);
  for (size_t rep = 0; rep < (sym_param("twice", 0) ? 2 : 1); ++rep) for (size_t m = 1; m < (size_t(1) << n); ++m) if (mask >> m & 1) { double c = neg == 1 ? sym_num("c", -3, 0, 1) : neg == 2 ? sym_num("c", 0, 3, 1) : sym_num("c", -3, 3, 1); int v[4], d = 0; for (size_t i = 0; i < n; ++i) if (m >> i & 1) v[d++] = i; if (d == 1 && m % 2) h.AddUnaryTerm(v[0], c); else h.AddTerm(c, d, v); terms.push_back(std::make_pair(m, c)); }
  Quad q; h.ToQuadratic(q); forLab(VS(n, 2), [&](VS& x) { double e = 0; for (size_t i = 0; i < terms.size(); ++i) { bool on = true; for (size_t b = 0; b < n; ++b) if ((terms[i].first >> b & 1) && !x[b]) on = false; if (on) e += terms[i].second; } CHECKM(q.best(x, n) == e, "same polynomial"); }); }
// the high-level mover
template<class GM, class ACC> void hl() {
  bool mul = !(energyOf<GM>(Spec(), VS()) == 0); Spec s = spec(mul); GM gm; buildGm(gm, s); typedef HlFusionMover<GM, ACC> M; typename M::Parameter p(sym_param("fs", 0) ? M::LazyFlipperFusion : M::DefaulFusion, sym_param("sub", 2)); M m(gm, p);
  VS a = pick(s, "A", 99), b = pick(s, "B", 99), r(s.L.size(), 0); double ea = gm.evaluate(a.begin()), eb = gm.evaluate(b.begin()), v = ea; bool any = m.fuse(a, b, r, ea, eb, v); CHECKM(any == !(a == b), "fuses unless there is nothing to do"); if (any) fused<GM, ACC>(s, a, b, r, v, sym_param("sub", 2) >= s.L.size()); else CHECKM(v == ea && r == a, "untouched"); }
HARNESS(c29_hl_min) { hl<Gm2, Minimizer>(); }
HARNESS(c29_hl_max) { hl<GmE, Maximizer>(); }
HARNESS(c29_hl_refuse) { // solvers that are not built in are refused
  Spec s = spec(); GmE gm; buildGm(gm, s); typedef HlFusionMover<GmE, Minimizer> M; size_t c = sym_param("c", 0); bool t = false; try { M::Parameter p(c == 0 ? M::QpboFusion : c == 1 ? M::CplexFuison : M::LazyFlipperFusion, 2, c == 2); M m(gm, p); } catch (RuntimeError&) { t = true; } CHECKM(t, "refused"); }
// proposals are labellings of the model
template<class G> void props(G& g, const Spec& s, bool same) { VS cur = anyLab(s.L), p(s.L.size(), 0); size_t steps = sym_param("steps", 3); CHECKM(g.defaultNumStopIt() >= (same ? 0 : 1), "default rounds"); for (size_t i = 0; i < steps; ++i) { g.getProposal(cur, p); CHECKM(validLab(s, p), "proposal is a labelling"); sym_obs_u(flat(p, s.L)); if (sym_param("move", 0)) cur = p; if (sym_param("reset", 0) && i == 0) g.reset(); } }
template<template<class, class> class GEN> void gen(const Spec& s, typename GEN<GmE, Minimizer>::Parameter q = typename GEN<GmE, Minimizer>::Parameter()) { GmE gm; buildGm(gm, s); GEN<GmE, Minimizer> g(gm, q); props(g, s, true); }
static Spec gspec() { Spec s = spec(); if (sym_param("ones", 0)) s.L.assign(s.L.size(), 1); return s; }
static Spec ones() { Topo t = topo(sym_param("topo", 1)); Spec s; s.L.resize(t.n); size_t sh = sym_param("shape", 21); for (size_t v = 0; v < t.n; ++v) { s.L[v] = sh % 10; sh /= 10; } for (size_t v = 0; v < t.n; ++v) if (sym_param("un", 255) >> v & 1) { Fac f = fExpl(s, mkVS(v), Rng(0, sym_param("R", 1))); s.f.push_back(f); } for (size_t e = 0; e < t.e.size(); ++e) { Fac f; f.vars = t.e[e]; f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(prodS(f.shape), 0); s.f.push_back(f); } return s; }
HARNESS(c29_gen) {
  Spec s = ones(); using namespace proposal_gen; switch (sym_param("g", 0)) {
    case 0: gen<AlphaExpansionGen>(s); break; case 1: gen<AlphaBetaSwapGen>(s); break; case 2: gen<UpDownGen>(s, UpDownGen<GmE, Minimizer>::Parameter("up")); break; case 3: gen<UpDownGen>(s, UpDownGen<GmE, Minimizer>::Parameter("down")); break; case 4: gen<UpDownGen>(s, UpDownGen<GmE, Minimizer>::Parameter("random")); break;
    case 5: gen<RandomGen>(s); break; case 6: gen<Random2Gen>(s); break; case 7: gen<RandomLFGen>(s); break; case 8: gen<NonUniformRandomGen>(s); break; case 9: gen<BlurGen>(s, BlurGen<GmE, Minimizer>::Parameter((double)sym_param("sigma", 1))); break;
    case 10: gen<EnergyBlurGen>(s, EnergyBlurGen<GmE, Minimizer>::Parameter((double)sym_param("sigma", 1))); break; case 11: gen<EnergyBlurGen>(s, EnergyBlurGen<GmE, Minimizer>::Parameter((double)sym_param("sigma", 1), true)); break; } }
HARNESS(c29_gen_dynamic) { Spec s = ones(); GmE gm; buildGm(gm, s); typedef proposal_gen::DynamincGen<GmE, Minimizer> D; D::Parameter p; p.gen_ = (D::GeneratorType)sym_param("g", 0); D d(gm, p); props(d, s, true); }
HARNESS(c29_gen_sweep) { // the sweeps reach every label and every pair of labels; up-down proposals move by one
  Spec s = ones(); GmE gm; buildGm(gm, s); using namespace proposal_gen; size_t g = sym_param("g", 0), K = *std::max_element(s.L.begin(), s.L.end()); VS cur = anyLab(s.L), p(s.L.size(), 0);
  if (g == 0) { AlphaExpansionGen<GmE, Minimizer> a(gm, AlphaExpansionGen<GmE, Minimizer>::Parameter()); for (size_t i = 0; i < 2 * K; ++i) { a.getProposal(cur, p); for (size_t v = 0; v < p.size(); ++v) CHECKM(p[v] == (i % K < s.L[v] ? i % K : cur[v]), "everybody to label alpha"); if (i + 1 == K && sym_param("reset", 0)) a.reset(); } CHECKM(a.defaultNumStopIt() == K, "one sweep"); }
  if (g == 1) { AlphaBetaSwapGen<GmE, Minimizer> a(gm, AlphaBetaSwapGen<GmE, Minimizer>::Parameter()); std::set<std::pair<size_t, size_t> > seen; for (size_t i = 0; i < K * (K - 1); ++i) { a.getProposal(cur, p); size_t x = a.currentAlpha(), y = a.currentBeta(); CHECKM(x != y && x < K && y < K, "two labels"); seen.insert(std::make_pair(x, y)); for (size_t v = 0; v < p.size(); ++v) CHECKM(p[v] == (cur[v] == x && y < s.L[v] ? y : cur[v] == y && x < s.L[v] ? x : cur[v]), "alpha and beta trade places"); } CHECKM(seen.size() == K * (K - 1), "all pairs"); }
  if (g == 2) { UpDownGen<GmE, Minimizer> a(gm, UpDownGen<GmE, Minimizer>::Parameter(sym_param("down", 0) ? "down" : "up")); for (size_t i = 0; i < 3; ++i) { a.getProposal(cur, p); for (size_t v = 0; v < p.size(); ++v) { if (s.L[v] == 1) CHECKM(p[v] == 0, "nowhere to go"); else CHECKM(p[v] == cur[v] + 1 || p[v] + 1 == cur[v], "one up or one down"); if (i == 0 && cur[v] > 0 && cur[v] + 1 < s.L[v]) CHECKM((p[v] == cur[v] + 1) == !sym_param("down", 0), "starting direction"); } cur = p; } bool t = false; try { UpDownGen<GmE, Minimizer> b(gm, UpDownGen<GmE, Minimizer>::Parameter("sideways")); } catch (RuntimeError&) { t = true; } CHECKM(t, "unknown direction refused"); } }
// fusion-based inference
template<class INF> struct WatchF { const Spec& s; double last; size_t begun, ended, steps, stop; bool max; WatchF(const Spec& q, double e, size_t st) : s(q), last(e), begun(0), ended(0), steps(0), stop(st) {}
  void look(INF& p) { VS x = argOf(p); CHECKM(validLab(s, x), "valid labelling in between"); double e = energyOf<typename INF::GraphicalModelType>(s, x); CHECKM(p.value() == e, "value in between"); CHECKM(!Less<typename INF::AccumulationType>::better(last, e), "never worse than before"); last = e; }
  void begin(INF& p) { ++begun; look(p); } void end(INF& p) { ++ended; look(p); } size_t operator()(INF& p) { ++steps; look(p); return stop && steps == stop ? visitors::VisitorReturnFlag::StopInfBoundReached : visitors::VisitorReturnFlag::ContinueInf; } };
template<class GM, class G> void fbi() {
  bool mul = !(energyOf<GM>(Spec(), VS()) == 0); Spec s = spec(mul); GM gm; buildGm(gm, s); typedef FusionBasedInf<GM, G> I; typedef typename G::AccumulationType ACC; typename I::Parameter p((typename G::Parameter()), typename I::FusionParameter(I::FusionMoverType::DefaulFusion, sym_param("sub", 2)), sym_param("it", 3), sym_param("stopit", 0)); I inf(gm, p); VS x0 = argOf(inf); CHECKM(validLab(s, x0) && inf.value() == energyOf<GM>(s, x0), "valid before inference");
  if (sym_param("start", 0)) { x0 = anyLab(s.L); inf.setStartingPoint(x0.begin()); CHECKM(argOf(inf) == x0 && inf.value() == energyOf<GM>(s, x0), "starting point kept"); } double e0 = energyOf<GM>(s, x0);
  if (sym_param("vis", 1)) { WatchF<I> w(s, e0, sym_param("stop", 0)); CHECKM(inf.infer(w) == NORMAL && w.begun == 1 && w.ended == 1, "normal end"); } else CHECKM(inf.infer() == NORMAL, "normal end");
  VS x = argOf(inf); CHECKM(validLab(s, x), "valid labelling"); double e = energyOf<GM>(s, x); CHECKM(inf.value() == e, "value of the result"); CHECKM(!Less<ACC>::better(e0, e), "not worse than the start"); sym_obs_d(e); std::vector<typename GM::LabelType> l; CHECKM(inf.arg(l, 2) == UNKNOWN, "no second best");
  if (sym_param("again", 0)) { CHECKM(inf.infer() == NORMAL, "again"); VS z = argOf(inf); CHECKM(inf.value() == energyOf<GM>(s, z) && !Less<ACC>::better(e, inf.value()), "a second run does not lose"); } }
HARNESS(c29_inf) { using namespace proposal_gen; switch (sym_param("g", 0)) { case 0: fbi<Gm2, AlphaExpansionGen<Gm2, Minimizer> >(); break; case 1: fbi<GmE, AlphaBetaSwapGen<GmE, Minimizer> >(); break; case 2: fbi<GmE, UpDownGen<GmE, Minimizer> >(); break; case 3: fbi<GmE, RandomGen<GmE, Minimizer> >(); break; case 4: fbi<GmE, AlphaExpansionGen<GmE, Maximizer> >(); break; case 5: fbi<GmEM, AlphaExpansionGen<GmEM, Maximizer> >(); break; } }
// self-fusion of the intermediate labellings of another solver
template<class GM, class ACC> struct Walker_ : public Inference<GM, ACC> { // hands out arbitrary labellings, then ends on another one
  typedef ACC AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS; struct Parameter { size_t steps; Parameter(size_t k = 0) : steps(k) {} }; const GM& gm; Parameter p; std::vector<LabelType> x; static std::vector<VS> seen;
  Walker_(const GM& g, const Parameter& q) : gm(g), p(q), x(g.numberOfVariables(), 0) {} std::string name() const { return "walker"; } const GM& graphicalModel() const { return gm; } InferenceTermination infer() { return NORMAL; } void next() { for (size_t v = 0; v < x.size(); ++v) x[v] = sym_choice("step", gm.numberOfLabels(v)); seen.push_back(VS(x.begin(), x.end())); }
  template<class V> InferenceTermination infer(V& v) { v.begin(*this); for (size_t i = 0; i < p.steps; ++i) { next(); if (v(*this) != visitors::VisitorReturnFlag::ContinueInf) break; } if (sym_param("last", 0)) next(); v.end(*this); return NORMAL; }
  InferenceTermination arg(std::vector<LabelType>& y, const size_t = 1) const { y = x; return NORMAL; } ValueType value() const { return gm.evaluate(x); } };
template<class GM, class ACC> std::vector<VS> Walker_<GM, ACC>::seen;
template<class GM, class INF> void self(const typename INF::Parameter& ip) {
  typedef typename INF::AccumulationType ACC; Spec s = spec(); GM gm; buildGm(gm, s); typedef SelfFusion<INF> I; typename I::Parameter p(sym_param("nth", 1), I::LazyFlipperFusion, ip, sym_param("sub", 2), false, false, false, 100.0, sym_param("stopit", 10)); I inf(gm, p); { VS x0 = argOf(inf); CHECKM(validLab(s, x0), "valid before inference"); }
  CHECKM(inf.infer() == NORMAL, "normal end"); VS x = argOf(inf); CHECKM(validLab(s, x), "valid labelling"); double e = energyOf<GM>(s, x); CHECKM(inf.value() == e, "value of the result"); sym_obs_d(e);
  { INF plain(gm, ip); if (sym_param("inf", 0) != 4) { plain.infer(); VS y = argOf(plain); CHECKM(!Less<ACC>::better(energyOf<GM>(s, y), e), "not worse than the solver alone"); } } if (sym_param("nth", 1) == 1) for (size_t i = 0; i < Walker_<GmE, Minimizer>::seen.size(); ++i) CHECKM(!Less<ACC>::better(energyOf<GM>(s, Walker_<GmE, Minimizer>::seen[i]), e), "not worse than any labelling seen"); CHECKM(!Less<ACC>::better(e, inf.bound()), "bound on the right side"); 
  if (sym_param("again", 0)) { CHECKM(inf.infer() == NORMAL, "again"); VS z = argOf(inf); CHECKM(validLab(s, z) && inf.value() == energyOf<GM>(s, z), "second run consistent"); } }
HARNESS(c29_self) { switch (sym_param("inf", 0)) { case 0: self<Gm2, ICM<Gm2, Minimizer> >(ICM<Gm2, Minimizer>::Parameter()); break; case 1: self<GmE, LazyFlipper<GmE, Minimizer> >(LazyFlipper<GmE, Minimizer>::Parameter(size_t(1))); break; case 2: self<GmE, ICM<GmE, Maximizer> >(ICM<GmE, Maximizer>::Parameter()); break; case 3: self<GmE, DynamicProgramming<GmE, Minimizer> >(DynamicProgramming<GmE, Minimizer>::Parameter()); break; case 4: self<GmE, Walker_<GmE, Minimizer> >(Walker_<GmE, Minimizer>::Parameter(sym_param("walk", 2))); break; } }
