// C29 with the packages built in: QPBO, CPLEX and AD3 replaced by the stand-ins of this folder.
#define WITH_QPBO
#define WITH_CPLEX
#define WITH_AD3
#include "sym.h"
#include "harness.h"
#pragma push_macro("HARNESS")
#undef HARNESS
#define HARNESS(x) template<int> static void unused_##x()
#include "fusion.cpp"
#pragma pop_macro("HARNESS")
template<class GM, class ACC> void packMover() {
  Spec s = spec(); GM gm; buildGm(gm, s); FusionMover<GM, ACC> fm(gm); typedef typename FusionMover<GM, ACC>::SubGmType SG; size_t solver = sym_param("solver", 0); AD3::FactorGraph::best() = solver == 2;
  VS a = pick(s, "A", 99), b = pick(s, "B", 99); double ea = gm.evaluate(a.begin()), eb = gm.evaluate(b.begin()); VS r(s.L.size(), 5); fm.setup(a, b, r, ea, eb); if (!fm.numberOfFusionMoveVariable()) sym_discard();
  typedef external::AD3Inf<SG, ACC> A3; double val; if (solver == 0) val = fm.template fuseQpbo<kolmogorov::qpbo::QPBO<double> >(); else if (solver < 3) val = fm.template fuseAd3<A3>(typename A3::Parameter(A3::AD3_ILP)); else { typename LPCplex<SG, ACC>::Parameter p; p.integerConstraint_ = true; val = fm.template fuse<LPCplex<SG, ACC> >(p, sym_param("warm", 1)); }
  CHECKM(fm.valueResult() == val, "reported twice"); fused<GM, ACC>(s, a, b, r, val, solver >= 2); }
HARNESS(c29_pack_mover) { if (sym_param("max", 0)) packMover<GmE, Maximizer>(); else packMover<Gm2, Minimizer>(); }
template<class M> typename M::Parameter packParam() { int fs = sym_param("fs", 0), red = sym_param("red", 0); return typename M::Parameter(fs == 0 ? M::DefaulFusion : fs == 1 ? M::QpboFusion : fs == 2 ? M::LazyFlipperFusion : M::CplexFuison, sym_param("sub", 2), red, red & 2, red & 4, sym_param("time", 100)); }
template<class GM, class ACC> void packHl() {
  Spec s = spec(); GM gm; buildGm(gm, s); typedef HlFusionMover<GM, ACC> M; typename M::Parameter p = packParam<M>(); M m(gm, p); int fs = sym_param("fs", 0);
  VS a = pick(s, "A", 99), b = pick(s, "B", 99), r(s.L.size(), 0); double ea = gm.evaluate(a.begin()), eb = gm.evaluate(b.begin()), v = ea; bool any = m.fuse(a, b, r, ea, eb, v); CHECKM(any == !(a == b), "fuses unless there is nothing to do"); if (any) fused<GM, ACC>(s, a, b, r, v, fs == 3 || (fs == 2 && sym_param("sub", 2) >= s.L.size())); else CHECKM(v == ea && r == a, "untouched"); }
HARNESS(c29_pack_hl) { packHl<Gm2, Minimizer>(); }
HARNESS(c29_pack_inf) {
  using namespace proposal_gen; Spec s = spec(); Gm2 gm; buildGm(gm, s); typedef AlphaExpansionGen<Gm2, Minimizer> G; typedef FusionBasedInf<Gm2, G> I; I::Parameter p(G::Parameter(), packParam<I::FusionMoverType>(), sym_param("it", 3), sym_param("stopit", 0)); I inf(gm, p); VS x0 = anyLab(s.L); inf.setStartingPoint(x0.begin()); double e0 = energyOf<Gm2>(s, x0);
  WatchF<I> w(s, e0, sym_param("stop", 0)); CHECKM(inf.infer(w) == NORMAL && w.begun == 1 && w.ended == 1, "normal end"); VS x = argOf(inf); CHECKM(validLab(s, x), "valid labelling"); double e = energyOf<Gm2>(s, x); CHECKM(inf.value() == e, "value of the result"); CHECKM(!Less<Minimizer>::better(e0, e), "not worse than the start"); sym_obs_d(e); }
HARNESS(c29_pack_self) {
  Spec s = spec(); Gm2 gm; buildGm(gm, s); typedef Walker_<Gm2, Minimizer> W; typedef SelfFusion<W> I; int fs = sym_param("fs", 0), red = sym_param("red", 0); I::Parameter p(1, fs == 0 ? I::QpboFusion : fs == 2 ? I::LazyFlipperFusion : I::CplexFusion, W::Parameter(sym_param("walk", 2)), sym_param("sub", 2), red, red & 2, red & 4, 100.0, 10); I inf(gm, p);
  CHECKM(inf.infer() == NORMAL, "normal end"); VS x = argOf(inf); CHECKM(validLab(s, x), "valid labelling"); double e = energyOf<Gm2>(s, x); CHECKM(inf.value() == e, "value of the result"); sym_obs_d(e); for (size_t i = 0; i < W::seen.size(); ++i) CHECKM(!(energyOf<Gm2>(s, W::seen[i]) < e), "not worse than any labelling seen"); }
