// C18: dual solvers keep bound <= optimum <= value, whatever the tables; what they decompose or reparametrise keeps its energy.
#include "dual_common.h"
#include <stdio.h>
#include <opengm/utilities/random.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_base.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#include <opengm/inference/trws/trws_trws.hxx>

template<class B> struct Peek : B { static opengm::DualDecompositionBaseParameter& get(B& b) { return (b.*(&Peek::parameter))(); } };

template<class GM, class ACC, class BLOCK> static void dd() {
  typedef DualDecompositionBase<GM, BLOCK> Base; typedef typename Base::SubGmType Sub; Spec s = spec(); GM gm; buildGm(gm, s);
  typedef Bruteforce<Sub, ACC> Bf; typedef DynamicProgramming<Sub, ACC> Dp; typedef DualDecompositionSubGradient<GM, Bf, BLOCK> D;
  typename D::Parameter p; p.maximalNumberOfIterations_ = sym_param("it", 2); p.minimalAbsAccuracy_ = sym_param("acc", 0); p.fillSubLabelings_ = sym_param("fill", 0); p.numberOfBlocks_ = 2; p.k_ = 1;
  switch (sym_param("dec", 1)) { case 0: p.decompositionId_ = DualDecompositionBaseParameter::TREE; break; case 1: p.decompositionId_ = DualDecompositionBaseParameter::SPANNINGTREES; break; case 2: p.decompositionId_ = DualDecompositionBaseParameter::BLOCKS; break;
    case 3: { p.decompositionId_ = DualDecompositionBaseParameter::MANUAL; p.subFactors_.resize(2); for (size_t f = 0; f < s.f.size(); ++f) { bool u = s.f[f].vars.size() < 2; if (u || f % 2) p.subFactors_[0].push_back(f); if (u || !(f % 2)) p.subFactors_[1].push_back(f); } break; }
    case 4: case 5: p.decompositionId_ = sym_param("dec", 1) == 4 ? DualDecompositionBaseParameter::MANUALVARCLOSE : DualDecompositionBaseParameter::MANUALVAROPEN; p.subVariables_.resize(2); for (size_t v = 0; v < s.L.size(); ++v) { if (v + 1 < s.L.size()) p.subVariables_[0].insert(v); if (v > 0) p.subVariables_[1].insert(v); } break; case 6: p.decompositionId_ = DualDecompositionBaseParameter::KFANS; break; }
  switch (sym_param("step", 0)) { case 1: p.useAdaptiveStepsize_ = true; break; case 2: p.useProjectedAdaptiveStepsize_ = true; break; case 3: p.stepsizePrimalDualGapStride_ = true; break; case 4: p.stepsizeNormalizedSubgradient_ = true; break; case 5: p.stepsizeStride_ = sym_num("stride", 1, 4, 2); break; }
  D d(gm, p); run<GM, ACC>(s, d, sym_param("tight", 0));
  // the parts still add up to the model, whatever the duals are by now
  const std::vector<typename Base::SubVariableListType>& lists = Peek<Base>::get(d).decomposition_.getVariableLists(); size_t n = 0; for (size_t v = 0; v < lists.size(); ++v) for (typename Base::SubVariableListType::const_iterator i = lists[v].begin(); i != lists[v].end(); ++i) n = n > i->subModelId_ + 1 ? n : i->subModelId_ + 1;
  forLab(s.L, [&](const VS& x) { double e = 0; for (size_t m = 0; m < n; ++m) { std::vector<typename GM::LabelType> y(d.subModel(m).numberOfVariables()); for (size_t v = 0; v < lists.size(); ++v) for (typename Base::SubVariableListType::const_iterator i = lists[v].begin(); i != lists[v].end(); ++i) if (i->subModelId_ == m) y[i->subVariableId_] = x[v]; e += d.subModel(m).evaluate(y); } double w = e - energyOf<GM>(s, x); CHECKM(w <= TOL && w >= -TOL, "the parts add up to the model"); });
}

HARNESS(c18_dd) { typedef DDDualVariableBlock<marray::Marray<double> > B1; typedef DDDualVariableBlock<marray::View<double, false> > B2; switch (sym_param("op", 0)) { case 0: dd<Gm2, Minimizer, B1>(); break; case 1: dd<GmE, Maximizer, B1>(); break; case 2: dd<GmE, Minimizer, B2>(); break; } }

template<class GM, class ACC> static void trws() {
  Spec s = spec(); GM gm; buildGm(gm, s); typedef TRWSi<GM, ACC> T; typename T::Parameter p(sym_param("it", 2)); p.precision_ = sym_param("prec", 0); p.fastComputations_ = sym_param("fast", 1); p.canonicalNormalization_ = sym_param("canon", 0);
  p.decompositionType_ = sym_param("grid", 0) ? T::Storage::GRIDSTRUCTURE : sym_param("edge", 0) ? T::Storage::EDGESTRUCTURE : T::Storage::GENERALSTRUCTURE; if (sym_param("rel", 0)) p.absolutePrecision_ = false;
  T t(gm, p); run<GM, ACC>(s, t, sym_param("tight", 0)); }
HARNESS(c18_trws) { if (sym_param("op", 0) == 0) trws<Gm2, Minimizer>(); else trws<GmE, Maximizer>(); }

// the chains of a storage add up to the model, also after dual vectors are added, read back and given to another storage
template<class GM> static double chains(const GM& gm, const trws_base::DecompositionStorage<GM>& st, const VS& x) { double e = 0; for (size_t m = 0; m < st.numberOfModels(); ++m) { const typename trws_base::DecompositionStorage<GM>::SubModel& c = st.subModel(m); for (size_t i = 0; i < c.size(); ++i) { e += c.unaryFactors(i)[x[c.varIndex(i)]]; if (i + 1 < c.size()) { const typename GM::FactorType& f = gm[c.pwForwardFactor(i)]; typename GM::LabelType l[2] = {x[f.variableIndex(0)], x[f.variableIndex(1)]}; e += f(l); bool d = f.variableIndex(0) == c.varIndex(i) && f.variableIndex(1) == c.varIndex(i + 1), r = f.variableIndex(1) == c.varIndex(i) && f.variableIndex(0) == c.varIndex(i + 1); CHECKM((d && c.pwDirection(i) == trws_base::SequenceStorage<GM>::Direct) || (r && c.pwDirection(i) == trws_base::SequenceStorage<GM>::Reverse), "a chain's edge joins its neighbours"); } } } return e; }
HARNESS(c18_store) { typedef GmE GM; typedef trws_base::DecompositionStorage<GM> St; Spec s = spec(); GM gm; buildGm(gm, s); St::StructureType q = sym_param("grid", 0) ? St::GRIDSTRUCTURE : sym_param("edge", 0) ? St::EDGESTRUCTURE : St::GENERALSTRUCTURE; St st(gm, q);
  auto near = [&](double a, double b) { double d = a - b; return d <= TOL && d >= -TOL; };
  forLab(s.L, [&](const VS& x) { CHECKM(near(chains(gm, st, x), energyOf<GM>(s, x)), "the chains add up to the model"); });
  VD d(st.getDDVectorSize()); size_t want = 0; for (size_t v = 0; v < s.L.size(); ++v) want += (st.getSubVariableList(v).size() - 1) * s.L[v]; CHECKM(d.size() == want, "one dual per further chain and label"); for (size_t i = 0; i < d.size(); ++i) d[i] = sym_num("d", -4, 4, 2);
  st.addDDvector(d); VD g; st.getDDVector(&g); CHECKM(g.size() == d.size(), "size"); for (size_t i = 0; i < d.size(); ++i) CHECKM(near(g[i], d[i]), "the duals read back are those added");
  forLab(s.L, [&](const VS& x) { CHECKM(near(chains(gm, st, x), energyOf<GM>(s, x)), "the chains add up to the model after adding duals"); });
  St s2(gm, q, &g); forLab(s.L, [&](const VS& x) { CHECKM(near(chains(gm, s2, x), energyOf<GM>(s, x)), "initial point"); }); for (size_t m = 0; m < st.numberOfModels(); ++m) for (size_t i = 0; i < st.subModel(m).size(); ++i) for (size_t l = 0; l < st.subModel(m).unaryFactors(i).size(); ++l) CHECKM(near(st.subModel(m).unaryFactors(i)[l], s2.subModel(m).unaryFactors(i)[l]), "same chains");
  // an arbitrary reparametrisation of the model handed to the chains
  LPReparametrisationStorage<GM> lp(gm); for (size_t f = 0; f < s.f.size(); ++f) if (s.f[f].vars.size() > 1) for (size_t i = 0; i < s.f[f].vars.size(); ++i) { std::pair<double*, double*> r = lp.getIterators(f, i); for (; r.first != r.second; ++r.first) *r.first = sym_num("m", -2, 2, 1); }
  forLab(s.L, [&](const VS& x) { double e = 0; for (size_t f = 0; f < s.f.size(); ++f) { std::vector<GM::LabelType> l; for (size_t i = 0; i < s.f[f].vars.size(); ++i) l.push_back(x[s.f[f].vars[i]]); l.push_back(0); e += lp.getFactorValue(f, l.begin()); } CHECKM(e == energyOf<GM>(s, x), "a reparametrisation keeps the energy"); });
  VD z; lp.serialize(&z); LPReparametrisationStorage<GM> lq(gm); lq.deserialize(z); for (size_t f = 0; f < s.f.size(); ++f) if (s.f[f].vars.size() > 1) for (size_t i = 0; i < s.f[f].vars.size(); ++i) CHECKM(lp.get(f, i) == lq.get(f, i), "serialised and read back"); bool thrown = false; z.push_back(0); try { lq.deserialize(z); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown, "too long"); 
  St s3(gm, q); LPtoDecompositionStorage(lp, &s3); forLab(s.L, [&](const VS& x) { CHECKM(near(chains(gm, s3, x), energyOf<GM>(s, x)), "reparametrised chains add up to the model"); }); }
// what the solver's reparametrisation is: the same energies, and (one chain per pair) factor optima that add up to its bound
template<class GM, class ACC> static void repa() { Spec s = spec(); GM gm; buildGm(gm, s); typedef TRWSi<GM, ACC> T; typename T::Parameter p(sym_param("it", 1)); p.precision_ = 0; p.fastComputations_ = sym_param("fast", 1); p.decompositionType_ = sym_param("edge", 0) ? T::Storage::EDGESTRUCTURE : T::Storage::GENERALSTRUCTURE; T t(gm, p); t.infer();
  typename T::ReparametrizerType* r = t.getReparametrizer(); std::vector<bool> mask(s.L.size()); for (size_t v = 0; v < mask.size(); ++v) mask[v] = !(sym_param("mask", 0) >> v & 1); if (sym_param("mask", 0)) r->reparametrize(&mask); else r->reparametrize(); typename T::ReparametrizerType::ReparametrizedGMType rg; r->getReparametrizedModel(rg);
  CHECKM(rg.numberOfVariables() == gm.numberOfVariables() && rg.numberOfFactors() == gm.numberOfFactors(), "same structure"); double sum = 0; for (size_t f = 0; f < rg.numberOfFactors(); ++f) sum += Less<ACC>::better(0, 1) ? rg[f].min() : rg[f].max(); Truth<GM, ACC> tr(s); CHECKM(!worse<ACC>(sum, tr.opt + (Less<ACC>::better(0, 1) ? TOL : -TOL)), "the factors' optima bound the optimum");
  forLab(s.L, [&](const VS& x) { std::vector<typename GM::LabelType> l(x.begin(), x.end()); double d = rg.evaluate(l) - energyOf<GM>(s, x); CHECKM(d <= TOL && d >= -TOL, "same energy"); }); delete r; }
HARNESS(c18_repa) { if (sym_param("op", 0) == 0) repa<Gm2, Minimizer>(); else repa<GmE, Maximizer>(); }
