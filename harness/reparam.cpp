// C27: reparametrisation never changes the value of a labelling
#include "gm_common.h"
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/auxiliary/lp_reparametrization.hxx>
using namespace opengm;
typedef Gm2 GM; typedef LPReparametrisationStorage<GM> ST;
template<class ACC> struct R { typedef LPReparametrizer<GM, ACC> L; typedef TRWSi<GM, ACC> T; };
static Spec spec() {
  size_t tp = sym_param("topo", 1); int conc = sym_param("conc", 0); Rng r(-3, 3), c(-3, 3); Topo t = topo(tp); Spec s; s.L = labs(t.n, sym_param("lab", 0)); size_t ord = sym_param("ord", 0);
  auto val = [&](Fac f, size_t k) { for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (double)((int)((k * 5 + i * i * 3 + i) % 7) - 3); return f; };
  auto un = [&]() { for (size_t v = 0; v < t.n; ++v) { size_t w = ord == 2 ? t.n - 1 - v : v; Fac f; f.vars = mkVS(w); f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(prodS(f.shape), 0.0); if (conc) f = val(f, w); else for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = sy("t", r); s.f.push_back(f); } };
  if (ord != 1) un();
  for (size_t i = 0; i < t.e.size(); ++i) { if (sym_param("potts", 0) && t.e[i].size() == 2) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], sy("e", r), sy("n", r))); else if (conc > 1 + (int)i) { Fac f; f.vars = t.e[i]; f.shape = lsh(s, f.vars); f.kind = FEXPL; f.t.assign(prodS(f.shape), 0.0); s.f.push_back(val(f, 3 + i)); } else s.f.push_back(fExpl(s, t.e[i], r)); }
  if (ord == 1) un();
  if (sym_param("cf", 0)) { s.f.push_back(fExpl(s, VS(), r)); }
  return s;
}
static bool multi(const Fac& f) { return f.vars.size() > 1; }
static size_t total(const Spec& s) { size_t n = 0; for (size_t i = 0; i < s.f.size(); ++i) if (multi(s.f[i])) for (size_t j = 0; j < s.f[i].shape.size(); ++j) n += s.f[i].shape[j]; return n; }
static VD drawDuals(const Spec& s) { VD d; for (size_t i = 0; i < total(s); ++i) d.push_back(sym_num("d", -3, 3, 2)); return d; }
// what the reparametrised model looks like, factor by factor
static void judge(const GM& gm, const Spec& s, LPReparametrizer<GM, Minimizer>::ReparametrizedGMType& rg, const ST& st, const VD& d) {
  CHECKM(rg.numberOfVariables() == gm.numberOfVariables() && rg.numberOfFactors() == gm.numberOfFactors(), "same structure");
  for (size_t f = 0; f < s.f.size(); ++f) { CHECKM(rg[f].numberOfVariables() == s.f[f].vars.size() && rg[f].size() == prodS(s.f[f].shape), "same factors"); for (size_t i = 0; i < s.f[f].vars.size(); ++i) CHECKM(rg[f].variableIndex(i) == s.f[f].vars[i] && rg[f].numberOfLabels(i) == s.f[f].shape[i], "same variables"); }
  VS off(s.f.size() + 1, 0); for (size_t f = 0; f < s.f.size(); ++f) { off[f + 1] = off[f]; if (multi(s.f[f])) for (size_t n : s.f[f].shape) off[f + 1] += n; }
  auto dual = [&](size_t f, size_t p, size_t l) { size_t o = off[f]; for (size_t i = 0; i < p; ++i) o += s.f[f].shape[i]; return d[o + l]; };
  for (size_t f = 0; f < s.f.size(); ++f) forLab(s.f[f].shape, [&](const VS& y) { double v = s.f[f].t[flat(y, s.f[f].shape)]; VS z(y); z.push_back(0); if (multi(s.f[f])) { for (size_t p = 0; p < y.size(); ++p) v += dual(f, p, y[p]); } else if (y.size() == 1) { for (size_t g = 0; g < s.f.size(); ++g) if (multi(s.f[g])) for (size_t p = 0; p < s.f[g].vars.size(); ++p) if (s.f[g].vars[p] == s.f[f].vars[0]) v -= dual(g, p, y[0]); CHECKM(st.getVariableValue(s.f[f].vars[0], y[0]) == v, "value of a variable"); }
    CHECKM(rg[f](z.begin()) == v && st.getFactorValue(f, z.begin()) == v, "value of a factor"); });
  forLab(s.L, [&](const VS& x) { double e = energyAdd(s, x); CHECKM(rg.evaluate(x.begin()) == e, "the value of a labelling is unchanged"); sym_obs_d(e); });
}
HARNESS(c27_values) {
  Spec s = spec(); GM gm; buildGm(gm, s); typedef LPReparametrizer<GM, Minimizer> L; L l(gm); L::ReparametrizedGMType rg; size_t n = total(s);
  VD zero(n, 0.0); l.getReparametrizedModel(rg); judge(gm, s, rg, l.Reparametrization(), zero); VD d = drawDuals(s); ST& st = l.Reparametrization(); if (sym_param("via", 0)) st.deserialize(d); else { size_t k = 0; for (size_t f = 0; f < s.f.size(); ++f) if (multi(s.f[f])) for (size_t p = 0; p < s.f[f].vars.size(); ++p) { CHECKM(st.localId(f, s.f[f].vars[p]) == p, "place of a variable in a factor"); std::pair<double*, double*> it = st.getIterators(f, p); CHECKM((size_t)(it.second - it.first) == s.f[f].shape[p], "one value per label"); for (; it.first != it.second; ++it.first) *it.first = d[k++]; CHECKM(st.get(f, p).size() == s.f[f].shape[p], "one value per label"); } }
  judge(gm, s, rg, st, d); L::ReparametrizedGMType r2; l.getReparametrizedModel(r2); judge(gm, s, r2, st, d);
  VD out(1, 7); st.serialize(&out); CHECKM(out == d, "serialised values"); L m(gm); m.Reparametrization().deserialize(out); L::ReparametrizedGMType r3; m.getReparametrizedModel(r3); judge(gm, s, r3, m.Reparametrization(), d); L::ReparametrizedGMType r4(r3); judge(gm, s, r4, m.Reparametrization(), d);
  int thrown = 0; VD longer(d), shorter(d); longer.push_back(0); if (n) { shorter.pop_back(); try { m.Reparametrization().deserialize(shorter); } catch (std::runtime_error&) { ++thrown; } } else ++thrown; try { m.Reparametrization().deserialize(longer); } catch (std::runtime_error&) { ++thrown; } CHECKM(thrown == 2, "values of the wrong length are refused");
}
template<class ACC> void arc() {
  Spec s = spec(); GM gm; buildGm(gm, s); LPReparametrizer<GM, ACC> l(gm); VD d = drawDuals(s); for (double& v : d) if (sym_param("dual", 1) == 0) v = 0; l.Reparametrization().deserialize(d); std::vector<bool> mask(1); std::vector<size_t> lab(7); l.getArcConsistency(&mask, &lab); CHECKM(mask.size() == s.L.size() && validLab(s, lab), "a valid labelling"); bool all = true; for (size_t v = 0; v < mask.size(); ++v) all = all && mask[v]; if (all) { bool opt = isOptimal<GM, ACC>(s, lab); CHECKM(opt, "a consistent labelling is optimal"); sym_obs_d(energyAdd(s, lab)); }
  for (size_t v = 0; v < s.L.size(); ++v) for (size_t k = 0; k < s.L[v]; ++k) CHECKM(!Less<ACC>::better(l.Reparametrization().getVariableValue(v, k), l.Reparametrization().getVariableValue(v, lab[v])), "the labels are locally best"); }
HARNESS(c27_arc) { if (sym_param("max", 0)) arc<Maximizer>(); else arc<Minimizer>(); }
// the reparametriser of the sequential message passing solver
template<class ACC> void trws() {
  Spec s = spec(); GM gm; buildGm(gm, s); typedef TRWSi<GM, ACC> T; typedef typename T::ReparametrizerType RP; typename T::Parameter par(sym_param("iter", 1), sym_param("edge", 0) ? T::Storage::EDGESTRUCTURE : T::Storage::GENERALSTRUCTURE, 0.0); par.fastComputations() = sym_param("fast", 1); T t(gm, par); if (sym_param("infer", 1)) t.infer();
  RP* r = t.getReparametrizer(typename RP::Parameter(sym_param("fast", 1))); int how = sym_param("how", 0); typename RP::MaskType mask; for (size_t v = 0; v < s.L.size(); ++v) mask.push_back(how == 1 ? sym_choice("mask", 2) : true);
  if (how == 0) r->reparametrize(); else if (how == 1) r->reparametrize(&mask); else { typename RP::ImmovableLabelingType im(s.L.size()); for (size_t v = 0; v < s.L.size(); ++v) for (size_t k = 0; k < s.L[v]; ++k) im[v].push_back(how == 2 ? sym_choice("immovable", 2) : 0); r->reparametrize(im); }
  typename RP::ReparametrizedGMType rg; r->getReparametrizedModel(rg); forLab(s.L, [&](const VS& x) { double e = energyAdd(s, x); CHECKM(rg.evaluate(x.begin()) == e, "the value of a labelling is unchanged"); sym_obs_d(e); });
  if (how == 0 && sym_param("tight", 0)) { double b = 0; for (size_t f = 0; f < rg.numberOfFactors(); ++f) { double m = 0; bool first = true; forLab(s.f[f].shape, [&](const VS& y) { double v = rg[f](y.begin()); if (first) m = v; else m = sym_ite_d(Less<ACC>::better(v, m), v, m); first = false; }); b += m; } CHECKM(b == t.bound(), "the factors' optima add up to the bound of the solver"); }
  delete r;
}
HARNESS(c27_trws) { if (sym_param("max", 0)) trws<Maximizer>(); else trws<Minimizer>(); }
// handing the values to a decomposition: the submodels still add up to the model
HARNESS(c27_decomposition) {
  Spec s = spec(); GM gm; buildGm(gm, s); typedef trws_base::DecompositionStorage<GM> D; D d(gm, sym_param("edge", 0) ? D::EDGESTRUCTURE : D::GENERALSTRUCTURE); LPReparametrizer<GM, Minimizer> l(gm); l.Reparametrization().deserialize(drawDuals(s));
  auto sum = [&](D& q) { forLab(s.L, [&](const VS& x) { double e = 0; for (size_t m = 0; m < q.numberOfModels(); ++m) { VS y; for (size_t i = 0; i < q.size(m); ++i) y.push_back(x[q.subModel(m).varIndex(i)]); e += q.subModel(m).evaluate(y.begin()); } CHECKM(e == energyAdd(s, x), "the submodels add up to the model"); sym_obs_d(e); }); };
  sum(d); LPtoDecompositionStorage(l.Reparametrization(), &d); sum(d); D::DDVectorType v; d.getDDVector(&v); CHECKM(v.size() == d.getDDVectorSize(), "size of the vector"); D e(gm, sym_param("edge", 0) ? D::EDGESTRUCTURE : D::GENERALSTRUCTURE, &v); sum(e); for (size_t m = 0; m < d.numberOfModels(); ++m) for (size_t i = 0; i < d.size(m); ++i) CHECKM(d.subModel(m).unaryFactors(i) == e.subModel(m).unaryFactors(i), "rebuilt from its vector"); for (double& z : v) z = sym_num("z", -3, 3, 1); e.addDDvector(v); sum(e);
  bool t = false; v.push_back(0); try { e.addDDvector(v); } catch (std::runtime_error&) { t = true; } CHECKM(t, "a vector of the wrong length is refused");
}
