// C15: LOC, local search over blocks and trees of variables that a solver settles at once
#include "gm_common.h"
#define WITH_CPLEX
#include <opengm/inference/loc.hxx>
using namespace opengm;
static Spec mkSpec(bool pos) {
  int64_t R = sym_param("R", 2); Rng r(pos ? sym_param("zero", 0) ? 0 : 1 : -R, R, 1); Spec s; Topo t = topo(sym_param("topo", 2)); s.L = labs(t.n, sym_param("lab", 0)); addUnaries(s, sym_param("un", 1), r);
  for (size_t i = 0; i < t.e.size(); ++i) { bool potts = sym_param("potts", 0) && t.e[i].size() == 2; if (potts) s.f.push_back(fPotts(s, t.e[i][0], t.e[i][1], pos ? 1 : 0, sy("w", r))); else s.f.push_back(fExpl(s, t.e[i], r)); }
  if (sym_param("un2", 0)) addUnaries(s, 1, r); if (sym_param("cf", 0)) s.f.insert(s.f.begin(), fExpl(s, VS(), r));
  unsigned conc = sym_param("conc", 0); if (conc > 1) { size_t k = 0; for (size_t i = 0; i < s.f.size(); ++i) for (size_t j = 0; j < s.f[i].t.size(); ++j, ++k) if (s.f[i].kind == FEXPL && k % conc) s.f[i].t[j] = pos ? 1 + (double)((k * 7) % 5) : (double)((k * 7) % 9) - 4; }
  return s;
}
template<class GM, class ACC> struct Watch { const Spec& s; double top; int seen, lost; Watch(const Spec& a, double v) : s(a), top(v), seen(0), lost(0) {} template<class I> void begin(I& i) { look(i); } template<class I> void end(I& i) { look(i); }
  template<class I> size_t operator()(I& i) { look(i); return 0; } template<class I> void look(I& i) { ++seen; VS x = argOf(i); bool ok = validLab(s, x); CHECKM(ok, "the labelling at a visit is valid"); if (!ok) sym_discard(); double e = energyOf<GM>(s, x); CHECKM(i.value() == e, "the value at a visit is that of the labelling"); CHECKM(!Less<ACC>::better(top, e), "a move is never worse"); top = e; } };
template<class GM, class ACC> void locRun(const Spec& s) {
  typedef LOC<GM, ACC> I; AD3::FactorGraph::best() = true; GM gm; buildGm(gm, s); size_t n = s.L.size(); int sol = sym_param("solver", 0); static const char* names[] = {"ad3", "lf2", "lf3", "cplex"}; size_t tree = sym_param("tree", 0), block = sym_param("block", 2); int runs = sym_param("runs", 1);
  for (int z = sym_param("rand", 0); z; --z) rand();
  typename I::Parameter p(names[sol], sym_param("phi", 5) / 10.0, block, tree, 0.9, 10, 10, sym_param("maxBlock", 0), sym_param("maxTree", 0), runs); CHECKM(p.maxBlockRadius_ == block && p.maxTreeRadius_ == tree && p.maxBlockSize_ == (size_t)sym_param("maxBlock", 0) && p.maxTreeSize_ == (size_t)sym_param("maxTree", 0) && p.treeRuns_ == runs, "the parameter keeps what it is given"); typename I::Parameter p2(p); CHECKM(p2.maxTreeSize_ == p.maxTreeSize_ && p2.solver_ == p.solver_, "a copy of the parameter");
  I inf(gm, sym_param("copy", 0) ? typename I::Parameter(typename LOC<GM, Integrator>::Parameter(names[sol], sym_param("phi", 5) / 10.0, block, tree, 0.9, 10, 10, sym_param("maxBlock", 0), sym_param("maxTree", 0), runs)) : p); CHECK(inf.name() == "LOC" && &inf.graphicalModel() == &gm);
  VS cur(n, 0); for (int q = 0; q <= sym_param("again", 0); ++q) {
    if (sym_param("start", 1) && !(q && sym_choice("keep", 2))) { if (q && sym_choice("reset", 2)) { inf.reset(); cur = VS(n, 0); } else { cur = anyLab(s.L); std::vector<typename GM::LabelType> st(cur.begin(), cur.end()); inf.setStartingPoint(st.begin()); } }
    { VS x = argOf(inf); CHECKM(x == cur, "the labelling before inference is the start"); CHECKM(inf.value() == energyOf<GM>(s, cur), "the value before inference"); }
    std::vector<typename GM::LabelType> none(1, 7); CHECKM(inf.arg(none, 2) == UNKNOWN, "no second labelling");
    Watch<GM, ACC> w(s, energyOf<GM>(s, cur)); if (sym_param("visit", 1)) { CHECK(inf.infer(w) == NORMAL); CHECK(w.seen >= 3); } else CHECK(inf.infer() == NORMAL);
    VS x = argOf(inf); CHECKM(validLab(s, x), "the labelling is valid"); if (!validLab(s, x)) sym_discard(); double e = energyOf<GM>(s, x); sym_obs_d(e); CHECKM(inf.value() == e, "the value is that of the labelling"); CHECKM(!Less<ACC>::better(energyOf<GM>(s, cur), e), "never worse than the start"); cur = x;
    if (sym_param("opt", 0)) { bool ok = true; forLab(s.L, [&](const VS& y) { ok = ok & !Less<ACC>::better(energyOf<GM>(s, y), e); }); CHECKM(ok, "a block or tree over all variables ends in the optimum"); } }
}
HARNESS(c15_loc) { int op = sym_param("op", 0); if (op == 0) locRun<Gm2, Minimizer>(mkSpec(false)); else if (op == 1) locRun<Gm2, Maximizer>(mkSpec(false)); else if (op == 2) locRun<Gm2M, Minimizer>(mkSpec(true)); else locRun<Gm2M, Maximizer>(mkSpec(true)); }
