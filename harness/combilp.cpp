// C42: CombiLP (the CPLEX stand-in of C38 answers the integer programmes with any optimal point)
#include "gm_common.h"
#include "ilcplex/ilocplex.h"
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/combilp.hxx>
using namespace opengm;
typedef Gm2 GM;
// "conc": so many factors (pairs last) keep concrete values; "hard": their pattern
static Spec spec() {
  size_t L = sym_param("L", 2); Topo t = topo(sym_param("topo", 3)); Spec s; s.L.assign(t.n, L); unsigned mx = sym_param("mix", 0), pot = sym_param("potts", 0); if (mx) s.L[mx - 1] = L + 1; int64_t r = sym_param("R", 2); Rng g(-r, r, 1); unsigned un = sym_param("un", 255), pw = sym_param("pw", 0), ord = sym_param("ord", 0); std::vector<Fac> u, p;
  for (size_t v = 0; v < t.n; ++v) { Fac f = fExpl(s, mkVS(v), g); if (!(un >> v & 1)) for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (double)((v * 3 + i * i * 5 + 1) % 4) * 0.25; u.push_back(f); }
  for (size_t i = 0; i < t.e.size(); ++i) { if (pot >> i & 1) { p.push_back(fPotts(s, t.e[i][0], t.e[i][1], sy("same", g), sy("other", g))); continue; } Fac f = fExpl(s, t.e[i], g); if (!(pw >> i & 1)) for (size_t k = 0; k < f.t.size(); ++k) { size_t a = k % f.shape[0], b = k / f.shape[0]; f.t[k] = a == b ? 2.0 : -(double)((i + a * 2 + b) % 3) * 0.25; } p.push_back(f); }
  if (ord) { s.f = p; s.f.insert(s.f.end(), u.rbegin(), u.rend()); } else { s.f = u; s.f.insert(s.f.end(), p.begin(), p.end()); } if (sym_param("cf", 0)) s.f.push_back(fExpl(s, VS(), g)); return s;
}
template<class C> struct Visit { size_t b, n, e; size_t stop; Visit(size_t k) : b(0), n(0), e(0), stop(k) {} void begin(C&) { ++b; } void end(C&) { ++e; } size_t operator()(C& c) { VS y; c.arg(y); ++n; return stop && n == stop ? visitors::VisitorReturnFlag::StopInfTimeout : visitors::VisitorReturnFlag::ContinueInf; } };
template<class ACC> static void combi() {
  Spec s = spec(); GM gm; buildGm(gm, s); typedef TRWSi<GM, ACC> T; typedef CombiLP<GM, ACC, T> Q; typename T::Parameter tp(sym_param("iter", 2), sym_param("edge", 0) ? T::Storage::EDGESTRUCTURE : T::Storage::GENERALSTRUCTURE, 0.0); tp.fastComputations() = sym_param("fast", 1); typename Q::Parameter par(tp, typename Q::ReparametrizerType::Parameter(sym_param("fast", 1))); par.singleReparametrization_ = sym_param("single", 1); par.maxNumberOfILPCycles_ = sym_param("cycles", 100);
  Q q(gm, par); Visit<Q> v(sym_param("stop", 0)); bool plain = sym_param("plain", 0); InferenceTermination r = plain ? q.infer() : q.infer(v); CHECKM(r == NORMAL, "inference ends"); if (!plain) CHECKM(v.b == 1 && v.e == 1 && v.n >= 1, "the visitor sees the run from its begin to its end"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y), b = q.bound(); CHECKM(q.value() == e, "the value is the answer's");
  bool below = true; forLab(s.L, [&](const VS& x) { below = below & !Less<ACC>::better(energyAdd(s, x), b); }); CHECKM(below, "the bound holds for every labelling"); if (!v.stop && par.maxNumberOfILPCycles_ > s.L.size()) { CHECKM((isOptimal<GM, ACC>(s, y)), "no labelling is better"); CHECKM(b == e, "the bound is the optimum"); } sym_obs_d(e); for (size_t i = 0; i < y.size(); ++i) sym_obs_u(y[i]);
}
HARNESS(c42_combilp) { lpstub::Core::known() = sym_param("known", 0); bool refuse = sym_param("refuse", 0), threw = false; try { if (sym_param("max", 0)) combi<Maximizer>(); else combi<Minimizer>(); } catch (std::runtime_error&) { threw = true; } CHECKM(threw == refuse, "models outside its limits are refused, no others"); }
