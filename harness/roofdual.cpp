// C40: solvers built on external roof duality (a small exact stand-in for the QPBO package answers)
#include "gm_common.h"
#include <stdlib.h>
#include <cstdlib>
#include <ctime>
static int64_t drawn = 0; static int sym_rand() { ++drawn; return (int)sym_u64("rand", 0, drawn % 4 == 3 ? 2 : 3); }
#define rand sym_rand
#define srand(x) (void)(x)
#include <algorithm>
namespace std { template<class It> void sym_shuffle(It a, It b) { for (It i = a; i != b; ++i) if (i != a) { It j = a + (size_t)sym_choice("shuffle", (size_t)(i - a) + 1); if (i != j) iter_swap(i, j); } } }
#define random_shuffle sym_shuffle
#include <opengm/utilities/random.hxx>
#include <opengm/inference/external/qpbo.hxx>
#include <opengm/inference/mqpbo.hxx>
#include <opengm/inference/hqpbo.hxx>
#include <opengm/inference/alphaexpansionfusion.hxx>
#include <opengm/inference/reducedinference.hxx>
#include <opengm/inference/bruteforce.hxx>
#undef rand
#undef srand
#undef random_shuffle
using namespace opengm;
static Rng R() { return Rng(-(int64_t)sym_param("R", 2), (int64_t)sym_param("R", 2), 1); }
// bits of "un": which variables have a unary term; "pk": 0 tables, 1 Potts; "ex": 1 a factor without variables, 2 a second factor on the first pair
// "few": only so many values of a table are free, the others follow a pattern
static Fac tab(const Spec& s, const VS& v, unsigned salt) { size_t few = sym_param("few", 99); if (v.size() < 2 || few > prodS(lsh(s, v))) return fExpl(s, v, R()); Fac f; f.vars = v; f.shape = lsh(s, v); f.kind = FEXPL; f.t.resize(prodS(f.shape)); unsigned q = sym_param("pat", 1); for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = (i * 5 + q) % f.t.size() < few ? sy("t", R()) : (double)((int)((i * i * 3 + i * q + salt * 5) % 7) - 3); return f; }
static Spec spec(size_t L) {
  Topo t = topo(sym_param("topo", 1)); Spec s; s.L.assign(t.n, L); if (sym_param("mix", 0)) s.L[0] = L + 1; unsigned un = sym_param("un", 255), ex = sym_param("ex", 0);
  for (size_t v = 0; v < t.n; ++v) if (un >> v & 1) s.f.push_back(fExpl(s, mkVS(v), R()));
  for (size_t i = 0; i < t.e.size() + (ex & 2 ? 1 : 0); ++i) { VS v = t.e[i % t.e.size()]; if (sym_param("pk", 0) && v.size() == 2) s.f.push_back(fPotts(s, v[0], v[1], sym_param("eq", 0) ? sy("eq", R()) : 0, sym_num("ne", sym_param("pos", 0) ? 0 : -R().hi, R().hi, 1))); else s.f.push_back(tab(s, v, i)); }
  if (ex & 1) s.f.push_back(fExpl(s, VS(), R())); return s;
}
struct Best { double v; std::vector<VS> x; VD e; Best(const Spec& s) { forLab(s.L, [&](const VS& y) { x.push_back(y); e.push_back(energyAdd(s, y)); }); v = e[0]; for (size_t i = 1; i < e.size(); ++i) v = dmin_(e[i], v); } };
HARNESS(c40_qpbo) {
  Spec s = spec(2); Gm2 gm; buildGm(gm, s); Best b(s); typedef opengm::external::QPBO<Gm2> Q; Q::Parameter p; p.strongPersistency_ = sym_param("strong", 0); p.useProbeing_ = sym_param("probing", 0); p.useImproveing_ = sym_param("improving", 0); VS d(s.L.size(), 0); if (sym_param("start", 0)) { for (size_t v = 0; v < d.size(); ++v) d[v] = sym_choice("start", 2); p.label_ = d; }
  { Q q(gm, p); VS y; q.arg(y); CHECKM(y == d, "without inference the answer is the default labelling"); CHECKM(q.infer() == NORMAL, "inference ends"); CHECKM(q.arg(y) == NORMAL && y.size() == d.size(), "an answer"); for (size_t v = 0; v < y.size(); ++v) CHECKM(y[v] < 2, "the answer is a labelling"); std::vector<bool> o; double part = q.partialOptimality(o); CHECKM(o.size() == d.size(), "optimality of every variable"); size_t k = 0; for (size_t v = 0; v < o.size(); ++v) k += o[v];
    CHECKM(part * d.size() == k, "share of the optimal variables"); CHECKM(q.bound() <= b.v, "the bound is below every labelling's value"); double e = energyAdd(s, y); CHECKM(q.value() == e, "value of the answer"); sym_obs_d(e); sym_obs_d(q.bound());
    std::vector<Q::TriBool> t; CHECKM(q.arg(t) == NORMAL && t.size() == d.size(), "an answer of three values"); for (size_t v = 0; v < t.size(); ++v) CHECKM(t[v] == (o[v] ? (y[v] ? Q::TB1 : Q::TB0) : Q::TBX), "the answer of three values is the labelling where it is optimal");
    if (!p.useImproveing_) { bool any = false, all = true; for (size_t i = 0; i < b.x.size(); ++i) { bool in = true; for (size_t v = 0; v < o.size(); ++v) if (o[v] && b.x[i][v] != y[v]) in = false; if (in) any = any | (b.e[i] == b.v); } CHECKM(any, "the optimal variables have the labels of an optimal labelling"); (void)all; for (size_t v = 0; v < o.size(); ++v) if (!o[v]) CHECKM(y[v] == d[v], "the others keep the default label"); if (k == o.size()) CHECKM(p.useProbeing_ || q.bound() == e, "a complete answer meets the bound"); }
    else { VS z(y); VS w(d); CHECKM(k == o.size(), "improving labels every variable"); Q::Parameter p2(p); p2.useImproveing_ = false; (void)w; CHECKM(p2.label_ == p.label_, "parameters taken over"); }
    VS z2; CHECKM(q.arg(z2, 2) == UNKNOWN, "no second best answer"); }
  Q::Parameter p3(p); CHECKM(p3.label_ == p.label_ && p3.strongPersistency_ == p.strongPersistency_ && p3.useProbeing_ == p.useProbeing_ && p3.useImproveing_ == p.useImproveing_, "parameters taken over");
}
// improving: no worse than the persistent labels with the default labels elsewhere
HARNESS(c40_improve) {
  Spec s = spec(2); Gm2 gm; buildGm(gm, s); typedef opengm::external::QPBO<Gm2> Q; Q::Parameter p; p.strongPersistency_ = true; p.useProbeing_ = sym_param("probing", 0); VS d; for (size_t v = 0; v < s.L.size(); ++v) d.push_back(sym_choice("start", 2)); p.label_ = d; VS y, z; std::vector<bool> o; { Q q(gm, p); q.infer(); q.arg(y); q.partialOptimality(o); } p.useImproveing_ = true; Q q(gm, p); q.infer(); q.arg(z); for (size_t v = 0; v < z.size(); ++v) { CHECKM(z[v] < 2, "the answer is a labelling"); if (o[v] && !p.useProbeing_) CHECKM(z[v] == y[v], "persistent labels are kept"); } CHECKM(energyAdd(s, z) <= energyAdd(s, p.useProbeing_ ? d : y), "improving does not make the default labelling worse"); sym_obs_d(energyAdd(s, z)); CHECKM(q.value() == energyAdd(s, z), "value of the answer");
}
HARNESS(c40_mqpbo) {
  Spec s = spec(sym_param("L", 3)); Gm2 gm; buildGm(gm, s); Best b(s); typedef MQPBO<Gm2, Minimizer> Q; Q::Parameter p; p.useKovtunsMethod_ = sym_param("kov", 0); p.rounds_ = sym_param("rounds", 1); unsigned pt = sym_param("perm", 0); p.permutationType_ = pt == 0 ? Q::NONE : pt == 1 ? Q::RANDOM : Q::MINMARG; p.strongPersistency_ = sym_param("strong", 1); Q q(gm, p); if (sym_param("noinfer", 0) == 0) CHECKM(q.infer() == NORMAL, "inference ends");
  VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); CHECKM(q.value() == e, "value of the answer"); sym_obs_d(e); CHECKM(q.bound() <= b.v, "the bound is below every labelling's value"); size_t n = s.L.size(); bool any = false; std::vector<std::vector<int> > say(n); bool complete = true;
  for (size_t v = 0; v < n; ++v) { const std::vector<Tribool>& t = q.partialOptimality(v); CHECKM(t.size() == s.L[v], "optimality of every label"); size_t yes = 0; for (size_t l = 0; l < t.size(); ++l) { say[v].push_back(t[l] == true ? 1 : t[l] == false ? 0 : 2); if (say[v][l] == 1) { ++yes; CHECKM(y[v] == l, "the answer has the optimal label"); } } CHECKM(yes < 2, "at most one label is optimal"); if (say[v][y[v]] == 0) CHECKM(false, "the answer has no label that was excluded"); size_t l = 99; if (q.partialOptimality(v, l)) CHECKM(l < s.L[v] && say[v][l] == 1, "a variable is optimal with its optimal label"); else complete = false; }
  for (size_t i = 0; i < b.x.size(); ++i) { bool in = true; for (size_t v = 0; v < n; ++v) { int z = say[v][b.x[i][v]]; if (z == 0) in = false; if (z == 2) for (size_t l = 0; l < s.L[v]; ++l) if (say[v][l] == 1) in = false; } if (in) any = any | (b.e[i] == b.v); } CHECKM(any, "some optimal labelling agrees with everything that was found"); if (complete) CHECKM(e == b.v, "a complete answer is optimal"); double o1 = q.optimality(), o2 = q.optimalityV(); CHECKM(o1 >= 0 && o1 <= 1 && o2 >= 0 && o2 <= 1, "shares"); VS y2; CHECKM(q.arg(y2, 2) == UNKNOWN, "no second best answer");
}
// the package breaks ties when all edges are submodular: what two rounds exclude may contradict each other
HARNESS(c40_mqpbo_ties) {
  Spec s = spec(sym_param("L", 2)); Gm2 gm; buildGm(gm, s); typedef MQPBO<Gm2, Minimizer> Q; Q::Parameter p; p.useKovtunsMethod_ = false; p.rounds_ = 2; p.permutationType_ = Q::RANDOM; p.strongPersistency_ = true; Q q(gm, p); q.infer(); VS y; q.arg(y); for (size_t v = 0; v < s.L.size(); ++v) CHECKM(!(q.partialOptimality(v)[y[v]] == Tribool(Tribool::False)), "several rounds over ties keep a label of the answer");
}
HARNESS(c40_hqpbo) {
  Spec s = spec(2); Gm2 gm; buildGm(gm, s); Best b(s); qpbostub::limit() = 9; typedef HQPBO<Gm2, Minimizer> Q; Q q(gm); VS d; for (size_t v = 0; v < s.L.size(); ++v) d.push_back(sym_param("start", 0) ? sym_choice("start", 2) : 0); q.setStartingPoint(d.begin()); CHECKM(q.infer() == NORMAL, "inference ends"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); CHECKM(q.value() == e, "value of the answer"); sym_obs_d(e); CHECKM(q.bound() <= b.v, "the bound is below every labelling's value"); CHECKM(e <= energyAdd(s, d), "the answer is not worse than the starting point"); bool sub = s.L.size() == 1; if (s.L.size() == 2 && sym_param("topo", 1) == 1) { const Fac& f = s.f.back(); if (f.vars.size() == 2) sub = f.t[0] + f.t[3] <= f.t[1] + f.t[2]; } if (sub) CHECKM(e == b.v, "a submodular pair is solved"); VS z; CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
}
HARNESS(c40_expansion) {
  Spec s = spec(sym_param("L", 3)); Gm2 gm; buildGm(gm, s); Best b(s); qpbostub::limit() = 8; typedef AlphaExpansionFusion<Gm2, Minimizer> Q; Q::Parameter p(sym_param("steps", 1000)); unsigned it = sym_param("init", 0), ot = sym_param("order", 0); p.labelInitialType_ = it == 0 ? p.DEFAULT_LABEL : it == 1 ? p.RANDOM_LABEL : it == 2 ? p.LOCALOPT_LABEL : p.EXPLICIT_LABEL; p.orderType_ = ot == 0 ? p.DEFAULT_ORDER : ot == 1 ? p.RANDOM_ORDER : p.EXPLICIT_ORDER; size_t mx = *std::max_element(s.L.begin(), s.L.end()); if (it == 3) for (size_t v = 0; v < s.L.size(); ++v) p.label_.push_back(sym_choice("start", s.L[v])); if (ot == 2) for (size_t l = 0; l < mx; ++l) p.labelOrder_.push_back((l * 2 + 1) % mx == 0 && mx % 2 == 0 ? l : mx - 1 - l);
  Q::Parameter c(p); CHECKM(c.label_ == p.label_ && c.labelOrder_ == p.labelOrder_ && c.maxNumberOfSteps_ == p.maxNumberOfSteps_ && c.orderType_ == p.orderType_, "parameters taken over");
  Q q(gm, c); VS a; q.arg(a); CHECKM(validLab(s, a), "the start is a labelling"); if (it == 3) CHECKM(a == p.label_, "the start is the given labelling"); if (it == 0) CHECKM(a == VS(s.L.size(), 0), "the start is the first label"); if (it == 2) for (size_t v = 0; v < s.L.size(); ++v) for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].vars == mkVS(v)) for (size_t l = 0; l < s.L[v]; ++l) CHECKM(s.f[i].t[a[v]] <= s.f[i].t[l], "the start is locally optimal");
  if (sym_param("again", 0)) { q.infer(); q.reset(); q.arg(a); } double e0 = energyAdd(s, a); CHECKM(q.infer() == NORMAL, "inference ends"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); sym_obs_d(e); CHECKM(q.value() == e, "value of the answer"); CHECKM(e <= e0, "the answer is not worse than the start");
  if (sym_param("local", 0)) { bool ok = true; for (size_t l = 0; l < mx; ++l) forLab(VS(s.L.size(), 2), [&](const VS& m) { VS z(y); for (size_t v = 0; v < z.size(); ++v) if (m[v]) { if (l >= s.L[v]) return; z[v] = l; } ok = ok & (e <= energyAdd(s, z)); }); CHECKM(ok, "no expansion is better"); } VS z; CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
}
HARNESS(c40_reduced) {
  Spec s = spec(sym_param("L", 2)); typedef GmE G; G gm; buildGm(gm, s); Best b(s); qpbostub::limit() = 8; typedef ReducedInferenceHelper<G>::InfGmType SG; typedef Bruteforce<SG, Minimizer> BF; typedef ReducedInference<G, Minimizer, BF> Q; unsigned m = sym_param("mode", 7); Q::Parameter p(m & 1, m >> 1 & 1, m >> 2 & 1); Q::Parameter c(p); CHECKM(c.Persistency_ == p.Persistency_ && c.Tentacle_ == p.Tentacle_ && c.ConnectedComponents_ == p.ConnectedComponents_, "parameters taken over");
  Q q(gm, c); CHECKM(q.infer() == NORMAL, "inference ends"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); sym_obs_d(e); CHECKM(q.value() == e, "value of the answer"); CHECKM(e == b.v, "the answer is optimal"); CHECKM(q.bound() <= b.v, "the bound is below every labelling's value"); VS z; CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
}
HARNESS(c40_refuse) {
  Spec s; unsigned k = sym_param("case", 0); s.L.assign(3, k == 0 ? 3 : 2); s.f.push_back(fExpl(s, k == 0 ? mkVS(0, 1) : mkVS(0, 1, 2), R())); GmE gm; buildGm(gm, s); bool threw = false; try { opengm::external::QPBO<GmE> q(gm); } catch (RuntimeError&) { threw = true; } CHECKM(threw, "QPBO refuses more than two labels and higher order"); threw = false; try { MQPBO<GmE, Minimizer> q(gm); } catch (RuntimeError&) { threw = true; } CHECKM(threw == (k == 1), "MQPBO refuses higher order only");
  if (k == 0) { threw = false; try { HQPBO<GmE, Minimizer> q(gm); } catch (RuntimeError&) { threw = true; } CHECKM(threw, "HQPBO refuses more than two labels"); }
}
