#include "gm_common.h"
#include <vector>
#include <limits>
#include <cmath>
#include <opengm/opengm.hxx>
#include <opengm/inference/external/trws.hxx>
using namespace opengm;
// ---- C36: wrappers of external packages; what the packages compute is done by stand-ins ----
static Rng R() { return Rng(-(int64_t)sym_param("R", 2), (int64_t)sym_param("R", 2), 1); }
// bits of "un": which variables have unary terms; "ex": 1 a factor without variables, 2 a second factor on the first pair, 4 second unary terms
static Spec spec(size_t L) {
  Topo t = topo(sym_param("topo", 1)); Spec s; s.L.assign(t.n, L); unsigned mx = sym_param("mix", 0); if (mx) s.L[mx - 1] = L + 1; unsigned un = sym_param("un", 255), ex = sym_param("ex", 0), td = sym_param("td", 0);
  if (ex & 1) s.f.push_back(fExpl(s, VS(), R())); for (size_t v = 0; v < t.n; ++v) for (int q = 0; q < (ex & 4 ? 2 : 1); ++q) if (un >> v & 1) s.f.push_back(fExpl(s, mkVS(v), R()));
  for (size_t i = 0; i < t.e.size() + (ex & 2 ? 1 : 0); ++i) { VS v = t.e[i % t.e.size()]; if (!td) { Fac f = fExpl(s, v, R()); size_t few = sym_param("few", 99); for (size_t k = few; k < f.t.size(); ++k) f.t[k] = (double)((k * k + i) % 3) - 1; s.f.push_back(f); continue; } double w = (double)sym_choice("weight", 3), T = (double)sym_choice("trunc", 4); Fac f; f.vars = v; f.shape = lsh(s, v); f.kind = FEXPL; f.t.resize(prodS(f.shape)); for (size_t k = 0; k < f.t.size(); ++k) { VS d = digits(k, f.shape); double x = (double)d[0] - (double)d[1]; x = td == 1 ? (x < 0 ? -x : x) : x * x; f.t[k] = w * (x < T ? x : T); } s.f.push_back(f); }
  if (ex & 8) s.f.push_back(fExpl(s, mkVS(0, 1, 2), R()));
  return s;
}
struct Best { double v; Best(const Spec& s) { bool first = true; v = 0; forLab(s.L, [&](const VS& y) { double e = energyAdd(s, y); v = first ? e : dmin_(e, v); first = false; }); } };
static bool tree() { unsigned t = sym_param("topo", 1); return t == 0 || t == 1 || t == 2 || t == 12; }
HARNESS(c36_trws) {
  unsigned en = sym_param("energy", 0); Spec s = spec(sym_param("L", 2)); Gm2 gm; buildGm(gm, s); Best b(s); typedef external::TRWS<Gm2> Q; Q::Parameter p; p.energyType_ = en == 0 ? Q::Parameter::VIEW : en == 1 ? Q::Parameter::TABLES : en == 2 ? Q::Parameter::TL1 : Q::Parameter::TL2; p.numberOfIterations_ = sym_param("steps", 1); p.doBPS_ = sym_param("bps", 0); p.useRandomStart_ = sym_param("start", 0) == 1; p.useZeroStart_ = sym_param("start", 0) == 2; p.calculateMinMarginals_ = sym_param("marg", 0);
  if (sym_param("ex", 0) & 8) { bool threw = false; try { Q q(gm, p); } catch (RuntimeError&) { threw = true; } CHECKM(threw, "higher order models are refused"); return; }
  { external::TRWS<Gm8>::Parameter o(p); CHECKM(o.numberOfIterations_ == p.numberOfIterations_ && o.useRandomStart_ == p.useRandomStart_ && o.useZeroStart_ == p.useZeroStart_ && o.doBPS_ == p.doBPS_ && (int)o.energyType_ == (int)p.energyType_ && o.tolerance_ == p.tolerance_ && o.minDualChange_ == p.minDualChange_ && o.calculateMinMarginals_ == p.calculateMinMarginals_, "parameters of another model type are taken over"); }
  Q q(gm, p); CHECKM(q.infer() == NORMAL, "inference ends"); VS y; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); CHECKM(q.value() == e, "value of the answer"); sym_obs_d(e); CHECKM(q.bound() <= b.v, "the bound is below every labelling's value"); if (!p.doBPS_) sym_obs_d(q.bound());
  if (tree() && !sym_param("ex", 0) && !p.useRandomStart_ && (!p.doBPS_ || sym_param("steps", 1) > 1)) { CHECKM(p.doBPS_ || q.bound() == b.v, "on a chain the bound is the optimum"); }
  VS z; CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer"); Q::IndependentFactorType m; InferenceTermination mt = q.marginal(0, m); CHECKM(mt == (p.calculateMinMarginals_ ? NORMAL : UNKNOWN), "marginals are there when asked for");
  if (mt == NORMAL) for (size_t v = 0; v < s.L.size(); ++v) { q.marginal(v, m); CHECKM(m.numberOfVariables() == 1 && m.variableIndex(0) == v && m.numberOfLabels(0) == s.L[v], "shape of a marginal"); if (!tree() || sym_param("topo", 1) == 2 || p.useRandomStart_) continue; VD mm(s.L[v]); std::vector<bool> have(s.L[v], false); forLab(s.L, [&](const VS& x) { double c = energyAdd(s, x); mm[x[v]] = have[x[v]] ? dmin_(c, mm[x[v]]) : c; have[x[v]] = true; }); bool ok = true; for (size_t l = 1; l < s.L[v]; ++l) ok = ok & (m(l) - m(0) == mm[l] - mm[0]); CHECKM(ok, "on a chain the marginals are the minima up to a constant"); }
}
// grids W x H whose variables are numbered in different orders; "kind": 0 any tables, 1/2 truncated (squared) differences, 3 multiples of one table ("bad": one entry of one table is off)
static Spec grid(std::vector<bool>* off) {
  unsigned W = sym_param("W", 1), H = sym_param("H", 2), perm = sym_param("perm", 0), kind = sym_param("kind", 0), un = sym_param("un", 255), ex = sym_param("ex", 0), bad = sym_param("bad", 0); size_t n = W * H, L = sym_param("L", 2); VS id; for (size_t i = 0; i < n; ++i) id.push_back(perm == 1 ? n - 1 - i : perm == 2 ? (i + 1) % n : perm == 3 ? ((i ^ 1) < n ? i ^ 1 : i) : i);
  Spec s; s.L.assign(n, L); if (sym_param("mix", 0)) s.L[n - 1] = L + 1; if (ex & 1) s.f.push_back(fExpl(s, VS(), R())); for (size_t v = 0; v < n; ++v) for (int q = 0; q < (ex & 4 ? 2 : 1); ++q) if (un >> v & 1) s.f.push_back(fExpl(s, mkVS(v), R()));
  std::vector<VS> e; for (size_t j = 0; j < H; ++j) for (size_t i = 0; i < W; ++i) { size_t p = i + j * W; if (i + 1 < W) e.push_back(mkVS(std::min(id[p], id[p + 1]), std::max(id[p], id[p + 1]))); if (j + 1 < H) e.push_back(mkVS(std::min(id[p], id[p + W]), std::max(id[p], id[p + W]))); } if (ex & 2) e.push_back(e[0]); if (ex & 16) e.push_back(mkVS(0, n - 1));
  double T = kind == 1 || kind == 2 ? (double)sym_choice("trunc", sym_param("few", 0) ? 2 : 4) : 0; off->assign(e.size(), false);
  for (size_t k = 0; k < e.size(); ++k) { if (!kind) { s.f.push_back(fExpl(s, e[k], R())); continue; } Fac f; f.vars = e[k]; f.shape = lsh(s, e[k]); f.kind = FEXPL; f.t.resize(prodS(f.shape)); double w = k < 2 || !sym_param("few", 0) ? (double)sym_choice("weight", 3) : (double)(k % 3); if (kind == 3) w -= 1; for (size_t i = 0; i < f.t.size(); ++i) { VS d = digits(i, f.shape); double x = (double)d[0] - (double)d[1]; if (kind == 3) x = sym_param("asym", 0) ? (double)(d[0] + 2 * d[1]) : (double)((d[0] + d[1]) * 2 + d[0] * d[1]) - 1; else { x = kind == 1 ? (x < 0 ? -x : x) : x * x; x = x < T ? x : T; } f.t[i] = w * x; } if (bad == k + 1) { f.t[f.t.size() - 1] += 1; } s.f.push_back(f); }
  if (ex & 8) s.f.push_back(fExpl(s, mkVS(0, 1, 2), R()));
  return s;
}
#include <opengm/inference/external/gco.hxx>
#include <opengm/inference/external/mrflib.hxx>
template<class Q> static void gridAnswer(Q& q, const Spec& s) { CHECKM(q.infer() == NORMAL, "inference ends"); VS y, z; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); CHECKM(q.value() == e, "the package's energy is the model's"); sym_obs_d(e); CHECKM(q.bound() <= e, "the bound is below the value"); CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer"); for (size_t i = 0; i < y.size(); ++i) sym_obs_u(y[i]); }
static bool may(const Spec& s) { unsigned k = sym_param("kind", 0); return !(sym_param("ex", 0) & (2 | 8 | 16)) && !sym_param("mix", 0) && k < 3; }
HARNESS(c36_gco) {
  std::vector<bool> off; Spec s = grid(&off); Gm2 gm; buildGm(gm, s); typedef external::GCOLIB<Gm2> Q; unsigned en = sym_param("energy", 0); Q::Parameter p(sym_param("inf", 0) ? Q::Parameter::SWAP : Q::Parameter::EXPANSION, en == 0 ? Q::Parameter::VIEW : en == 1 ? Q::Parameter::TABLES : Q::Parameter::WEIGHTEDTABLE, sym_param("steps", 3)); p.useAdaptiveCycles_ = sym_param("cycles", 0); p.doNotUseGrid_ = sym_param("nogrid", 0); unsigned ex = sym_param("ex", 0);
  bool must = en == 0 && !(ex & 8) && !sym_param("mix", 0), never = (ex & 8) || sym_param("mix", 0) || (en && sym_param("nogrid", 0));
  for (int round = 0; round < 2; ++round) { bool threw = false; try { Q q(gm, p); CHECKM(!never, "models the package cannot express are refused"); gridAnswer(q, s); } catch (RuntimeError&) { threw = true; } CHECKM(!threw || !(must || (en == 1 && may(s) && !sym_param("nogrid", 0))), "the model is accepted"); if (threw || !sym_param("again", 0)) break; }
}
HARNESS(c36_mrf) {
  std::vector<bool> off; Spec s = grid(&off); Gm2 gm; buildGm(gm, s); typedef external::MRFLIB<Gm2> Q; unsigned en = sym_param("energy", 0), in = sym_param("inf", 0); static const Q::Parameter::InferenceType I[] = {Q::Parameter::ICM, Q::Parameter::EXPANSION, Q::Parameter::SWAP, Q::Parameter::MAXPRODBP, Q::Parameter::TRWS, Q::Parameter::BPS}; static const Q::Parameter::EnergyType E[] = {Q::Parameter::VIEW, Q::Parameter::TABLES, Q::Parameter::TL1, Q::Parameter::TL2, Q::Parameter::WEIGHTEDTABLE}; Q::Parameter p(I[in], E[en], sym_param("steps", 3)); if (sym_param("tol", 0)) p.trwsTolerance_ = 0.5; unsigned ex = sym_param("ex", 0);
  bool never = (ex & 8) || sym_param("mix", 0); { external::MRFLIB<Gm8>::Parameter o; o.numberOfIterations_ = sym_param("steps", 3); o.trwsTolerance_ = 0.25; (void)o; }
  for (int round = 0; round < 2; ++round) { bool threw = false; try { Q q(gm, p); CHECKM(!never, "models the package cannot express are refused"); gridAnswer(q, s); } catch (RuntimeError&) { threw = true; } CHECKM(!threw || !(en != 4 && may(s)), "the model is accepted"); if (threw || !sym_param("again", 0)) break; }
}
#include <opengm/inference/external/fastPD.hxx>
HARNESS(c36_fastpd) {
  std::vector<bool> off; Spec s = grid(&off); Gm2 gm; buildGm(gm, s); typedef external::FastPD<Gm2> Q; typedef fastPDLib::CV_Fast_PD Lib; Q::Parameter p; p.numberOfIterations_ = sym_param("steps", 3); { external::FastPD<Gm8>::Parameter o(p); CHECKM(o.numberOfIterations_ == p.numberOfIterations_, "parameters of another model type are taken over"); } unsigned ex = sym_param("ex", 0), bad = sym_param("bad", 0);
  bool threw = false; double c = ex & 1 ? s.f[0].t[0] : 0; try { Q q(gm, p); Lib& l = *Lib::last(); CHECKM(l.most == (int)p.numberOfIterations_, "the iteration limit is passed on"); CHECKM(q.infer() == NORMAL && l.ran, "inference ends"); VS y, z; CHECKM(q.arg(y) == NORMAL && validLab(s, y), "the answer is a labelling"); double e = energyAdd(s, y); CHECKM(q.value() == e, "value of the answer"); CHECKM(l.energy() + c == e, "the package's energy is the model's"); sym_obs_d(e); CHECKM(q.arg(z, 2) == UNKNOWN, "no second best answer");
    for (size_t i = 0; i < y.size(); ++i) sym_obs_u(y[i]); double b = q.bound(); forLab(s.L, [&](const VS& x) { CHECKM(b <= energyAdd(s, x), "whatever the dual variables, the bound is a bound"); });
    if (sym_param("repa", 0)) { Q::ReparametrizerType* r = q.getReparametrizer(); Q::ReparametrizerType::ReparametrizedGMType g2; r->getReparametrizedModel(g2); double low = 0; for (size_t f = 0; f < g2.numberOfFactors(); ++f) { double m = 0; VS sh; for (size_t v = 0; v < g2[f].numberOfVariables(); ++v) sh.push_back(g2[f].numberOfLabels(v)); for (size_t k = 0; k < prodS(sh); ++k) { VS d = digits(k, sh); d.push_back(0); double t = g2[f](d.begin()); m = k ? dmin_(t, m) : t; } low += m; } forLab(s.L, [&](const VS& x) { CHECKM(g2.evaluate(x.begin()) == energyAdd(s, x), "the reparametrised model has the same values"); }); CHECKM(low == b, "the bound is the reparametrised model's trivial bound"); delete r; } } catch (std::runtime_error&) { threw = true; }
  CHECKM(!threw || bad || !sym_param("kind", 0), "multiples of one table are accepted");
}
