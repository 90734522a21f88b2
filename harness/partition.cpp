// C34: partition search (Kernighan-Lin) over signed edge weights.
#include "gm_common.h"
#include <opengm/inference/partition-move.hxx>
using namespace opengm;
typedef PartitionMove<Gm2, Minimizer> PM;
static double cutValue(const Spec& s, const VS& x) { return energyAdd(s, x); }
struct WatchPM { const Spec& s; double last; size_t begun, ended, steps, stop; WatchPM(const Spec& q, double e, size_t st) : s(q), last(e), begun(0), ended(0), steps(0), stop(st) {}
  void look(PM& p) { VS x = argOf(p); CHECKM(validLab(s, x), "valid labelling in between"); double e = cutValue(s, x); CHECKM(p.value() == e, "value in between"); CHECKM(!(e > last), "never worse than before"); last = e; }
  void begin(PM& p) { ++begun; look(p); } void end(PM& p) { ++ended; look(p); } size_t operator()(PM& p) { ++steps; look(p); return stop ? visitors::VisitorReturnFlag::StopInfBoundReached : visitors::VisitorReturnFlag::ContinueInf; } };
// the sequence of best single moves between the nodes of parts a and b (b may be empty): no prefix of it may improve. Only followed while the best move is unique.
static void greedyCheck(const Spec& s, const std::vector<VD>& w, const VS& x, size_t a, size_t b) {
  const size_t n = x.size(); VS side(n, 2); for (size_t i = 0; i < n; ++i) if (x[i] == a) side[i] = 0; else if (x[i] == b) side[i] = 1;
  std::vector<bool> done(n, false); double sum = 0;
  for (;;) { size_t best = n; double bg = 0; bool tie = false;
    for (size_t i = 0; i < n; ++i) if (side[i] != 2 && !done[i]) { double g = 0; for (size_t j = 0; j < n; ++j) if (j != i && side[j] != 2) g += side[j] == side[i] ? w[i][j] : -w[i][j];
      if (best == n || g < bg) { best = i; bg = g; tie = false; } else if (g == bg) tie = true; }
    if (best == n || tie) return;
    done[best] = true; side[best] = 1 - side[best]; sum += bg; CHECKM(!(sum < 0), "a sequence of best moves does not improve"); }
}
// graphs of eight nodes in which an exchange between two parts pays only after another one: edge weights, every stride-th of them free by one
static void instance(size_t k, Topo& t, std::vector<int>& w) {
  static const int A[][3] = {{0,2,-1},{0,4,4},{0,5,-4},{1,2,-3},{1,3,-4},{1,4,-1},{1,5,-1},{1,6,-4},{1,7,-3},{2,3,-4},{2,4,2},{2,5,2},{2,6,2},{2,7,-2},{3,4,-3},{3,5,2},{3,6,2},{3,7,-1},{4,6,2},{4,7,-4},{5,7,4}};
  static const int B[][3] = {{0,1,2},{0,3,2},{0,4,2},{0,5,-1},{0,7,-4},{1,2,2},{1,3,-3},{1,5,-3},{1,6,-2},{1,7,1},{2,3,-2},{2,4,-3},{2,5,1},{2,6,4},{2,7,4},{3,5,-4},{3,6,-3},{3,7,-2},{4,5,4},{4,6,2},{4,7,-1},{6,7,-1}};
  const int (*p)[3] = k == 1 ? A : B; size_t m = k == 1 ? sizeof A / sizeof *A : sizeof B / sizeof *B; t.e.clear(); for (size_t i = 0; i < m; ++i) { t.e.push_back(mkVS(p[i][0], p[i][1])); w.push_back(p[i][2]); }
}
HARNESS(c34_partition) {
  Topo t = topo(sym_param("topo", 3)); Spec s; if (sym_param("inst", 0)) t.n = 8; size_t n = t.n; s.L = VS(n, n + sym_param("more", 0)); int64_t R = sym_param("R", 3); size_t conc = sym_param("conc", 0), kind = sym_param("kind", 0), stop = sym_param("stop", 0);
  if (sym_param("cf", 0)) { Fac f; f.kind = FEXPL; f.t.assign(1, sym_num("c", -2, 2, 1)); s.f.push_back(f); }
  std::vector<int> base; size_t inst = sym_param("inst", 0), off = sym_param("off", 0), stride = sym_param("stride", 1); if (inst) instance(inst, t, base);
  for (size_t e = 0; e < base.size(); ++e) { int64_t b = base[e]; s.f.push_back(fPotts(s, t.e[e][0], t.e[e][1], 0, e % stride == off ? sym_num("w", b - 1, b + 1, 1) : (double)b)); }
  if (!inst) for (size_t e = 0; e < t.e.size(); ++e) { double eq = sym_param("eq", 0) ? sym_num("eq", -1, 1, 1) : 0; double w = e < conc ? (double)((int)((e * 5 + conc) % 4) - 1) : sym_num("w", -R, R, 1); Fac f = fPotts(s, t.e[e][0], t.e[e][1], eq, eq + w); if (kind == 1 && e % 2) f.kind = FEXPL; s.f.push_back(f); }
  Gm2 gm; buildGm(gm, s); PM p(gm); VS x0 = argOf(p); CHECKM(validLab(s, x0), "valid start"); double e0 = cutValue(s, x0); CHECKM(p.value() == e0, "value of the start");
  // the start joins exactly what attractive pairs connect
  if (sym_param("st", 1)) { std::vector<VD> w(n, VD(n, 0)); for (size_t e = 0; e < t.e.size(); ++e) { size_t a = t.e[e][0], b = t.e[e][1]; const Fac& f = s.f[s.f.size() - t.e.size() + e]; double d = f.t[s.L[0]] - f.t[0]; w[a][b] += d; w[b][a] += d; } for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) CHECKM(!(w[a][b] > 0) | (x0[a] == x0[b]), "attractive pairs start joined"); }
  WatchPM v(s, e0, stop); if (sym_param("vis", 1)) CHECKM(p.infer(v) == NORMAL && v.begun == 1 && v.ended == 1 && v.steps >= 1, "normal end"); else CHECKM(p.infer() == NORMAL, "normal end");
  VS x = argOf(p); CHECKM(validLab(s, x), "valid labelling"); double e = cutValue(s, x); CHECKM(p.value() == e && gm.evaluate(x.begin()) == e, "value of the result"); CHECKM(!(e > e0), "no worse than the start"); sym_obs_d(e);
  size_t k = 0; for (size_t i = 0; i < n; ++i) if (x[i] + 1 > k) k = x[i] + 1; for (size_t c = 0; c < k; ++c) { bool used = false; for (size_t i = 0; i < n; ++i) used |= x[i] == c; CHECKM(used, "parts are numbered without gaps"); }
  if (!stop) for (size_t i = 0; i < n; ++i) for (size_t c = 0; c < n; ++c) { VS y(x); y[i] = c; CHECKM(!(cutValue(s, y) < e), "moving one node does not improve"); }
  if (!stop && n == 2) { VS y(2, 0); CHECKM(!(cutValue(s, y) < e), "merging does not improve"); }
  if (!stop && sym_param("seq", 0)) { std::vector<VD> w(n, VD(n, 0)); for (size_t e = 0; e < t.e.size(); ++e) { size_t i = t.e[e][0], j = t.e[e][1]; const Fac& f = s.f[s.f.size() - t.e.size() + e]; double d = f.t[s.L[0]] - f.t[0]; w[i][j] += d; w[j][i] += d; }
    for (size_t c = 0; c < k; ++c) { greedyCheck(s, w, x, c, k); for (size_t d = c + 1; d < k; ++d) { bool adj = false; for (size_t e = 0; e < t.e.size(); ++e) { size_t i = x[t.e[e][0]], j = x[t.e[e][1]]; adj |= (i == c && j == d) || (i == d && j == c); } if (adj) greedyCheck(s, w, x, c, d); } } }
  if (sym_param("again", 0)) { CHECKM(p.infer() == NORMAL, "again"); VS z = argOf(p); CHECKM(!(cutValue(s, z) > e), "a second run does not lose"); }
  std::vector<PM::LabelType> l; CHECKM(p.arg(l, 2) == UNKNOWN, "no second best");
}
HARNESS(c34_refuse) { // models it cannot handle are refused
  size_t c = sym_param("c", 0); Spec s; s.L = VS(3, c == 0 ? 2 : 3); double w = sym_num("w", 1, 3, 1); s.f.push_back(fPotts(s, 0, 1, 0, w)); if (c == 1) s.f.push_back(fExpl(s, mkVS(1), Rng())); if (c == 2) { Fac f = fPotts(s, 1, 2, 0, w); f.kind = FEXPL; f.t[1] += 1; s.f.push_back(f); } if (c == 3) s.f.push_back(fExpl(s, mkVS(0, 1, 2), Rng(0, 0)));
  Gm2 gm; buildGm(gm, s); bool t = false; try { PM p(gm); } catch (RuntimeError&) { t = true; } CHECKM(t, "refused"); }
