// Stand-in for the MRF 2.x benchmark package (grids): see GCoptimization.h.
#pragma once
#include "sym.h"
#include <vector>
#include <cstddef>
namespace mrfLib {
class DataCost; class SmoothnessCost; class EnergyFunction;
class MRF { public: typedef double EnergyVal, CostVal; typedef int Label; typedef CostVal (*SmoothCostGeneralFn)(int, int, Label, Label); typedef CostVal (*DataCostFn)(int, Label);
  MRF(int w, int h, int l, EnergyFunction* e) : W(w), H(h), L(l), E(e), lab(w * h, 0), ready(false), clear(false), moved(false) {} virtual ~MRF() {}
  void initialize() { ready = true; } void clearAnswer() { clear = true; } Label getLabel(int p) { CHECKM(p >= 0 && p < W * H, "MRF: pixel"); return lab[p]; }
  void optimize(int n, float& t) { CHECKM(ready && clear && n > 0, "MRF: the algorithm is initialised"); t = 0; if (!moved) { moved = true; for (size_t i = 0; i < lab.size(); ++i) lab[i] = (int)sym_choice("move", L); } }
  EnergyVal totalEnergy(); double lowerBound();
private: int W, H, L; EnergyFunction* E; std::vector<int> lab; bool ready, clear, moved; double data(int, int), smooth(int, int, int, int); };
class DataCost { public: DataCost(MRF::CostVal* d) : D(d), f(0) {} DataCost(MRF::DataCostFn g) : D(0), f(g) {} MRF::CostVal* D; MRF::DataCostFn f; };
class SmoothnessCost { public: typedef MRF::CostVal C; C *V, *hc, *vc, most, lambda; int e; MRF::SmoothCostGeneralFn f;
  SmoothnessCost(int x, C m, C l) : V(0), hc(0), vc(0), most(m), lambda(l), e(x), f(0) { ok(); } SmoothnessCost(int x, C m, C l, C* h, C* v) : V(0), hc(h), vc(v), most(m), lambda(l), e(x), f(0) { ok(); }
  SmoothnessCost(C* t, C* h = 0, C* v = 0) : V(t), hc(h), vc(v), most(0), lambda(1), e(0), f(0) {} SmoothnessCost(MRF::SmoothCostGeneralFn g) : V(0), hc(0), vc(0), most(0), lambda(1), e(0), f(g) {}
  void ok() { CHECKM((e == 1 || e == 2) && most >= 0, "MRF: exponent and truncation of the smoothness cost"); } };
class EnergyFunction { public: EnergyFunction(DataCost* d, SmoothnessCost* s) : D(d), S(s) {} DataCost* D; SmoothnessCost* S; };
inline double MRF::data(int p, int l) { DataCost& d = *E->D; return d.f ? d.f(p, l) : d.D[p * L + l]; }
inline double MRF::smooth(int p, int q, int a, int b) { // p before q
  SmoothnessCost& s = *E->S; if (s.f) { double x = s.f(p, q, a, b), y = s.f(q, p, b, a); CHECKM(x == y, "MRF: the smoothness cost does not depend on the order of the pixels"); return sym_param("turn", 0) ? x : y; }
  double v; if (s.V) { CHECKM(s.V[a * L + b] == s.V[b * L + a], "MRF: a table of smoothness costs is symmetric"); v = s.V[a * L + b]; } else { double d = a < b ? b - a : a - b; if (s.e == 2) d *= d; v = s.lambda * (d < s.most ? d : s.most); }
  if (s.hc) v *= W > 1 && q == p + 1 ? s.hc[p] : s.vc[p]; return v; }
inline double MRF::totalEnergy() { double e = 0; for (int p = 0; p < W * H; ++p) { e += data(p, lab[p]); if ((p + 1) % W) e += smooth(p, p + 1, lab[p], lab[p + 1]); if (p + W < W * H) e += smooth(p, p + W, lab[p], lab[p + W]); } return e; }
inline double MRF::lowerBound() { double e = 0; for (int p = 0; p < W * H; ++p) { double m = 0; for (int l = 0; l < L; ++l) { double c = data(p, l); m = l ? sym_ite_d(c < m, c, m) : c; } e += m; int q[2] = {(p + 1) % W ? p + 1 : -1, p + W < W * H ? p + W : -1}; for (int k = 0; k < 2; ++k) if (q[k] >= 0) { m = 0; for (int a = 0; a < L; ++a) for (int b = 0; b < L; ++b) { double c = smooth(p, q[k], a, b); m = a + b ? sym_ite_d(c < m, c, m) : c; } e += m; } } return e; }
struct ICM : MRF { ICM(int w, int h, int l, EnergyFunction* e) : MRF(w, h, l, e) {} }; struct Expansion : MRF { Expansion(int w, int h, int l, EnergyFunction* e) : MRF(w, h, l, e) {} }; struct Swap : MRF { Swap(int w, int h, int l, EnergyFunction* e) : MRF(w, h, l, e) {} }; struct MaxProdBP : MRF { MaxProdBP(int w, int h, int l, EnergyFunction* e) : MRF(w, h, l, e) {} }; struct TRWS : MRF { TRWS(int w, int h, int l, EnergyFunction* e) : MRF(w, h, l, e) {} }; struct BPS : MRF { BPS(int w, int h, int l, EnergyFunction* e) : MRF(w, h, l, e) {} };
}
