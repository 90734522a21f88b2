// Stand-in for the GCO package: the package's interface, with an optimiser that ends in any labelling it likes. What counts is the
// energy the package was given, which it may ask for in either order of two neighbouring sites.
#pragma once
#include "sym.h"
#include <vector>
#include <cstddef>
namespace gcoLib {
class GCoptimization {
public:
  typedef double EnergyType, EnergyTermType; typedef int LabelID; typedef int SiteID; typedef EnergyTermType (*SmoothCostFn)(SiteID, SiteID, LabelID, LabelID); typedef EnergyTermType (*DataCostFn)(SiteID, LabelID);
  GCoptimization(SiteID n, LabelID l) : N(n), L(l), lab(n, 0), D(0), df(0), V(0), sf(0), moved(false) {} virtual ~GCoptimization() {}
  void setDataCost(DataCostFn f) { df = f; } void setDataCost(EnergyTermType* d) { D = d; }
  void setSmoothCost(SmoothCostFn f) { sf = f; } void setSmoothCost(EnergyTermType* v) { V = v; CHECKM(symmetric(), "GCO: a table of smoothness costs is symmetric"); }
  void setLabelOrder(bool) {} LabelID whatLabel(SiteID s) { CHECKM(s >= 0 && s < N, "GCO: site"); return lab[s]; }
  EnergyType expansion(int n = -1) { CHECKM(n == -1 || n > 0, "GCO: cycles"); return move(); } EnergyType swap(int n = -1) { CHECKM(n == -1 || n > 0, "GCO: cycles"); return move(); }
  EnergyType compute_energy() { CHECKM((df || D) && (sf || V), "GCO: costs are set"); double e = 0; for (int i = 0; i < N; ++i) e += df ? df(i, lab[i]) : D[i * L + lab[i]]; for (size_t k = 0; k < nb.size(); ++k) { Pair& p = nb[k]; if (sf) { double a = sf(p.a, p.b, lab[p.a], lab[p.b]), b = sf(p.b, p.a, lab[p.b], lab[p.a]); CHECKM(a == b, "GCO: the smoothness cost does not depend on the order of the sites"); e += p.w * (sym_param("turn", 0) ? a : b); } else e += p.w * V[lab[p.a] * L + lab[p.b]]; } return e; }
protected:
  struct Pair { int a, b; double w; }; int N, L; std::vector<int> lab; double* D; DataCostFn df; double* V; SmoothCostFn sf; std::vector<Pair> nb; bool moved;
  bool symmetric() { bool ok = true; for (int i = 0; i < L; ++i) for (int j = 0; j < i; ++j) ok = ok & (V[i * L + j] == V[j * L + i]); return ok; }
  void pair(int a, int b, double w) { CHECKM(a >= 0 && b >= 0 && a < N && b < N && a != b, "GCO: neighbours"); for (size_t k = 0; k < nb.size(); ++k) CHECKM(!((nb[k].a == a && nb[k].b == b) || (nb[k].a == b && nb[k].b == a)), "GCO: two sites are made neighbours once"); Pair p; p.a = a; p.b = b; p.w = w; nb.push_back(p); }
  EnergyType move() { if (!moved) { moved = true; for (int i = 0; i < N; ++i) lab[i] = (int)sym_choice("move", L); } return compute_energy(); }
};
class GCoptimizationGeneralGraph : public GCoptimization { public: GCoptimizationGeneralGraph(SiteID n, LabelID l) : GCoptimization(n, l) {} void setNeighbors(SiteID a, SiteID b, EnergyTermType w = 1) { pair(a, b, w); } };
class GCoptimizationGridGraph : public GCoptimization { public:
  GCoptimizationGridGraph(SiteID w, SiteID h, LabelID l) : GCoptimization(w * h, l), W(w), H(h) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (x + 1 < w) pair(x + y * w, x + 1 + y * w, 1); if (y + 1 < h) pair(x + y * w, x + (y + 1) * w, 1); } }
  void setSmoothCostVH(EnergyTermType* v, EnergyTermType* vc, EnergyTermType* hc) { setSmoothCost(v); for (size_t k = 0; k < nb.size(); ++k) nb[k].w = W > 1 && nb[k].b == nb[k].a + 1 ? hc[nb[k].a] : vc[nb[k].a]; }
private: int W, H; };
}
