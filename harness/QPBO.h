// Stand-in for Kolmogorov's QPBO package: the roof dual of a small problem by listing all half-integral points.
// After Solve a node has the label it has in all optimal half-integral points, or, when every edge is submodular, in the minimum cut
// with most zeros (not with strict=1); after ComputeWeakPersistencies the labels are those of any optimal half-integral point with fewest halves.
#pragma once
#include "sym.h"
#include <vector>
#include <cstddef>
#include <stdexcept>
namespace qpbostub { inline size_t& solves() { static size_t n = 0; return n; } inline size_t& largest() { static size_t n = 0; return n; } inline size_t& limit() { static size_t n = 7; return n; } }
namespace kolmogorov { namespace qpbo {
template<class REAL> class QPBO {
public:
  typedef int NodeId; typedef int EdgeId;
  struct ProbeOptions { ProbeOptions() : C(100000), dilation(3), weak_persistencies(0) {} REAL C; int dilation; int weak_persistencies; };
  QPBO(int, int, void (*)(const char*) = 0) { init(); }
  int AddNode(int num = 1) { int r = n; CHECKM(num >= 0, "QPBO: number of nodes"); n += num; un.resize(2 * n, REAL(0)); lab.resize(n, -1); user.resize(n, 0); solved = false; return r; }
  int GetNodeNum() const { return n; }
  void SetMaxEdgeNum(int) {}
  int GetMaxEdgeNum() const { return (int)e.size() + 1; }
  void Reset() { init(); }
  void AddUnaryTerm(NodeId i, REAL e0, REAL e1) { CHECKM(i >= 0 && i < n, "QPBO: node of a unary term"); un[2 * i] += e0; un[2 * i + 1] += e1; solved = false; }
  EdgeId AddPairwiseTerm(NodeId i, NodeId j, REAL e00, REAL e01, REAL e10, REAL e11) { CHECKM(i >= 0 && i < n && j >= 0 && j < n && i != j, "QPBO: nodes of a pairwise term"); Edge x; x.i = i; x.j = j; x.v[0] = e00; x.v[1] = e01; x.v[2] = e10; x.v[3] = e11; e.push_back(x); solved = false; return (EdgeId)e.size() - 1; }
  void AddPairwiseTerm(EdgeId k, NodeId i, NodeId j, REAL e00, REAL e01, REAL e10, REAL e11) { CHECKM(k >= 0 && k < (int)e.size() && e[k].i == i && e[k].j == j, "QPBO: edge"); e[k].v[0] += e00; e[k].v[1] += e01; e[k].v[2] += e10; e[k].v[3] += e11; solved = false; }
  void MergeParallelEdges() {
    std::vector<Edge> r; for (size_t k = 0; k < e.size(); ++k) { bool in = false; for (size_t q = 0; q < r.size() && !in; ++q) if (r[q].i == e[k].i && r[q].j == e[k].j) { in = true; for (int a = 0; a < 4; ++a) r[q].v[a] += e[k].v[a]; } else if (r[q].i == e[k].j && r[q].j == e[k].i) { in = true; r[q].v[0] += e[k].v[0]; r[q].v[1] += e[k].v[2]; r[q].v[2] += e[k].v[1]; r[q].v[3] += e[k].v[3]; } if (!in) r.push_back(e[k]); } e = r;
  }
  REAL energy(size_t bits) const { REAL s = 0; for (int i = 0; i < n; ++i) s += un[2 * i + (bits >> i & 1)]; for (size_t k = 0; k < e.size(); ++k) s += e[k].v[2 * (bits >> e[k].i & 1) + (bits >> e[k].j & 1)]; return s; }
  void Solve() {
    ++qpbostub::solves(); if ((size_t)n > qpbostub::largest()) qpbostub::largest() = n; if ((size_t)n > qpbostub::limit()) throw std::runtime_error("QPBO stand-in: too many nodes");
    relax(); if (sym_param("strict", 0)) second = true; solved = true; size_t z = 0; int ok = 1;
    // one path per answer: an optimal point whose labels all the optimal points share (with every edge submodular: the least one among the whole points)
    if (second) z = sym_choice("roof", E.size()); else { size_t b = sym_choice("cut", (size_t)1 << n); for (int i = 0; i < n; ++i) if (b >> i & 1) z += pw(i); }
    for (size_t k = 0; k < E.size(); ++k) { if (k == z || (!second && !whole(k))) continue; bool strict = false; for (int i = 0; i < n; ++i) { size_t a = z / pw(i) % 3, b = k / pw(i) % 3; if (second ? a < 2 && b != a : a == 1 && b == 0) strict = true; } ok &= strict ? E[z] < E[k] : E[z] <= E[k]; }
    sym_assume(ok); low = E[z]; for (int i = 0; i < n; ++i) { size_t a = z / pw(i) % 3; lab[i] = a < 2 ? (int)a : -1; }
  }
  void ComputeWeakPersistencies() {
    CHECKM(solved, "QPBO: weak persistencies follow Solve"); if (!second || !n) return; bool all = true; for (int i = 0; i < n; ++i) all = all && lab[i] >= 0; if (all) return;
    size_t z = sym_choice("weak", E.size()); for (int i = 0; i < n; ++i) if (lab[i] >= 0 && z / pw(i) % 3 != (size_t)lab[i]) sym_discard(); size_t h = halves(z); int ok = E[z] == low; for (size_t k = 0; k < E.size(); ++k) if (halves(k) < h) ok &= low < E[k]; sym_assume(ok); for (int i = 0; i < n; ++i) { size_t a = z / pw(i) % 3; lab[i] = a < 2 ? (int)a : -1; }
  }
  REAL ComputeTwiceLowerBound() { CHECKM(solved, "QPBO: the bound follows Solve"); return 2 * low; }
  REAL ComputeTwiceEnergy(int = 0) { size_t b = 0; for (int i = 0; i < n; ++i) if (lab[i] == 1) b |= (size_t)1 << i; return 2 * energy(b); }
  int GetLabel(NodeId i) const { CHECKM(i >= 0 && i < n, "QPBO: node of a label"); return lab[i]; }
  void SetLabel(NodeId i, int l) { CHECKM(i >= 0 && i < n && (l == 0 || l == 1), "QPBO: label set by the user"); user[i] = l; }
  // any complete labelling that keeps the persistent labels and is no worse than the user's on the others
  bool Improve(int N, int* order, int* = 0) {
    CHECKM(N >= 0, "QPBO: number of nodes to improve"); for (int k = 0; k < N; ++k) CHECKM(order[k] >= 0 && order[k] < n, "QPBO: node to improve");
    size_t start = 0; for (int i = 0; i < n; ++i) { int l = lab[i]; if (l < 0) l = user[i]; if (l) start |= (size_t)1 << i; } size_t b = 0; for (int i = 0; i < n; ++i) { bool in = false; for (int k = 0; k < N; ++k) in = in || order[k] == i; int l = lab[i]; if (l < 0) l = in ? (int)sym_choice("improve", 2) : user[i]; if (l) b |= (size_t)1 << i; }
    sym_assume(energy(b) <= energy(start)); for (int i = 0; i < n; ++i) lab[i] = (int)(b >> i & 1); return b != start;
  }
  bool Improve() { std::vector<int> o((size_t)n); for (int i = 0; i < n; ++i) o[i] = i; return Improve(n, o.data()); }   // all the nodes
  // the same problem in other coordinates: probe=1 the nodes in reverse order and flipped by a mask, probe=2 all nodes tied to one, as in any optimum
  void Probe(int* map, ProbeOptions& o) {
    CHECKM(solved, "QPBO: probing follows Solve"); size_t N = (size_t)1 << n; QPBO q(0, 0); size_t kind = sym_param("probe", 1);
    if (kind == 2) { size_t x = sym_choice("optimum", N); int ok = 1; REAL v = energy(x); for (size_t b = 0; b < N; ++b) ok &= v <= energy(b); sym_assume(ok); q.AddNode(1); q.AddUnaryTerm(0, v, energy(x ^ (N - 1))); for (int i = 0; i < n; ++i) map[i] = (int)(x >> i & 1); }
    else { size_t f = sym_choice("flip", N); q.AddNode(n); for (int i = 0; i < n; ++i) { int p = f >> i & 1, j = n - 1 - i; map[i] = 2 * j + p; q.AddUnaryTerm(j, un[2 * i + p], un[2 * i + 1 - p]); } for (size_t k = 0; k < e.size(); ++k) { int p = f >> e[k].i & 1, r = f >> e[k].j & 1; q.AddPairwiseTerm(n - 1 - e[k].i, n - 1 - e[k].j, e[k].v[2 * p + r], e[k].v[2 * p + 1 - r], e[k].v[2 - 2 * p + r], e[k].v[2 - 2 * p + 1 - r]); } }
    *this = q; Solve(); if (o.weak_persistencies) ComputeWeakPersistencies();
  }
  static void MergeMappings(int m, int* a, int* b) { for (int i = 0; i < m; ++i) { int j = a[i] / 2, p = a[i] % 2; a[i] = 2 * (b[j] / 2) + (b[j] + p) % 2; } }
private:
  struct Edge { int i, j; REAL v[4]; };
  int n; bool second, solved; std::vector<REAL> un; std::vector<Edge> e; std::vector<int> lab, user; std::vector<REAL> E; REAL low;
  void init() { n = 0; second = solved = false; un.clear(); e.clear(); lab.clear(); user.clear(); low = 0; }
  static size_t pw(int i) { size_t p = 1; while (i--) p *= 3; return p; }
  bool whole(size_t k) const { for (int i = 0; i < n; ++i, k /= 3) if (k % 3 == 2) return false; return true; }
  size_t halves(size_t k) const { size_t h = 0; for (int i = 0; i < n; ++i, k /= 3) h += k % 3 == 2; return h; }
  void relax() {
    // halves: a unary term is the mean, a pair with one half the mean of two entries, with two halves the better diagonal
    second = false; std::vector<REAL> uh(n); for (int i = 0; i < n; ++i) uh[i] = (un[2 * i] + un[2 * i + 1]) / 2; std::vector<REAL> t(9 * e.size()); for (size_t k = 0; k < e.size(); ++k) { const REAL* v = e[k].v; REAL* r = &t[9 * k]; for (int a = 0; a < 2; ++a) { for (int b = 0; b < 2; ++b) r[3 * a + b] = v[2 * a + b]; r[3 * a + 2] = (v[2 * a] + v[2 * a + 1]) / 2; r[6 + a] = (v[a] + v[2 + a]) / 2; } if (v[0] + v[3] <= v[1] + v[2]) r[8] = (v[0] + v[3]) / 2; else { r[8] = (v[1] + v[2]) / 2; second = true; } }
    E.assign(pw(n), REAL(0)); for (size_t k = 0; k < E.size(); ++k) { std::vector<size_t> d(n); for (size_t i = 0, q = k; i < (size_t)n; ++i, q /= 3) d[i] = q % 3; REAL s = 0; for (int i = 0; i < n; ++i) s += d[i] == 2 ? uh[i] : un[2 * i + d[i]]; for (size_t x = 0; x < e.size(); ++x) s += t[9 * x + 3 * d[e[x].i] + d[e[x].j]]; E[k] = s; }
  }
};
} }
