// Stand-in for external maximum-flow packages: a fork chooses the sides of the nodes, which are assumed to be a minimum cut.
#pragma once
#include "sym.h"
#include <vector>
#include <cstddef>
#include <limits>
template<class C> struct MinCutCore {
  struct Edge { size_t a, b; C c, r; };
  std::vector<C> s, t; std::vector<Edge> e; size_t sides; bool done;
  MinCutCore() : sides(0), done(false) {}
  void nodes(size_t k) { s.resize(s.size() + k, C(0)); t.resize(t.size() + k, C(0)); }
  void terminal(long long i, C a, C b) { CHECKM(i >= 0 && i < (long long)s.size(), "max-flow package: node of a terminal edge"); CHECKM(a >= 0 && b >= 0, "max-flow package: capacities are not negative"); s[i] += a; t[i] += b; done = false; }
  void edge(long long i, long long j, C c, C r) { CHECKM(i >= 0 && i < (long long)s.size() && j >= 0 && j < (long long)s.size() && i != j, "max-flow package: nodes of an edge"); CHECKM(c >= 0 && r >= 0, "max-flow package: capacities are not negative"); Edge x = {(size_t)i, (size_t)j, c, r}; e.push_back(x); done = false; }
  // bit set: the node is on the sink's side
  C cut(size_t m) const { C v = 0; for (size_t i = 0; i < s.size(); ++i) v += m >> i & 1 ? s[i] : t[i]; for (size_t k = 0; k < e.size(); ++k) { bool a = m >> e[k].a & 1, b = m >> e[k].b & 1; if (!a && b) v += e[k].c; if (a && !b) v += e[k].r; } return v; }
  C solve() { size_t N = (size_t)1 << s.size(); sides = sym_choice("sides", N); C v = cut(sides); int ok = 1; for (size_t m = 0; m < N; ++m) ok &= v <= cut(m); sym_assume(ok); done = true; return v; }
};
