#include "gm_common.h"
#include <opengm/operations/and.hxx>
#include <opengm/inference/sat.hxx>
using namespace opengm;
// ---- C14 ----
HARNESS(c14_sat) {
  typedef GraphicalModel<bool, And, ExplicitFunction<bool>, DiscreteSpace<> > G; size_t n = sym_param("n", 3), m = sym_param("m", 3); VS L(n, 2); G gm(G::SpaceType(L.begin(), L.end())); struct C { size_t a, b; bool t[4]; }; std::vector<C> cs; bool clause = sym_param("clause", 0);
  for (size_t i = 0; i < m; ++i) { C c; size_t k = sym_choice("pair", n * (n - 1) / 2); for (size_t a = 0, q = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b, ++q) if (q == k) { c.a = a; c.b = b; } if (clause) { size_t z = sym_choice("forbid", 4); for (int j = 0; j < 4; ++j) c.t[j] = (size_t)j != z; } else for (int j = 0; j < 4; ++j) c.t[j] = sym_choice("t", 2);
    size_t sh[] = {2, 2}; ExplicitFunction<bool> f(sh, sh + 2); for (size_t j = 0; j < 4; ++j) f(j) = c.t[j]; size_t vi[] = {c.a, c.b}; gm.addFactor(gm.addFunction(f), vi, vi + 2); cs.push_back(c); }
  bool sat = false; forLab(L, [&](const VS& x) { bool ok = true; for (size_t i = 0; i < cs.size(); ++i) ok = ok && cs[i].t[x[cs[i].a] + 2 * x[cs[i].b]]; sat = sat || ok; });
  SAT<G> s(gm); s.infer(); CHECKM(s.value() == sat, "satisfiable exactly when some labelling satisfies every factor"); if (sym_choice("again", 2)) { s.reset(); s.infer(); CHECKM(s.value() == sat, "the answer can be recomputed"); }
}
HARNESS(c14_implications) { // implication chains and cycles: clauses (l_i or l_j) over symbolic literals
  typedef GraphicalModel<bool, And, ExplicitFunction<bool>, DiscreteSpace<> > G; size_t n = sym_param("n", 4), m = sym_param("m", 5); VS L(n, 2); G gm(G::SpaceType(L.begin(), L.end())); std::vector<VS> cs;
  for (size_t i = 0; i < m; ++i) { size_t a = i % n, b = (i + 1) % n; if (a > b) std::swap(a, b); size_t z = sym_choice("forbid", 4); size_t sh[] = {2, 2}; ExplicitFunction<bool> f(sh, sh + 2); for (size_t j = 0; j < 4; ++j) f(j) = j != z; size_t vi[] = {a, b}; gm.addFactor(gm.addFunction(f), vi, vi + 2); cs.push_back(mkVS(a, b, z)); }
  bool sat = false; forLab(L, [&](const VS& x) { bool ok = true; for (size_t i = 0; i < cs.size(); ++i) ok = ok && x[cs[i][0]] + 2 * x[cs[i][1]] != cs[i][2]; sat = sat || ok; }); SAT<G> s(gm); s.infer(); CHECKM(s.value() == sat, "satisfiable exactly when some labelling satisfies every factor");
}
HARNESS(c14_tables) { // one table with a given number of forbidden pairs on each of the given variable pairs
  typedef GraphicalModel<bool, And, ExplicitFunction<bool>, DiscreteSpace<> > G; size_t n = sym_param("n", 4), pairs = sym_param("pairs", 1132302), zeros = sym_param("zeros", 2112); VS L(n, 2); G gm(G::SpaceType(L.begin(), L.end())); std::vector<VS> cs;
  for (; zeros; pairs /= 100, zeros /= 10) { size_t a = pairs / 10 % 10, b = pairs % 10, z = zeros % 10, m = sym_choice("forbid", z == 2 ? 6 : 4); size_t sets[] = {3, 5, 6, 9, 10, 12}, bad = z == 2 ? sets[m] : size_t(1) << m; size_t sh[] = {2, 2}; ExplicitFunction<bool> f(sh, sh + 2); for (size_t j = 0; j < 4; ++j) f(j) = !(bad >> j & 1); size_t vi[] = {a, b}; gm.addFactor(gm.addFunction(f), vi, vi + 2); cs.push_back(mkVS(a, b, bad)); }
  bool sat = false; forLab(L, [&](const VS& x) { bool ok = true; for (size_t i = 0; i < cs.size(); ++i) ok = ok && !(cs[i][2] >> (x[cs[i][0]] + 2 * x[cs[i][1]]) & 1); sat = sat || ok; }); SAT<G> s(gm); s.infer(); CHECKM(s.value() == sat, "satisfiable exactly when some labelling satisfies every factor");
}
HARNESS(c14_refuse) { typedef GraphicalModel<bool, And, ExplicitFunction<bool>, DiscreteSpace<> > G; VS L(2, 2); G gm(G::SpaceType(L.begin(), L.end())); size_t sh[] = {2}; ExplicitFunction<bool> f(sh, sh + 1); f(0) = sym_choice("t", 2); f(1) = sym_choice("t", 2); size_t v[] = {sym_choice("v", 2)}; gm.addFactor(gm.addFunction(f), v, v + 1); bool th = false; SAT<G> s(gm); try { s.infer(); } catch (RuntimeError&) { th = true; } CHECKM(th, "factors of another order are refused"); }
