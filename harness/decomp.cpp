#include "gm_common.h"
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx>
using namespace opengm;
typedef GraphicalModelDecomposition Dec; typedef GraphicalModelDecomposer<GmE> Decr;
// any structure: m factors, each over an arbitrary subset of n variables
static Spec drawStruct(size_t n, size_t m, bool noconst, size_t maxo) { Spec s; s.L = VS(n, 2); for (size_t i = 0; i < m; ++i) { size_t mask = sym_choice("vars", size_t(1) << n); VS v; for (size_t j = 0; j < n; ++j) if (mask >> j & 1) v.push_back(j); if (noconst) sym_assume(!v.empty()); sym_assume(v.size() <= maxo); Fac f; f.vars = v; f.shape = VS(v.size(), 2); f.kind = FEXPL; f.t = VD(prodS(f.shape), 1.0); s.f.push_back(f); } return s; }
struct View { bool ok, miss; std::vector<VS> sub2var; std::vector<std::vector<VS> > facs; }; // per submodel: variable of each subvariable, index lists of the factors
// decides validity independently of the library
static View look(const Dec& d, const Spec& s) {
  View v; v.ok = true; v.miss = false; size_t S = d.numberOfSubModels(); v.sub2var.resize(S); v.facs.resize(S); const size_t none = size_t(-1);
  if (d.getVariableLists().size() != s.L.size() || d.getFactorLists().size() != s.f.size()) { v.ok = false; v.miss = true; return v; }
  for (size_t i = 0; i < S; ++i) v.sub2var[i].assign(d.numberOfSubVariables(i), none);
  for (size_t x = 0; x < s.L.size(); ++x) { const Dec::SubVariableListType& l = d.getVariableLists()[x]; if (l.empty()) { v.ok = false; v.miss = true; } for (Dec::SubVariableListType::const_iterator it = l.begin(); it != l.end(); ++it) { CHECKM(it->subModelId_ < S && it->subVariableId_ < v.sub2var[it->subModelId_].size(), "variable list entry in range"); CHECKM(v.sub2var[it->subModelId_][it->subVariableId_] == none, "sub variable belongs to one variable"); v.sub2var[it->subModelId_][it->subVariableId_] = x; } }
  for (size_t i = 0; i < S; ++i) for (size_t j = 0; j < v.sub2var[i].size(); ++j) CHECKM(v.sub2var[i][j] != none, "every sub variable is listed");
  std::vector<std::set<size_t> > ids(S);
  for (size_t f = 0; f < s.f.size(); ++f) { const Dec::SubFactorListType& l = d.getFactorLists()[f]; if (l.empty()) { v.ok = false; v.miss = true; } for (Dec::SubFactorListType::const_iterator it = l.begin(); it != l.end(); ++it) { CHECKM(it->subModelId_ < S && it->subFactorId_ < d.numberOfSubFactors(it->subModelId_), "factor list entry in range"); CHECKM(ids[it->subModelId_].insert(it->subFactorId_).second, "sub factor ids are distinct"); if (it->subIndices_.size() != s.f[f].vars.size()) { v.ok = false; v.miss = true; continue; } for (size_t j = 0; j < it->subIndices_.size(); ++j) if (it->subIndices_[j] >= v.sub2var[it->subModelId_].size() || v.sub2var[it->subModelId_][it->subIndices_[j]] != s.f[f].vars[j]) v.ok = false; v.facs[it->subModelId_].push_back(it->subIndices_); } }
  return v;
}
static bool acyclic(const View& v) { for (size_t m = 0; m < v.facs.size(); ++m) { VS p(v.sub2var[m].size()); std::iota(p.begin(), p.end(), 0); for (size_t f = 0; f < v.facs[m].size(); ++f) { const VS& x = v.facs[m][f]; for (size_t j = 0; j < x.size(); ++j) for (size_t k = 0; k < j; ++k) if (p[x[j]] == p[x[k]]) return false; for (size_t j = 1; j < x.size(); ++j) { size_t a = p[x[0]], b = p[x[j]]; for (size_t i = 0; i < p.size(); ++i) if (p[i] == b) p[i] = a; } } } return true; }
static bool sorted(const View& v) { for (size_t m = 0; m < v.facs.size(); ++m) for (size_t f = 0; f < v.facs[m].size(); ++f) for (size_t j = 1; j < v.facs[m][f].size(); ++j) if (v.facs[m][f][j - 1] >= v.facs[m][f][j]) return false; return true; }
static size_t countOf(const Dec& d, size_t f, size_t sm) { size_t c = 0; const Dec::SubFactorListType& l = d.getFactorLists()[f]; for (Dec::SubFactorListType::const_iterator it = l.begin(); it != l.end(); ++it) if (it->subModelId_ == sm) ++c; return c; }
// complete(): every copy of a variable that occurs more than once has its own unary factor, of the model or empty
static void checkComplete(Dec d, const GmE& gm, const Spec& s) {
  View b = look(d, s); d.complete(); View v = look(d, s); CHECKM(v.ok == b.ok && d.isValid(gm) == v.ok, "complete keeps the decomposition valid"); CHECKM(v.sub2var == b.sub2var, "complete adds no variables");
  std::vector<VS> un(v.sub2var.size()); for (size_t m = 0; m < un.size(); ++m) un[m].assign(v.sub2var[m].size(), 0);
  for (size_t m = 0; m < un.size(); ++m) for (size_t f = 0; f < v.facs[m].size(); ++f) if (v.facs[m][f].size() == 1) un[m][v.facs[m][f][0]]++;
  for (std::map<VS, Dec::EmptySubFactorListType>::const_iterator it = d.getEmptyFactorLists().begin(); it != d.getEmptyFactorLists().end(); ++it) for (Dec::EmptySubFactorListType::const_iterator e = it->second.begin(); e != it->second.end(); ++e) { CHECKM(it->first.size() == 1 && e->subIndices_.size() == 1 && e->subModelId_ < un.size() && e->subIndices_[0] < un[e->subModelId_].size(), "empty factors are unary"); CHECKM(v.sub2var[e->subModelId_][e->subIndices_[0]] == it->first[0], "empty factor belongs to its variable"); un[e->subModelId_][e->subIndices_[0]]++; }
  for (size_t x = 0; x < s.L.size(); ++x) { size_t c = 0; for (size_t m = 0; m < un.size(); ++m) for (size_t j = 0; j < un[m].size(); ++j) if (v.sub2var[m][j] == x) ++c; if (c < 2) continue; for (size_t m = 0; m < un.size(); ++m) for (size_t j = 0; j < un[m].size(); ++j) if (v.sub2var[m][j] == x) CHECKM(un[m][j] > 0, "every copy has a unary factor"); }
}
static std::set<size_t> asSet(size_t m, size_t n) { std::set<size_t> r; for (size_t j = 0; j < n; ++j) if (m >> j & 1) r.insert(j); return r; }
HARNESS(c21_auto) {
  size_t n = sym_param("n", 3), m = sym_param("m", 2); int kind = sym_param("kind", 0); Spec s = drawStruct(n, m, kind >= 2 && sym_param("noconst", 0), kind == 2 ? 2 : 3); GmE gm; buildGm(gm, s); Decr dr; Dec d; bool tree = false, expect = true;
  switch (kind) {
    case 0: d = dr.decomposeIntoTree(gm); tree = true; CHECKM(d.numberOfSubModels() == 1, "one tree"); break;
    case 1: d = dr.decomposeIntoSpanningTrees(gm); tree = true; break;
    case 2: { size_t k = sym_choice("k", n) + 1; d = dr.decomposeIntoKFans(gm, k); CHECKM(d.numberOfSubModels() == (n + k - 1) / k, "number of fans"); break; }
    case 3: { size_t k = sym_choice("k", n) + 1; d = dr.decomposeIntoClosedBlocks(gm, k); CHECKM(d.numberOfSubModels() == k, "number of blocks"); break; }
  }
  View v = look(d, s); CHECKM(v.ok == expect, "every factor and variable is covered"); CHECKM(d.isValid(gm), "reported valid"); CHECKM(sorted(v), "factor variables in order"); if (tree) CHECKM(acyclic(v), "trees have no cycles");
  if (kind == 0) for (size_t f = 0; f < m; ++f) CHECKM(d.getFactorLists()[f].size() == 1, "every factor once"); else for (size_t f = 0; f < m; ++f) for (size_t i = 0; i < d.numberOfSubModels(); ++i) CHECKM(countOf(d, f, i) <= 1, "no factor twice in a submodel");
  checkComplete(d, gm, s);
}
// hand-made groups of factors or blocks of variables
HARNESS(c21_groups) {
  size_t n = sym_param("n", 3), m = sym_param("m", 2), S = sym_param("S", 2); int kind = sym_param("kind", 0); Spec s = drawStruct(n, m, false, kind == 1 ? 2 : 3); GmE gm; buildGm(gm, s); Decr dr; Dec d; VS mask; for (size_t i = 0; i < S; ++i) mask.push_back(sym_choice("group", size_t(1) << (kind ? n : m)));
  std::vector<std::set<size_t> > blocks; for (size_t i = 0; i < S; ++i) blocks.push_back(asSet(mask[i], n));
  std::vector<VS> want(m, VS(S, 0)); // expected membership of factor f in submodel i
  if (kind == 0) { std::vector<VS> g(S); for (size_t i = 0; i < S; ++i) for (size_t j = 0; j < m; ++j) { size_t f = sym_param("rev", 0) ? m - 1 - j : j; if (mask[i] >> f & 1) { g[i].push_back(f); want[f][i] = 1; } } d = dr.decomposeManual(gm, g); }
  else if (kind == 1) { d = dr.decomposeIntoKFans(gm, blocks); for (size_t f = 0; f < m; ++f) for (size_t i = 0; i < S; ++i) { const VS& v = s.f[f].vars; if (v.empty()) want[f][i] = i == 0; else if (v.size() == 2) want[f][i] = blocks[i].count(v[0]) || blocks[i].count(v[1]); else { bool in = blocks[i].count(v[0]) > 0; for (size_t g = 0; g < m; ++g) { bool a = false, b = false; for (size_t j = 0; j < s.f[g].vars.size(); ++j) { if (s.f[g].vars[j] == v[0]) a = true; if (blocks[i].count(s.f[g].vars[j])) b = true; } in = in || (a && b); } want[f][i] = in; } } }
  else { if (kind == 2) d = dr.decomposeIntoOpenBlocks(gm, blocks); else d = dr.decomposeIntoClosedBlocks(gm, blocks); for (size_t f = 0; f < m; ++f) for (size_t i = 0; i < S; ++i) { bool all = true, any = s.f[f].vars.empty(); for (size_t j = 0; j < s.f[f].vars.size(); ++j) { all = all && blocks[i].count(s.f[f].vars[j]); any = any || blocks[i].count(s.f[f].vars[j]); } want[f][i] = kind == 2 ? all : any; } }
  CHECKM(d.numberOfSubModels() == S, "one submodel per group"); View v = look(d, s); CHECKM(sorted(v), "factor variables in order");
  bool all = true; for (size_t f = 0; f < m; ++f) { bool any = false; for (size_t i = 0; i < S; ++i) { CHECKM(countOf(d, f, i) == want[f][i], "factor is in exactly the submodels it belongs to"); any = any || want[f][i]; } all = all && any; }
  for (size_t x = 0; x < n; ++x) { bool any = false; for (size_t i = 0; i < S; ++i) { bool in = (kind >= 1) && blocks[i].count(x); for (size_t f = 0; f < m; ++f) if (want[f][i]) for (size_t j = 0; j < s.f[f].vars.size(); ++j) if (s.f[f].vars[j] == x) in = true; size_t c = 0; for (size_t j = 0; j < v.sub2var[i].size(); ++j) if (v.sub2var[i][j] == x) ++c; if (kind == 1) { CHECKM(c <= 1 && (!in || c == 1), "variables of the fan"); in = c > 0; } else CHECKM(c == (in ? 1u : 0u), "variable is in exactly the submodels it belongs to"); any = any || in; } all = all && any; }
  CHECKM(v.ok == all, "oracle"); CHECKM(d.isValid(gm) == all, "isValid tells whether everything is covered"); checkComplete(d, gm, s);
}
// a decomposition built by hand, right or wrong, is reported valid exactly when it is
HARNESS(c21_manual) {
  size_t n = sym_param("n", 2), m = sym_param("m", 1), S = sym_param("S", 2), nv = sym_param("nv", 2); Spec s = drawStruct(n, m, false, 2); GmE gm; buildGm(gm, s); size_t off = sym_param("off", 0);
  Dec d(n + (off == 1) - (off == 3), m + (off == 2) - (off == 4)); for (size_t i = 0; i < S; ++i) CHECKM(d.addSubModel() == i, "submodel id");
  VS cnt(S, 0); for (size_t i = 0; i < S; ++i) { for (size_t j = 0; j < nv; ++j) { size_t x = sym_choice("var", n + 1); if (x == n || (off == 3 && x == n - 1)) continue; CHECKM(d.addSubVariable(i, x) == cnt[i]++, "sub variable id"); } CHECKM(d.numberOfSubVariables(i) == cnt[i], "sub variable count"); }
  VS fc(S, 0); for (size_t f = 0; f < m; ++f) { size_t i = sym_choice("sub", S + 1); if (i == S || (off == 4 && f == m - 1)) continue; size_t o = s.f[f].vars.size(); if (sym_param("order", 0)) o = sym_choice("order", 3); VS idx; for (size_t j = 0; j < o; ++j) idx.push_back(sym_choice("idx", nv)); CHECKM(d.addSubFactor(i, f, idx) == fc[i]++, "sub factor id"); CHECKM(d.numberOfSubFactors(i) == fc[i], "sub factor count"); }
  View v = look(d, s); if (v.ok) CHECKM(d.isValid(gm), "a right decomposition is reported valid"); if (v.miss) CHECKM(!d.isValid(gm), "a decomposition that misses something is reported invalid");
}
