//FLAGS-SYM: -fno-pic -fno-pie
// C37: the converters in src/converter write the model their input describes (text files and HDF5 are the stand-ins of textfile.h and hdf5.h).
#include "gm_common.h"
#include "textfile.h"
#include <strstream>
#include <opengm/opengm.hxx>
#include <opengm/unittests/test.hxx>
#include <opengm/utilities/metaprogramming.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/datastructures/marray/marray_hdf5.hxx>
#include <boost/shared_ptr.hpp>
#include <boost/program_options.hpp>
static double argNum; static double textNum(const char* s) { return s[0] == 'w' ? argNum : atof(s); }
#define ifstream sym_ifstream
#define ofstream sym_ofstream
#define atof textNum
#define main converter
namespace uai2opengm {
#include "../src/converter/uai2opengm.cxx"
}
namespace opengm2uai {
#include "../src/converter/opengm2uai.cxx"
}
namespace opengm2wudag {
#include "../src/converter/opengm2wudag.cxx"
}
namespace partition2potts {
#include "../src/converter/partition2potts.cxx"
}
namespace brain {
#include "../src/converter/brain.cxx"
}
namespace n2n {
#include "../src/converter/matching2opengm-N2N.cxx"
}
namespace matching {
#include "../src/converter/matching2opengm.cxx"
}
namespace { namespace legacy {
#include "../src/converter/opengm1TOopengm2.cxx"
} }
#undef main
#undef atof
#undef ifstream
#undef ofstream
using namespace opengm;
typedef GraphicalModel<double, Adder, FT2, DiscreteSpace<> > GmOut;
static int run(int (*m)(int, const char**), const char* a, const char* b, const char* c = NULL) { const char* v[] = {"converter", a, b, c, NULL}; return m(c ? 4 : 3, v); }
static void put(std::sym_ofstream& o, const VS& v) { for (size_t i = 0; i < v.size(); ++i) o << v[i] << " "; }
static bool near_(double a, double b, double tol) { return tol == 0 ? a == b : (a - b <= tol) & (b - a <= tol); }
template<class GM> static void ofModel(const Spec& s, const GM& g, bool perFactor, double tol = 0) {
  CHECKM(g.numberOfVariables() == s.L.size(), "number of variables"); if (g.numberOfVariables() != s.L.size()) return; for (size_t v = 0; v < s.L.size(); ++v) CHECKM(g.numberOfLabels(v) == s.L[v], "number of labels");
  if (perFactor) { CHECKM(g.numberOfFactors() == s.f.size(), "number of factors"); if (g.numberOfFactors() != s.f.size()) return; for (size_t f = 0; f < s.f.size(); ++f) { CHECKM(g[f].numberOfVariables() == s.f[f].vars.size(), "order of a factor"); VS w(s.f[f].vars); std::sort(w.begin(), w.end()); for (size_t i = 0; i < w.size() && i < g[f].numberOfVariables(); ++i) CHECKM(g[f].variableIndex(i) == w[i], "variables of a factor"); } 
    forLab(s.L, [&](const VS& x) { for (size_t f = 0; f < s.f.size(); ++f) { VS y; for (size_t i = 0; i < g[f].numberOfVariables(); ++i) y.push_back(x[g[f].variableIndex(i)]); if (y.empty()) y.push_back(0); CHECKM(near_((double)g[f](y.begin()), facAt(s.f[f], x), tol), "value of a factor"); } }); }
  else forLab(s.L, [&](const VS& x) { CHECKM(g.evaluate(x) == energyAdd(s, x), "value of a labelling"); }); }
// a set of variables in any order (or in ascending order)
static VS scope(size_t n, size_t o, bool ordered) { VS r, left; for (size_t i = 0; i < n; ++i) left.push_back(i); size_t lo = 0; for (size_t i = 0; i < o; ++i) { size_t k = ordered ? lo + sym_choice("skip", n - lo - (o - i) + 1) : sym_choice("var", left.size()); r.push_back(left[k]); if (ordered) lo = k + 1; else left.erase(left.begin() + k); } return r; }
static VS labels(size_t n) { VS L; for (size_t v = 0; v < n; ++v) L.push_back(1 + sym_choice("labels", sym_param("labs", 3))); return L; }
// position of a labelling in a table written with the last variable fastest
static size_t lastFastest(const VS& d, const VS& sh) { size_t k = 0; for (size_t i = 0; i < sh.size(); ++i) k = k * sh[i] + d[i]; return k; }
static double fromProb(double p) { if (p == 0) return 10000000; double v = -std::log(p); return sym_ite_d(10000000 < v, 10000000, v); }

struct Toks { textfile::File f; size_t p; bool bad; explicit Toks(const char* n) : p(0), bad(false) { textfile::File& a = textfile::files()[n]; for (size_t i = 0; i < a.size(); ++i) if (a[i].k != textfile::BLANK && a[i].k != textfile::LINE) f.push_back(a[i]); } bool done() const { return p >= f.size(); }
  size_t num() { if (done() || f[p].k != textfile::INT) { bad = true; return (size_t)-1; } return f[p++].u; } double real() { if (done() || (f[p].k != textfile::NUM && f[p].k != textfile::INT)) { bad = true; return 123456789; } double d = f[p].k == textfile::NUM ? f[p].d : (double)f[p].u; ++p; return d; } std::string word() { if (done() || f[p].k != textfile::WORD) { bad = true; return ""; } return f[p++].w; } };
HARNESS(c37_uai) { Spec s; size_t n = sym_param("n", 3); s.L = labels(n); size_t k = sym_param("k", 1), zero = sym_param("zero", 0); for (; k > 0; --k) { Fac f; f.vars = scope(n, sym_choice("order", (n < sym_param("ord", 3) ? n : sym_param("ord", 3)) + 1), false); f.shape = lsh(s, f.vars); f.kind = FEXPL; for (size_t i = 0; i < prodS(f.shape); ++i) f.t.push_back(zero ? (double)sym_choice("zero", 2) : sym_num("p", 1, 64, 16)); s.f.push_back(f); }
  std::sym_ofstream o("in.uai"); o << "  MARKOV " << "\n" << n << "\n"; put(o, s.L); o << "\n" << s.f.size() << "\n"; for (size_t f = 0; f < s.f.size(); ++f) { o << s.f[f].vars.size() << " "; put(o, s.f[f].vars); o << "\n"; }
  for (size_t f = 0; f < s.f.size(); ++f) { VD t(s.f[f].t.size()); for (size_t i = 0; i < t.size(); ++i) t[lastFastest(digits(i, s.f[f].shape), s.f[f].shape)] = s.f[f].t[i]; o << "\n" << t.size() << "\n"; for (size_t i = 0; i < t.size(); ++i) { o << t[i]; if (f + 1 < s.f.size() || i + 1 < t.size()) o << " "; } } o.close();
  CHECKM(run(uai2opengm::converter, "in.uai", "out.h5") == 0, "converted"); for (size_t f = 0; f < s.f.size(); ++f) for (size_t i = 0; i < s.f[f].t.size(); ++i) s.f[f].t[i] = fromProb(s.f[f].t[i]); GmOut g; hdf5::load(g, "out.h5", "gm"); ofModel(s, g, true, 1e-6); } // nearly equal tables are shared
HARNESS(c37_uai_refuse) { std::sym_ofstream o("in.uai"); size_t w = sym_param("word", 0); if (w == 0) o << "BAYES\n"; if (w == 1) o << "\n"; if (w == 2) o << "MARKO\n"; if (w == 3) o << "MARKOVX\n"; o << 1 << "\n" << 2 << "\n" << 0 << "\n"; o.close(); CHECKM(run(uai2opengm::converter, "in.uai", "out.h5") != 0, "only Markov networks"); CHECKM(run(uai2opengm::converter, "none.uai", "out.h5") != 0, "missing file"); }

template<class K> static Spec pairSpec(size_t n, size_t k, size_t ord, K kind) { Spec s; s.L = labels(n); for (; k > 0; --k) { size_t o = sym_choice("order", (n < ord ? n : ord) + 1); Fac f; f.vars = scope(n, o, true); f.shape = lsh(s, f.vars); f.kind = kind(o); if (f.kind == FEXPL) { for (size_t i = 0; i < prodS(f.shape); ++i) f.t.push_back(sym_num("t", -8, 8, 4)); } else f = fPar(s, f.vars, f.kind, mkVD(sym_num("a", -8, 8, 4), f.kind == FPOTTS || f.kind == FPOTTSN ? sym_num("b", -8, 8, 4) : 1)); s.f.push_back(f); } return s; }
typedef meta::TypeListGenerator<ExplicitFunction<double>, PottsFunction<double>, PottsNFunction<double>, PottsGFunction<double>, TruncatedSquaredDifferenceFunction<double>, TruncatedAbsoluteDifferenceFunction<double> >::type FT6; typedef GraphicalModel<double, Adder, FT6, DiscreteSpace<> > Gm6;
static void saved(const Spec& s, const char* file) { Gm6 g(DiscreteSpace<>(s.L.begin(), s.L.end())); for (size_t i = 0; i < s.f.size(); ++i) { const Fac& f = s.f[i]; Gm6::FunctionIdentifier id; switch (f.kind) { case FPOTTS: id = g.addFunction(PottsFunction<double>(f.shape[0], f.shape[1], f.par[0], f.par[1])); break; case FPOTTSN: id = g.addFunction(PottsNFunction<double>(f.shape.begin(), f.shape.end(), f.par[0], f.par[1])); break; case FTABS: id = g.addFunction(TruncatedAbsoluteDifferenceFunction<double>(f.shape[0], f.shape[1], f.par[1], f.par[0])); break; case FTSQ: id = g.addFunction(TruncatedSquaredDifferenceFunction<double>(f.shape[0], f.shape[1], f.par[1], f.par[0])); break; default: id = g.addFunction(mkExpl(f)); } g.addFactor(id, f.vars.begin(), f.vars.end()); } hdf5::save(g, file, "gm"); }
HARNESS(c37_uai_out) { size_t n = sym_param("n", 3); static const int ks[] = {FEXPL, FPOTTS, FTABS, FTSQ, FPOTTSN}; Spec s = pairSpec(n, sym_param("k", 2), 3, [&](size_t o) { return o == 2 ? ks[sym_choice("kind", 5)] : (int)FEXPL; }); saved(s, "in.h5"); bool high = false; for (size_t f = 0; f < s.f.size(); ++f) high |= s.f[f].vars.size() > 2;
  int r = run(opengm2uai::converter, "in.h5", "out.uai"); CHECKM((r != 0) == high, "refused if and only if a factor has more than two variables"); if (high) return;
  Toks t("out.uai"); CHECKM(t.word() == "MARKOV", "kind of network"); CHECKM(t.num() == n, "number of variables"); for (size_t v = 0; v < n; ++v) CHECKM(t.num() == s.L[v], "number of labels"); CHECKM(t.num() == s.f.size(), "number of factors");
  for (size_t f = 0; f < s.f.size(); ++f) { CHECKM(t.num() == s.f[f].vars.size(), "order of a factor"); for (size_t i = 0; i < s.f[f].vars.size(); ++i) CHECKM(t.num() == s.f[f].vars[i], "variables of a factor"); }
  for (size_t f = 0; f < s.f.size(); ++f) { const Fac& q = s.f[f]; CHECKM(t.num() == q.t.size(), "size of a table"); VD e(q.t.size()); for (size_t i = 0; i < e.size(); ++i) e[lastFastest(digits(i, q.shape), q.shape)] = q.t[i]; for (size_t i = 0; i < e.size(); ++i) CHECKM(t.real() == std::exp(-e[i]), "entry of a table"); } CHECKM(t.done(), "nothing else");
  if (sym_param("back", 0)) { CHECKM(run(uai2opengm::converter, "out.uai", "back.h5") == 0, "read back"); for (size_t f = 0; f < s.f.size(); ++f) for (size_t i = 0; i < s.f[f].t.size(); ++i) s.f[f].t[i] = fromProb(std::exp(-s.f[f].t[i])); GmOut g; hdf5::load(g, "back.h5", "gm"); ofModel(s, g, true, 1e-6); } }
// the weighted graph of a partition problem: a constant plus a cost for every edge with different labels
static void saved2(const Spec& s) { Gm2 g; buildGm(g, s); hdf5::save(g, "in.h5", "gm"); }
HARNESS(c37_wudag) { size_t n = sym_param("n", 3), k = sym_param("k", 2); Spec s; s.L.assign(n, n < 2 ? 2 : n); bool ok = true; for (; k > 0; --k) { size_t o = sym_choice("order", (n < 3 ? n : 3) + 1); VS v = scope(n, o, true); if (o == 2) s.f.push_back(fPotts(s, v[0], v[1], sym_num("e", -8, 8, 4), sym_num("d", -8, 8, 4))); else s.f.push_back(fExpl(s, v, Rng(-8, 8, 4))); ok &= o == 0 || o == 2; } saved2(s);
  int r = run(opengm2wudag::converter, "in.h5", "out.txt"); CHECKM((r == 0) == ok, "refused if and only if a factor is neither constant nor over two variables"); if (!ok) return; Toks t("out.txt"); CHECKM(t.num() == n, "number of variables"); size_t m = t.num(); double c = t.real(); std::vector<std::pair<size_t, size_t> > e; VD w; while (!t.done()) { size_t a = t.num(), b = t.num(); CHECKM(a < n && b < n && a != b, "an edge joins two variables"); if (t.bad) break; e.push_back(std::make_pair(a, b)); w.push_back(t.real()); } CHECKM(!t.bad, "three numbers for every edge"); CHECKM(m == e.size(), "number of edges");
  forLab(s.L, [&](const VS& x) { double v = c; for (size_t i = 0; i < e.size(); ++i) if (e[i].first < n && e[i].second < n && x[e[i].first] != x[e[i].second]) v += w[i]; CHECKM(v == energyAdd(s, x), "cost of a partition"); }); }
HARNESS(c37_partition) { size_t n = sym_param("n", 3), k = sym_param("k", 2); Spec s; s.L.assign(n, n < 2 ? 2 : n); for (; k > 0; --k) { VS v = scope(n, 2, true); s.f.push_back(fPotts(s, v[0], v[1], sym_num("e", -8, 8, 4), sym_num("d", -8, 8, 4))); } saved2(s); size_t l = sym_param("l", 2); char b[2] = {(char)('0' + l), 0}; CHECKM(run(partition2potts::converter, "in.h5", "out.h5", b) == 0, "converted");
  GmOut g; hdf5::load(g, "out.h5", "gm"); s.L.assign(n, l); for (size_t f = 0; f < s.f.size(); ++f) s.f[f] = fPotts(s, s.f[f].vars[0], s.f[f].vars[1], s.f[f].par[0], s.f[f].par[1]); CHECKM(g.numberOfVariables() == n, "number of variables"); if (g.numberOfVariables() != n) return; for (size_t v = 0; v < n; ++v) CHECKM(g.numberOfLabels(v) == l, "number of labels");
  forLab(s.L, [&](const VS& x) { double e = g.evaluate(x); if (x[0] == 0) CHECKM(e == energyAdd(s, x), "value of a labelling"); else CHECKM(e >= 1000000, "the first variable keeps its label"); }); }
HARNESS(c37_brain) { size_t d[3]; for (size_t i = 0; i < 3; ++i) d[i] = 1 + sym_choice("dim", sym_param("dim", 2)); size_t n = d[0] * d[1] * d[2]; if (n > sym_param("max", 4)) sym_discard(); static const unsigned char bs[] = {0, 4, 100, 255}; VS img; textfile::File& f = textfile::files()["in.raw"]; f.clear(); for (size_t i = 0; i < n; ++i) { img.push_back(i < 2 ? bs[sym_choice("byte", 4)] : (i * 37) % 256); textfile::Tok t = textfile::tok(textfile::INT); t.u = img[i]; f.push_back(t); }
  argNum = sym_num("w", -8, 8, 4); char c[3][2]; for (size_t i = 0; i < 3; ++i) { c[i][0] = (char)('0' + d[i]); c[i][1] = 0; } char p[] = "brain", a[] = "in.raw", o[] = "out.h5", w[] = "w"; char* v[] = {p, a, o, c[0], c[1], c[2], w, NULL}; CHECKM(brain::converter(7, v) == 0, "converted"); GmOut g; hdf5::load(g, "out.h5", "gm");
  Spec s; s.L.assign(n, 5); static const double mid[] = {4, 45, 105, 150, 204}; for (size_t i = 0; i < n; ++i) { Fac u; u.vars = mkVS(i); u.shape = mkVS(5); u.kind = FEXPL; for (size_t l = 0; l < 5; ++l) u.t.push_back(dabs_((double)img[i] - mid[l])); s.f.push_back(u); size_t x = i % d[0], y = i / d[0] % d[1], z = i / d[0] / d[1]; if (x + 1 < d[0]) s.f.push_back(fPotts(s, i, i + 1, 0, argNum)); if (y + 1 < d[1]) s.f.push_back(fPotts(s, i, i + d[0], 0, argNum)); if (z + 1 < d[2]) s.f.push_back(fPotts(s, i, i + d[0] * d[1], 0, argNum)); }
  CHECKM(g.numberOfVariables() == n, "number of voxels"); if (g.numberOfVariables() != n) return; for (size_t x = 0; x < n; ++x) CHECKM(g.numberOfLabels(x) == 5, "number of labels"); CHECKM(g.numberOfFactors() == s.f.size(), "number of factors"); for (size_t l = 0; l < 5; ++l) { VS x(n, l); CHECKM(g.evaluate(x) == energyAdd(s, x), "same labels"); for (size_t q = 0; q < n; ++q) { x[q] = (l + 1) % 5; CHECKM(g.evaluate(x) == energyAdd(s, x), "one voxel differs"); x[q] = l; } } }

// matching: assignments of left points to right points with costs, edges between assignments with costs
struct Match { size_t nl, nr; std::vector<std::pair<size_t, size_t> > a; VD av; std::vector<std::pair<size_t, size_t> > e; VD ev; };
static void writeMatch(const Match& m, bool newline) { std::sym_ofstream o("in.txt"); o << "p " << m.nl << " " << m.nr << " " << m.a.size() << " " << m.e.size(); for (size_t i = 0; i < m.a.size(); ++i) o << "\n" << "a " << i << " " << m.a[i].first << " " << m.a[i].second << " " << m.av[i]; for (size_t i = 0; i < m.e.size(); ++i) o << "\n" << "e " << m.e[i].first << " " << m.e[i].second << " " << m.ev[i]; if (newline) o << "\n"; o.close(); }
static void anyEdges(Match& m, size_t k, bool distinct) { std::set<std::pair<size_t, size_t> > seen; for (; k > 0; --k) { if (m.a.size() < 2) return; size_t p = sym_choice("from", m.a.size()), q = sym_choice("to", m.a.size()); if (p == q) sym_discard(); if (distinct && !seen.insert(std::make_pair(p < q ? p : q, p < q ? q : p)).second) sym_discard(); m.e.push_back(std::make_pair(p, q)); m.ev.push_back(sym_num("e", -8, 8, 4)); } }
HARNESS(c37_n2n) { Match m; m.nl = sym_param("nl", 2); m.nr = sym_param("nr", 2); for (size_t i = 0; i < m.nl; ++i) for (size_t j = 0; j < m.nr; ++j) if (sym_choice("assignment", 2)) { size_t at = sym_param("anyorder", 1) ? sym_choice("position", m.a.size() + 1) : m.a.size(); m.a.insert(m.a.begin() + at, std::make_pair(i, j)); m.av.push_back(sym_num("a", -8, 8, 4)); } anyEdges(m, sym_param("k", 1), false); for (size_t i = 0; i < m.e.size(); ++i) if (m.a[m.e[i].first].first == m.a[m.e[i].second].first) sym_discard(); writeMatch(m, sym_choice("newline", 2));
  CHECKM(run(n2n::converter, "in.txt", "out.h5") == 0, "converted"); GmOut g; hdf5::load(g, "out.h5", "gm"); VS L(m.nl, m.nr); CHECKM(g.numberOfVariables() == m.nl, "number of points"); if (g.numberOfVariables() != m.nl) return; for (size_t v = 0; v < m.nl; ++v) CHECKM(g.numberOfLabels(v) == m.nr, "number of labels");
  forLab(L, [&](const VS& x) { double v = 0; for (size_t i = 0; i < m.nl; ++i) for (size_t j = 0; j < i; ++j) if (x[i] == x[j]) v += 1000000; for (size_t i = 0; i < m.a.size(); ++i) if (x[m.a[i].first] == m.a[i].second) v += m.av[i]; for (size_t i = 0; i < m.e.size(); ++i) if (x[m.a[m.e[i].first].first] == m.a[m.e[i].first].second && x[m.a[m.e[i].second].first] == m.a[m.e[i].second].second) v += m.ev[i]; CHECKM(g.evaluate(x) == v, "cost of a matching"); }); }
// assignments listed by left points and then by right points; a variable for every listed point, with one more label for no match
HARNESS(c37_matching) { Match m; m.nl = sym_param("nl", 2); m.nr = sym_param("nr", 2); VS keyL, keyR; std::vector<VS> lab; std::vector<std::pair<size_t, size_t> > at; size_t side = sym_param("side", 0), most = sym_param("most", 3); bool any = false;
  for (size_t i = 0; i < m.nl; ++i) { VS q; for (size_t j = 0; j < m.nr; ++j) if (sym_choice("left", 2)) q.push_back(j); if (q.empty()) continue; for (size_t j = 0; j < q.size(); ++j) { m.a.push_back(std::make_pair(i, q[j])); at.push_back(std::make_pair(lab.size(), j)); } keyL.push_back(i); lab.push_back(q); any = true; }
  if (!any) sym_discard(); if (side) for (size_t j = 0; j < m.nr; ++j) { VS q; for (size_t i = 0; i < m.nl; ++i) if (sym_choice("right", 2)) q.push_back(i); if (q.empty()) continue; if (keyR.empty() && q[0] >= keyL.back()) sym_discard(); /* the second list is recognised by a smaller left point */ for (size_t i = 0; i < q.size(); ++i) { m.a.push_back(std::make_pair(q[i], j)); at.push_back(std::make_pair(lab.size(), i)); } keyR.push_back(j); lab.push_back(q); }
  if (m.a.size() > most) sym_discard(); for (size_t i = 0; i < m.a.size(); ++i) m.av.push_back(sym_num("a", -8, 8, 4)); anyEdges(m, sym_param("k", 1), true); for (size_t i = 0; i < m.e.size(); ++i) { if (at[m.e[i].first].first == at[m.e[i].second].first) sym_discard(); } writeMatch(m, sym_choice("newline", 2)); double lambda = 1; const char* arg = NULL; if (sym_param("lambda", 0)) { argNum = lambda = 2; arg = "w"; }
  CHECKM(run(matching::converter, "in.txt", "out.h5", arg) == 0, "converted"); GmOut g; hdf5::load(g, "out.h5", "gm"); CHECKM(g.numberOfVariables() == lab.size(), "number of points"); if (g.numberOfVariables() != lab.size()) return; Toks t("out.h5.co"); for (size_t i = 0; i < m.a.size(); ++i) { CHECKM(t.num() == i, "assignment"); CHECKM(t.num() == at[i].first, "variable of an assignment"); CHECKM(t.num() == at[i].second, "label of an assignment"); } CHECKM(t.done(), "nothing else");
  // labels induced by the assignments listed at the other side
  for (size_t i = 0; i < m.a.size(); ++i) { bool left = at[i].first < keyL.size(); const VS& keys = left ? keyR : keyL; size_t other = left ? m.a[i].second : m.a[i].first, mine = left ? m.a[i].first : m.a[i].second; for (size_t q = 0; q < keys.size(); ++q) if (keys[q] == other) { VS& l = lab[left ? keyL.size() + q : q]; if (std::find(l.begin(), l.end(), mine) == l.end()) l.push_back(mine); } }
  VS L; for (size_t v = 0; v < lab.size(); ++v) { CHECKM(g.numberOfLabels(v) == lab[v].size() + 1, "number of labels"); L.push_back(lab[v].size() + 1); if (g.numberOfLabels(v) != L[v]) return; }
  forLab(L, [&](const VS& x) { bool ok = true; std::map<size_t, size_t> l2r, r2l; for (size_t v = 0; v < x.size(); ++v) if (x[v] < lab[v].size()) { size_t p = v < keyL.size() ? keyL[v] : lab[v][x[v]], q = v < keyL.size() ? lab[v][x[v]] : keyR[v - keyL.size()]; if (l2r.count(p) && l2r[p] != q) ok = false; if (r2l.count(q) && r2l[q] != p) ok = false; l2r[p] = q; r2l[q] = p; }
    for (size_t v = 0; v < x.size(); ++v) if (x[v] == lab[v].size()) { size_t p = v < keyL.size() ? keyL[v] : keyR[v - keyL.size()]; if ((v < keyL.size() ? l2r : r2l).count(p)) ok = false; }
    double e = 0; for (size_t i = 0; i < m.a.size(); ++i) if (x[at[i].first] == at[i].second) e += m.av[i]; for (size_t i = 0; i < m.e.size(); ++i) if (x[at[m.e[i].first].first] == at[m.e[i].first].second && x[at[m.e[i].second].first] == at[m.e[i].second].second) e += lambda * m.ev[i]; double v = g.evaluate(x); if (ok) CHECKM(v == e, "cost of a matching"); else CHECKM(v >= 90000, "no matching"); }); }

// models in the old format: one array with the numbers of labels and, for every factor, its variables and its table
template<class T, class OP> static void old() { size_t n = sym_param("n", 2); VS L = labels(n); Spec s; s.L = L; std::vector<T> d; d.push_back((T)n); size_t k = sym_param("k", 2); d.push_back((T)k); for (size_t v = 0; v < n; ++v) d.push_back((T)L[v]); for (size_t c = 0; c < k; ++c) { Fac f; f.vars = scope(n, sym_param("pairs", 0) ? 2 : sym_choice("order", (n < 3 ? n : 3) + 1), true); f.shape = lsh(s, f.vars); f.kind = FEXPL; d.push_back((T)f.vars.size()); for (size_t i = 0; i < f.vars.size(); ++i) d.push_back((T)f.vars[i]); for (size_t i = 0; i < prodS(f.shape); ++i) { T v = std::numeric_limits<T>::is_integer ? (T)sym_i64("t", -4, 4) : (T)sym_num("t", -8, 8, 4); f.t.push_back((double)v); d.push_back(v); } s.f.push_back(f); }
  size_t sz = d.size(); marray::Marray<T> a(&sz, &sz + 1); for (size_t i = 0; i < sz; ++i) a(i) = d[i]; hid_t f = marray::hdf5::createFile("old.h5"); marray::hdf5::save(f, "old", a); marray::hdf5::closeFile(f);
  legacy::ConcreteConverterDispatcher<T, OP> c; c.exec("old.h5", "out.h5", "old", "new", sym_param("cache", 2), false); GraphicalModel<T, OP, ExplicitFunction<T>, DiscreteSpace<> > g; hdf5::load(g, "out.h5", "new"); ofModel(s, g, true); CHECKM(h5mem::open() == 0, "handles"); }
HARNESS(c37_legacy) { switch (sym_param("t", 0)) { case 0: old<double, Adder>(); break; case 1: old<float, Multiplier>(); break; case 2: old<int, Adder>(); break; } }
