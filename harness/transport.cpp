// C26: transport solver: feasible, minimum cost, true value; the two-way linked table it works on
#include "gm_common.h"
#include <opengm/inference/auxiliary/transportationsolver.hxx>
#include <opengm/inference/auxiliary/primal_lpbound.hxx>
using namespace opengm;
typedef TransportSolver::MatrixWrapper<double> M; typedef std::vector<std::vector<int> > Plan;
static std::vector<int> digitsOf(size_t c) { std::vector<int> r; for (; c; c /= 10) r.insert(r.begin(), (int)(c % 10)); return r; }
// every integer plan with the given (integer) margins
static void plans(std::vector<int> a, std::vector<int> b, size_t i, size_t j, Plan& p, std::function<void(const Plan&)> fn) {
  size_t n = a.size(), m = b.size(); if (i == n) { for (size_t k = 0; k < m; ++k) if (b[k]) return; fn(p); return; }
  if (j + 1 == m) { if (a[i] > b[j]) return; p[i][j] = a[i]; b[j] -= a[i]; a[i] = 0; plans(a, b, i + 1, 0, p, fn); return; }
  for (int v = 0; v <= a[i] && v <= b[j]; ++v) { std::vector<int> a2(a), b2(b); a2[i] -= v; b2[j] -= v; p[i][j] = v; plans(a2, b2, i, j + 1, p, fn); } }
template<class OPT, class S> void solveOne(S& s, const M& c, const std::vector<int>& a, const std::vector<int>& b) {
  size_t n = a.size(), m = b.size(); VD x(a.begin(), a.end()), y(b.begin(), b.end()); int A = std::accumulate(a.begin(), a.end(), 0), B = std::accumulate(b.begin(), b.end(), 0); double v = s.Solve(x.begin(), y.begin()), tot = 0; M q(n, m, 7.0); double v2 = s.GetSolution(&q);
  CHECKM(v == v2 && v == s.GetObjectiveValue(), "one value"); for (size_t i = 0; i < n; ++i) { double r = 0; for (size_t j = 0; j < m; ++j) { r += q(i, j); CHECKM(q(i, j) >= 0, "nothing negative is shipped"); tot += q(i, j) * c(i, j); } CHECKM(r * A == a[i], "supplies are shipped"); } for (size_t j = 0; j < m; ++j) { double r = 0; for (size_t i = 0; i < n; ++i) r += q(i, j); CHECKM(r * B == b[j], "demands are met"); }
  CHECKM(tot == v, "the value is the cost of the plan"); std::vector<int> ai(a), bi(b); for (size_t i = 0; i < n; ++i) ai[i] *= B; for (size_t j = 0; j < m; ++j) bi[j] *= A; Plan p(n, std::vector<int>(m, 0)); bool ok = true; double AB = (double)A * B; int g = 0; for (int z : ai) g = std::__gcd(g, z); for (int z : bi) g = std::__gcd(g, z); for (int& z : ai) z /= g; for (int& z : bi) z /= g;
  plans(ai, bi, 0, 0, p, [&](const Plan& pl) { double w = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) w += pl[i][j] * c(i, j); ok = ok & !Less<OPT>::better(w * g, v * AB); }); CHECKM(ok, "no plan is cheaper"); sym_obs_d(v); }
template<class OPT> void run() {
  std::vector<int> a = digitsOf(sym_param("a", 11)), b = digitsOf(sym_param("b", 11)); for (size_t i = 0; i < a.size(); ++i) a[i] = a[i] == 9 ? 0 : a[i]; for (size_t j = 0; j < b.size(); ++j) b[j] = b[j] == 9 ? 0 : b[j]; size_t n = a.size(), m = b.size(); int R = sym_param("R", 2); M c(n, m); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) c(i, j) = sym_param("lead", 0) && (i == 0 || j == 0) && !(i == 0 && j == 0) ? (double)((i * 2 + j) % 3) : sym_num("c", -R, R, 1);
  typedef TransportSolver::TransportationSolver<OPT, M> S; int how = sym_param("how", 0); if (how == 0) { S s(n, m, c); solveOne<OPT>(s, c, a, b); } else if (how == 1) { M d(2, 1, 1.0); S s(2, 1, d); VD z = mkVD(1, 2); s.Solve(z.begin(), z.begin() + 1); s.Init(n, m, c); solveOne<OPT>(s, c, a, b); }
  else { S s; s.Init(n, m, c); solveOne<OPT>(s, c, a, b); std::vector<int> a2(a), b2(b); std::reverse(a2.begin(), a2.end()); std::rotate(b2.begin(), b2.begin() + 1, b2.end()); solveOne<OPT>(s, c, a2, b2); }
}
HARNESS(c26_solve) { if (sym_param("max", 0)) run<Maximizer>(); else run<Minimizer>(); }
HARNESS(c26_empty) { M c(2, 1, 1.0); TransportSolver::TransportationSolver<Minimizer, M> s(2, 1, c); VD z(2, 0.0); bool t = false; try { s.Solve(z.begin(), z.begin()); } catch (std::runtime_error&) { t = true; } CHECKM(t, "a problem without supply is refused"); }
// the table: a map from (x, y) to values that can be walked by row and by column
typedef TransportSolver::List2D<double> L2; typedef std::map<std::pair<size_t, size_t>, double> Map;
static void same(L2& l, const Map& m, size_t X, size_t Y) {
  CHECKM(l.xsize() == X && l.ysize() == Y, "sizes"); const L2& cl = l;
  for (size_t x = 0; x < X; ++x) { size_t n = 0, last = 0; for (Map::const_iterator i = m.begin(); i != m.end(); ++i) n += i->first.first == x; CHECKM(l.colSize(x) == n, "column size"); n = 0; for (L2::const_iterator i = cl.colBegin(x); i != cl.colEnd(x); ++i, ++n) { CHECKM(n == 0 || i.coordinate() > last, "columns are sorted"); last = i.coordinate(); Map::const_iterator f = m.find(std::make_pair(x, last)); CHECKM(f != m.end() && f->second == *i && i.x() == x && i.y() == last && !i.isRowIterator() && i.changeDir().isRowIterator() && i.changeDir().coordinate() == x && cl.buffer(i.index()) == *i, "column entry"); } CHECKM(n == l.colSize(x), "column walk"); }
  for (size_t y = 0; y < Y; ++y) { size_t n = 0, last = 0; for (Map::const_iterator i = m.begin(); i != m.end(); ++i) n += i->first.second == y; CHECKM(l.rowSize(y) == n, "row size"); n = 0; for (L2::iterator i = l.rowBegin(y); i != l.rowEnd(y); ++i, ++n) { CHECKM(n == 0 || i.coordinate() > last, "rows are sorted"); last = i.coordinate(); Map::const_iterator f = m.find(std::make_pair(last, y)); CHECKM(f != m.end() && f->second == *i && i.y() == y && i.x() == last && i.isRowIterator() && !i.changeDir().isRowIterator() && i.changeDir().coordinate() == y, "row entry"); } CHECKM(n == l.rowSize(y), "row walk"); }
  M t(X, Y, 5.0); l.get2DTable(&t); double ip = 0, ip2 = 0; M w(X, Y); VD flat(X * Y); for (size_t x = 0; x < X; ++x) for (size_t y = 0; y < Y; ++y) { Map::const_iterator f = m.find(std::make_pair(x, y)); std::pair<bool, double> g = l.getValue(x, y); CHECKM(g.first == (f != m.end()) && (!g.first || g.second == f->second), "look up"); CHECKM(t(x, y) == (g.first ? f->second : 0.0), "dense table"); w(x, y) = flat[X * y + x] = 1 + x + 3 * y; if (g.first) { ip += f->second * w(x, y); } } ip2 = l.inner_product2D(w); CHECKM(ip == ip2 && l.inner_product1D(flat) == ip, "inner product");
}
HARNESS(c26_table) {
  size_t X = sym_param("X", 2), Y = sym_param("Y", 2), nnz = X + Y; L2 l(1, 1, 1); if (sym_param("re", 0)) l.resize(X, Y, nnz); else l = L2(X, Y, nnz); Map m; size_t pre = sym_choice("pushes", nnz); size_t cell = sym_choice("first", X * Y); for (size_t i = 0; i < pre; ++i) { size_t k = (cell + i) % (X * Y); double v = sym_num("v", -3, 3, 1); CHECKM(l.push(k % X, k / X, v), "there is room"); m[std::make_pair(k % X, k / X)] = v; } same(l, m, X, Y);
  bool ins = false; for (size_t s = 0; s < sym_param("steps", 2); ++s) { switch (sym_choice("op", 6)) {
    case 0: { size_t k = sym_choice("cell", X * Y); std::pair<size_t, size_t> c(k % X, k / X); if (m.count(c)) sym_discard(); double v = sym_num("v", -3, 3, 1); if (ins) { CHECKM(!l.insert(c.first, c.second, v), "one spare place"); } else { CHECKM(l.insert(c.first, c.second, v), "insert into the spare place"); m[c] = v; ins = true; } break; }
    case 1: { if (m.empty()) sym_discard(); size_t k = sym_choice("which", m.size()); Map::iterator i = m.begin(); std::advance(i, k); L2::iterator r = sym_choice("viaRow", 2) ? l.rowBegin(i->first.second) : l.colBegin(i->first.first); while (!(r.x() == i->first.first && r.y() == i->first.second)) ++r; if (sym_choice("byIndex", 2)) l.erase(r.index()); else l.erase(r); m.erase(i); ins = false; break; }
    case 2: { size_t y = sym_choice("y", Y); l.rowErase(y); bool any = false; for (Map::iterator i = m.begin(); i != m.end();) if (i->first.second == y) { m.erase(i++); any = true; } else ++i; if (any) ins = false; break; }
    case 3: { size_t x = sym_choice("x", X); l.colErase(x); bool any = false; for (Map::iterator i = m.begin(); i != m.end();) if (i->first.first == x) { m.erase(i++); any = true; } else ++i; if (any) ins = false; break; }
    case 4: { L2 c(l); same(c, m, X, Y); L2 d(X, X, 3); d.push(0, 0, 1); d = l; l.clear(); same(d, m, X, Y); Map e; same(l, e, X, Y); l = d; l = *&l; break; }
    default: { if (m.empty()) sym_discard(); Map::iterator i = m.begin(); double v = sym_num("v", -3, 3, 1); L2::iterator r = l.colBegin(i->first.first); *r = v; i->second = v; } } same(l, m, X, Y); }
}
HARNESS(c26_transpose) { size_t X = sym_param("X", 2), Y = sym_param("Y", 2); M a(X, Y), b; for (size_t x = 0; x < X; ++x) for (size_t y = 0; y < Y; ++y) a(x, y) = sym_num("a", -3, 3, 1); TransportSolver::transpose(a, b); CHECKM(b.xsize() == Y && b.ysize() == X, "sizes"); for (size_t x = 0; x < X; ++x) for (size_t y = 0; y < Y; ++y) CHECKM(b(y, x) == a(x, y), "transposed"); }
// the primal bound of the local polytope: unary terms and cheapest couplings, asked for in any order
template<class ACC> static void primal() {
  Topo t = topo(sym_param("topo", 1)); Spec s; s.L.assign(t.n, 2); unsigned mix = sym_param("mix", 0), un = sym_param("un", 255); if (mix) s.L[mix - 1] = 3; Rng r(-2, 2, 1); if (sym_param("late", 0) == 0) for (size_t v = 0; v < t.n; ++v) if (un >> v & 1) s.f.push_back(fExpl(s, mkVS(v), r)); for (size_t i = 0; i < t.e.size(); ++i) { Fac f = fExpl(s, t.e[i], r); if (sym_param("conc", 0) >> i & 1) for (size_t k = 0; k < f.t.size(); ++k) f.t[k] = (double)((k * k + i) % 4) - 1; s.f.push_back(f); } if (sym_param("late", 0)) for (size_t v = 0; v < t.n; ++v) if (un >> v & 1) s.f.push_back(fExpl(s, mkVS(v), r));
  Gm2 gm; buildGm(gm, s); typedef PrimalLPBound<Gm2, ACC> Q;
  if (sym_param("bad", 0)) { size_t k = sym_choice("bad", 3); Spec z(s); if (k < 2) z.f.push_back(fExpl(z, mkVS(t.n - 1), r)); Gm2 h; buildGm(h, z); bool threw = false; try { if (k == 0) Q c(h); else if (k == 1) trws_base::VariableToFactorMapping<Gm2> c(h); else { Q c(h); size_t u = 0; while (z.f[u].vars.size() != 1) ++u; c.getFactorValue(u); } } catch (std::runtime_error&) { threw = true; } CHECKM(threw, "what it cannot handle is refused"); sym_obs_u(k); return; }
  Q q(gm); static const int m2[5][2] = {{1, 3}, {4, 0}, {2, 2}, {0, 4}, {3, 1}}, m3[3][3] = {{1, 2, 1}, {0, 1, 3}, {0, 4, 0}}; std::vector<std::vector<int> > m(t.n);
  auto set = [&](size_t v, size_t k) { m[v].clear(); for (size_t l = 0; l < s.L[v]; ++l) m[v].push_back(s.L[v] == 2 ? m2[k % 5][l] : m3[k % 3][l]); VD d; for (size_t l = 0; l < s.L[v]; ++l) d.push_back(m[v][l] / 4.0); q.setVariable(v, d.begin()); VD g(d.size(), 9); q.getVariable(v, g.begin()); CHECKM(g == d, "the marginals set"); };
  unsigned start = sym_param("start", 0); for (size_t v = 0; v < t.n; ++v) set(v, start + v * sym_param("stride", 1));
  auto unary = [&](size_t i) { double e = 0; for (size_t l = 0; l < s.f[i].t.size(); ++l) e += s.f[i].t[l] * m[s.f[i].vars[0]][l] / 4.0; return e; };
  auto judge = [&](size_t i, double v) { const Fac& f = s.f[i]; const std::vector<int>&a = m[f.vars[0]], &b = m[f.vars[1]]; Plan p(a.size(), std::vector<int>(b.size(), 0)); bool ok = true, some = false; plans(a, b, 0, 0, p, [&](const Plan& pl) { double w = 0; for (size_t x = 0; x < a.size(); ++x) for (size_t y = 0; y < b.size(); ++y) w += pl[x][y] * f.t[x + y * a.size()] / 4.0; ok = ok & !Less<ACC>::better(w, v); some = some | (w == v); }); CHECKM(ok && some, "the cheapest coupling of the marginals"); };
  size_t P = 0; for (size_t i = 0; i < s.f.size(); ++i) P += s.f[i].vars.size() == 2; std::vector<size_t> pw; for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].vars.size() == 2) pw.push_back(i);
  for (size_t k = 0; k < sym_param("steps", 3); ++k) switch (sym_choice("op", 5)) {
    case 0: { size_t i = pw[sym_choice("factor", P)]; judge(i, q.getFactorValue(i)); break; }
    case 1: { size_t i = pw[sym_choice("factor", P)]; const Fac& f = s.f[i]; M w(f.shape[0], f.shape[1], 9.0); double v = q.getFactorVariable(i, w), e = 0; judge(i, v); for (size_t x = 0; x < f.shape[0]; ++x) { double c = 0; for (size_t y = 0; y < f.shape[1]; ++y) { c += w(x, y); e += w(x, y) * f.t[x + y * f.shape[0]]; CHECKM(w(x, y) >= 0, "a coupling"); } CHECKM(c * 4 == m[f.vars[0]][x], "a coupling of the marginals"); } for (size_t y = 0; y < f.shape[1]; ++y) { double c = 0; for (size_t x = 0; x < f.shape[0]; ++x) c += w(x, y); CHECKM(c * 4 == m[f.vars[1]][y], "a coupling of the marginals"); } CHECKM(e == v, "with this value"); break; }
    case 2: { size_t v = sym_choice("var", t.n); set(v, start + 2 + v + k); break; }
    case 3: { for (size_t v = 0; v < t.n; ++v) { double e = 0; for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].vars.size() == 1 && s.f[i].vars[0] == v) e = unary(i); CHECKM(q.getVariableValue(v) == e, "the unary terms"); } break; }
    default: { double e = 0, tot = q.getTotalValue(); for (size_t i = 0; i < s.f.size(); ++i) { if (s.f[i].vars.size() == 1) e += unary(i); else { double v = q.getFactorValue(i); judge(i, v); e += v; } } CHECKM(tot == e && q.getTotalValue() == e, "the bound is the sum of the terms"); if (sym_param("reset", 0)) q.ResetBuffer(); } }
  double tot = q.getTotalValue(); sym_obs_d(tot); VS x; bool corner = true; for (size_t v = 0; v < t.n; ++v) { size_t l = 0; while (l < m[v].size() && m[v][l] != 4) ++l; corner = corner && l < m[v].size(); x.push_back(l); } if (corner) { double e = energyAdd(s, x); CHECKM(tot == e, "for a labelling, its value"); }
}
HARNESS(c26_primal) { if (sym_param("max", 0)) primal<Maximizer>(); else primal<Minimizer>(); }
