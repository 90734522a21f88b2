#include "gm_common.h"
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
using namespace opengm;
typedef Gm2::FactorType F2; typedef Gm2::IndependentFactorType IF; typedef Gm2::LabelType LT; typedef Gm2::IndexType IT;
static VS bits(size_t m, size_t n) { VS r; for (size_t j = 0; j < n; ++j) if (m >> j & 1) r.push_back(j); return r; }
static IF mkIF(const Fac& f) { IF g(f.vars.begin(), f.vars.end(), f.shape.begin(), f.shape.end()); if (f.vars.empty()) { size_t z = 0; g(&z) = f.t[0]; return g; } for (size_t i = 0; i < f.t.size(); ++i) { VS d = digits(i, f.shape); g(d.begin()) = f.t[i]; } return g; }
template<class G> void checkIs(const G& g, const VS& vars, const VS& shape, const VD& t) {
  CHECKM(g.numberOfVariables() == vars.size(), "number of variables"); CHECKM(g.size() == prodS(shape), "size");
  for (size_t i = 0; i < vars.size(); ++i) { CHECKM(g.variableIndex(i) == vars[i], "variables"); CHECKM(g.numberOfLabels(i) == shape[i] && g.shape(i) == shape[i], "shape"); CHECKM(g.shapeBegin()[i] == shape[i] && g.variableIndicesBegin()[i] == vars[i], "iterators"); }
  CHECKM(size_t(g.shapeEnd() - g.shapeBegin()) == vars.size() && size_t(g.variableIndicesEnd() - g.variableIndicesBegin()) == vars.size(), "iterator ranges");
  if (vars.empty()) { size_t z = 0; CHECKM(g(&z) == t[0], "scalar value"); return; }
  for (size_t k = 0; k < t.size(); ++k) { VS d = digits(k, shape); CHECKM(g(d.begin()) == t[k], "value"); }
}
static void checkF(const IF& g, const Fac& f) { checkIs(g, f.vars, f.shape, f.t); CHECKM(g.function().dimension() == f.vars.size(), "dimension of the table"); }
static double ap(int op, double a, double b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return (a != 0 || b != 0) ? 1 : 0; default: return (a != 0 && b != 0) ? 1 : 0; } }
// reference combination over the sorted union of the variables
static Fac comb(const Spec& s, const Fac& a, const Fac& b, int op) { Fac c; std::set<size_t> u(a.vars.begin(), a.vars.end()); u.insert(b.vars.begin(), b.vars.end()); c.vars.assign(u.begin(), u.end()); c.shape = lsh(s, c.vars); size_t n = prodS(c.shape); for (size_t k = 0; k < n; ++k) { VS d = digits(k, c.shape), x(s.L.size(), 0); for (size_t i = 0; i < c.vars.size(); ++i) x[c.vars[i]] = d[i]; c.t.push_back(ap(op, facAt(a, x), facAt(b, x))); } return c; }
template<class A, class B> IF doOp(int op, const A& a, const B& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return a || b; default: return a && b; } }
template<class B> void doIn(int op, IF& a, const B& b) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; case 4: a |= b; break; default: a &= b; break; } }
template<class A, class B> IF do3(int op, const A& a, const B& b, IF c) { switch (op) { case 0: operateBinary(a, b, c, std::plus<double>()); break; case 1: operateBinary(a, b, c, std::minus<double>()); break; case 2: operateBinary(a, b, c, std::multiplies<double>()); break; case 3: operateBinary(a, b, c, std::divides<double>()); break; case 4: operateBinary(a, b, c, std::logical_or<double>()); break; default: operateBinary(a, b, c, std::logical_and<double>()); break; } return c; }
static Fac drawFac(const Spec& s, const VS& v, int op, bool second, const Rng& r) { Fac f = fExpl(s, v, op >= 4 ? Rng(0, 1, 1) : op == 3 && second ? Rng(1, r.hi, 1) : r); if (sym_param("potts", 0) && v.size() == 2) { double e = f.t[0], n = f.t[1]; f = fPar(s, v, FPOTTS, mkVD(e, n)); } return f; }
HARNESS(c07_binary) {
  size_t n = sym_param("n", 3); int op = sym_param("op", 0), form = sym_param("form", 0); Rng r(-3, 3, 2); Spec s; s.L = labs(n, sym_param("lab", 2)); IF start; if (sym_param("dirty", 0)) { VS v = mkVS(0), sh = mkVS(s.L[0]); start = IF(v.begin(), v.end(), sh.begin(), sh.end(), 7.0); }
  VS va = bits(sym_choice("A", size_t(1) << n), n), vb = bits(sym_choice("B", size_t(1) << n), n); Fac a = drawFac(s, va, op, false, r), b = drawFac(s, vb, op, true, r); Fac c = comb(s, a, b, op);
  Gm2 gm; s.f.push_back(a); s.f.push_back(b); buildGm(gm, s); const F2 &fa = gm[0], &fb = gm[1]; checkIs(fa, a.vars, a.shape, a.t); IF ia = mkIF(a), ib = mkIF(b); checkF(ia, a);
  switch (form) {
    case 0: checkF(doOp(op, ia, ib), c); checkF(do3(op, ia, ib, start), c); break;
    case 1: checkF(doOp(op, fa, ib), c); checkF(do3(op, fa, ib, start), c); break;
    case 2: checkF(doOp(op, ia, fb), c); checkF(do3(op, ia, fb, start), c); break;
    case 3: checkF(doOp(op, fa, fb), c); checkF(do3(op, fa, fb, start), c); break;
    case 4: { IF x = ia; doIn(op, x, ib); checkF(x, c); break; }
    case 5: { IF x = ia; switch (op) { case 0: x.operateBinary(fb, std::plus<double>()); break; case 1: x.operateBinary(fb, std::minus<double>()); break; case 2: x.operateBinary(fb, std::multiplies<double>()); break; case 3: x.operateBinary(fb, std::divides<double>()); break; case 4: x.operateBinary(fb, std::logical_or<double>()); break; default: x.operateBinary(fb, std::logical_and<double>()); } checkF(x, c); break; }
    case 6: { IF x; switch (op) { case 0: x.operateBinary(ia, ib, std::plus<double>()); break; case 1: x.operateBinary(ia, ib, std::minus<double>()); break; case 2: x.operateBinary(ia, ib, std::multiplies<double>()); break; default: sym_discard(); } checkF(x, c); break; }
  }
  checkF(ia, a); checkF(ib, b); checkIs(fa, a.vars, a.shape, a.t); checkIs(fb, b.vars, b.shape, b.t); // operands untouched
}
HARNESS(c07_scalar) {
  size_t n = sym_param("n", 3); int op = sym_param("op", 0), form = sym_param("form", 0); Rng r(-3, 3, 2); Spec s; s.L = labs(n, sym_param("lab", 2)); VS va = bits(sym_choice("A", size_t(1) << n), n);
  bool left = form == 1 || form == 4; Fac a = drawFac(s, va, op, left, r); double k = op >= 4 ? sym_num("k", 0, 1, 1) : op == 3 && !left ? sym_num("k", 1, 3, 1) : sym_num("k", -3, 3, 1); Fac b; b.t = VD(1, k); Fac c = left ? comb(s, b, a, op) : comb(s, a, b, op);
  Gm2 gm; s.f.push_back(a); buildGm(gm, s); const F2& fa = gm[0]; IF ia = mkIF(a);
  switch (form) {
    case 0: checkF(doOp(op, ia, k), c); break; case 1: checkF(doOp(op, k, ia), c); break; case 2: doIn(op, ia, k); checkF(ia, c); break;
    case 3: checkF(doOp(op, fa, k), c); break; case 4: checkF(doOp(op, k, fa), c); break;
    case 5: { ia.operateUnary(std::negate<double>()); Fac m = a; for (size_t i = 0; i < m.t.size(); ++i) m.t[i] = -a.t[i]; checkF(ia, m); IF o; operateUnary(fa, o, std::negate<double>()); checkF(o, m); IF q = mkIF(a); operateUnary(q, std::negate<double>()); checkF(q, m); break; }
    case 6: { IF o; operateBinary(ia, k, o, std::minus<double>()); checkF(o, comb(s, a, b, 1)); operateBinary(k, ia, o, std::minus<double>()); checkF(o, comb(s, b, a, 1)); break; }
  }
}
template<class ACC> struct Red { static double go(double a, double b); };
template<> double Red<Minimizer>::go(double a, double b) { return sym_ite_d(a < b, a, b); }
template<> double Red<Maximizer>::go(double a, double b) { return sym_ite_d(a > b, a, b); }
template<> double Red<Integrator>::go(double a, double b) { return a + b; }
template<> double Red<Adder>::go(double a, double b) { return a + b; }
template<> double Red<Multiplier>::go(double a, double b) { return a * b; }
template<class ACC> Fac reduce(const Spec& s, const Fac& a, const VS& out) { Fac c; for (size_t i = 0; i < a.vars.size(); ++i) if (std::find(out.begin(), out.end(), a.vars[i]) == out.end()) c.vars.push_back(a.vars[i]); c.shape = lsh(s, c.vars); c.t.resize(prodS(c.shape)); std::vector<char> first(c.t.size(), 1); for (size_t k = 0; k < a.t.size(); ++k) { VS d = digits(k, a.shape), e; for (size_t i = 0; i < a.vars.size(); ++i) if (std::find(c.vars.begin(), c.vars.end(), a.vars[i]) != c.vars.end()) e.push_back(d[i]); size_t q = flat(e, c.shape); c.t[q] = first[q] ? a.t[k] : Red<ACC>::go(c.t[q], a.t[k]); first[q] = 0; } return c; }
template<class ACC> void runAcc() {
  size_t n = sym_param("n", 3); Rng r(-3, 3, 1); Spec s; s.L = labs(n, sym_param("lab", 2)); VS va = bits(sym_choice("A", size_t(1) << n), n); Fac a = drawFac(s, va, 0, false, r);
  // any list of variables, in any order, members of the factor or not
  size_t m = sym_choice("len", n + 1); VS out; for (size_t i = 0; i < m; ++i) { size_t v = sym_choice("v", n); sym_assume(std::find(out.begin(), out.end(), v) == out.end()); out.push_back(v); }
  Gm2 gm; s.f.push_back(a); buildGm(gm, s); const F2& fa = gm[0]; IF ia = mkIF(a); Fac c = reduce<ACC>(s, a, out);
  switch (sym_param("form", 0)) {
    case 0: { IF d; ia.template accumulate<ACC>(out.begin(), out.end(), d); checkF(d, c); checkF(ia, a); break; }
    case 1: { IF d; accumulate<ACC>(fa, out.begin(), out.end(), d); checkF(d, c); break; }
    case 2: { ia.template accumulate<ACC>(out.begin(), out.end()); checkF(ia, c); break; }
    case 3: { VS dv = mkVS(0, 1), sh = mkVS(s.L[0], s.L[1]); IF d(dv.begin(), dv.end(), sh.begin(), sh.end(), 5.0); accumulate<ACC>(fa, out.begin(), out.end(), d); checkF(d, c); break; }
  }
}
HARNESS(c07_accumulate) { switch (sym_param("op", 0)) { case 0: runAcc<Minimizer>(); break; case 1: runAcc<Maximizer>(); break; case 2: runAcc<Integrator>(); break; case 3: runAcc<Multiplier>(); break; case 4: runAcc<Adder>(); break; } }
template<class ACC> void memberTotal(const IF& g, double t) { double v = 77; g.template accumulate<ACC>(v); CHECKM(v == t, "member total"); }
template<class ACC> void memberTotal(const F2& g, double t) {}
template<class ACC, bool st, class G> void total(const G& g, const Spec& s, const Fac& a) {
  Fac c = reduce<ACC>(s, a, a.vars); double v = 77; accumulate<ACC>(g, v); CHECKM(v == c.t[0], "total"); memberTotal<ACC>(g, c.t[0]);
  if constexpr (st) { std::vector<LT> x(5, 9); double w = 77; accumulate<ACC>(g, w, x); CHECKM(w == c.t[0], "total with state"); CHECKM(x.size() == a.vars.size(), "state length"); VS d(x.begin(), x.end()); for (size_t i = 0; i < d.size(); ++i) CHECKM(d[i] < a.shape[i], "state in range"); CHECKM(a.t[flat(d, a.shape)] == w, "state attains the value"); }
}
HARNESS(c07_total) {
  size_t n = sym_param("n", 3); Spec s; s.L = labs(n, sym_param("lab", 2)); VS va = bits(sym_choice("A", size_t(1) << n), n); Fac a = drawFac(s, va, 0, false, Rng(-3, 3, 1)); Gm2 gm; s.f.push_back(a); buildGm(gm, s); const F2& fa = gm[0]; IF ia = mkIF(a); bool f = sym_param("form", 0);
#define T_(A, ST) do { if (f) total<A, ST>(fa, s, a); else total<A, ST>(ia, s, a); } while (0)
  switch (sym_param("op", 0)) { case 0: T_(Minimizer, true); break; case 1: T_(Maximizer, true); break; case 2: T_(Integrator, false); break; case 3: T_(Multiplier, false); break; }
}
HARNESS(c07_fix) {
  size_t n = sym_param("n", 3); Spec s; s.L = labs(n, sym_param("lab", 2)); VS va = bits(sym_choice("A", size_t(1) << n), n); Fac a = drawFac(s, va, 0, false, Rng(-3, 3, 1)); IF g = mkIF(a);
  VS fv = bits(sym_choice("F", size_t(1) << n), n), fl; for (size_t i = 0; i < fv.size(); ++i) fl.push_back(sym_choice("lab", s.L[fv[i]]));
  g.fixVariables(fv.begin(), fv.end(), fl.begin()); Fac c; for (size_t i = 0; i < va.size(); ++i) if (std::find(fv.begin(), fv.end(), va[i]) == fv.end()) c.vars.push_back(va[i]); c.shape = lsh(s, c.vars);
  size_t q = prodS(c.shape); for (size_t k = 0; k < q; ++k) { VS d = digits(k, c.shape), x(n, 0); for (size_t i = 0; i < fv.size(); ++i) x[fv[i]] = fl[i]; for (size_t i = 0; i < c.vars.size(); ++i) x[c.vars[i]] = d[i]; c.t.push_back(facAt(a, x)); } checkF(g, c);
}
HARNESS(c07_build) {
  size_t n = sym_param("n", 3); Spec s; s.L = labs(n, sym_param("lab", 2)); VS va = bits(sym_choice("A", size_t(1) << n), n), vb = bits(sym_choice("B", size_t(1) << n), n); Rng r(-3, 3, 1); Fac a = drawFac(s, va, 0, false, r), b = drawFac(s, vb, 0, false, r); double k = sy("k", r);
  Gm2 gm; s.f.push_back(a); s.f.push_back(b); buildGm(gm, s); Fac c = b; c.t.assign(b.t.size(), k); Fac one = c; one.t.assign(b.t.size(), 1.0); Fac sc; sc.t = VD(1, k);
  { IF x; sc.t[0] = 1; checkF(x, sc); sc.t[0] = k; } { IF x(k); checkF(x, sc); }
  { IF x(b.vars.begin(), b.vars.end(), b.shape.begin(), b.shape.end()); checkF(x, one); } { IF x(b.vars.begin(), b.vars.end(), b.shape.begin(), b.shape.end(), k); checkF(x, c); }
  { IF x(gm, b.vars.begin(), b.vars.end(), k); checkF(x, c); } { IF x(gm[1]); checkF(x, b); }
  IF x = mkIF(a); IF y(x); checkF(y, a); if (y.numberOfVariables() == 0) { size_t z = 0; y(&z) = 9; } else { VS d(a.vars.size(), 0); y(d.begin()) = 9; } checkF(x, a);
  switch (sym_choice("how", 9)) {
    case 0: x.assign(k); checkF(x, sc); break; case 1: x.assign(b.vars.begin(), b.vars.end(), b.shape.begin(), b.shape.end()); checkF(x, one); break; case 2: x.assign(b.vars.begin(), b.vars.end(), b.shape.begin(), b.shape.end(), k); checkF(x, c); break;
    case 3: x.assign(gm, b.vars.begin(), b.vars.end(), k); checkF(x, c); break; case 4: x = mkIF(b); checkF(x, b); x = x; checkF(x, b); break; case 5: x = gm[1]; checkF(x, b); break; case 6: x = IF(k); checkF(x, sc); break;
    case 7: { VS o; x.variableIndices(std::back_inserter(o)); CHECKM(o == a.vars, "variable list"); VS o2; gm[1].variableIndices(std::back_inserter(o2)); CHECKM(o2 == b.vars, "variable list of a factor"); break; }
    case 8: { x.assign(gm, b.vars.begin(), b.vars.end()); CHECKM(x.numberOfVariables() == b.vars.size() && x.size() == prodS(b.shape), "shape after assign"); break; }
  }
  if (a.vars.size() == 1) { IF z = mkIF(a); for (size_t i = 0; i < a.shape[0]; ++i) { CHECKM(z(i) == a.t[i], "one index"); z(i) = k; CHECKM(z(i) == k, "write"); } }
  if (a.vars.size() == 2) { IF z = mkIF(a); const IF& cz = z; for (size_t i = 0; i < a.shape[0]; ++i) for (size_t j = 0; j < a.shape[1]; ++j) { CHECKM(cz(i, j) == a.t[i + j * a.shape[0]], "two indices"); z(i, j) = k; CHECKM(cz(i, j) == k, "write"); } }
  if (a.vars.size() == 3) { IF z = mkIF(a); const IF& cz = z; for (size_t i = 0; i < a.t.size(); ++i) { VS d = digits(i, a.shape); CHECKM(cz(d[0], d[1], d[2]) == a.t[i], "three indices"); z(d[0], d[1], d[2]) = k; CHECKM(cz(d[0], d[1], d[2]) == k, "write"); } }
}
