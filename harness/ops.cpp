// C08: operators, accumulators and functors
#include "gm_common.h"
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/operations/weightedoperations.hxx>
#include <opengm/operations/normalize.hxx>
#include <opengm/utilities/functors.hxx>
using namespace opengm;
typedef Gm2::IndependentFactorType IF;
template<class T> struct In { static T get(const char* n, int lo = -6, int hi = 6) { return T(sym_num(n, lo, hi, 2)); } static T pos(const char* n) { return T(sym_num(n, 1, 4, 1)); } };
template<> struct In<int> { static int get(const char* n, int lo = -6, int hi = 6) { return int(sym_i64(n, -1000, 1000)); } static int pos(const char* n) { return int(sym_i64(n, 1, 1000)); } };
template<> struct In<int64_t> { static int64_t get(const char* n, int lo = -6, int hi = 6) { return sym_i64(n, -1000, 1000); } static int64_t pos(const char* n) { return sym_i64(n, 1, 1000); } };
template<class OP, class T> T op3(T a, T b) { T o = T(77); OP::op(a, b, o); return o; }
template<class OP, class T> T iop3(T a, T b) { T o = T(77); OP::iop(a, b, o); return o; }
template<class OP, class T> T op2(T a, T b) { T o = b; OP::op(a, o); return o; }
template<class OP, class T> T iop2(T in, T out) { OP::iop(in, out); return out; }
// all calling forms of op give r; all forms of iop give q = "a minus b"
template<class OP, class T> void opForms(T a, T b, T r) { CHECKM((op3<OP, T>(a, b)) == r, "op, three arguments"); CHECKM((op2<OP, T>(a, b)) == r, "op, in place"); T o = b; OP::op(a, o, o); CHECKM(o == r, "op, result aliases the second operand"); CHECKM((op3<OP, T>(b, a)) == r, "op commutes"); CHECKM((op2<OP, T>(b, a)) == r, "op in place commutes"); }
template<class OP, class T> void iopForms(T a, T b, T q) { CHECKM((iop3<OP, T>(a, b)) == q, "inverse, three arguments"); CHECKM((iop2<OP, T>(b, a)) == q, "inverse, in place"); }
template<class OP, class T> void neutrals(T a) { T n = T(5); OP::neutral(n); CHECKM(n == (OP::template neutral<T>()), "neutral element forms"); CHECKM((op2<OP, T>(n, a)) == a && (op2<OP, T>(a, n)) == a && (op3<OP, T>(n, a)) == a && (op3<OP, T>(a, n)) == a, "neutral element"); T o = n; OP::op(a, o, o); CHECKM(o == a, "accumulating from the neutral element"); }
template<class OP, class T> void ineutrals(T a, bool both) { T n = T(5); OP::ineutral(n); CHECKM(n == (OP::template ineutral<T>()), "inverse neutral element forms"); if (both) { CHECKM((iop2<OP, T>(n, a)) == a && (iop3<OP, T>(a, n)) == a, "inverse neutral element"); } }
template<class T> void additive() { T a = In<T>::get("a"), b = In<T>::get("b"), c = In<T>::get("c"); 
  opForms<Adder, T>(a, b, a + b); iopForms<Adder, T>(a, b, a - b); neutrals<Adder, T>(a); ineutrals<Adder, T>(a, true); CHECKM((iop2<Adder, T>(b, op2<Adder, T>(a, b))) == a, "inverse undoes"); CHECKM((op3<Adder, T>(op3<Adder, T>(a, b), c)) == (op3<Adder, T>(a, op3<Adder, T>(b, c))), "associative"); CHECK(!Adder::hasbop());
  { T o = b; Adder::hop(a, o); CHECKM(o == a * b, "hop in place"); o = 3; Adder::hop(a, b, o); CHECKM(o == a * b, "hop"); }
  opForms<Integrator, T>(a, b, a + b); iopForms<Integrator, T>(a, b, a - b); neutrals<Integrator, T>(a); CHECKM((iop2<Integrator, T>(b, op2<Integrator, T>(a, b))) == a, "inverse undoes"); CHECK(!Integrator::hasbop() && !Integrator::bop(a, b) && !Integrator::ibop(a, b)); ineutrals<Integrator, T>(a, false);
}
template<class T> void multiplicative() { T a = In<T>::get("a"), b = In<T>::pos("b"), c = In<T>::get("c"); opForms<Multiplier, T>(a, b, a * b); neutrals<Multiplier, T>(a); ineutrals<Multiplier, T>(a, true); CHECK(!Multiplier::hasbop()); CHECKM((iop2<Multiplier, T>(b, op2<Multiplier, T>(a, b))) == a && (iop3<Multiplier, T>(op3<Multiplier, T>(a, b), b)) == a, "inverse undoes"); CHECKM((op3<Multiplier, T>(op3<Multiplier, T>(a, b), c)) == (op3<Multiplier, T>(a, op3<Multiplier, T>(b, c))), "associative"); }
HARNESS(c08_arith) { switch (sym_param("type", 0)) { case 0: additive<double>(); multiplicative<double>(); break; case 1: additive<float>(); break; case 2: additive<int>(); break; case 3: additive<int64_t>(); break; case 4: { int a = In<int>::get("a"), b = In<int>::pos("b"); opForms<Multiplier, int>(a, b, a * b); iopForms<Multiplier, int>(a, b, a / b); break; } case 5: { double a = In<double>::get("a"), b = In<double>::pos("b"); iopForms<Multiplier, double>(a, b, a / b); iopForms<Multiplier, double>(a, b, a / b); double o = b; Adder::ihop(b, o); CHECKM(o == 1, "ihop"); o = a; Adder::ihop(b, o); CHECKM(o == a / b, "ihop"); Adder::ihop(a, b, o); CHECKM(o == a / b, "ihop, three arguments"); break; } } }
template<class ACC, class T, bool MAX> void extremal() {
  T a = In<T>::get("a"), b = In<T>::get("b"), c = In<T>::get("c"); bool lt = MAX ? b < a : a < b; T best = lt ? a : b, worst = lt ? b : a;
  opForms<ACC, T>(a, b, best); iopForms<ACC, T>(a, b, worst); neutrals<ACC, T>(a); ineutrals<ACC, T>(a, true); CHECK(ACC::hasbop()); CHECKM((op2<ACC, T>(a, a)) == a, "idempotent"); CHECKM((op3<ACC, T>(op3<ACC, T>(a, b), c)) == (op3<ACC, T>(a, op3<ACC, T>(b, c))), "associative");
  bool ab = ACC::bop(a, b), ba = ACC::bop(b, a); CHECKM(ab == lt, "better"); CHECKM(ACC::ibop(a, b) == (MAX ? a < b : b < a), "worse"); CHECKM(!(ab && ba), "antisymmetric"); if (ab) CHECKM((op3<ACC, T>(a, b)) == a, "the better one is accumulated"); if (!ab && !ba) CHECKM(a == b, "ties are equal values"); CHECKM(!ACC::bop(a, a) && !ACC::ibop(a, a), "strict"); CHECKM(!(ab && ACC::bop(b, c)) || ACC::bop(a, c), "transitive");
  T n = ACC::template neutral<T>(); CHECKM(ACC::bop(a, n) && !ACC::bop(n, a), "everything is better than the neutral element"); T m = ACC::template ineutral<T>(); CHECKM(ACC::ibop(a, m) && ACC::bop(m, a), "everything is worse than the inverse neutral element");
}
HARNESS(c08_extremal) { switch (sym_param("type", 0)) { case 0: extremal<Minimizer, double, false>(); break; case 1: extremal<Maximizer, double, true>(); break; case 2: extremal<Minimizer, int, false>(); break; case 3: extremal<Maximizer, int, true>(); break; case 4: extremal<Minimizer, float, false>(); break; case 5: extremal<Maximizer, float, true>(); break; case 6: extremal<Minimizer, int64_t, false>(); break; case 7: extremal<Maximizer, int64_t, true>(); break; } }
HARNESS(c08_logic) {
  bool a = sym_choice("a", 2), b = sym_choice("b", 2); opForms<And, bool>(a, b, a && b); opForms<Or, bool>(a, b, a || b); neutrals<And, bool>(a); neutrals<Or, bool>(a); CHECK(Or::ineutral<bool>() == true); bool t; Or::ineutral(t); CHECK(t); CHECK(And::hasbop() && Or::hasbop());
  CHECK(And::bop(a, b) == (a && b)); CHECK(Or::bop(a, b) == (a || b)); CHECK(And::ibop(a, b) == !(a && b)); CHECK(Or::ibop(a, b) == !(a || b));
  uint64_t x = sym_u64("x", 0, ~uint64_t(0)), y = sym_u64("y", 0, ~uint64_t(0)); opForms<And, uint64_t>(x, y, x & y); opForms<Or, uint64_t>(x, y, x | y); CHECK((op2<Or, uint64_t>(Or::neutral<uint64_t>(), x)) == x); CHECK(And::bop(x, y) == ((x & y) != 0)); CHECK(Or::bop(x, y) == ((x | y) != 0)); CHECK(And::ibop(x, y) == ((x & y) == 0)); CHECK(Or::ibop(x, y) == ((x | y) == 0));
}
HARNESS(c08_lse) {
  double a = In<double>::get("a"), b = In<double>::get("b"); if (a == b) { CHECKM(fabs(op2<Logsumexp, double>(a, a) - (a + log(2.0))) < 1e-9 && fabs(op3<Logsumexp, double>(a, a) - (a + log(2.0))) < 1e-9, "equal operands"); return; } double mx = a < b ? b : a, mn = a < b ? a : b; double r = mx + log(1 + exp(mn - mx));
  double x = op2<Logsumexp, double>(a, b), y = op3<Logsumexp, double>(a, b); CHECKM(fabs(x - r) < 1e-9, "in place"); CHECKM(fabs(y - r) < 1e-9, "three arguments"); double o = b; Logsumexp::op(a, o, o); CHECKM(fabs(o - r) < 1e-9, "aliasing"); double q = iop3<Logsumexp, double>(a, b); if (mn < mx) { q = iop3<Logsumexp, double>(mx, mn); CHECKM(fabs(q - log(exp(mx) - exp(mn))) < 1e-9, "inverse"); }
  neutrals<Logsumexp, double>(a); ineutrals<Logsumexp, double>(a, false); CHECK(!Logsumexp::hasbop() && !Logsumexp::bop(a, b) && !Logsumexp::ibop(a, b));
}
// accumulation of a sequence with states
template<class ACC, class C, class T> void seq(T init, T (*f)(T, T)) {
  size_t n = 1 + sym_choice("n", sym_param("max", 4)); Accumulation<T, size_t, ACC> acc; CHECKM(acc.value() == ACC::template neutral<T>() && acc.neutral() == ACC::template neutral<T>() && acc.size() == 0, "empty accumulation");
  if (sym_param("again", 0)) { C s0(2); s0[0] = 8; s0[1] = 9; acc(In<T>::get("old"), s0); acc.clear(); CHECKM(acc.value() == ACC::template neutral<T>() && acc.size() == 0, "cleared"); }
  std::vector<T> v(n); T e = T(0); for (size_t i = 0; i < n; ++i) { v[i] = In<T>::get("v"); C s(2); s[0] = i; s[1] = 10 + i; acc(v[i], s); e = i ? f(e, v[i]) : v[i]; CHECKM(acc.value() == e, "value after each step"); CHECKM(acc.neutral() == ACC::template neutral<T>(), "neutral element"); }
  if (ACC::hasbop()) { CHECKM(acc.size() == 2, "length of the state"); size_t k = acc.state(0); CHECKM(k < n && acc.state(1) == 10 + k, "state was one of the given ones"); CHECKM(v[k] == acc.value(), "state attains the value"); for (size_t i = 0; i < n; ++i) CHECKM(!ACC::bop(v[i], v[k]), "nothing is better"); FastSequence<size_t> o; acc.state(o); CHECKM(o.size() == 2 && o[0] == k && o[1] == 10 + k, "state, sequence"); std::vector<size_t> p(7); acc.state(p); CHECKM(p.size() == 2 && p[0] == k && p[1] == 10 + k, "state, vector"); }
  Accumulation<T, size_t, ACC> b; AccumulationFunctor<ACC, T> g; AccumulationFunctor<ACC, T> h(v[0]); for (size_t i = 0; i < n; ++i) { b(v[i]); g(v[i]); if (i) h(v[i]); } CHECKM(b.value() == e && b.size() == 0, "without states"); CHECKM(g.value() == e && h.value() == e, "functor");
}
template<class T> static T mn(T a, T b) { return a < b ? a : b; } template<class T> static T mx(T a, T b) { return a > b ? a : b; } template<class T> static T sm(T a, T b) { return a + b; } template<class T> static T pr(T a, T b) { return a * b; }
template<> void seq<Adder, FastSequence<size_t>, double>(double, double (*f)(double, double)) { Accumulation<double, size_t, Adder> a; AccumulationFunctor<Adder, double> g; double e = 0; for (size_t i = 0; i < 4; ++i) { double v = In<double>::get("v"); a(v); g(v); e += v; CHECK(a.value() == e && g.value() == e); } a.clear(); CHECK(a.value() == 0 && a.neutral() == 0); }
template<> void seq<Multiplier, FastSequence<size_t>, double>(double, double (*f)(double, double)) { Accumulation<double, size_t, Multiplier> a; AccumulationFunctor<Multiplier, double> g; double e = 1; for (size_t i = 0; i < 3; ++i) { double v = In<double>::get("v"); a(v); g(v); e *= v; CHECK(a.value() == e && g.value() == e); } a.clear(); CHECK(a.value() == 1 && a.neutral() == 1); }
HARNESS(c08_seq) { typedef FastSequence<size_t> Q; typedef std::vector<size_t> W; switch (sym_param("k", 0)) { case 0: seq<Minimizer, Q, double>(0, mn<double>); break; case 1: seq<Maximizer, Q, double>(0, mx<double>); break; case 2: seq<Minimizer, W, double>(0, mn<double>); break; case 3: seq<Maximizer, W, double>(0, mx<double>); break; case 4: seq<Integrator, Q, double>(0, sm<double>); break; case 5: seq<Adder, Q, double>(0, sm<double>); break; case 6: seq<Minimizer, Q, int>(0, mn<int>); break; case 7: seq<Maximizer, W, int>(0, mx<int>); break; case 8: seq<Multiplier, Q, double>(0, pr<double>); break; } }
HARNESS(c08_functors) {
  size_t n = 1 + sym_choice("n", 4); VD v; for (size_t i = 0; i < n; ++i) v.push_back(In<double>::get("v"));
  { MinMaxFunctor<double> m; for (size_t i = 0; i < n; ++i) { m(v[i]); for (size_t j = 0; j <= i; ++j) CHECK(m.min() <= v[j] && m.max() >= v[j]); bool a = false, b = false; for (size_t j = 0; j <= i; ++j) { if (v[j] == m.min()) a = true; if (v[j] == m.max()) b = true; } CHECK(a && b); } }
  { double lo = v[0], hi = n > 1 ? v[1] : v[0]; sym_assume(lo <= hi); MinMaxFunctor<double> m(lo, hi); for (size_t i = 0; i < n; ++i) m(v[i]); for (size_t i = 0; i < n; ++i) CHECK(m.min() <= v[i] && v[i] <= m.max()); CHECK(m.min() <= lo && m.max() >= hi); }
  double a = In<double>::get("a"), b = In<double>::get("b"); std::minus<double> mi; SwapArgumemtFunctor<double, std::minus<double> > sw(mi), sw2(sw); CHECK(sw(a, b) == b - a && sw2(a, b) == b - a);
  BinaryToUnaryFunctor<double, std::minus<double>, true> L(a, mi), L2(L); CHECK(L(b) == a - b && L2(b) == a - b); BinaryToUnaryFunctor<double, std::minus<double>, false> R(a, mi), R2(R); CHECK(R(b) == b - a && R2(b) == b - a);
  PowFunctor<double> p(2), p2(p); CHECK(p(a) == a * a && p2(a) == a * a); VD o(n); CopyFunctor<VD::iterator> cp(o.begin()); for (size_t i = 0; i < n; ++i) cp(v[i]); for (size_t i = 0; i < n; ++i) CHECK(o[i] == v[i]);
}
static IF mk1(const VS& v, const VS& sh, const VD& t) { IF g(v.begin(), v.end(), sh.begin(), sh.end()); for (size_t i = 0; i < t.size(); ++i) { VS d = digits(i, sh); g(d.begin()) = t[i]; } return g; }
HARNESS(c08_weighted) {
  VS v = mkVS(1, 3), sh = mkVS(2, 2); size_t N = 4; VD a, b; int w = int(sym_choice("w", 4)); double W = sym_param("mul", 0) ? double(w) : sym_num("W", -4, 4, 2); bool mul = sym_param("mul", 0); for (size_t i = 0; i < N; ++i) { a.push_back(mul ? sym_num("a", 1, 3, 1) : In<double>::get("a")); b.push_back(mul ? sym_num("b", 1, 3, 1) : In<double>::get("b")); }
  if (mul) { for (size_t f = 0; f < 2; ++f) { IF x = mk1(v, sh, a), y = mk1(v, sh, b); if (f == 0) WeightedOperations::wop<Multiplier>(x, W, y); else { sym_assume(true); IF z = x; Multiplier::hop(W, z); y = z; } for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); double p = 1; for (int k = 0; k < w; ++k) p *= a[i]; CHECK(y(d.begin()) == (f ? p : p * b[i])); } IF u; Multiplier::hop(x, W, u); for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); double p = 1; for (int k = 0; k < w; ++k) p *= a[i]; CHECK(u(d.begin()) == p); } } return; }
  for (size_t f = 0; f < 6; ++f) {
    IF x = mk1(v, sh, a), y = mk1(v, sh, b), o = y; double s = a[0], t = b[0]; VD r(N); double rw = 2; 
    switch (f) {
      case 0: WeightedOperations::weightedMean<Adder>(x, y, W, o); WeightedOperations::weightedMean<Adder>(a[0], b[0], W, s); for (size_t i = 0; i < N; ++i) r[i] = W * a[i] + (1 - W) * b[i]; break;
      case 1: WeightedOperations::wop<Adder>(x, W, o); s = b[0]; WeightedOperations::wop<Adder>(a[0], W, s); for (size_t i = 0; i < N; ++i) r[i] = b[i] + W * a[i]; break;
      case 2: WeightedOperations::iwop<Adder>(x, rw, o); s = b[0]; WeightedOperations::iwop<Adder>(a[0], rw, s); for (size_t i = 0; i < N; ++i) r[i] = b[i] + a[i] / rw; break;
      case 3: WeightedOperations::wiop<Adder>(x, W, o); s = b[0]; WeightedOperations::wiop<Adder>(a[0], W, s); for (size_t i = 0; i < N; ++i) r[i] = b[i] - W * a[i]; break;
      case 4: WeightedOperations::iwiop<Adder>(x, rw, o); s = b[0]; WeightedOperations::iwiop<Adder>(a[0], rw, s); for (size_t i = 0; i < N; ++i) r[i] = b[i] - a[i] / rw; break;
      case 5: o = x; WeightedOperations::weightedMean<Adder>(o, y, W, o); s = a[0]; WeightedOperations::weightedMean<Adder>(s, b[0], W, s); for (size_t i = 0; i < N; ++i) r[i] = W * a[i] + (1 - W) * b[i]; break;
    }
    for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); CHECKM(o(d.begin()) == r[i], "factor"); CHECKM(x(d.begin()) == a[i] && y(d.begin()) == b[i], "operands unchanged"); } CHECKM(s == r[0], "scalar");
  }
}
HARNESS(c08_normalize) {
  VS v = mkVS(1, 3), sh = mkVS(2, 2); size_t N = 4; VD a; int k = sym_param("k", 0); for (size_t i = 0; i < N; ++i) a.push_back(k == 0 ? sym_num("a", 0, 6, 1) : In<double>::get("a")); IF x = mk1(v, sh, a);
  if (k == 0) { double s = a[0] + a[1] + a[2] + a[3]; Normalization::normalize<Integrator, Multiplier>(x); for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); if (s == 0) CHECK(x(d.begin()) == a[i]); else CHECK(x(d.begin()) * s == a[i]); } }
  if (k == 1) { double m = a[0]; for (size_t i = 1; i < N; ++i) m = a[i] < m ? a[i] : m; Normalization::normalize<Minimizer, Adder>(x); for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); CHECK(x(d.begin()) == a[i] - m); } }
  if (k == 2) { double m = a[0]; for (size_t i = 1; i < N; ++i) m = a[i] > m ? a[i] : m; Normalization::normalize<Maximizer, Adder>(x); for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); CHECK(x(d.begin()) == a[i] - m); } }
  if (k == 3) { double s = a[0] + a[1] + a[2] + a[3]; Normalization::normalize<Integrator, Adder>(x); for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); CHECK(x(d.begin()) == a[i] - s); } }
  if (k == 4) { double m = a[0]; for (size_t i = 1; i < N; ++i) m = a[i] < m ? a[i] : m; x.subtractOffset(); for (size_t i = 0; i < N; ++i) { VS d = digits(i, sh); CHECK(x(d.begin()) == a[i] - m); } IF s(a[0]); s.subtractOffset(); size_t z = 0; CHECK(s(&z) == 0); }
}
