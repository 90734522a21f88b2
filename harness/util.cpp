// C32: shape walkers, iterators, sorting, partitions, canonical view
#include "gm_common.h"
#include <opengm/utilities/indexing.hxx>
#include <opengm/utilities/sorting.hxx>
#include <opengm/utilities/subsequence_iterator.hxx>
#include <opengm/utilities/accessor_iterator.hxx>
#include <opengm/utilities/shape_accessor.hxx>
#include <opengm/utilities/tribool.hxx>
#include <opengm/utilities/partitions.hxx>
#include <opengm/utilities/canonical_view.hxx>
#include <opengm/utilities/unsigned_integer_pow.hxx>
using namespace opengm;
static void nextTuple(VS& c, const VS& s, size_t i = 0) { for (; i < s.size(); ++i) { if (++c[i] < s[i]) return; c[i] = 0; } }
static VS symShape(size_t d, size_t mx) { VS s; for (size_t i = 0; i < d; ++i) s.push_back(sym_u64("extent", 1, mx)); return s; }
HARNESS(c32_walk) {
  size_t d = sym_param("d", 2), mx = sym_param("max", 3); VS s = symShape(d, mx); size_t n = 1; for (size_t i = 0; i < d; ++i) n *= s[i];
  ShapeWalker<VS::iterator> w(s.begin(), d); VS e(d, 0);
  for (size_t r = 0; r < 2; ++r) {
    for (size_t k = 0; k < n; ++k) { CHECK(w.coordinateTuple().size() == d); size_t q = k; for (size_t i = 0; i < d; ++i) { CHECKM(w.coordinateTuple()[i] == q % s[i], "coordinate, first dimension fastest"); q /= s[i]; } if (k + 1 < n || sym_param("past", 0)) ++w; }
    w.reset(); for (size_t i = 0; i < d; ++i) CHECKM(w.coordinateTuple()[i] == 0, "reset");
  }
  if (d) { ShapeWalkerSwitchedOrder<VS::iterator> z(s.begin(), d); for (size_t k = 0; k < n; ++k) { size_t q = k; for (size_t i = d; i-- > 0;) { CHECKM(z.coordinateTuple()[i] == q % s[i], "coordinate, last dimension fastest"); q /= s[i]; } if (k + 1 < n) ++z; } }
}
HARNESS(c32_sub) {
  size_t d = sym_param("d", 3), mx = sym_param("max", 3); VS s = symShape(d, mx); size_t m = sym_choice("fixed", d + 1); VS fi, fv; std::vector<bool> fx(d, false);
  for (size_t i = 0; i < m; ++i) { size_t p = sym_choice("pos", d); sym_assume(!fx[p]); fx[p] = true; fi.push_back(p); uint64_t v = sym_u64("value", 0, mx - 1); sym_assume(v < s[p]); fv.push_back(v); }
  SubShapeWalker<VS::iterator, VS, VS> w(s.begin(), d, fi, fv); size_t n = 1; for (size_t i = 0; i < d; ++i) if (!fx[i]) n *= s[i]; CHECKM(w.subSize() == n, "number of free coordinate tuples");
  for (size_t r = 0; r < 2; ++r) {
    for (size_t k = 0; k < n; ++k) { size_t q = k; for (size_t i = 0; i < d; ++i) if (!fx[i]) { CHECKM(w.coordinateTuple()[i] == q % s[i], "free coordinate"); q /= s[i]; } for (size_t i = 0; i < m; ++i) CHECKM(w.coordinateTuple()[fi[i]] == fv[i], "fixed coordinate"); if (k + 1 < n) ++w; }
    w.resetCoordinate(); CHECKM(w.subSize() == n, "size again");
  }
}
HARNESS(c32_multi) {
  size_t d = sym_param("d", 3); VS s = symShape(d, sym_param("mx", 2)), ab; for (size_t i = 0; i < d; ++i) ab.push_back(2 * i + 1);
  VS pa, pb, a, b; size_t ma = 1 + sym_choice("A", (size_t(1) << d) - 1), mb = 1 + sym_choice("B", (size_t(1) << d) - 1); sym_assume((ma | mb) == (size_t(1) << d) - 1 || sym_param("any", 0));
  for (size_t i = 0; i < d; ++i) { if (ma >> i & 1) { pa.push_back(i); a.push_back(ab[i]); } if (mb >> i & 1) { pb.push_back(i); b.push_back(ab[i]); } }
  size_t n = 1; for (size_t i = 0; i < d; ++i) n *= s[i]; TripleShapeWalker<VS::iterator> t(s.begin(), d, ab, a, b); DoubleShapeWalker<VS::iterator> w(s.begin(), d, ab, a);
  VS c(d, 0);
  for (size_t k = 0; k < n; ++k) {
    for (size_t i = 0; i < d; ++i) { CHECK(t.coordinateTupleAB()[i] == c[i]); CHECK(w.coordinateTupleAB()[i] == c[i]); }
    for (size_t i = 0; i < pa.size(); ++i) { CHECK(t.coordinateTupleA()[i] == c[pa[i]]); CHECK(w.coordinateTupleA()[i] == c[pa[i]]); } for (size_t i = 0; i < pb.size(); ++i) CHECK(t.coordinateTupleB()[i] == c[pb[i]]);
    ++t; ++w; nextTuple(c, s);
  }
  for (size_t i = 0; i < d; ++i) CHECKM(t.coordinateTupleAB()[i] == 0 && w.coordinateTupleAB()[i] == 0, "back at the start");
}
// a random access iterator over at(0..n-1); p0 = iterator at position 0
template<class IT, class AT> void raIter(IT p0, size_t n, AT at) {
  size_t i = sym_choice("i", n + 1), j = sym_choice("j", n + 1); IT a = p0 + i, b(p0), z; b = p0; for (size_t k = 0; k < j; ++k) if (k % 2) ++b; else b++; z = b; const IT ca(a), cb(b);
  CHECK((ca == cb) == (i == j)); CHECK((ca != cb) == (i != j)); CHECK((ca < cb) == (i < j)); CHECK((ca > cb) == (i > j)); CHECK((ca <= cb) == (i <= j)); CHECK((ca >= cb) == (i >= j)); CHECK(std::ptrdiff_t(cb - ca) == std::ptrdiff_t(j) - std::ptrdiff_t(i)); CHECK(z == b);
  if (i < n) { CHECKM(*a == at(i), "*it"); CHECKM(*ca == at(i), "*const it"); CHECKM(a[0] == at(i) && ca[0] == at(i), "it[0]"); if (j <= i) { CHECKM(cb[i - j] == at(i), "it[n]"); CHECKM(b[i - j] == at(i), "it[n]"); IT c = cb + (i - j); CHECKM(*c == at(i), "it+n"); c -= i - j; CHECK(c == b); c += i - j; CHECK(*c == at(i)); IT e = ca - (i - j); CHECK(e == b); } }
  if (i < n) { IT c(a); IT o = c++; CHECK(o == a && std::ptrdiff_t(c - a) == 1); IT o2 = c--; CHECK(std::ptrdiff_t(o2 - a) == 1 && c == a); IT o3 = ++c; CHECK(std::ptrdiff_t(o3 - a) == 1); IT o4 = --c; CHECK(o4 == a && c == a); }
}
HARNESS(c32_subseq) {
  size_t n = sym_param("n", 3), m = sym_param("m", 3); VD v; for (size_t i = 0; i < n; ++i) v.push_back(sym_num("v", -9, 9, 2)); VS id; for (size_t i = 0; i < m; ++i) id.push_back(sym_u64("index", 0, n - 1));
  typedef SubsequenceIterator<VD::const_iterator, VS::const_iterator> I; const VD& cv = v; const VS& ci = id; size_t st = sym_choice("start", m + 1); I p(cv.begin(), ci.begin(), st); I q; q = p;
  raIter(I(cv.begin(), ci.begin()), m, [&](size_t k) { return v[id[k]]; }); if (st < m) { CHECK(*q == v[id[st]]); CHECK(*(q.operator->()) == v[id[st]]); }
}
template<class A, class AT> void accIt(const A& a, size_t n, AT at) { CHECKM(size_t(a.size()) == n, "size"); A c(a); for (size_t i = 0; i < n; ++i) { CHECKM(a[i] == at(i), "accessor"); CHECKM(c[i] == at(i), "accessor (non-const)"); } CHECK(c == a); AccessorIterator<A, true> it(a); { const AccessorIterator<A, true> k(a); CHECKM(std::is_reference<decltype(a[0])>::value || !std::is_reference<decltype(*k)>::value, "reference to a temporary"); } raIter(it, n, at); AccessorIterator<A, true> e(a, n), x = it + n; CHECK(e == x); if (n) { x = 1 + it; CHECK(size_t(x - it) == 1); } }
HARNESS(c32_accessor) {
  Spec s; s.L = labs(4, 2); VS v; size_t m = sym_choice("set", 8); for (size_t i = 0; i < 3; ++i) if (m >> i & 1) v.push_back(i + 1); VS v0 = mkVS(0); s.f.push_back(fExpl(s, v0, Rng(0, 0, 1))); s.f.push_back(fExpl(s, v, Rng(0, 0, 1))); Gm2 gm; buildGm(gm, s); typedef Gm2::FactorType F; const F& f = gm[1]; VS l; for (size_t i = 0; i < 4; ++i) l.push_back(sym_u64("l", 0, s.L[i] - 1)); size_t n = v.size();
  switch (sym_param("k", 0)) {
   case 0: { FactorVariablesAccessor<F> a(f); accIt(a, n, [&](size_t i) { return v[i]; }); FactorVariablesAccessor<F> z; CHECK(z.size() == 0); CHECK(!(z == a)); break; }
   case 1: { FactorShapeAccessor<F> a(f); accIt(a, n, [&](size_t i) { return s.L[v[i]]; }); FactorShapeAccessor<F> z; CHECK(z.size() == 0); CHECK(!(z == a)); break; }
   case 2: { const ExplicitFunction<double>& g = f.function<0>(); typedef FunctionShapeAccessor<ExplicitFunction<double> > A; A a(g); accIt(a, n, [&](size_t i) { return s.L[v[i]]; }); A z; CHECK(z.size() == 0); break; }
   case 3: { typedef SubsetAccessor<VS::const_iterator, VS::const_iterator> A; const VS& cv = v; const VS& cl = l; A a(cv.begin(), cv.end(), cl.begin()); accIt(a, n, [&](size_t i) { return l[v[i]]; }); break; }
   case 4: { typedef GmLabelFactorLabelAccessor<F, VS::const_iterator> A; const VS& cl = l; A a(f, cl.begin()); accIt(a, n, [&](size_t i) { return l[v[i]]; }); A z; CHECK(z.size() == 0); CHECK(!(z == a)); break; }
   case 5: { for (size_t i = 0; i < n; ++i) CHECK(f.variableIndicesBegin()[i] == v[i] && f.shapeBegin()[i] == s.L[v[i]]); CHECK(size_t(f.variableIndicesEnd() - f.variableIndicesBegin()) == n && size_t(f.shapeEnd() - f.shapeBegin()) == n); const F::ShapeIteratorType b = f.shapeBegin(); raIter(b, n, [&](size_t i) { return s.L[v[i]]; }); break; }
  }
}
HARNESS(c32_sort) {
  size_t n = sym_param("n", 3); VD a, b; for (size_t i = 0; i < n; ++i) { a.push_back(sym_num("a", -4, 4, 2)); b.push_back(sym_num("b", -4, 4, 2)); } VD x(a), y(b);
  bool so = true; for (size_t i = 1; i < n; ++i) so = so & (a[i - 1] <= a[i]); CHECKM(isSorted(a.begin(), a.end()) == so, "isSorted");
  doubleSort(x.begin(), x.end(), y.begin()); for (size_t i = 1; i < n; ++i) CHECKM(x[i - 1] <= x[i], "sorted by the first sequence"); CHECKM(isSorted(x.begin(), x.end()), "isSorted after sorting");
  for (size_t i = 0; i < n; ++i) { size_t p = 0, q = 0; for (size_t j = 0; j < n; ++j) { p += sym_ite_u((a[j] == a[i]) & (b[j] == b[i]), 1, 0); q += sym_ite_u((x[j] == a[i]) & (y[j] == b[i]), 1, 0); } CHECKM(p == q, "pairs stay together"); }
  for (size_t i = 0; i < n; ++i) CHECK(iteratorAt(x.begin(), i) == x[i]);
}
HARNESS(c32_find) {
  size_t n = sym_param("n", 3); std::vector<uint64_t> v; for (size_t i = 0; i < n; ++i) { v.push_back(sym_u64("v", 0, 6)); if (i) sym_assume(v[i - 1] <= v[i]); } uint64_t t = sym_u64("t", 0, 6); size_t pos = 77; bool r = findInSortedSequence(v.begin(), n, t, pos); bool e = false; size_t ep = 77; for (size_t i = n; i-- > 0;) if (v[i] == t) { e = true; ep = i; }
  CHECKM(r == e, "found"); CHECKM(pos == ep, "position"); std::vector<uint64_t> c(v); bool eq = true; for (size_t i = 1; i < n; ++i) eq = eq & (v[i] == v[0]); CHECK(isEqualValueVector(c) == eq);
}
HARNESS(c32_pow) { uint64_t b = sym_u64("b", 0, 9); size_t e = sym_choice("e", 8); uint64_t r = 1; for (size_t i = 0; i < e; ++i) r *= b; CHECK(unsignedIntegerPow(b, e) == r); }
static void isTri(const Tribool& t, int v) {
  CHECK((t == true) == (v == 1)); CHECK((t == false) == (v == 0)); CHECK((t != true) == (v != 1)); CHECKM((t != false) == (v != 0), "t != false"); CHECK(t.maybe() == (v == -1)); CHECK(bool(t) == (v == 1)); CHECK((!t) == (v == 0));
  CHECK((t == Tribool::True) == (v == 1)); CHECK((t == Tribool::False) == (v == 0)); CHECK((t == Tribool::Maybe) == (v == -1)); CHECK((t == 1) == (v == 1)); CHECK((t == 0) == (v == 0)); CHECK((t == -1) == (v == -1));
}
HARNESS(c32_tribool) {
  int i = int(sym_i64("i", -1, 1)), j = int(sym_i64("j", -1, 1)), k = int(sym_i64("k", -1, 1)); Tribool::State sj = Tribool::State(j); Tribool a(i), b(sj), c, d(a); isTri(a, i); isTri(b, j); isTri(c, -1); isTri(d, i); c = j; isTri(c, j); c = Tribool::State(k); isTri(c, k); c = a; isTri(c, i); c = c; isTri(c, i);
  bool q = k == 1; Tribool e(q); isTri(e, q); e = Tribool::Maybe; isTri(e, -1); e = q; isTri(e, q); int w = int(sym_i64("w", 2, 9)); Tribool f(w); isTri(f, 1);
  a &= sj; isTri(a, (i == 0 || j == 0) ? 0 : (j == 1) ? 1 : i); isTri(d, i);
}
// a labelling identifies the partition whose index it maps to
HARNESS(c32_partitions) {
  size_t N = sym_param("N", 3); Partitions<size_t, size_t> P; if (sym_param("pre", 0)) P.resize(sym_param("pre", 0)); static const size_t bell[7] = {1, 1, 2, 5, 15, 52, 203}; CHECK(P.BellNumber(N) == bell[N]);
  VS l, m; for (size_t i = 0; i < N; ++i) { l.push_back(sym_u64("l", 0, N - 1)); m.push_back(sym_u64("m", 0, N - 1)); } bool two = sym_param("two", 0); bool same = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) same = same & ((l[i] == l[j]) == (m[i] == m[j]));
  size_t a = P.label2Index(l), a2 = P.label2Index(l.begin(), N); CHECK(a == a2); CHECKM(a < bell[N], "index in range"); CHECK(P.label2Number(l) == P.label2Number(l.begin(), N)); CHECK(P.getPartition(a) == P.label2Number(l)); CHECK(P.number2Index(P.label2Number(l)) == a);
  if (two) { size_t b = P.label2Index(m); CHECKM((a == b) == same, "same index iff same partition"); }
  else { VS r(N, 99); P.getPartition(a, r); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) CHECKM((r[i] == r[j]) == (l[i] == l[j]), "partition of the index"); }
}
template<class GM, canonical_view::CloneOption C> void canonBody() {
  Spec s; s.L = labs(3, sym_param("lab", 2)); size_t m = sym_param("m", 3); Rng r(-2, 2, 1); for (size_t i = 0; i < m; ++i) { size_t b = sym_choice("vars", 8); VS v; for (size_t j = 0; j < 3; ++j) if (b >> j & 1) v.push_back(j); sym_assume(v.size() < 3 || sym_param("third", 0)); if (v.size() == 2 && i == 1) { double e = sy("e", r), n = sy("n", r); s.f.push_back(fPotts(s, v[0], v[1], e, n)); } else s.f.push_back(fExpl(s, v, r)); }
  GM gm; buildGm(gm, s); if (sym_param("share", 0) && m) { const Fac f = s.f[0]; typename GM::FunctionIdentifier id(gm[0].functionIndex(), gm[0].functionType()); gm.addFactor(id, f.vars.begin(), f.vars.end()); s.f.push_back(f); }
  CanonicalView<GM, C> cv(gm); CHECK(cv.numberOfVariables() == 3); for (size_t i = 0; i < 3; ++i) CHECK(cv.numberOfLabels(i) == s.L[i]);
  size_t un[3] = {0, 0, 0}; for (size_t i = 0; i < cv.numberOfFactors(); ++i) { if (cv[i].numberOfVariables() == 1) ++un[cv[i].variableIndex(0)]; for (size_t j = 0; j < i; ++j) { bool eq = cv[i].numberOfVariables() == cv[j].numberOfVariables(); for (size_t k = 0; eq && k < cv[i].numberOfVariables(); ++k) eq = cv[i].variableIndex(k) == cv[j].variableIndex(k); CHECKM(!eq, "one factor per set of variables"); } }
  for (size_t i = 0; i < 3; ++i) CHECKM(un[i] == 1, "one unary factor per variable"); VS x = anyLab(s.L); CHECKM(cv.evaluate(x.begin()) == gm.evaluate(x.begin()), "value"); CHECK(cv.evaluate(x.begin()) == energyOf<GM>(s, x));
}
HARNESS(c32_canonical) {
  switch (sym_param("k", 0)) { case 0: canonBody<Gm2, canonical_view::CloneNever>(); break; case 1: canonBody<Gm2, canonical_view::CloneViews>(); break; case 2: canonBody<Gm2, canonical_view::CloneDeep>(); break; case 3: canonBody<Gm2M, canonical_view::CloneNever>(); break; case 4: canonBody<Gm2M, canonical_view::CloneDeep>(); break; }
}
