// C23: multi-dimensional arrays and views address the right elements
#include "gm_common.h"
#include <opengm/datastructures/marray/marray.hxx>
using marray::View; using marray::Marray; using marray::CoordinateOrder; using marray::FirstMajorOrder; using marray::LastMajorOrder;
typedef View<double> V; typedef View<double, true> CV; typedef Marray<double> M;
// reference: the place in the buffer of every coordinate tuple (first coordinate fastest), and the order of scalar indices
struct RV { VS shape; CoordinateOrder ord; VS addr; size_t size() const { return addr.size(); } size_t at(const VS& y) const { return addr[flat(y, shape)]; } VS coord(size_t i) const { VS y(shape.size()); if (ord == LastMajorOrder) for (size_t j = 0; j < shape.size(); ++j) { y[j] = i % shape[j]; i /= shape[j]; } else for (size_t j = shape.size(); j-- > 0;) { y[j] = i % shape[j]; i /= shape[j]; } return y; } size_t index(size_t i) const { return at(coord(i)); } };
template<class F> static RV remap(const RV& r, const VS& shape, F f) { RV q; q.shape = shape; q.ord = r.ord; q.addr.assign(prodS(shape), 0); forLab(shape, [&](const VS& y) { q.addr[flat(y, shape)] = r.at(f(y)); }); return q; }
static RV fresh(const VS& shape, CoordinateOrder ext, CoordinateOrder in) { RV q; q.shape = shape; q.ord = ext; q.addr.assign(prodS(shape), 0); for (size_t i = 0; i < q.size(); ++i) q.addr[flat(q.coord(i), shape)] = i; q.ord = in; return q; }
static VS startShape() { switch (sym_param("shape", 0)) { case 0: return mkVS(2, 3); case 1: return mkVS(3, 2); case 2: return mkVS(3); case 3: return mkVS(2, 1, 2); case 4: return mkVS(2, 3, 2); case 5: return mkVS(1, 3); case 6: return mkVS(1); case 7: return mkVS(2, 2); case 8: { VS s = mkVS(2, 1, 2); s.push_back(2); return s; } case 9: return mkVS(3, 1); case 10: return mkVS(1, 2, 1); case 11: { VS s = mkVS(1, 2, 1); s.push_back(2); s.push_back(1); return s; } } return VS(); }
static CoordinateOrder order(const char* n) { return sym_param(n, 0) ? FirstMajorOrder : LastMajorOrder; }
static VD values(size_t n) { VD d; for (size_t i = 0; i < n; ++i) d.push_back(sym_num("x", -9, 9, 1)); return d; }
static VS zed(const VS& y) { VS z(y); z.push_back(0); return z; }
// one operation on a view
template<class W> static void step(W& v, RV& r) {
  switch (sym_choice("op", 8)) {
   case 0: { VS b, s; for (size_t n : r.shape) { b.push_back(sym_choice("base", n)); s.push_back(1 + sym_choice("len", n - b.back())); } RV q = remap(r, s, [&](VS y) { for (size_t j = 0; j < y.size(); ++j) y[j] += b[j]; return y; }); if (sym_choice("withOrder", 2)) { q.ord = q.ord == LastMajorOrder ? FirstMajorOrder : LastMajorOrder; W w; v.view(b.begin(), s.begin(), q.ord, w); v.assign(); v = w; } else { W w = v.view(b.begin(), s.begin()); v.assign(); v = w; } r = q; break; }
   case 1: { if (r.shape.empty()) sym_discard(); size_t d = sym_choice("dim", r.shape.size()), k = sym_choice("value", r.shape[d]); VS s(r.shape); s.erase(s.begin() + d); r = remap(r, s, [&](VS y) { y.insert(y.begin() + d, k); return y; }); W w = v.boundView(d, k); v.assign(); v = w; break; }
   case 2: { if (r.shape.empty()) sym_discard(); VS p, s; for (size_t j = 0; j < r.shape.size(); ++j) p.push_back(j); for (size_t j = 0; j + 1 < p.size(); ++j) std::swap(p[j], p[j + sym_choice("perm", p.size() - j)]); for (size_t j : p) s.push_back(r.shape[j]); RV q = remap(r, s, [&](const VS& y) { VS z(y); for (size_t j = 0; j < y.size(); ++j) z[p[j]] = y[j]; return z; }); if (sym_param("copy", 0)) { W w = v.permutedView(p.begin()); v.assign(); v = w; } else v.permute(p.begin()); r = q; break; }
   case 3: { if (r.shape.empty()) sym_discard(); size_t a = sym_choice("a", r.shape.size()), b = sym_choice("b", r.shape.size()); VS s(r.shape); std::swap(s[a], s[b]); r = remap(r, s, [&](VS y) { std::swap(y[a], y[b]); return y; }); if (sym_param("copy", 0)) { W w = v.transposedView(a, b); v.assign(); v = w; } else v.transpose(a, b); break; }
   case 4: { if (r.shape.empty()) sym_discard(); VS s(r.shape.rbegin(), r.shape.rend()); r = remap(r, s, [&](const VS& y) { return VS(y.rbegin(), y.rend()); }); if (sym_param("copy", 0)) { W w = v.transposedView(); v.assign(); v = w; } else v.transpose(); break; }
   case 5: { if (r.shape.empty()) sym_discard(); int n = r.shape.size(), k = (int)sym_choice("shift", 9) - 4; VS s(n); auto to = [&](int j) { return (size_t)(((j + k) % n + n) % n); }; for (int j = 0; j < n; ++j) s[to(j)] = r.shape[j]; r = remap(r, s, [&](const VS& y) { VS z(n); for (int j = 0; j < n; ++j) z[j] = y[to(j)]; return z; }); if (sym_param("copy", 0)) { W w = v.shiftedView(k); v.assign(); v = w; } else v.shift(k); break; }
   case 6: { VS s; for (size_t n : r.shape) if (n != 1) s.push_back(n); RV old = r; r = remap(r, s, [&](const VS& y) { VS z; size_t k = 0; for (size_t n : old.shape) z.push_back(n == 1 ? 0 : y[k++]); return z; }); if (sym_param("copy", 0)) { W w = v.squeezedView(); v.assign(); v = w; } else v.squeeze(); break; }
   case 7: { if (!v.isSimple()) sym_discard(); VS s; size_t n = r.size(); size_t a = 1 + sym_choice("first", n); if (n % a) sym_discard(); switch (sym_choice("kind", 3)) { case 0: s = mkVS(a, n / a); break; case 1: s = mkVS(n); if (a > 1) sym_discard(); break; case 2: s = mkVS(1, a, n / a); break; } RV q = fresh(s, r.ord, r.ord); for (size_t& z : q.addr) z = r.index(z); r = q; if (sym_param("copy", 0)) { W w = v.reshapedView(s.begin(), s.end()); v.assign(); v = w; } else v.reshape(s.begin(), s.end()); break; }
  }
}
template<class IT, class W> static void walk(W& v, const RV& r, const double* base) {
  size_t n = r.size(); IT it = v.begin(), e = v.end(); for (size_t i = 0; i < n; ++i, ++it) { CHECKM(it != e && it < e && it.hasMore() && it.index() == i && e - it == (ptrdiff_t)(n - i), "iterator position"); CHECKM(&*it == base + r.index(i), "element of an iterator"); VS c(r.shape.size() + 1); if (r.shape.size()) { it.coordinate(c.begin()); c.pop_back(); CHECKM(c == r.coord(i), "coordinates of an iterator"); } }
  CHECKM(it == e && !it.hasMore() && !(it < e) && it <= e && it >= e, "end"); for (size_t i = n; i-- > 0;) { --it; CHECKM(it.index() == i && &*it == base + r.index(i), "element of an iterator going back"); IT q = it; CHECKM(&*(q++) == base + r.index(i) && q.index() == i + 1, "post-increment"); q--; CHECKM(q == it && &*q == base + r.index(i), "post-decrement"); }
  for (size_t i = 0; i <= n; ++i) { IT a = v.begin(); for (size_t k = 0; k < i; ++k) ++a; for (size_t j = 0; j <= n; ++j) { IT q = a; q += (ptrdiff_t)j - (ptrdiff_t)i; CHECKM(q.index() == j && q - a == (ptrdiff_t)j - (ptrdiff_t)i && (q > a) == (j > i), "a jump"); if (j < n) { CHECKM(&*q == base + r.index(j), "element after a jump"); IT z = q; ++z; if (j + 1 < n) CHECKM(&*z == base + r.index(j + 1), "element after a jump and a step"); } if (j > 0) { IT z = q; --z; CHECKM(&*z == base + r.index(j - 1), "element after a jump and a step back"); if (r.shape.size()) { VS c(r.shape.size() + 1); z.coordinate(c.begin()); c.pop_back(); CHECKM(c == r.coord(j - 1), "coordinates after a jump and a step back"); } if (j > 1) { --z; CHECKM(&*z == base + r.index(j - 2), "element after a jump and two steps back"); } } q = a - ((ptrdiff_t)i - (ptrdiff_t)j); if (j >= i) q = a + (ptrdiff_t)(j - i); CHECKM(q.index() == j, "a jump"); if (j < n && i <= j) CHECKM(&a[j - i] == base + r.index(j), "element at a distance"); } }
}
template<class W> static void judge(W& v, const RV& r, const double* base) {
  const W& c = v; size_t n = r.shape.size(); CHECKM(c.dimension() == n && c.size() == r.size() && c.coordinateOrder() == r.ord, "shape of the view"); for (size_t j = 0; j < n; ++j) CHECKM(c.shape(j) == r.shape[j] && c.shapeBegin()[j] == r.shape[j], "shape of the view"); CHECK((size_t)(c.shapeEnd() - c.shapeBegin()) == n && (size_t)(c.stridesEnd() - c.stridesBegin()) == n);
  forLab(r.shape, [&](const VS& y) { const double* p = base + r.at(y); VS z = zed(y); CHECKM(&c(z.begin()) == p && &v(z.begin()) == p, "element at coordinates"); if (n == 2) CHECKM(&c(y[0], y[1]) == p && &v(y[0], y[1]) == p, "element at coordinates"); if (n == 3) CHECKM(&c(y[0], y[1], y[2]) == p && &v(y[0], y[1], y[2]) == p, "element at coordinates"); if (n == 4) CHECKM(&c(y[0], y[1], y[2], y[3]) == p, "element at coordinates"); if (n == 5) CHECKM(&c(y[0], y[1], y[2], y[3], y[4]) == p, "element at coordinates"); size_t off, idx; c.coordinatesToOffset(z.begin(), off); CHECKM(&c(0) + off == p, "offset of coordinates"); c.coordinatesToIndex(z.begin(), idx); if (n) CHECKM(r.coord(idx) == y, "index of coordinates"); else CHECK(idx == 0); });
  for (size_t i = 0; i < r.size(); ++i) { CHECKM(&c(i) == base + r.index(i) && &v(i) == base + r.index(i), "element at a scalar index"); size_t off; c.indexToOffset(i, off); CHECK(&c(0) + off == base + r.index(i)); if (n) { VS y(n); c.indexToCoordinates(i, y.begin()); CHECKM(y == r.coord(i), "coordinates of an index"); } }
  bool simple = true; for (size_t i = 0; i < r.size(); ++i) simple = simple && r.index(i) == r.index(0) + i; if (c.isSimple()) CHECKM(simple, "a view called simple is contiguous in its order"); { bool packed = true; size_t k = 1; for (size_t i = 0; i < n; ++i) { size_t j = r.ord == LastMajorOrder ? i : n - 1 - i; packed = packed && c.strides(j) == k; k *= r.shape[j]; } if (n != 1 || sym_param("ext", 0) == sym_param("in", 0)) CHECKM(c.isSimple() == packed, "a view is simple exactly when its strides are those of its shape"); }
  if (sym_param("walk", 1) == 2) return; walk<typename W::iterator>(v, r, base); walk<typename W::const_iterator>(c, r, base); size_t i = r.size(); for (typename W::reverse_iterator it = v.rbegin(); it != v.rend(); ++it) { --i; CHECKM(&*it == base + r.index(i), "reverse iterator"); } CHECK(i == 0); i = r.size(); for (typename W::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { --i; CHECKM(&*it == base + r.index(i), "reverse iterator"); } CHECK(i == 0);
}
// any sequence of view operations: the view addresses the elements the operations define, and a write reaches that element only
HARNESS(c23_views) {
  VS s = startShape(); CoordinateOrder ext = order("ext"), in = order("in"); size_t pad = sym_param("pad", 1); VD d = values(prodS(s) + 2 * pad), old; V v(s.begin(), s.end(), d.data() + pad, ext, in); RV r = fresh(s, ext, in);
  for (size_t t = 0; t < (size_t)sym_param("steps", 1); ++t) step(v, r); if (sym_param("walk", 1)) judge(v, r, d.data() + pad); if (sym_param("walk", 1) == 2) { sym_obs_d(d[0]); return; }
  old = d; VS y; for (size_t n : r.shape) y.push_back(sym_u64("y", 0, n - 1)); VS z = zed(y); double x = sym_num("w", -9, 9, 1); size_t hit = 0; double was = 0; forLab(r.shape, [&](const VS& q) { bool same = true; for (size_t j = 0; j < q.size(); ++j) same &= q[j] == y[j]; hit = sym_ite_u(same, pad + r.at(q), hit); was = sym_ite_d(same, old[pad + r.at(q)], was); }); const V& c = v; CHECKM(c(z.begin()) == was, "value read at coordinates"); v(z.begin()) = x; for (size_t i = 0; i < d.size(); ++i) { double e = sym_ite_d(hit == i, x, old[i]); CHECKM(d[i] == e, "a write reaches the element it denotes and no other"); } sym_obs_d(x);
}
HARNESS(c23_const) { VS s = startShape(); CoordinateOrder ext = order("ext"), in = order("in"); VD d = values(prodS(s)); CV v(s.begin(), s.end(), d.data(), ext, in); RV r = fresh(s, ext, in); V w(s.begin(), s.end(), d.data(), ext, in); { VS b(s.size(), 0), q; for (size_t n : s) { b[q.size()] = sym_choice("base", n); q.push_back(1 + sym_choice("len", n - b[q.size()])); } RV p = remap(r, q, [&](VS y) { for (size_t j = 0; j < y.size(); ++j) y[j] += b[j]; return y; }); CV u; if (sym_choice("o", 2)) { p.ord = FirstMajorOrder; w.constView(b.begin(), q.begin(), FirstMajorOrder, u); } else u = w.constView(b.begin(), q.begin()); judge(u, p, d.data()); CV z(w); judge(z, r, d.data()); M m(u), k; k = u; for (size_t i = 0; i < p.size(); ++i) CHECKM(m(i) == d[p.index(i)] && k(i) == d[p.index(i)], "copy of a constant view"); w = d[0]; for (size_t i = 0; i < p.size(); ++i) CHECK(m(i) != d[0] + 100); sym_obs_d(m(0)); } step(v, r); judge(v, r, d.data()); }
// assignments and arithmetic between views, with and without a common buffer
static void expect(const VD& d, const VD& e) { for (size_t i = 0; i < d.size(); ++i) { CHECKM(d[i] == e[i], "every element has the value the operation defines"); sym_obs_d(d[i]); } }
HARNESS(c23_assign) {
  VS s = startShape(); bool alias = sym_param("alias", 0); VD d = values(prodS(s) + (alias ? sym_param("extra", 0) : 0)), d2 = alias ? d : values(prodS(s)); CoordinateOrder o1 = order("o1"), o2 = order("o2"); V v(s.begin(), s.end(), d.data(), order("e1"), o1); RV r = fresh(s, order("e1"), o1); double* base2 = alias ? d.data() + sym_param("extra", 0) : d2.data(); V w(s.begin(), s.end(), base2, order("e2"), o2); RV q = fresh(s, order("e2"), o2); if (alias) for (size_t& a : q.addr) a += sym_param("extra", 0);
  if (sym_param("pre", 1)) step(v, r); if (sym_param("pre", 1) > 1) step(w, q); if (q.shape != r.shape) { if (sym_param("tr", 0) && q.shape.size() == 2 && r.shape.size() == 2 && q.shape[0] == r.shape[1] && q.shape[1] == r.shape[0]) { w.transpose(); VS z(q.shape.rbegin(), q.shape.rend()); q = remap(q, z, [&](const VS& y) { return VS(y.rbegin(), y.rend()); }); } else { VS b(q.shape.size(), 0); if (r.shape.size() != q.shape.size()) sym_discard(); for (size_t j = 0; j < b.size(); ++j) if (r.shape[j] > q.shape[j]) sym_discard(); V u = w.view(b.begin(), r.shape.begin()); w.assign(); w = u; q = remap(q, r.shape, [&](const VS& y) { return y; }); } }
  const VD& src = alias ? d : d2; VD before(src), e(d); auto each = [&](const std::function<double(double, double)>& f) { VD o(d); forLab(r.shape, [&](const VS& y) { e[r.at(y)] = f(o[r.at(y)], before[q.at(y)]); }); }; double x = sym_num("k", -3, 3, 1);
  switch (sym_param("what", 0)) {
   case 0: { each([&](double, double b) { return b; }); v = w; break; }
   case 1: { each([&](double a, double b) { return a + b; }); v += w; break; }
   case 2: { each([&](double a, double b) { return a - b; }); v -= w; break; }
   case 3: { each([&](double a, double b) { return b - a + x; }); v = w - v + x; break; }
   case 4: { each([&](double, double) { return x; }); v = x; break; }
   case 5: { each([&](double a, double) { return a * 2 + 1 - x; }); v *= 2; ++v; v -= x; break; }
   case 6: { each([&](double a, double b) { return -a * 2 + (1 + b) / 2; }); v = -v * 2 + (1 + w) / 2; break; }
   case 7: { each([&](double, double b) { return b; }); CV u(w); v = u; break; }
   case 8: { M m(w); CHECKM(m.isSimple() && m.coordinateOrder() == q.ord && m.size() == q.size(), "copy"); forLab(q.shape, [&](const VS& y) { VS z = zed(y); CHECKM(m(z.begin()) == before[q.at(y)], "element of the copy"); }); M k(v); w = m; k = w; M l; l = w; M n(w + v); M o; o = v - w; forLab(q.shape, [&](const VS& y) { VS z = zed(y); CHECKM(k(z.begin()) == before[q.at(y)] && l(z.begin()) == before[q.at(y)], "element of the copy"); CHECKM(n(z.begin()) == d[r.at(y)] + src[q.at(y)] && o(z.begin()) == d[r.at(y)] - src[q.at(y)], "element of an expression"); }); CHECK(k.coordinateOrder() == q.ord && l.coordinateOrder() == q.ord); VS z0(q.shape.size() + 1, 0); double keep = w(z0.begin()); m(z0.begin()) = 99; l(z0.begin()) = 98; CHECKM(w(z0.begin()) == keep && k(z0.begin()) == keep, "copies are independent"); l = x; k = k; for (size_t i = 0; i < l.size(); ++i) CHECK(l(i) == x); break; }
   case 9: { V n; n = w; v = w; each([&](double, double b) { return b; }); judge(n, q, alias ? d.data() : d2.data()); break; }
   case 10: { each([&](double a, double b) { return a + b; }); M m(w); m = v; m += w; v = m; break; }
   case 11: { M m(v); M p(m++); --m; M n(m--); v = p; each([&](double a, double) { return a; }); forLab(r.shape, [&](const VS& y) { VS z = zed(y); CHECKM(n(z.begin()) == e[r.at(y)] && m(z.begin()) == e[r.at(y)] - 1, "increment and decrement"); }); break; }
   case 13: { M m(v); RV z = fresh(r.shape, r.ord, r.ord); VD was; for (size_t i = 0; i < m.size(); ++i) was.push_back(m(i)); V u(m); step(u, z); M k(u); m = u; CHECKM(m.size() == z.size() && m.dimension() == z.shape.size() && m.coordinateOrder() == z.ord, "shape of an array assigned a part of itself"); for (size_t j = 0; j < z.shape.size(); ++j) CHECKM(m.shape(j) == z.shape[j], "shape of an array assigned a part of itself"); forLab(z.shape, [&](const VS& y) { VS c = zed(y); CHECKM(m(c.begin()) == was[z.at(y)] && k(c.begin()) == was[z.at(y)], "an array assigned a part of itself"); }); break; }
   case 14: { if (alias) sym_discard(); each([&](double, double b) { return b * 4 + x - 1; }); v = w * 2 + x; { M t(w * 2.0 - 1); v += t; } break; }
   case 12: { V t(&x); t += 1; each([&](double a, double) { return a * x; }); v *= t; break; }
  }
  expect(d, e); if (!alias) expect(d2, before);
}
// resizing keeps the elements both shapes have
HARNESS(c23_resize) {
  VS s = startShape(); CoordinateOrder o = order("o"); VD d = values(prodS(s)); double x = sym_num("fill", -9, 9, 1), f2 = sym_num("first", -9, 9, 1); bool skip = sym_param("skip", 0); M m; if (s.empty()) m = M(f2, o); else m = M(s.begin(), s.end(), f2, o); for (size_t i = 0; i < d.size(); ++i) { CHECKM(m(i) == f2, "initial value"); m(i) = d[i]; } if (sym_param("empty", 0)) m.assign(); RV r = fresh(s, o, o); bool none = sym_param("empty", 0);
  for (size_t t = 0; t < (size_t)sym_param("steps", 1); ++t) { VS n; size_t dim = sym_choice("dim", sym_param("maxdim", 3) + 1); for (size_t j = 0; j < dim; ++j) n.push_back(1 + sym_choice("size", 3)); if (n.empty() && skip) sym_discard();
    VD now(prodS(n), x); std::vector<bool> known(now.size(), !skip); RV q = fresh(n, o, o); if (none && n.empty()) {} if (!none) forLab(n, [&](const VS& y) { VS z(r.shape.size(), 0); bool in = true; for (size_t j = 0; j < std::max(n.size(), r.shape.size()); ++j) { if (j < n.size() && j < r.shape.size()) { z[j] = y[j]; in = in && y[j] < r.shape[j]; } else if (j < n.size()) in = in && y[j] == 0; } if (in) { now[q.at(y)] = d[r.at(z)]; known[q.at(y)] = true; } });
    if (skip) m.resize(marray::SkipInitialization, n.begin(), n.end()); else m.resize(n.begin(), n.end(), x); CHECKM(m.dimension() == n.size() && m.size() == now.size() && m.coordinateOrder() == o && m.isSimple(), "new shape"); for (size_t j = 0; j < n.size(); ++j) CHECKM(m.shape(j) == n[j], "new shape"); forLab(n, [&](const VS& y) { VS z = zed(y); if (known[q.at(y)]) CHECKM(m(z.begin()) == now[q.at(y)], "elements of both shapes are kept, others get the value"); }); for (size_t i = 0; i < now.size(); ++i) if (!known[i]) m(i) = now[i] = i; d = now; r = q; none = false; sym_obs_d(m(0)); }
}
// vectors, matrices and mixed types
HARNESS(c23_vecmat) {
  typedef marray::Vector<double> VV; typedef marray::Matrix<double> MM; size_t n = 1 + sym_choice("n", 3), k = 1 + sym_choice("k", 3); double x = sym_num("x", -9, 9, 1); CoordinateOrder o = sym_choice("o", 2) ? FirstMajorOrder : LastMajorOrder; VD d = values(n * k); VS s = mkVS(n, k); V v(s.begin(), s.end(), d.data(), sym_choice("e", 2) ? FirstMajorOrder : LastMajorOrder, o); auto at = [&](size_t i, size_t j) { const V& c = v; return c(i, j); };
  switch (sym_choice("what", 6)) {
   case 0: { VV a(n, x); CHECK(a.size() == n && a.dimension() == 1 && a.shape(0) == n); a[n - 1] = d[0]; VV b(a), c; c = a; a[0] = 50; for (size_t i = 0; i < n; ++i) { double e = i + 1 == n ? d[0] : x; CHECKM(b[i] == e && c[i] == e, "copy of a vector"); } b.resize(n + 2, x); CHECK(b.size() == n + 2 && b[n] == x && b[n + 1] == x && b[n - 1] == d[0]); b.resize(1); CHECK(b.size() == 1); c = x; for (size_t i = 0; i < n; ++i) CHECK(c[i] == x); c.resize(0); CHECK(c.size() == 0); c.resize(2, x); CHECK(c[0] == x && c[1] == x); sym_obs_d(c[1]); break; }
   case 1: { size_t dim = sym_choice("dim", 2), p = sym_choice("p", s[dim]); V b = v.boundView(dim, p); VV a(b), c(1, x); c = b; VV z(b + b), y; y = b - a; MM q; CHECK(a.size() == s[1 - dim] && c.size() == a.size() && z.size() == a.size()); for (size_t i = 0; i < a.size(); ++i) { double e = dim ? at(i, p) : at(p, i); CHECKM(a[i] == e && c[i] == e && z[i] == e + e && y[i] == 0, "vector of a view"); } a[0] += 1; CHECK(a[0] == b(0) + 1); sym_obs_d(a[0]); break; }
   case 2: { MM a(n, k, x, o); CHECK(a.shape(0) == n && a.shape(1) == k && a.coordinateOrder() == o && a(n - 1, k - 1) == x); MM b(v), c; c = v; MM e(v + v), f; f = v * 2.0; MM g(b), h(1, 1, x); h = b; b(0, 0) += 1; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) { double w = at(i, j); CHECKM(c(i, j) == w && e(i, j) == 2 * w && f(i, j) == 2 * w && g(i, j) == w && h(i, j) == w && (b(i, j) == w || !(i || j)), "matrix of a view"); } CHECK(b(0, 0) == at(0, 0) + 1); a = v; a.resize(n + 1, 2, x); for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j < 2; ++j) CHECKM(a(i, j) == (i < n && j < k ? at(i, j) : x), "resized matrix"); sym_obs_d(a(n, 0)); break; }
   case 3: { V t = v.transposedView(); MM a(t), b; b = t; CHECK(a.shape(0) == k && b.shape(1) == n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) CHECKM(a(j, i) == at(i, j) && b(j, i) == at(i, j), "matrix of a transposed view"); sym_obs_d(a(0, 0)); break; }
   case 4: { V c(&x); VV a(c), b; b = c; MM e(c), f(2, 2, 0.0); f = c; CHECKM(a.size() == 1 && b.size() == 1 && e.size() == 1 && f.size() == 1 && a[0] == x && b[0] == x && e(0, 0) == x && f(0, 0) == x && e.dimension() == 2 && f.dimension() == 2, "vector and matrix of a scalar"); sym_obs_d(f(0, 0)); break; }
   case 5: { marray::Marray<int> a(s.begin(), s.end(), 0, o); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) a(i, j) = (int)sym_i64("i", -5, 5); View<int> t = a; if (sym_choice("tr", 2)) t.transpose(); M m(t), q; q = t; MM mm(t), m2; m2 = t; M p(t + 0.5), w(0.25 + t), z(t * 0.5), y(t - m), u(1.5 - t); for (size_t i = 0; i < t.shape(0); ++i) for (size_t j = 0; j < t.shape(1); ++j) { double e = t(i, j); CHECKM(m(i, j) == e && q(i, j) == e && mm(i, j) == e && m2(i, j) == e, "conversion of the element type"); CHECKM(p(i, j) == e + 0.5 && w(i, j) == e + 0.25 && z(i, j) == e * 0.5 && y(i, j) == 0 && u(i, j) == 1.5 - e, "arithmetic takes place in the wider type"); } M g(m); g += t; V h = v; CHECK(g(0, 0) == 2.0 * t(0, 0)); sym_obs_d(g(0, 0)); break; }
  }
}
