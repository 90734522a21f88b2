// C31: label spaces
#include "gm_common.h"
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/viewspace.hxx>
#include <opengm/graphicalmodel/space/vector_view_space.hxx>
using namespace opengm;
static uint64_t lab(uint64_t hi = 4) { return sym_u64("labels", 1, hi); }
template<class S> void isSpace(const S& s, const VS& l) { CHECKM(size_t(s.numberOfVariables()) == l.size(), "number of variables"); bool simple = true; for (size_t i = 0; i < l.size(); ++i) { CHECKM(size_t(s.numberOfLabels(i)) == l[i], "number of labels"); simple = simple & (l[i] == l[0]); } CHECKM(s.isSimpleSpace() == simple, "simple space"); }
template<class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template<class I, class L> void discreteBody() {
  typedef DiscreteSpace<I, L> S; VS l; size_t n = sym_choice("n", 4); for (size_t i = 0; i < n; ++i) l.push_back(lab(sym_param("big", 4))); S s(l.begin(), l.end()), t; if (sym_param("empty", 0)) { l.clear(); s = S(); }
  isSpace(s, l); isSpace(t, VS());
  for (size_t k = 0; k < sym_param("steps", 2); ++k) { switch (sym_choice("op", 6)) {
    case 0: { uint64_t x = lab(sym_param("big", 4)); size_t id = s.addVariable(L(x)); CHECKM(id == l.size(), "index of the new variable"); l.push_back(x); break; }
    case 1: case 2: { VS m; size_t c = sym_choice("m", 3); for (size_t i = 0; i < c; ++i) m.push_back(lab()); if (k % 2) s.assign(m.begin(), m.end()); else s.assignDense(m.begin(), m.end()); l = m; break; }
    case 3: { s.reserve(7); break; } case 4: { S q(s); isSpace(q, l); q.addVariable(2); isSpace(s, l); t = s; s = q; l.push_back(2); s = t; l.pop_back(); break; } case 5: { s = S(); l.clear(); break; } }
    isSpace(s, l); }
}
HARNESS(c31_discrete) { switch (sym_param("k", 0)) { case 0: discreteBody<size_t, size_t>(); break; case 1: discreteBody<uint16_t, unsigned char>(); break; case 2: discreteBody<unsigned char, uint32_t>(); break; } }
template<class I, class L> void simpleBody() {
  typedef SimpleDiscreteSpace<I, L> S; size_t n = sym_u64("n", 0, 4); uint64_t x = lab(sym_param("big", 4)); S s(n, L(x)), z; CHECK(z.numberOfVariables() == 0); VS l; for (size_t i = 0; i < n; ++i) l.push_back(x);
  isSpace(s, l); for (size_t k = 0; k < sym_param("steps", 2); ++k) { switch (sym_choice("op", 4)) {
    case 0: { uint64_t y = lab(); if (y == x) { size_t id = s.addVariable(L(y)); CHECKM(id == l.size(), "index of the new variable"); l.push_back(y); } else CHECKM(throws([&] { s.addVariable(L(y)); }), "variable with another number of labels refused"); break; }
    case 1: { size_t c = sym_u64("n", 1, 3); x = lab(); s.assign(c, L(x)); l.assign(c, x); break; }
    case 2: { VS m; size_t c = sym_choice("m", 4); bool eq = true; for (size_t i = 0; i < c; ++i) { m.push_back(lab()); eq = eq & (m[i] == m[0]); } if (eq) { s.assignDense(m.begin(), m.end()); l = m; if (c) x = m[0]; else { s.assign(1, L(x)); l = VS(1, x); } } else { S q(s); CHECKM(throws([&] { q.assignDense(m.begin(), m.end()); }), "unequal numbers of labels refused"); } break; }
    case 3: { S q(s), r; r = q; s = r; isSpace(q, l); break; } }
    isSpace(s, l); }
}
HARNESS(c31_simple) { if (sym_param("small", 0)) simpleBody<uint16_t, unsigned char>(); else simpleBody<size_t, size_t>(); }
template<size_t N, class I, class L> void staticBody() {
  typedef StaticSimpleDiscreteSpace<N, I, L> S; size_t n = sym_u64("n", 0, 4); S s(n), z; VS l(n, N); CHECK(z.numberOfVariables() == 0); isSpace(s, l);
  for (size_t k = 0; k < sym_param("steps", 2); ++k) { switch (sym_choice("op", 4)) {
    case 0: { uint64_t y = lab(); if (y == N) { size_t id = s.addVariable(L(y)); CHECKM(id == l.size(), "index of the new variable"); l.push_back(N); } else CHECKM(throws([&] { s.addVariable(L(y)); }), "variable with another number of labels refused"); break; }
    case 1: { size_t c = sym_u64("n", 0, 3); s.assign(c); l.assign(c, N); break; }
    case 2: { VS m; size_t c = sym_choice("m", 4); bool ok = true; for (size_t i = 0; i < c; ++i) { m.push_back(lab()); ok = ok & (m[i] == N); } if (ok) { s.assignDense(m.begin(), m.end()); l.assign(c, N); } else { S q(s); CHECKM(throws([&] { q.assignDense(m.begin(), m.end()); }), "other numbers of labels refused"); } break; }
    case 3: { S q(s), r; r = q; s = r; isSpace(q, l); break; } }
    isSpace(s, l); }
}
HARNESS(c31_static) { if (sym_param("small", 0)) staticBody<3, uint16_t, unsigned char>(); else staticBody<2, size_t, size_t>(); }
HARNESS(c31_grid) {
  typedef GridSpace<size_t, size_t> S; size_t x = sym_u64("x", 0, 3), y = sym_u64("y", 0, 3), l = lab(); S s(x, y, l), z, q; CHECK(z.numberOfVariables() == 0); q.assign(x, y, l); z = q; S* v[3] = {&s, &q, &z};
  for (size_t i = 0; i < 3; ++i) { const S& c = *v[i]; CHECK(c.dimX() == x); CHECK(c.dimY() == y); CHECKM(c.numberOfVariables() == x * y, "number of variables"); CHECK(c.numberOfLabels() == l); CHECK(c.isSimpleSpace()); for (size_t a = 0; a < x; ++a) for (size_t b = 0; b < y; ++b) { CHECK(c.numberOfLabels(a, b) == l); CHECK(c.numberOfLabels(a + b * x) == l); } }
  CHECKM(throws([&] { s.addVariable(2); }), "cannot grow"); VS m(2, 2); CHECKM(throws([&] { s.assignDense(m.begin(), m.end()); }), "cannot assign a list"); CHECK(s.numberOfVariables() == x * y);
}
HARNESS(c31_view) {
  VS a, b; size_t n = 1 + sym_choice("n", 3), m = 1 + sym_choice("m", 2); for (size_t i = 0; i < n; ++i) a.push_back(lab()); for (size_t i = 0; i < m; ++i) b.push_back(lab());
  Gm2 g(Gm2::SpaceType(a.begin(), a.end())), h(Gm2::SpaceType(b.begin(), b.end())); typedef ViewSpace<Gm2> V; V v(g), w; isSpace(v, a); w = v; isSpace(w, a); w.assign(h); isSpace(w, b); isSpace(v, a); CHECKM(throws([&] { v.addVariable(2); }), "cannot grow"); isSpace(v, a);
  g.addVariable(3); a.push_back(3); isSpace(v, a);
  typedef VectorViewSpace<size_t, size_t> W; W p(a), q; isSpace(p, a); q = p; isSpace(q, a); q = W(b); isSpace(q, b); a[0] = lab(); isSpace(p, a); a.push_back(2); isSpace(p, a); CHECKM(throws([&] { p.addVariable(2); }), "cannot grow"); isSpace(p, a);
}
