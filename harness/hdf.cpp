// C22: what is saved to a file and loaded back is the same model or array (the HDF5 library is the in-memory stand-in of hdf5.h).
#include "gm_common.h"
#include <string>
#include <stdexcept>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
using namespace opengm;
typedef meta::TypeListGenerator<TruncatedSquaredDifferenceFunction<double>, PottsFunction<double>, ConstantFunction<double>, PottsGFunction<double>, ExplicitFunction<double>, SquaredDifferenceFunction<double>, AbsoluteDifferenceFunction<double>, TruncatedAbsoluteDifferenceFunction<double>, PottsNFunction<double> >::type FT9; // FT8 in another order and one more
typedef GraphicalModel<double, Adder, FT9, DiscreteSpace<> > Gm9;
typedef meta::TypeListGenerator<PottsFunction<double>, ExplicitFunction<double> >::type FT2r; typedef GraphicalModel<double, Adder, FT2r, DiscreteSpace<> > Gm2r;
template<class A, class B> static void same(const A& a, const B& b, const VS& L) {
  CHECKM(a.numberOfVariables() == b.numberOfVariables() && a.numberOfFactors() == b.numberOfFactors() && a.factorOrder() == b.factorOrder(), "sizes"); if (a.numberOfVariables() != b.numberOfVariables() || a.numberOfFactors() != b.numberOfFactors()) return;
  for (size_t v = 0; v < a.numberOfVariables(); ++v) { CHECKM(a.numberOfLabels(v) == b.numberOfLabels(v), "labels"); CHECKM(a.numberOfFactors(v) == b.numberOfFactors(v), "factors of a variable"); if (a.numberOfFactors(v) != b.numberOfFactors(v)) return; for (size_t i = 0; i < a.numberOfFactors(v); ++i) CHECKM(a.factorOfVariable(v, i) == b.factorOfVariable(v, i), "factor of a variable"); }
  for (size_t f = 0; f < a.numberOfFactors(); ++f) { CHECKM(a[f].numberOfVariables() == b[f].numberOfVariables() && a[f].size() == b[f].size() && a[f].functionIndex() == b[f].functionIndex(), "factor"); if (a[f].numberOfVariables() != b[f].numberOfVariables()) return; VS sh; for (size_t i = 0; i < a[f].numberOfVariables(); ++i) { CHECKM(a[f].variableIndex(i) == b[f].variableIndex(i) && a[f].numberOfLabels(i) == b[f].numberOfLabels(i), "variables of a factor"); sh.push_back(L[a[f].variableIndex(i)]); } if (sh.empty()) sh.push_back(1);
    forLab(sh, [&](const VS& x) { CHECKM(a[f](x.begin()) == b[f](x.begin()), "value of a factor"); sym_obs_d((double)b[f](x.begin())); }); }
  forLab(L, [&](const VS& x) { CHECKM(a.evaluate(x) == b.evaluate(x), "value of a labelling"); }); }
static void clean(const char* w) { CHECKM(h5mem::open() == 0 && h5mem::lib().bad == 0, w); }
static Spec any(bool kinds) { Spec s; size_t n = sym_param("n", 3); for (size_t v = 0; v < n; ++v) s.L.push_back(1 + sym_choice("labels", sym_param("labs", 2)) + (sym_param("labs", 2) < 3)); size_t k = sym_param("k", 2), conc = sym_param("conc", 0);
  auto val = [&]() { static int c; return k <= conc ? (double)(c++ % 5) - 2 : sym_num("t", -8, 8, 4); };
  for (; k > 0; --k) { Fac f; size_t o = sym_choice("order", (n < 3 ? n : 3) + 1), v = 0; for (size_t i = 0; i < o; ++i) { v += sym_choice("skip", n - v - (o - i) + 1); f.vars.push_back(v++); } f.shape = lsh(s, f.vars); static const int ks[] = {FEXPL, FCONST, FPOTTS, FPOTTSN, FABS, FSQ, FTABS, FTSQ}; size_t q = !kinds || !o ? 0 : o == 2 ? sym_choice("kind", 8) : sym_choice("kind", 3); if (q == 2 && o != 2) q = 3; f.kind = ks[q];
    VD p; p.push_back(val()); p.push_back(sym_param("trunc", 1)); if (f.kind == FPOTTS || f.kind == FPOTTSN) p[1] = val(); f.par = p; f.t.resize(prodS(f.shape)); for (size_t i = 0; i < f.t.size(); ++i) f.t[i] = f.kind == FEXPL ? val() : kindAt(f.kind, digits(i, f.shape), p); s.f.push_back(f); } return s; }
template<class A, class B> static void trip(const Spec& s) { A a; buildGm(a, s); hdf5::save(a, "file", "gm"); clean("handles after saving"); B b; if (sym_param("used", 0)) { VS L(4, 2); b = B(typename B::SpaceType(L.begin(), L.end())); for (size_t i = 0; i < 3; ++i) { VS x = sym_param("used", 0) == 2 ? mkVS(0, 1, 3) : mkVS(i, 3), sh(x.size(), 2); b.addFactor(b.addFunction(ExplicitFunction<double>(sh.begin(), sh.end(), 7.0)), x.begin(), x.end()); } }
  hdf5::load(b, "file", "gm"); clean("handles after loading"); same(a, b, s.L); A c; hdf5::save(b, "file", "other"); hdf5::load(c, "file", "other"); same(a, c, s.L); bool thrown = false; try { hdf5::load(c, "file", "gm"); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown, "saving starts a new file"); }
HARNESS(c22_model) { Spec s = any(true); switch (sym_param("to", 0)) { case 0: trip<Gm8, Gm8>(s); break; case 1: trip<Gm8, Gm9>(s); break; } }
HARNESS(c22_two) { Spec s = any(false); size_t k = sym_choice("potts", 2); if (k) for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].vars.size() == 2) { Fac f = fPotts(s, s.f[i].vars[0], s.f[i].vars[1], 0, sym_num("w", -8, 8, 4)); s.f[i] = f; }
  bool expl = false, potts = false; for (size_t i = 0; i < s.f.size(); ++i) (s.f[i].kind == FEXPL ? expl : potts) = true; (void)expl;
  switch (sym_param("to", 0)) { case 0: trip<Gm2, Gm2r>(s); break; case 1: trip<Gm2, Gm8>(s); break;
    case 2: { Gm2 a; buildGm(a, s); hdf5::save(a, "file", "gm"); GmE b; bool thrown = false; try { hdf5::load(b, "file", "gm"); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown == potts, "refused if and only if the file has functions of a type that is not in the list"); if (!thrown) same(a, b, s.L); break; }
    case 3: { typedef GraphicalModel<double, Adder, PottsFunction<double>, DiscreteSpace<> > GmP; Gm2 a; buildGm(a, s); hdf5::save(a, "file", "gm"); GmP b; bool thrown = false; try { hdf5::load(b, "file", "gm"); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown == expl, "refused if and only if the file has functions of a type that is not in the list"); if (!thrown) same(a, b, s.L); break; } } }

// other value types than double (stored as the widest type of their kind)
template<class T> static void typed() { typedef typename meta::TypeListGenerator<ExplicitFunction<T>, PottsFunction<T> >::type FL; typedef GraphicalModel<T, Adder, FL, DiscreteSpace<> > GM; VS L; L.push_back(2); L.push_back(1 + sym_choice("labels", 3)); GM a(typename GM::SpaceType(L.begin(), L.end())); int64_t lo = std::numeric_limits<T>::is_signed ? -4 : 0;
  auto val = [&]() { return std::numeric_limits<T>::is_integer ? (T)sym_i64("t", lo, 4) : (T)sym_num("t", lo, 4, 2); };
  for (size_t v = 0; v < 2; ++v) { ExplicitFunction<T> f(L.begin() + v, L.begin() + v + 1); for (size_t i = 0; i < L[v]; ++i) f(i) = val(); a.addFactor(a.addFunction(f), &v, &v + 1); } VS both = mkVS(0, 1); T e = val(), u = val(); typename GM::FunctionIdentifier id = a.addFunction(PottsFunction<T>(L[0], L[1], e, u)); a.addFactor(id, both.begin(), both.end()); if (sym_choice("shared", 2)) a.addFactor(id, both.begin(), both.end());
  hdf5::save(a, "file", "gm"); GM b; hdf5::load(b, "file", "gm"); clean("handles"); same(a, b, L); }
HARNESS(c22_typed) { switch (sym_param("t", 0)) { case 0: typed<float>(); break; case 1: typed<int>(); break; case 2: typed<unsigned short>(); break; case 3: typed<long>(); break; case 4: typed<unsigned long>(); break; case 5: typed<double>(); break; } }

// arrays
using namespace marray;
template<class T> static T num(int64_t lo) { return std::numeric_limits<T>::is_integer ? (T)sym_i64("t", std::numeric_limits<T>::is_signed ? lo : 0, 8) : (T)sym_num("t", lo, 8, 4); }
template<class T> static Marray<T> arr(const VS& sh, CoordinateOrder o) { Marray<T> m(sh.begin(), sh.end(), T(), o); for (size_t i = 0; i < m.size(); ++i) m(i) = num<T>(-8); return m; }
template<class A, class B> static void sameArr(const A& a, const B& b, const char* w) { CHECKM(a.dimension() == b.dimension() && a.size() == b.size(), w); if (a.dimension() != b.dimension() || a.size() != b.size()) return; for (size_t d = 0; d < a.dimension(); ++d) CHECKM(a.shape(d) == b.shape(d), w); if (a.size()) { VS sh; for (size_t d = 0; d < a.dimension(); ++d) sh.push_back(a.shape(d)); forLab(sh, [&](const VS& x) { CHECKM(a(x.begin()) == b(x.begin()), w); }); } }
static VS shape(size_t lo) { VS s; size_t d = sym_param("dim", 2); for (size_t i = 0; i < d; ++i) s.push_back(lo + sym_choice("shape", sym_param("max", 3))); return s; }
static CoordinateOrder order(const char* n) { return sym_choice(n, 2) ? FirstMajorOrder : LastMajorOrder; }
template<class T> static void array() { VS sh = shape(1); Marray<T> m = arr<T>(sh, order("order")); hid_t f = marray::hdf5::createFile("a"), g = marray::hdf5::createGroup(f, "g"); marray::hdf5::save(g, "m", m); std::vector<T> v; for (size_t i = 0; i < 3; ++i) v.push_back(num<T>(-8)); marray::hdf5::save(f, "v", v);
  bool thrown = false; try { marray::hdf5::save(g, "m", m); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown, "a name is used once"); marray::hdf5::closeGroup(g); marray::hdf5::closeFile(f); clean("handles"); f = marray::hdf5::openFile("a"); g = marray::hdf5::openGroup(f, "g"); Marray<T> r; if (sym_choice("used", 2)) r = arr<T>(mkVS(2, 3), FirstMajorOrder); marray::hdf5::load(g, "m", r); sameArr(m, r, "array read back"); CHECKM(r.coordinateOrder() == m.coordinateOrder(), "order");
  Vector<size_t> q; marray::hdf5::loadShape(g, "m", q); CHECKM(q.size() == sh.size(), "shape"); for (size_t i = 0; i < q.size() && i < sh.size(); ++i) CHECKM(q[i] == sh[i], "shape"); std::vector<T> w(7, T(1)); marray::hdf5::loadVec(f, "v", w); CHECKM(w.size() == 3, "vector read back"); for (size_t i = 0; i < w.size() && i < 3; ++i) CHECKM(w[i] == v[i], "vector read back"); Vector<T> z; marray::hdf5::load(f, "v", z); CHECKM(z.size() == 3, "vector"); for (size_t i = 0; i < z.size() && i < 3; ++i) CHECKM(z[i] == v[i], "vector");
  size_t n = 0; Marray<short> bad; try { marray::hdf5::load(g, "m", bad); } catch (std::runtime_error&) { ++n; } try { marray::hdf5::load(g, "x", r); } catch (std::runtime_error&) { ++n; } try { marray::hdf5::openGroup(f, "x"); } catch (std::runtime_error&) { ++n; } try { marray::hdf5::openFile("x"); } catch (std::runtime_error&) { ++n; } try { marray::hdf5::createGroup(f, "new"); } catch (std::runtime_error&) { ++n; } CHECKM(n == 5, "refused"); marray::hdf5::closeGroup(g); marray::hdf5::closeFile(f); clean("handles after failures"); }
HARNESS(c22_array) { switch (sym_param("t", 0)) { case 0: array<double>(); break; case 1: array<float>(); break; case 2: array<int>(); break; case 3: array<unsigned char>(); break; case 4: array<size_t>(); break; } }
// a box of an array; a view of an array
HARNESS(c22_slab) { VS sh = shape(1); Marray<double> m = arr<double>(sh, order("order")); VS b, c; for (size_t d = 0; d < sh.size(); ++d) { b.push_back(sym_choice("base", sh[d])); c.push_back(1 + sym_choice("extent", sh[d] - b[d])); } hid_t f = marray::hdf5::createFile("a"); marray::hdf5::save(f, "m", m); Marray<double> r; marray::hdf5::loadHyperslab(f, "m", b.begin(), b.end(), c.begin(), r); View<double> part = m.view(b.begin(), c.begin()); sameArr(part, r, "box read back");
  marray::hdf5::save(f, "part", part); Marray<double> p; marray::hdf5::load(f, "part", p); sameArr(part, p, "view read back"); Marray<double> in = arr<double>(c, order("order2")); bool thrown = false; try { marray::hdf5::saveHyperslab(f, "m", b.begin(), b.end(), c.begin(), in); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown == (in.coordinateOrder() != m.coordinateOrder()), "refused in another order"); Marray<double> q; marray::hdf5::load(f, "m", q); if (!thrown) { VS z(sh.size(), 0); View<double> pm = m.view(b.begin(), c.begin()); forLab(c, [&](const VS& x) { pm(x.begin()) = in(x.begin()); }); } sameArr(m, q, "box written");
  bool inside = true; VS b2(b), c2(c); size_t d = sym_choice("dim", sh.size()); c2[d] = 1 + sym_choice("far", sh[d] + 1); inside = b2[d] + c2[d] <= sh[d]; thrown = false; try { marray::hdf5::loadHyperslab(f, "m", b2.begin(), b2.end(), c2.begin(), r); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown == !inside, "refused outside of the array"); marray::hdf5::closeFile(f); clean("handles"); }
// create + write piecewise
HARNESS(c22_create) { VS sh = shape(1); CoordinateOrder o = order("order"); hid_t f = marray::hdf5::createFile("a"); marray::hdf5::create<int>(f, "m", sh.begin(), sh.end(), o); Marray<int> all(sh.begin(), sh.end(), 0, o); VS c(sh); c[0] = 1; for (size_t i = 0; i < sh[0]; ++i) { VS b(sh.size(), 0); b[0] = i; Marray<int> in = arr<int>(c, o); marray::hdf5::saveHyperslab(f, "m", b.begin(), b.end(), c.begin(), in); View<int> v = all.view(b.begin(), c.begin()); forLab(c, [&](const VS& x) { v(x.begin()) = in(x.begin()); }); } Marray<int> r; marray::hdf5::load(f, "m", r); sameArr(all, r, "written piece by piece"); CHECKM(r.coordinateOrder() == o, "order"); marray::hdf5::closeFile(f); clean("handles"); }
