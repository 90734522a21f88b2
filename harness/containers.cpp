// C24: containers against their mathematical counterparts
#include "gm_common.h"
#include <set>
#include <map>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/datastructures/sparsemarray/sparsemarray.hxx>
#include <opengm/utilities/disjoint-set.hxx>
#include <opengm/utilities/queues.hxx>
using namespace opengm;
typedef uint64_t U;
struct Flip { bool down; Flip(bool d = false) : down(d) {} bool operator()(U a, U b) const { return down ? b < a : a < b; } };
typedef RandomAccessSet<U, Flip> RS; typedef std::set<U, Flip> SS;
static U key() { return sym_u64("key", 0, sym_param("keys", 3)); }
static void sameSet(RS& r, const SS& s) {
  const RS& c = r; CHECK(c.size() == s.size()); CHECK(c.empty() == s.empty()); size_t i = 0; for (SS::const_iterator it = s.begin(); it != s.end(); ++it, ++i) { CHECKM(c[i] == *it, "element"); CHECK(c.begin()[i] == *it && r.begin()[i] == *it); CHECK(*(c.rbegin() + (s.size() - 1 - i)) == *it); CHECK(*(r.rbegin() + (s.size() - 1 - i)) == *it); }
  CHECK(size_t(c.end() - c.begin()) == s.size() && size_t(r.end() - r.begin()) == s.size() && size_t(c.rend() - c.rbegin()) == s.size() && size_t(r.rend() - r.rbegin()) == s.size());
}
HARNESS(c24_set) {
  bool dn = sym_param("down", 0); RS r{Flip(dn)}; SS s{Flip(dn)}; RS r2{Flip(!dn)}; SS s2{Flip(!dn)}; size_t steps = sym_param("steps", 2), pre = sym_param("pre", 1);
  for (size_t i = 0; i < pre; ++i) { U k = key(); r.insert(k); s.insert(k); } if (sym_param("both", 0)) { U k = key(); r2.insert(k); s2.insert(k); }
  for (size_t t = 0; t < steps; ++t) {
    switch (sym_choice("op", 9)) {
     case 0: { U k = key(); std::pair<RS::const_iterator, bool> p = r.insert(k); bool e = s.insert(k).second; CHECKM(p.second == e, "newly inserted"); CHECK(*p.first == k); break; }
     case 1: { U k = key(); size_t q = r.erase(k), e = s.erase(k); CHECKM(q == e, "number erased"); break; }
     case 2: { U k = key(); size_t h = sym_choice("hint", s.size() + 1); const RS& c = r; RS::const_iterator p = r.insert(c.begin() + h, k); s.insert(k); CHECKM(*p == k, "hinted insert"); break; }
     case 3: { if (s.empty()) sym_discard(); size_t h = sym_choice("at", s.size()); SS::iterator it = s.begin(); std::advance(it, h); s.erase(it); r.erase(r.begin() + h); break; }
     case 4: { VS v; for (size_t i = 0; i < 2; ++i) v.push_back(key()); r.insert(v.begin(), v.end()); s.insert(v.begin(), v.end()); break; }
     case 5: { size_t a = sym_choice("from", s.size() + 1), b = a + sym_choice("len", s.size() + 1 - a); SS::iterator x = s.begin(), y = s.begin(); std::advance(x, a); std::advance(y, b); s.erase(x, y); const RS& c = r; r.erase(c.begin() + a, c.begin() + b); break; }
     case 6: { r.swap(r2); s.swap(s2); break; }
     case 7: { RS q(r); CHECK(q.size() == r.size()); r2 = r; s2 = s; r.clear(); s.clear(); sameSet(q, s2); r.insert(1); s.insert(1); break; }
     case 8: { VS v; v.push_back(key()); v.push_back(key()); RS q(v.begin(), v.end(), Flip(dn)); SS e(v.begin(), v.end(), Flip(dn)); sameSet(q, e); r = q; s = e; RS z; z.assignFromSet(s); r.reserve(5); CHECK(r.capacity() >= 5); break; }
    }
    sameSet(r, s); sameSet(r2, s2);
  }
  U k = key(); const RS& c = r; { U b = key(); r.insert(b); s.insert(b); sameSet(r, s); } CHECK(c.count(k) == s.count(k)); size_t lo = std::distance(s.begin(), s.lower_bound(k)), up = std::distance(s.begin(), s.upper_bound(k)); bool in = s.count(k);
  CHECK(size_t(c.lower_bound(k) - c.begin()) == lo && size_t(r.lower_bound(k) - r.begin()) == lo); CHECK(size_t(c.upper_bound(k) - c.begin()) == up && size_t(r.upper_bound(k) - r.begin()) == up); CHECK(size_t(c.equal_range(k).first - c.begin()) == lo && size_t(r.equal_range(k).second - r.begin()) == up);
  CHECK((c.find(k) != c.end()) == in && (r.find(k) != r.end()) == in); if (in) CHECK(size_t(c.find(k) - c.begin()) == lo && size_t(r.find(k) - r.begin()) == lo); r2.insert(k); s2.insert(k); sameSet(r2, s2);
}
// sequences: FastSequence with a two-element buffer, BufferVector; 'known' tracks which entries have a defined value
struct Ref { VD v; std::vector<bool> k; void resize(size_t n) { v.resize(n, 0.0); k.resize(n, false); } void push(double x, bool b = true) { v.push_back(x); k.push_back(b); } };
template<class S> void sameSeq(S& s, const Ref& r) { const S& c = s; CHECKM(c.size() == r.v.size(), "size"); CHECK(c.empty() == r.v.empty()); CHECK(size_t(c.end() - c.begin()) == r.v.size() && size_t(s.end() - s.begin()) == r.v.size()); for (size_t i = 0; i < r.v.size(); ++i) if (r.k[i]) { CHECKM(c[i] == r.v[i], "element"); CHECK(s[i] == r.v[i] && c.begin()[i] == r.v[i] && s.begin()[i] == r.v[i]); } if (r.v.size()) { if (r.k[0]) CHECK(c.front() == r.v[0] && s.front() == r.v[0]); if (r.k.back()) CHECK(c.back() == r.v.back() && s.back() == r.v.back()); } }
static double sval() { return sym_num("x", -9, 9, 2); }
template<class S> void seqBody(bool clearFrees) {
  S* a = new S; S* b = new S; Ref ra, rb; size_t steps = sym_param("steps", 3), mx = sym_param("mx", 5);
  switch (sym_param("start", 0)) { case 1: { delete a; size_t n = sym_choice("n", mx); a = new S(n); ra.resize(n); break; } case 2: { delete a; size_t n = sym_choice("n", mx); double x = sval(); a = new S(n, x); for (size_t i = 0; i < n; ++i) ra.push(x); break; } case 3: { size_t n = sym_choice("n", mx); for (size_t i = 0; i < n; ++i) { double x = sval(); a->push_back(x); ra.push(x); } break; } }
  for (size_t t = 0; t < steps; ++t) {
    switch (sym_choice("op", 10)) {
     case 0: { double x = sval(); a->push_back(x); ra.push(x); break; }
     case 1: { size_t n = sym_choice("size", mx); a->resize(n); ra.resize(n); break; }
     case 2: { size_t n = sym_choice("cap", mx); a->reserve(n); break; }
     case 3: { a->clear(); ra.resize(0); break; }
     case 4: { VD v; size_t n = sym_choice("len", mx); for (size_t i = 0; i < n; ++i) v.push_back(sval()); a->assign(v.begin(), v.end()); ra.v = v; ra.k.assign(n, true); break; }
     case 5: { *b = *a; rb = ra; break; }
     case 6: { *a = *b; ra = rb; break; }
     case 7: { S* c = new S(*a); delete a; a = c; break; }
     case 8: { std::swap(a, b); std::swap(ra, rb); break; }
     case 9: { if (ra.v.empty() || !ra.k[0]) sym_discard(); a->push_back((*a)[0]); ra.push(ra.v[0]); a->begin()[0] = 7; ra.v[0] = 7; S& self = *a; *a = self; break; }
    }
    sameSeq(*a, ra); sameSeq(*b, rb);
  }
  delete a; delete b;
}
HARNESS(c24_fastseq) { seqBody<FastSequence<double, 2> >(true); }
HARNESS(c24_buffer) { seqBody<BufferVector<double> >(false); }
// sparse table
template<class L> void sparseBody(const VS& sh) {
  typedef SparseFunction<double, size_t, L> F; double d = sym_num("d", -4, 4, 2); F f(sh.begin(), sh.end(), d); size_t n = sh.size(), m = sym_param("m", 2); std::vector<VS> c; VD x;
  CHECK(f.dimension() == n); CHECK(f.size() == prodS(sh)); for (size_t i = 0; i < n; ++i) CHECK(f.shape(i) == sh[i]); CHECK(f.defaultValue() == d);
  for (size_t k = 0; k < m; ++k) { VS q; for (size_t i = 0; i < n; ++i) q.push_back(sym_u64("c", 0, sh[i] - 1)); for (size_t j = 0; j < k; ++j) { bool eq = true; for (size_t i = 0; i < n; ++i) eq = eq & (q[i] == c[j][i]); sym_assume(!eq); } c.push_back(q); x.push_back(sym_num("x", -4, 4, 2)); f.insert(q.begin(), x.back()); }
  VS p; for (size_t i = 0; i < n; ++i) p.push_back(sym_u64("p", 0, sh[i] - 1)); double e = d; for (size_t k = 0; k < m; ++k) { bool eq = true; for (size_t i = 0; i < n; ++i) eq = eq & (p[i] == c[k][i]); e = sym_ite_d(eq, x[k], e); } CHECKM(f(p.begin()) == e, "value");
  CHECK(f.container().size() == m); VS r(n, 77); f.keyToCoordinate(f.coordinateToKey(p.begin()), r.begin()); for (size_t i = 0; i < n; ++i) CHECKM(r[i] == p[i], "key to coordinate"); CHECK(f.valueFromKey(f.coordinateToKey(p.begin())) == e);
  F g(f), h; h = g; CHECK(h(p.begin()) == e && h.size() == f.size());
}
HARNESS(c24_sparse) { VS sh; uint64_t s = sym_param("shape", 302), b = sym_param("base", 100); while (s) { sh.push_back(s % b); s /= b; } if (sym_param("small", 0)) sparseBody<unsigned char>(sh); else sparseBody<size_t>(sh); }
// disjoint sets
template<class P> struct Find { static U of(P& p, U e) { return p.find(e); } };
template<class T> void partBody() {
  size_t n = sym_param("n", 4), steps = sym_param("steps", 3); Partition<T> p = Partition<T>(T(n)); std::vector<U> id; for (size_t i = 0; i < n; ++i) id.push_back(i);
  for (size_t t = 0; t < steps; ++t) {
    size_t op = t + 1 < steps || sym_param("all", 1) ? sym_choice("op", 4) : 0;
    switch (op) {
     case 0: { size_t a = sym_choice("a", n), b = sym_choice("b", n); p.merge(T(a), T(b)); U x = id[a], y = id[b]; for (size_t i = 0; i < n; ++i) if (id[i] == y) id[i] = x; break; }
     case 1: { size_t k = sym_choice("k", 3); p.insert(T(k)); for (size_t i = 0; i < k; ++i) id.push_back(n++); break; }
     case 2: { size_t k = 1 + sym_choice("k", n); p.reset(T(k)); id.clear(); n = k; for (size_t i = 0; i < k; ++i) id.push_back(i); break; }
     case 3: { Partition<T> q(p); Partition<T> z; CHECK(z.numberOfElements() == 0 && z.numberOfSets() == 0); p.merge(T(0), T(n - 1)); p = q; break; }
    }
    const Partition<T>& c = p; U ns = 0; for (size_t i = 0; i < n; ++i) { bool first = true; for (size_t j = 0; j < i; ++j) first = first && id[j] != id[i]; ns += first; }
    CHECK(size_t(c.numberOfElements()) == n); CHECKM(size_t(c.numberOfSets()) == ns, "number of sets");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) CHECKM((c.find(T(i)) == c.find(T(j))) == (id[i] == id[j]), "same set"); for (size_t i = 0; i < n; ++i) { CHECK(size_t(c.find(T(i))) < n); CHECK(id[size_t(c.find(T(i)))] == id[i]); }
    std::vector<T> rep(ns + 1, T(99)), lab(n + 1, T(99)); c.representatives(rep.begin()); CHECK(rep[ns] == T(99)); for (size_t i = 0; i < ns; ++i) CHECK(c.find(rep[i]) == rep[i] && (i == 0 || rep[i - 1] < rep[i])); c.elementLabeling(lab.begin()); CHECK(lab[n] == T(99)); for (size_t i = 0; i < n; ++i) { CHECK(size_t(lab[i]) < ns); for (size_t j = 0; j < n; ++j) CHECK((lab[i] == lab[j]) == (id[i] == id[j])); }
    std::map<T, T> m; m[T(55)] = T(1); c.representativeLabeling(m); CHECK(m.size() == ns); for (size_t i = 0; i < ns; ++i) CHECK(m[rep[i]] == T(i));
    for (size_t i = 0; i < n; ++i) { T r0 = c.find(T(i)); CHECKM(p.find(T(i)) == r0, "find with path compression"); }
  }
}
HARNESS(c24_partition) { if (sym_param("int", 0)) partBody<int>(); else partBody<size_t>(); }
HARNESS(c24_disjoint) {
  size_t n = sym_param("n", 4), steps = sym_param("steps", 3); disjoint_set<size_t> p(n); std::vector<U> id; for (size_t i = 0; i < n; ++i) id.push_back(i);
  for (size_t t = 0; t < steps; ++t) {
    size_t a = sym_choice("a", n), b = sym_choice("b", n); p.join(a, b); U x = id[a], y = id[b]; for (size_t i = 0; i < n; ++i) if (id[i] == y) id[i] = x;
    size_t ns = 0; for (size_t i = 0; i < n; ++i) { bool first = true; size_t sz = 0; for (size_t j = 0; j < n; ++j) { if (j < i) first = first && id[j] != id[i]; sz += id[j] == id[i]; } ns += first; CHECKM(p.size(i) == sz, "size of the set"); for (size_t j = 0; j < n; ++j) CHECKM((p.find(i) == p.find(j)) == (id[i] == id[j]), "same set"); }
    CHECK(p.numberOfSets() == ns); std::map<size_t, size_t> m; m[55] = 1; p.representativeLabeling(m); CHECK(m.size() == ns); std::vector<bool> hit(ns, false); for (std::map<size_t, size_t>::iterator it = m.begin(); it != m.end(); ++it) { CHECK(it->second < ns && p.find(it->first) == it->first); if (it->second < ns) hit[it->second] = true; } for (size_t i = 0; i < ns; ++i) CHECK(hit[i]);
  }
}
// changeable priority queue
template<class C> void queueBody() {
  size_t n = sym_param("n", 3), steps = sym_param("steps", 3), pre = sym_param("pre", 2); ChangeablePriorityQueue<double, C> q(n); std::vector<bool> in(n, false); VD pr(n, 0.0); C less; size_t cnt = 0; double dflt = 0;
  for (size_t t = 0; t < pre + steps; ++t) {
    switch (t < pre ? 0 : sym_choice("op", 6)) {
     case 0: { size_t i = sym_choice("item", n); double p = sym_num("p", -3, 3, 1); q.push(int(i), p); if (!in[i]) ++cnt; in[i] = true; pr[i] = p; break; }
     case 1: { if (!cnt) sym_discard(); int i = q.top(); CHECK(i >= 0 && size_t(i) < n && in[i]); q.pop(); in[i] = false; --cnt; break; }
     case 2: { size_t i = sym_choice("item", n); if (!in[i]) sym_discard(); q.deleteItem(int(i)); in[i] = false; --cnt; break; }
     case 3: { size_t i = sym_choice("item", n); if (!in[i]) sym_discard(); double p = sym_num("p", -3, 3, 1); q.changePriority(int(i), p); pr[i] = p; break; }
     case 4: { q.reset(); for (size_t i = 0; i < n; ++i) in[i] = false; cnt = 0; break; }
     case 5: { double p = sym_num("p", -3, 3, 1); q.setPriorities(p); for (size_t i = 0; i < n; ++i) pr[i] = p; break; }
    }
    CHECK(size_t(q.size()) == cnt); CHECK(q.empty() == (cnt == 0)); for (size_t i = 0; i < n; ++i) { CHECKM(q.contains(int(i)) == in[i], "contains"); if (in[i]) CHECK(q.priority(int(i)) == pr[i]); }
    if (cnt) { int i = q.top(); CHECKM(i >= 0 && size_t(i) < n && in[i], "top is an item"); double tp = q.topPriority(); CHECK(tp == pr[i]); for (size_t j = 0; j < n; ++j) if (in[j]) CHECKM(!less(pr[j], tp), "top has the first priority"); }
  }
  double last = 0; bool have = false; while (cnt) { int i = q.top(); double p = q.topPriority(); CHECK(in[i] && p == pr[i]); if (have) CHECKM(!less(p, last), "popped in order"); last = p; have = true; q.pop(); in[i] = false; --cnt; CHECK(size_t(q.size()) == cnt); } CHECK(q.empty());
}
HARNESS(c24_queue) { if (sym_param("down", 0)) queueBody<std::greater<double> >(); else queueBody<std::less<double> >(); }
HARNESS(c24_queue_big) { // a heap of concrete priorities except for the symbolic ancestors of the last item (and the last item)
  typedef std::less<double> C; size_t n = sym_param("n", 12); std::vector<bool> in(n, true), s(n, false); for (size_t k = n; k >= 1; k /= 2) s[k - 1] = true; if (sym_param("few", 1)) s[0] = false; VD pr(n); ChangeablePriorityQueue<double, C> q(n); pr[0] = -100; for (size_t i = 0; i < n; ++i) { if (s[i]) { pr[i] = sym_num("p", 0, 200, 1); } else if (i) pr[i] = 100 + double(i); }
  for (size_t i = 0; i < n; ++i) q.push(int(i), pr[i]); size_t cnt = n, d = sym_choice("item", n); if (sym_param("change", 0)) { pr[d] = sym_num("np", -200, 300, 1); q.changePriority(int(d), pr[d]); } else { q.deleteItem(int(d)); in[d] = false; --cnt; } CHECK(size_t(q.size()) == cnt); for (size_t i = 0; i < n; ++i) CHECK(q.contains(int(i)) == in[i]);
  double last = 0; bool have = false; while (cnt) { int i = q.top(); double p = q.topPriority(); CHECK(i >= 0 && size_t(i) < n && in[i] && p == pr[i]); if (have) CHECKM(!(p < last), "popped in order"); last = p; have = true; q.pop(); in[i] = false; --cnt; CHECK(size_t(q.size()) == cnt); } CHECK(q.empty());
}
HARNESS(c24_fifo) {
  size_t n = sym_param("n", 4); FiFoQueue<U> q(n); std::vector<U> v; size_t head = 0, pushes = 0; for (size_t t = 0; t < 5; ++t) { size_t op = sym_choice("op", 3); if (op == 0) { if (pushes == n) sym_discard(); U x = sym_u64("x", 0, 99); q.push(x); v.push_back(x); ++pushes; } else if (op == 1) { if (head == v.size()) sym_discard(); q.pop(); ++head; } else { q.clear(); v.clear(); head = 0; pushes = 0; } CHECK(q.empty() == (head == v.size())); CHECK(q.size() == v.size() - head); if (head < v.size()) CHECKM(q.front() == v[head], "first in first out"); }
}
