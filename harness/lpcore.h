// A linear/integer programme as an outside solver receives it, and an exact solver for it on small instances: every variable
// with bounds inside [0,1] takes the values 0 and 1 (all feasible points are listed, once per state of the rows), every other
// variable is a slack whose best value follows from the rows. The optimal point is a choice of the engine's solver: any
// feasible point that no other feasible point improves on. This stands in for the outside solver's own search, which is not
// part of the code under check; everything opengm tells the solver is recorded as it comes.
#pragma once
#include "harness.h"
#include <vector>
#include <string>
#include <limits>
namespace lpstub {
struct Row { std::vector<int> idx; std::vector<double> co; double lo, hi; std::string name; bool live; };
static const double INF = 1e100;
struct Core {
  std::vector<double> lb, ub, obj, x; std::vector<char> type; std::vector<Row> rows; int sense; double constant, objVal; int status; size_t solves; std::vector<size_t> rowsAt; std::vector<std::vector<double> > pts; size_t ptsRows, ptsVars; bool arbitrary; std::string exported; void (*sync)(void*); void* owner;
  Core() : sense(1), constant(0), objVal(0), status(0), solves(0), ptsRows((size_t)-1), ptsVars(0), arbitrary(false), sync(0), owner(0) { last() = this; }
  void refresh() { if (sync) sync(owner); }   // an interface that hands over its model late does so now
  static size_t& fractional() { static size_t n = 0; return n; }   // so many first solves answer with any quarter-valued point that satisfies the rows
  static bool& keep() { static bool b = false; return b; }   // an optimal point that the rows added since still allow is the answer again
  static bool& dropZeros() { static bool b = false; return b; }   // a variable with cost 0 and in no row is not handed over
  static Core*& last() { static Core* c = 0; return c; }
  static size_t& arbitraryNumber() { static size_t k = 1000; return k; }   // how many of its values are free
  static bool& nextArbitrary() { static bool b = false; return b; }   // solve() answers with any point of the box
  static bool& known() { static bool b = false; return b; }   // the costs are constants: only the optimal points are offered
  int addVar(double l, double u, double o, char t) { lb.push_back(l); ub.push_back(u); obj.push_back(o); type.push_back(t); x.push_back(0); return (int)lb.size() - 1; }
  bool binary(size_t i) const { return lb[i] >= 0 && ub[i] <= 1; }
  int addRow(const std::vector<int>& idx, const std::vector<double>& co, double lo, double hi, const std::string& name) {
    Row r; r.lo = lo; r.hi = hi; r.name = name; r.live = true;   // terms on the same variable add up
    for (size_t i = 0; i < idx.size(); ++i) { size_t k = 0; while (k < r.idx.size() && r.idx[k] != idx[i]) ++k; if (k == r.idx.size()) { r.idx.push_back(idx[i]); r.co.push_back(co[i]); } else r.co[k] += co[i]; } rows.push_back(r); return (int)rows.size() - 1; }
  double objective(const std::vector<double>& p) const { double s = constant; for (size_t i = 0; i < p.size(); ++i) if (p[i] != 0) s += p[i] == 1 ? obj[i] : obj[i] * p[i]; return s; }
  // extends p (binaries 0..d-1 fixed)
  void go(std::vector<double>& p, size_t d, const std::vector<size_t>& bin, const std::vector<std::vector<int> >& in) {
    if (d == bin.size()) { finish(p); return; }
    size_t v = bin[d];
    for (int b = 0; b < 2; ++b) { if (b < lb[v] || b > ub[v]) continue; p[v] = b; bool ok = true;
      for (size_t k = 0; ok && k < in[v].size(); ++k) { const Row& r = rows[in[v][k]]; double mn = 0, mx = 0; for (size_t j = 0; j < r.idx.size(); ++j) { size_t w = r.idx[j]; if (!binary(w)) { mn = -INF; mx = INF; break; } if (w <= v) { mn += r.co[j] * p[w]; mx += r.co[j] * p[w]; } else if (r.co[j] > 0) mx += r.co[j]; else mn += r.co[j]; } if (mn > r.hi || mx < r.lo) ok = false; }
      if (ok) go(p, d + 1, bin, in); }
    p[v] = 0;
  }
  void finish(std::vector<double> p) {
    for (size_t v = 0; v < lb.size(); ++v) if (!binary(v)) { double lo = lb[v], hi = ub[v];
      for (size_t k = 0; k < rows.size(); ++k) if (rows[k].live) { const Row& r = rows[k]; double s = 0, c = 0; bool other = false; for (size_t j = 0; j < r.idx.size(); ++j) { size_t w = r.idx[j]; if (w == v) c = r.co[j]; else { if (!binary(w) && w > v) other = true; s += r.co[j] * p[w]; } } if (c == 0) continue; if (other) sym_fail_("lp stub: a row with two slack variables"); if (r.hi < INF) { double b = (r.hi - s) / c; if (c > 0) { if (b < hi) hi = b; } else if (b > lo) lo = b; } if (r.lo > -INF) { double b = (r.lo - s) / c; if (c > 0) { if (b > lo) lo = b; } else if (b < hi) hi = b; } }
      if (lo > hi) return; bool up = obj[v] * sense < 0; if (up && hi >= INF) { unbounded = true; hi = lo; } p[v] = up ? hi : lo; }
    for (size_t k = 0; k < rows.size(); ++k) if (rows[k].live) { double s = 0; for (size_t j = 0; j < rows[k].idx.size(); ++j) s += rows[k].co[j] * p[rows[k].idx[j]]; if (s > rows[k].hi || s < rows[k].lo) return; }
    pts.push_back(p);
  }
  bool unbounded;
  void sym_fail_(const char* m) { CHECKM(false, m); }
  const std::vector<std::vector<double> >& points() {
    refresh(); pts.clear(); unbounded = false; std::vector<size_t> bin; std::vector<std::vector<int> > in(lb.size()); for (size_t i = 0; i < lb.size(); ++i) if (binary(i)) bin.push_back(i); for (size_t k = 0; k < rows.size(); ++k) if (rows[k].live) for (size_t j = 0; j < rows[k].idx.size(); ++j) in[rows[k].idx[j]].push_back((int)k);
    std::vector<double> p(lb.size(), 0); go(p, 0, bin, in); return pts;
  }
  std::vector<double> kept;
  bool allows(const std::vector<double>& p) const { for (size_t k = 0; k < rows.size(); ++k) if (rows[k].live) { double s = 0; for (size_t j = 0; j < rows[k].idx.size(); ++j) s += rows[k].co[j] * p[rows[k].idx[j]]; if (s > rows[k].hi || s < rows[k].lo) return false; } return true; }
  void solve() {
    ++solves; rowsAt.push_back(rows.size()); if (nextArbitrary()) { for (size_t i = 0; i < x.size(); ++i) x[i] = i < arbitraryNumber() ? (sym_param("pick", 0) ? sym_choice("lpx", 5) / 4. : sym_num("lpx", 0, 4, 4)) : (double)(i * 3 % 5) / 4; status = 2; objVal = objective(x); return; }
    if (solves <= fractional()) { for (size_t i = 0; i < x.size(); ++i) x[i] = sym_num("lpx", (long)(lb[i] * 4), (long)(ub[i] * 4), 4); bool ok = true; for (size_t k = 0; k < rows.size(); ++k) { double s = 0; for (size_t j = 0; j < rows[k].idx.size(); ++j) s += rows[k].co[j] * x[rows[k].idx[j]]; ok = ok & (s <= rows[k].hi) & (s >= rows[k].lo); } sym_assume(ok); status = 2; objVal = objective(x); return; }
    if (keep() && status == 2 && solves > fractional() + 1 && kept.size() == x.size() && allows(kept)) { x = kept; objVal = objective(x); return; }
    points(); if (known() && pts.size() > 1) { std::vector<std::vector<double> > o; double b = 0; for (size_t i = 0; i < pts.size(); ++i) { double w = objective(pts[i]) * sense; if (!i || w < b) { b = w; o.clear(); } if (w == b) o.push_back(pts[i]); } pts.swap(o); }
    if (pts.empty()) { status = 3; return; } if (unbounded) { status = 5; return; }
    size_t k = pts.size() == 1 ? 0 : sym_choice("lpopt", pts.size()); double v = objective(pts[k]); bool best = true; for (size_t i = 0; i < pts.size(); ++i) if (i != k) { double w = objective(pts[i]); best = best & (sense > 0 ? v <= w : v >= w); } sym_assume(best); x = pts[k]; kept = x; objVal = v; status = 2;
  }
};
}
