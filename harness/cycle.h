// stand-in for MPLP (cycle.h): keeps variables, factors and values; every run ends in any labelling and any objective above the best
#pragma once
#include "harness.h"
#include <vector>
#include <map>
#include <string>
#include <cstdio>
#include <ctime>
#include <cmath>
#include <cstdlib>
#include <iostream>
#define MPLP_DEBUG_MODE 0
#define CLUSTER_THR .0000001
#define eps 1
#define Inf 2
class MPLPAlg {
public:
  static MPLPAlg*& latest() { static MPLPAlg* p = 0; return p; }
  std::vector<int> L; std::vector<std::vector<int> > v; std::vector<std::vector<double> > t; std::vector<int> m_decoded_res; double last_obj, m_best_val, last_global_decoding_total_time; clock_t last_global_decoding_end_time; bool CSP_instance; int runs, iters, decodings, decimations, intersections; double top; bool has;
  MPLPAlg(clock_t, double, const std::vector<int>& sizes, const std::vector<std::vector<int> >& f, const std::vector<std::vector<double> >& l, FILE*, bool csp) : L(sizes), v(f), t(l), m_decoded_res(sizes.size(), 0), last_obj(1e40), m_best_val(-1e40), last_global_decoding_total_time(0), last_global_decoding_end_time(0), CSP_instance(csp), runs(0), iters(0), decodings(0), decimations(0), intersections(0), top(0), has(false) { latest() = this; CHECKM(f.size() == l.size(), "a table for every factor"); for (size_t k = 0; k < f.size(); ++k) { size_t n = 1; for (size_t i = 0; i < f[k].size(); ++i) n *= L[f[k][i]]; CHECKM(n == l[k].size(), "a value for every configuration"); } }
  MPLPAlg(clock_t, double, const std::string&, const std::string&, FILE*, bool) { CHECKM(false, "no input file was given"); }
  double score(const std::vector<int>& x) const { double s = 0; for (size_t k = 0; k < v.size(); ++k) { size_t p = 0; for (size_t i = 0; i < v[k].size(); ++i) p = p * L[v[k][i]] + x[v[k][i]]; s += t[k][p]; } return s; }
  void decode() { for (size_t i = 0; i < L.size(); ++i) m_decoded_res[i] = (int)sym_choice("decoded", L[i]); double s = score(m_decoded_res); if (s > m_best_val) m_best_val = s; }
  void RunMPLP(size_t n, double, double) { ++runs; iters += (int)n; if (!has) { has = true; last_obj = sym_num("upper", -60, 60, 1); std::vector<int> x(L.size(), 0); bool more = true; while (more) { sym_assume(last_obj >= score(x)); more = false; for (size_t i = 0; i < x.size() && !more; ++i) { if (++x[i] < L[i]) more = true; else x[i] = 0; } } top = last_obj; decode(); } else if (runs == 2 && sym_choice("tight", 2)) { last_obj = dmax(); decode(); } }
  double dmax() const { std::vector<int> x(L.size(), 0); double m = score(x); bool more = true; while (more) { double s = score(x); m = sym_ite_d(s > m, s, m); more = false; for (size_t i = 0; i < x.size() && !more; ++i) { if (++x[i] < L[i]) more = true; else x[i] = 0; } } return m; }
  void RunGlobalDecoding(bool) { ++decodings; decode(); } void RunGlobalDecoding2(bool) { ++decodings; decode(); } void RunGlobalDecoding3() { ++decodings; decode(); } bool RunDecimation() { ++decimations; return decimations < 2; } void AddAllEdgeIntersections() { ++intersections; }
};
inline int TightenTriplet(MPLPAlg&, int, int, std::map<std::vector<int>, bool>&, double& b) { size_t c = sym_choice("triplets", 2); b = c ? 1 : 0; return (int)c; }
inline int TightenCycle(MPLPAlg&, int, std::map<std::vector<int>, bool>&, double& b, int) { b = 0; return 0; }
