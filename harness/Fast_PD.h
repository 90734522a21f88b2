// Stand-in for the FastPD package: it ends in any labelling and with any dual variables it likes; what counts is the energy it was given.
#pragma once
#include "sym.h"
#include <vector>
namespace fastPDLib {
struct CV_Fast_PD {
  typedef double Real; struct Node_info { int label; }; Node_info* _pinfo; Real* _y;
  CV_Fast_PD(int n, int l, Real* costs, int pairs, int* p, Real* dist, int iters, Real* w) : N(n), L(l), P(pairs), most(iters), c(costs), d(dist), wt(w), pr(p), ran(false) { CHECKM(n > 0 && l > 0 && pairs >= 0 && iters > 0, "FastPD: sizes"); for (int k = 0; k < P; ++k) CHECKM(p[2 * k] >= 0 && p[2 * k] < N && p[2 * k + 1] >= 0 && p[2 * k + 1] < N && p[2 * k] != p[2 * k + 1], "FastPD: pairs"); _pinfo = new Node_info[N]; for (int i = 0; i < N; ++i) _pinfo[i].label = 0; _y = new Real[P * L + 1]; for (int i = 0; i < P * L; ++i) _y[i] = 0; last() = this; }
  ~CV_Fast_PD() { delete[] _pinfo; delete[] _y; }
  void run() { ran = true; for (int i = 0; i < N; ++i) _pinfo[i].label = (int)sym_choice("move", L); for (int i = 0; i < P * L; ++i) _y[i] = sym_num("dual", -2, 2, 1); }
  double energy() { double e = 0; for (int i = 0; i < N; ++i) e += c[_pinfo[i].label * N + i]; for (int k = 0; k < P; ++k) e += wt[k] * d[_pinfo[pr[2 * k + 1]].label * L + _pinfo[pr[2 * k]].label]; return e; }
  static CV_Fast_PD*& last() { static CV_Fast_PD* p = 0; return p; }
  int N, L, P, most; Real *c, *d, *wt; int* pr; bool ran;
};
}
