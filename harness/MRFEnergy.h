// Stand-in for Kolmogorov's TRW-S package: the published sequential algorithm on small models, with the package's interface
// to its energy types (the table types are the stand-in's, TypeView is OpenGM's own).
#pragma once
#include "sym.h"
#include <vector>
#include <cstddef>
#include <cstring>
#include <cstdlib>
template<class T> class MRFEnergy {
  struct Node { typename T::LocalSize K; typename T::Vector* D; int sol; std::vector<size_t> fw, bw; Node(typename T::LocalSize k) : K(k), D(0), sol(0) {} };
  struct Link { Node *a, *b; typename T::Edge* m; double gf, gb; };
public:
  typedef typename T::REAL REAL; typedef Node* NodeId;
  struct Options { Options() : m_eps(-1), m_iterMax(1000000), m_printIter(5), m_printMinIter(10) {} REAL m_eps; int m_iterMax, m_printIter, m_printMinIter; };
  MRFEnergy(typename T::GlobalSize g, void (*)(char*) = 0) : G(g), most(0), buf(0), done(false) {}
  ~MRFEnergy() { for (size_t i = 0; i < N.size(); ++i) { std::free(N[i]->D); delete N[i]; } for (size_t i = 0; i < E.size(); ++i) std::free(E[i].m); std::free(buf); }
  NodeId AddNode(typename T::LocalSize K, typename T::NodeData d) { CHECKM(!done, "TRW-S: nodes precede the messages"); int s = T::Vector::GetSizeInBytes(G, K); CHECKM(s > 0, "TRW-S: size of a node"); Node* n = new Node(K); n->D = (typename T::Vector*)std::malloc(s); n->D->Initialize(G, K, d); N.push_back(n); if (s > most) most = s; return n; }
  void AddEdge(NodeId i, NodeId j, typename T::EdgeData d) { CHECKM(!done && has(i) && has(j) && i != j, "TRW-S: nodes of an edge"); int s = T::Edge::GetSizeInBytes(G, i->K, j->K, d); CHECKM(s > 0, "TRW-S: size of an edge"); Link l; l.a = i; l.b = j; l.m = (typename T::Edge*)std::malloc(s); l.m->Initialize(G, i->K, j->K, d, i->D, j->D); E.push_back(l); }
  void ZeroMessages() { finish(); for (size_t i = 0; i < E.size(); ++i) E[i].m->GetMessagePtr()->SetZero(G, E[i].b->K); }
  void AddRandomMessages(unsigned, REAL lo, REAL hi) { finish(); for (size_t i = 0; i < E.size(); ++i) { typename T::LocalSize K = E[i].b->K; typename T::Vector* v = E[i].m->GetMessagePtr(); for (int k = 0; k < T::Vector::GetArraySize(G, K); ++k) v->SetArrayValue(G, K, k, v->GetArrayValue(G, K, k) + sym_num("message", (int)lo, (int)hi, 1)); } }
  int Minimize_TRW_S(Options& o, REAL& low, REAL& energy, REAL* mm = 0) {
    finish(); int it = 0; do { ++it;
      for (size_t i = 0; i < N.size(); ++i) { gather(i); for (size_t k = 0; k < N[i]->fw.size(); ++k) { Link& l = E[N[i]->fw[k]]; l.m->UpdateMessage(G, N[i]->K, l.b->K, W, l.gf, 0, room); } }
      low = 0; for (size_t i = N.size(); i-- > 0; ) { gather(i); if (mm) keep(mm, i); low += W->ComputeAndSubtractMin(G, N[i]->K); for (size_t k = 0; k < N[i]->bw.size(); ++k) { Link& l = E[N[i]->bw[k]]; low += l.m->UpdateMessage(G, N[i]->K, l.a->K, W, l.gb, 1, room); } }
      energy = solve(); } while (it < o.m_iterMax); return it;
  }
  int Minimize_BP(Options& o, REAL& energy, REAL* mm = 0) {
    finish(); int it = 0; do { ++it; for (size_t q = 0; q < 2 * N.size(); ++q) { size_t i = q < N.size() ? q : 2 * N.size() - 1 - q; gather(i); if (mm) keep(mm, i); if (q < N.size()) for (size_t k = 0; k < N[i]->fw.size(); ++k) { Link& l = E[N[i]->fw[k]]; l.m->UpdateMessage(G, N[i]->K, l.b->K, W, 1, 0, room); } else for (size_t k = 0; k < N[i]->bw.size(); ++k) { Link& l = E[N[i]->bw[k]]; l.m->UpdateMessage(G, N[i]->K, l.a->K, W, 1, 1, room); } } energy = solve(); } while (it < o.m_iterMax); return it;
  }
  typename T::Label GetSolution(NodeId i) { CHECKM(has(i), "TRW-S: node of the solution"); return i->sol; }
private:
  typename T::GlobalSize G; int most; char* buf; bool done; std::vector<Node*> N, added; std::vector<Link> E; typename T::Vector *W, *V; void* room;
  bool has(Node* n) const { for (size_t i = 0; i < N.size(); ++i) if (N[i] == n) return true; return false; }
  size_t pos(Node* n) const { for (size_t i = 0; i < N.size(); ++i) if (N[i] == n) return i; return N.size(); }
  void finish() { // nodes in the order they were added (turn=1: the reverse, which an ordering of the package may choose); edges against it are turned around
    if (done) return; done = true; added = N; if (sym_param("turn", 0)) for (size_t i = 0; i < N.size() / 2; ++i) std::swap(N[i], N[N.size() - 1 - i]); for (size_t i = 0; i < E.size(); ++i) { if (pos(E[i].a) > pos(E[i].b)) { E[i].m->Swap(G, E[i].a->K, E[i].b->K); std::swap(E[i].a, E[i].b); } E[i].a->fw.push_back(i); E[i].b->bw.push_back(i); }
    for (size_t i = 0; i < E.size(); ++i) { E[i].gf = gamma(E[i].a); E[i].gb = gamma(E[i].b); } int extra = T::Edge::GetBufSizeInBytes(most); buf = (char*)std::malloc(2 * most + extra); W = (typename T::Vector*)buf; V = (typename T::Vector*)(buf + most); room = buf + 2 * most;
    if (extra > 0) { room = std::malloc(extra); rooms.own(room); } else { room = std::malloc(1); rooms.own(room); }
  }
  static double gamma(Node* n) { size_t m = n->fw.size() > n->bw.size() ? n->fw.size() : n->bw.size(); return m ? 1.0 / (double)m : 1.0; }
  void gather(size_t i) { W->Copy(G, N[i]->K, N[i]->D); for (size_t k = 0; k < N[i]->fw.size(); ++k) W->Add(G, N[i]->K, E[N[i]->fw[k]].m->GetMessagePtr()); for (size_t k = 0; k < N[i]->bw.size(); ++k) W->Add(G, N[i]->K, E[N[i]->bw[k]].m->GetMessagePtr()); }
  void keep(REAL* mm, size_t i) { size_t o = 0; for (size_t k = 0; added[k] != N[i]; ++k) o += T::Vector::GetArraySize(G, added[k]->K); for (int k = 0; k < T::Vector::GetArraySize(G, N[i]->K); ++k) mm[o + k] = W->GetArrayValue(G, N[i]->K, k); }
  REAL solve() { REAL e = 0; for (size_t i = 0; i < N.size(); ++i) { V->Copy(G, N[i]->K, N[i]->D); for (size_t k = 0; k < N[i]->bw.size(); ++k) { Link& l = E[N[i]->bw[k]]; l.m->AddColumn(G, l.a->K, N[i]->K, l.a->sol, V, 0); } W->Copy(G, N[i]->K, V); for (size_t k = 0; k < N[i]->fw.size(); ++k) W->Add(G, N[i]->K, E[N[i]->fw[k]].m->GetMessagePtr()); typename T::Label s; W->ComputeMin(G, N[i]->K, s); N[i]->sol = s; e += V->GetValue(G, N[i]->K, s); } return e; }
  struct Rooms { std::vector<void*> v; void own(void* p) { v.push_back(p); } ~Rooms() { for (size_t i = 0; i < v.size(); ++i) std::free(v[i]); } } rooms;
};
// the package's energy types over explicit tables
namespace mrfstub {
struct Table { std::vector<double> t; int a, b; };
template<class Derived> struct TableType {
  typedef int Label; typedef double REAL;
  struct Vector { double d[1]; 
    template<class GS, class LS> static int GetSizeInBytes(GS g, LS k) { return Derived::labels(g, k) * (int)sizeof(double); }
    template<class GS, class LS, class ND> void Initialize(GS g, LS k, ND n) { for (int i = 0; i < Derived::labels(g, k); ++i) d[i] = n.p[i]; }
    template<class GS, class LS> void SetZero(GS g, LS k) { for (int i = 0; i < Derived::labels(g, k); ++i) d[i] = 0; }
    template<class GS, class LS> void Copy(GS g, LS k, Vector* v) { for (int i = 0; i < Derived::labels(g, k); ++i) d[i] = v->d[i]; }
    template<class GS, class LS> void Add(GS g, LS k, Vector* v) { for (int i = 0; i < Derived::labels(g, k); ++i) d[i] += v->d[i]; }
    template<class GS, class LS> double GetValue(GS g, LS k, int l) { return d[l]; }
    template<class GS, class LS> double ComputeMin(GS g, LS k, int& l) { double m = d[0]; l = 0; for (int i = 1; i < Derived::labels(g, k); ++i) if (d[i] < m) { m = d[i]; l = i; } return m; }
    template<class GS, class LS> double ComputeAndSubtractMin(GS g, LS k) { int l; double m = ComputeMin(g, k, l); for (int i = 0; i < Derived::labels(g, k); ++i) d[i] -= m; return m; }
    template<class GS, class LS> static int GetArraySize(GS g, LS k) { return Derived::labels(g, k); }
    template<class GS, class LS> double GetArrayValue(GS, LS, int i) { return d[i]; }
    template<class GS, class LS> void SetArrayValue(GS, LS, int i, double x) { d[i] = x; }
  };
  struct Edge { int a, b, dir; Vector* msg; double* t;
    template<class GS, class LS, class ED> static int GetSizeInBytes(GS g, LS i, LS j, ED) { int A = Derived::labels(g, i), B = Derived::labels(g, j); return (int)sizeof(Edge) + (A * B + (A > B ? A : B)) * (int)sizeof(double); }
    static int GetBufSizeInBytes(int n) { return n; }
    template<class GS, class LS, class ED> void Initialize(GS g, LS i, LS j, ED d, Vector*, Vector*) { a = Derived::labels(g, i); b = Derived::labels(g, j); dir = 0; t = (double*)((char*)this + sizeof(Edge)); msg = (Vector*)(t + a * b); for (int k = 0; k < (a > b ? a : b); ++k) msg->d[k] = 0; for (int y = 0; y < b; ++y) for (int x = 0; x < a; ++x) t[x + y * a] = d.cost(x, y, a); }
    Vector* GetMessagePtr() { return msg; }
    template<class GS, class LS> void Swap(GS, LS, LS) { dir = 1 - dir; }
    template<class GS, class LS> double UpdateMessage(GS g, LS ks, LS kd, Vector* s, double gm, int way, void* buf) { int S = Derived::labels(g, ks), D = Derived::labels(g, kd); double* w = (double*)buf; for (int k = 0; k < S; ++k) w[k] = gm * s->d[k] - msg->d[k]; double m = 0; for (int y = 0; y < D; ++y) { double v = 0; for (int x = 0; x < S; ++x) { double c = w[x] + (way == dir ? t[x + y * a] : t[y + x * a]); if (!x || c < v) v = c; } msg->d[y] = v; if (!y || v < m) m = v; } for (int y = 0; y < D; ++y) msg->d[y] -= m; return m; }
    template<class GS, class LS> void AddColumn(GS g, LS ks, LS kd, int l, Vector* v, int way) { for (int y = 0; y < Derived::labels(g, kd); ++y) v->d[y] += way == dir ? t[l + y * a] : t[y + l * a]; }
  };
};
}
struct TypeGeneral : mrfstub::TableType<TypeGeneral> {
  typedef enum { POTTS, GENERAL } Type; struct GlobalSize {}; struct LocalSize { explicit LocalSize(int k) : K(k) {} int K; }; struct NodeData { explicit NodeData(double* x) : p(x) {} double* p; };
  struct EdgeData { EdgeData(Type y, double* x) : v(x) { CHECKM(y == GENERAL, "TRW-S: type of a general edge"); } double cost(int x, int y, int a) const { return v[x + y * a]; } double* v; };
  static int labels(GlobalSize, LocalSize k) { return k.K; }
};
struct TypeTruncatedLinear : mrfstub::TableType<TypeTruncatedLinear> {
  struct GlobalSize { explicit GlobalSize(int k) : K(k) {} int K; }; struct LocalSize {}; struct NodeData { explicit NodeData(double* x) : p(x) {} double* p; };
  struct EdgeData { EdgeData(double a, double l) : w(a), most(l) { CHECKM(a >= 0 && l >= 0, "TRW-S: weight and truncation are not negative"); } double cost(int x, int y, int) const { double v = w * (x < y ? y - x : x - y); return v < most ? v : most; } double w, most; };
  static int labels(GlobalSize g, LocalSize) { return g.K; }
};
struct TypeTruncatedQuadratic : mrfstub::TableType<TypeTruncatedQuadratic> {
  struct GlobalSize { explicit GlobalSize(int k) : K(k) {} int K; }; struct LocalSize {}; struct NodeData { explicit NodeData(double* x) : p(x) {} double* p; };
  struct EdgeData { EdgeData(double a, double l) : w(a), most(l) { CHECKM(a >= 0 && l >= 0, "TRW-S: weight and truncation are not negative"); } double cost(int x, int y, int) const { double v = w * ((x - y) * (x - y)); return v < most ? v : most; } double w, most; };
  static int labels(GlobalSize g, LocalSize) { return g.K; }
};
