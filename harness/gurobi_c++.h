// The part of Gurobi's C++ interface that opengm uses, over lpcore.h
#pragma once
#include "lpcore.h"
#include <memory>
#define GRB_INFINITY 1e100
#define GRB_CONTINUOUS 'C'
#define GRB_BINARY 'B'
#define GRB_INTEGER 'I'
#define GRB_LESS_EQUAL '<'
#define GRB_GREATER_EQUAL '>'
#define GRB_EQUAL '='
#define GRB_OPTIMAL 2
enum GRB_IntParam { GRB_IntParam_Threads, GRB_IntParam_OutputFlag, GRB_IntParam_TuneOutput, GRB_IntParam_LogToConsole, GRB_IntParam_Method, GRB_IntParam_SiftMethod, GRB_IntParam_NodeMethod, GRB_IntParam_Presolve, GRB_IntParam_MIPFocus, GRB_IntParam_Cuts, GRB_IntParam_CliqueCuts, GRB_IntParam_CoverCuts, GRB_IntParam_GUBCoverCuts, GRB_IntParam_MIRCuts, GRB_IntParam_ImpliedCuts, GRB_IntParam_FlowCoverCuts, GRB_IntParam_FlowPathCuts };
enum GRB_DoubleParam { GRB_DoubleParam_Cutoff, GRB_DoubleParam_OptimalityTol, GRB_DoubleParam_IntFeasTol, GRB_DoubleParam_MIPGapAbs, GRB_DoubleParam_MIPGap, GRB_DoubleParam_FeasibilityTol, GRB_DoubleParam_MarkowitzTol, GRB_DoubleParam_TimeLimit };
enum GRB_IntAttr { GRB_IntAttr_ModelSense, GRB_IntAttr_Status, GRB_IntAttr_IsMIP };
enum GRB_DoubleAttr { GRB_DoubleAttr_Obj, GRB_DoubleAttr_X, GRB_DoubleAttr_ObjVal, GRB_DoubleAttr_ObjBound, GRB_DoubleAttr_Runtime };
struct GRBException { std::string m; int c; GRBException(const std::string& s = "", int n = 0) : m(s), c(n) {} std::string getMessage() const { return m; } int getErrorCode() const { return c; } };
struct GRBEnv { int ip[32]; double dp[16]; GRBEnv() { for (int i = 0; i < 32; ++i) ip[i] = -100; for (int i = 0; i < 16; ++i) dp[i] = -100; } void set(GRB_IntParam p, int v) { ip[p] = v; } void set(GRB_DoubleParam p, double v) { dp[p] = v; } };
struct GRBVar { lpstub::Core* c; int i; GRBVar() : c(0), i(-1) {} void set(GRB_DoubleAttr a, double v) { if (a != GRB_DoubleAttr_Obj) throw GRBException("attribute"); c->obj[i] = v; } double get(GRB_DoubleAttr a) const { if (a == GRB_DoubleAttr_Obj) return c->obj[i]; if (a != GRB_DoubleAttr_X) throw GRBException("attribute"); if (c->status != 2) throw GRBException("no solution", 10005); return c->x[i]; } };
struct GRBLinExpr { std::vector<int> i; std::vector<double> co; lpstub::Core* c; GRBLinExpr() : c(0) {} void addTerms(const double* a, const GRBVar* v, int n) { for (int k = 0; k < n; ++k) { i.push_back(v[k].i); co.push_back(a[k]); c = v[k].c; } } GRBLinExpr& operator+=(const GRBLinExpr& o) { i.insert(i.end(), o.i.begin(), o.i.end()); co.insert(co.end(), o.co.begin(), o.co.end()); return *this; } };
inline GRBLinExpr operator*(const GRBVar& v, double a) { GRBLinExpr e; e.addTerms(&a, &v, 1); return e; }
struct GRBConstr {};
class GRBModel {
  lpstub::Core core_; GRBEnv env_;
public:
  GRBModel(const GRBEnv& e) : env_(e) {}
  GRBEnv getEnvCopy() const { return env_; } GRBEnv& getEnv() { return env_; }
  GRBVar addVar(double l, double u, double o, char t, const std::string& = "") { GRBVar v; v.c = &core_; v.i = core_.addVar(l, u, o, t); return v; }
  GRBVar* addVars(const double* l, const double* u, const double* o, const char* t, const std::string*, int n) { GRBVar* v = new GRBVar[n ? n : 1]; for (int k = 0; k < n; ++k) v[k] = addVar(l ? l[k] : 0, u ? u[k] : GRB_INFINITY, o ? o[k] : 0, t ? t[k] : GRB_CONTINUOUS); return v; }
  GRBConstr addConstr(const GRBLinExpr& e, char s, double b, std::string name = "") { core_.addRow(e.i, e.co, s == GRB_LESS_EQUAL ? -lpstub::INF : b, s == GRB_GREATER_EQUAL ? lpstub::INF : b, name); return GRBConstr(); }
  GRBConstr* addConstrs(const GRBLinExpr* e, const char* s, const double* b, const std::string* names, int n) { for (int k = 0; k < n; ++k) addConstr(e[k], s[k], b[k], names ? names[k] : ""); return new GRBConstr[n ? n : 1]; }
  void setObjective(const GRBLinExpr& e, int s = 0) { for (size_t k = 0; k < core_.obj.size(); ++k) core_.obj[k] = 0; for (size_t k = 0; k < e.i.size(); ++k) core_.obj[e.i[k]] += e.co[k]; if (s) core_.sense = s; }
  void update() {} void optimize() { core_.solve(); }
  void set(GRB_IntAttr a, int v) { if (a != GRB_IntAttr_ModelSense) throw GRBException("attribute"); core_.sense = v; }
  int get(GRB_IntAttr a) const { if (a == GRB_IntAttr_Status) return core_.status; if (a == GRB_IntAttr_ModelSense) return core_.sense; for (size_t k = 0; k < core_.type.size(); ++k) if (core_.type[k] != GRB_CONTINUOUS) return 1; return 0; }
  double get(GRB_DoubleAttr a) const { if (a == GRB_DoubleAttr_Runtime) return 0; if (core_.status != 2) throw GRBException("no solution", 10005); if (a == GRB_DoubleAttr_ObjBound && !get(GRB_IntAttr_IsMIP)) throw GRBException("not a MIP", 10005); return core_.objVal; }
  void write(const std::string& f) const { const_cast<lpstub::Core&>(core_).exported = f; }
};
