// C38 through the CPLEX interfaces: lp.cpp with a stand-in for CPLEX's Concert in place of Gurobi's
#define LP_CPLEX
#include "lp.cpp"
