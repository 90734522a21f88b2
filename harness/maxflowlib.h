// Stand-in for Kolmogorov's max-flow package under the names OpenGM uses
#pragma once
#include "mincutcore.h"
namespace maxflowLib {
template<class CAP, class TCAP, class FLOW> class Graph {
public:
  typedef enum { SOURCE = 0, SINK = 1 } termtype; typedef int node_id;
  Graph(int nodes, int edges, void (*)(const char*) = 0) { CHECKM(nodes >= 0 && edges >= 0, "max-flow package: sizes"); }
  node_id add_node(int num = 1) { CHECKM(num >= 0, "max-flow package: number of nodes"); node_id r = (node_id)c.s.size(); c.nodes(num); return r; }
  void add_edge(node_id i, node_id j, CAP a, CAP b) { c.edge(i, j, a, b); }
  void add_tweights(node_id i, TCAP a, TCAP b) { c.terminal(i, a, b); }
  FLOW maxflow(bool = false) { return c.solve(); }
  termtype what_segment(node_id i, termtype = SOURCE) { CHECKM(c.done && i >= 0 && i < (node_id)c.s.size(), "max-flow package: side of a node after the flow"); return c.sides >> i & 1 ? SINK : SOURCE; }
private:
  MinCutCore<FLOW> c;
};
}
