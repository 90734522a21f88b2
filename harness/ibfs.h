// Stand-in for the IBFS max-flow package: nodes and room for edges are fixed by initSize
#pragma once
#include "mincutcore.h"
class IBFSGraph {
public:
  typedef enum { IB_INIT_FAST, IB_INIT_COMPACT } IBFSInitMode;
  IBFSGraph(IBFSInitMode = IB_INIT_FAST) : room(0), inited(false) {}
  void setVerbose(bool) {}
  bool initSize(int nodes, int edges) { CHECKM(nodes >= 0 && edges >= 0, "IBFS: sizes"); c.nodes(nodes); room = edges; return true; }
  void addNode(int i, int a, int b) { c.terminal(i, a, b); }
  void addEdge(int i, int j, int a, int b) { CHECKM((int)c.e.size() < room, "IBFS: more edges than announced"); c.edge(i, j, a, b); inited = false; }
  void initGraph() { inited = true; }
  int computeMaxFlow() { CHECKM(inited, "IBFS: the graph is initialised before the flow"); c.solve(); return 0; }
  int isNodeOnSrcSide(int i, int = 0) { CHECKM(c.done && i >= 0 && i < (int)c.s.size(), "IBFS: side of a node after the flow"); return !(c.sides >> i & 1); }
private:
  MinCutCore<double> c; // the whole numbers as reals, which the solver decides faster
  int room; bool inited;
};
