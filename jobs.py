"""Job tables: which harness entries decide which property, and within which bounds."""
COMMON_ASSUMPTIONS = [
  "floating point is modelled by exact rational arithmetic: rounding, overflow and NaN of finite inputs are outside the model (every counterexample is replayed with real IEEE arithmetic before it is reported)",
  "libstdc++ out-of-line parts and the iostream layer are replaced by small equivalents (engine/rt, engine/shim) in the symbolic run; memory allocation never fails",
  "assertions (OPENGM_ASSERT) are compiled out as in a release build (-DNDEBUG)"]
PROPS = {}
_J = {}
def P(pid, bounds, outside, assumptions=(), deadline=None):
    PROPS[pid] = {"bounds": bounds, "outside": outside, "assumptions": list(assumptions), "deadline": deadline or {"quick": 420, "thorough": 3000}}; _J[pid] = []
def A(pid, src, entry, quick=None, thorough=None, time=(25, 400), **kw):
    """quick / thorough: lists of parameter dicts; thorough runs both"""
    _J[pid].append((src, entry, quick if quick is not None else [{}], thorough or [], time, kw))
def jobs_for(pid, tier):
    out = []
    for src, entry, q, t, tm, kw in _J[pid]:
        for p in q + (t if tier == "thorough" else []):
            j = {"src": src, "entry": entry, "params": p, "time": tm[0] if tier == "quick" else tm[1]}; j.update(kw); out.append(j)
    return out
def X(**kw):
    """cartesian product of parameter lists"""
    r = [{}]
    for k, v in kw.items(): r = [dict(d, **{k: x}) for d in r for x in (v if isinstance(v, (list, tuple, range)) else [v])]
    return r

P("C01", "models of 1..4 variables with 2-3 labels, up to 9 factors of order 0..3 over 8 function types, values k/2 with |k|<=6 (all values symbolic), every labelling; copy/assign histories of 2 (quick) / 3 (thorough) operations over 3 models; every factor structure of 3 factors over 3 variables", "larger models, label counts above 3, value types other than double/float")
A("C01", "model.cpp", "c01_eval", X(topo=[1, 2, 3, 5, 7], lab=2, rot=[0, 2, 4]) + X(topo=[2, 3], lab=[1], rot=[1, 3, 5, 6]), X(topo=range(1, 20), lab=[1, 2, 3], rot=range(8)))
A("C01", "model.cpp", "c01_eval_mul", X(topo=[1, 2, 6], lab=[2, 3]), X(topo=[3, 5, 7], lab=[0, 2]))
A("C01", "model.cpp", "c01_spaces")
A("C01", "model.cpp", "c01_build", X(n=3, m=[1, 2], fin=[0, 1]) + X(n=2, m=3, fin=[0, 1]), X(n=3, m=3, fin=[0, 1]))
A("C01", "model.cpp", "c01_copy", X(steps=2), X(steps=3))
A("C01", "model.cpp", "c01_shared", X(m=[2, 3]), X(m=4))
A("C01", "model.cpp", "c01_reject", X(nf=[0, 1])); A("C01", "model.cpp", "c01_const", X(topo=[0, 1, 6]))

P("C02", "every factor structure of up to 3 factors over 3 variables and 4 factors over 4 variables (chains); 2x2, 2x3, 3x2 grids under every variable permutation (3x3 under sampled permutations in thorough)", "larger graphs")
A("C02", "model.cpp", "c02_queries", X(n=3, m=[1, 2, 3]) + X(n=4, m=2), X(n=4, m=3))
A("C02", "model.cpp", "c02_global", X(n=3, m=[1, 2, 3]) + X(n=4, m=[2, 3]), X(n=4, m=4) + X(n=5, m=3))
A("C02", "model.cpp", "c02_chain", X(n=[1, 2, 3], m=3) + X(n=4, m=3), X(n=4, m=4))
A("C02", "model.cpp", "c02_grid", X(w=2, h=2, un=[0, 1], drop=[0, 1]) + X(w=3, h=1, un=1, drop=0) + X(w=[3, 4], h=3, un=0, swaps=[1, 2]) + X(w=[5, 7], h=2, un=0, swaps=[1, 3]) + X(w=2, h=5, un=0, swaps=[1, 2]) + X(w=3, h=3, un=0, swaps=1, drop=1) + X(w=[3, 4], h=2, un=0, swaps=1, extra=1) + X(w=3, h=3, un=0, swaps=1, extra=1) + X(w=[3], h=2, un=1, drop=0), X(w=3, h=2, un=0, drop=1) + X(w=4, h=2, un=0, drop=0) + X(w=3, h=3, un=0, drop=0))
A("C02", "model.cpp", "c02_fid")

KIND = dict(POTTS=0, ABS=1, SQ=2, TABS=3, TSQ=4, POTTSN=5, CONST=6, EXPL=7, SPARSE=8, POTTSG=9, LCOST=10, LCOST1=11, LCOSTS=12, LCOST1S=13, SUM=14, SUMS=15)
def K(names, shapes, **kw): return [dict({"kind": KIND[n], "dim": len(str(s)), "shape": int(s)}, **kw) for n in names for s in shapes]
TWO = ["POTTS", "ABS", "SQ", "TABS", "TSQ"]; ANY = ["POTTSN", "CONST", "EXPL"]
P("C03", "all parameters symbolic (k/2, |k|<=6; truncation k/2 in [0,10]); label ranges 1x1..4x4 for two-label types, dimension 0-4 otherwise, every label tuple of the shape; copies and assignments", "dimensions above 5, label counts above 4, value types other than double")
A("C03", "functions.cpp", "c03_value", K(TWO, [22, 32, 14, 23, 33, 44]) + K(ANY, [2, 23, 321, 2122]) + K(["EXPL", "CONST"], [1]) + K(["SPARSE"], [3, 22, 32]) + K(["LCOST", "LCOST1", "SUM"], [22, 32, 231]) + K(["LCOSTS", "LCOST1S", "SUMS"], [22, 222, 33]), K(TWO, [11, 41, 34, 43, 55]) + K(ANY, [222, 2222, 332]) + K(["SPARSE"], [222, 33]) + K(["LCOST", "LCOST1", "SUM"], [2222, 333, 423]))
A("C03", "functions.cpp", "c03_single")
A("C03", "functions.cpp", "c03_pottsg", [dict(dim=len(s), shape=int(s)) for s in ("22", "32", "222", "333", "323", "2222", "22222")], [dict(dim=len(s), shape=int(s)) for s in ("3333", "4444", "33333")])
A("C03", "functions.cpp", "c03_foe", X(order=[1, 2], experts=[1, 2]), X(order=3, experts=2))
P("C04", "explicit tables of shape 2x2, 2x3, 3x2, 3x3, 2x2x2, 3x3x3 and parametrised types with all parameters symbolic", "tables with a single label per variable for the difference forms; product of tables with more than 6 entries")
FL = K(["EXPL"], [22, 23, 32, 33, 222]) + K(TWO, [22, 32, 23, 33]) + K(["POTTSN", "CONST"], [22, 33, 222, 23, 2222]) + K(["LCOST", "LCOST1", "SUM"], [22]) + K(["SPARSE"], [22])
A("C04", "functions.cpp", "c04_flags", FL, K(["EXPL"], [332, 24, 42, 34]) + K(TWO, [44, 24, 43]) + K(["LCOST", "LCOST1", "SUM", "LCOSTS"], [33, 222]) + K(["SPARSE"], [33]))
A("C04", "functions.cpp", "c04_summary", K(["EXPL", "CONST"], [3, 22, 32], what=1) + K(TWO, [22, 12, 32, 33, 11], what=1) + K(["POTTSN"], [2, 22, 222], what=1) + K(["SPARSE"], [22], what=1) + K(["LCOST", "LCOST1", "SUM"], [22], what=1), K(["EXPL"], [222, 33], what=1) + K(TWO, [44, 24], what=1))
A("C04", "functions.cpp", "c04_pottsg", [dict(dim=len(s), shape=int(s), what=w) for s in ("22", "33", "333", "222") for w in (0, 1)], [dict(dim=4, shape=2222, what=0)])
A("C04", "functions.cpp", "c04_factor", K(["EXPL", "POTTS", "TABS", "CONST", "ABS", "SQ", "TSQ", "POTTSN"], [22, 32], what=0) + K(["EXPL", "POTTS", "TABS", "CONST", "ABS", "SQ", "TSQ", "POTTSN"], [22], what=1))
P("C05", "every serialisable type of C03 with the same parameter ranges; learnable functions with 4 weights and up to 2 features", "constraint functions are covered by C25; functions without serialisation")
A("C05", "functions.cpp", "c05_round", K(TWO, [22, 23, 41]) + K(ANY, [2, 23, 321]) + K(["SPARSE"], [3, 22]) + K(["LCOST", "LCOST1", "SUM"], [22, 32, 231]) + K(["LCOSTS", "LCOST1S", "SUMS"], [22, 222]), K(TWO, [33, 14]) + K(ANY, [2222]) + K(["SPARSE"], [222, 33]))
A("C05", "functions.cpp", "c05_pottsg", [dict(dim=len(s), shape=int(s)) for s in ("22", "323", "2222", "22222")])
A("C05", "functions.cpp", "c05_single"); A("C05", "functions.cpp", "c05_foe"); A("C05", "functions.cpp", "c05_learn", X(kind=[0, 1, 2]))

P("C09", "every numbered tree of 4 and every graph of 3 variables with some symbolic entries; models of 1-4 variables with 2-3 labels (values k, |k|<=3), explicit and Potts tables, order up to 3, constant factors; minimise/maximise, sum/product; k-best up to 3 for the best-first search, all heuristics and node orders", "larger models; heap truncation (maxHeapSize_)")
A("C09", "exact.cpp", "c09_brute", X(topo=[0, 1, 9], lab=[0, 2], op=[0, 1]) + X(topo=[2], lab=0, op=[0, 1], potts=1) + X(topo=[6], lab=[0], un=0, op=[0, 1], R=1) + X(topo=[1], lab=0, op=[2, 3], R=2) + X(topo=1, lab=2, ford=[1, 2], op=0))
A("C09", "exact.cpp", "c09_astar", X(topo=[0, 1, 9], lab=[0, 2], op=[0, 1]) + X(topo=2, lab=0, op=[0, 1], potts=1, order=[0, 1, 2]) + X(topo=3, lab=0, op=0, potts=1, order=[0, 1, 2], R=2) + X(topo=6, lab=0, un=0, op=0, conc=2, heur=[1, 2], order=[0, 1, 2]) + X(topo=1, lab=0, op=[2, 3], R=2) + X(topo=1, lab=2, ford=[1, 2], op=0, heur=1) + X(topo=1, lab=2, un=2, ford=[1, 2], op=0, heur=2, conc=2) + X(topo=1, lab=0, k=[2, 3], heur=[1, 2]) + X(topo=7, lab=0, potts=1, conc=4, R=2, order=[0, 1, 2], heur=[1, 2]))
A("C09", "exact.cpp", "c09_astar", X(topo=113, lab=0, potts=1, conc=5, order=[0, 1, 2], R=2) + X(topo=104, lab=0, potts=1, conc=5, un=2, order=[0, 1, 2], R=1))
P("C10", "every numbered tree of 3-4 variables with some symbolic entries; trees, forests, hypertrees of 1-5 variables with 2-3 labels, minimise/maximise, sum/product, sequential/parallel/acyclic schedules, with and without normalisation; every choice of the root", "larger trees; sum-product with normalisation")
A("C10", "exact.cpp", "c10_dp", X(topo=[0, 1, 9], lab=[0, 2], op=[0, 1], roots=[0, 1]) + X(topo=[2, 8, 16], lab=0, op=[0, 1], potts=1, roots=[0, 1]) + X(topo=[1], lab=0, op=[2, 3], R=2)+ X(topo=[20, 21], lab=0, potts=1, roots=[0, 1]) + X(topo=[16], lab=[3, 5], potts=1, roots=1, R=2) + X(topo=4, lab=[2, 3], potts=1, roots=1, conc=5, R=2) + X(topo=[1, 2, 9, 20], lab=0, potts=1, roots=[2, 3], R=2))
A("C10", "exact.cpp", "c10_dp", X(topo=[103, 104], lab=0, potts=1, conc=3, un=2, R=2, roots=0) + X(topo=104, lab=0, potts=1, conc=4, R=2, roots=1))  # every numbered tree
A("C10", "exact.cpp", "c10_mp", X(topo=[0, 9], lab=[0, 2], op=[0, 1], trbp=[0, 1]) + X(topo=1, lab=0, op=[0, 1], trbp=[0, 1]) + X(topo=1, lab=2, op=0, trbp=[0,1], un=2) + X(topo=[2, 16], lab=0, op=0, potts=1, trbp=[0, 1], mode=[1, 2, 3], R=2) + X(topo=[8, 20, 21], lab=0, op=0, potts=1, un=2, trbp=[0, 1], mode=[1, 2, 3], R=2) + X(topo=10, lab=0, potts=1, un=2, trbp=[0, 1], mode=[0, 2], R=2) + X(topo=[1], lab=0, op=[2, 3], R=2) + X(topo=6, lab=0, un=1, conc=3) + X(topo=[1, 2], lab=0, potts=1, marg=1, nonorm=[0, 1], trbp=[0, 1]))
A("C10", "exact.cpp", "c10_mp", X(topo=[103, 104], lab=0, potts=1, conc=4, un=2, R=2, trbp=[0, 1]))
P("C11", "cyclic models of 2-4 variables (triangle, 4-cycle, parallel factors, two overlapping third-order factors) with binary labels, 1-3 steps, both schedules and a given node order, damping 0, 1/4, 1/2 and 3/4, convergence bound 0 and 1, with and without normalisation, plain and reweighted updates (given and derived weights), sum-product without normalisation", "more steps; larger models")
A("C11", "exact.cpp", "c11_loopy", X(topo=[3], lab=0, potts=1, un=2, R=2, steps=[1, 2], trbp=[0, 1], seq=[0, 1], again=1) + X(topo=[12], lab=[0], un=2, conc=2, R=2, trbp=[0, 1], op=[0, 1], damp=[0, 1], nonorm=[0, 1], again=1) + X(topo=18, lab=0, potts=1, un=2, R=1, steps=1, trbp=[0, 1], damp=1) + X(topo=17, lab=0, conc=6, R=1, steps=1, trbp=[0, 1]) + X(topo=12, lab=0, conc=3, R=2, op=[2, 3], trbp=[0]) + X(topo=3, lab=2, potts=1, un=2, R=1, steps=2, acyc=1))
A("C10", "exact.cpp", "c10_sum", X(topo=[0, 1, 2], lab=[0, 2], un=[1, 2], R=3, mode=0) + X(topo=[4, 6], lab=0, un=1, conc=2, R=3, mode=0) + X(topo=[0, 1, 2], lab=0, un=1, conc=4, R=3, mode=[1, 2], trbp=[0, 1]))
A("C11", "exact.cpp", "c11_equations", X(topo=3, lab=0, un=2, conc=4, R=2, trbp=0, seq=[0, 1, 2], damp=[0, 3]) + X(topo=3, lab=0, un=2, conc=5, R=2, trbp=1, seq=[0, 1, 2], damp=[0, 3], nonorm=1) + X(topo=[12, 1], lab=0, un=2, conc=3, R=2, trbp=0, nonorm=[0, 1], damp=[0, 1], steps=[2, 3]) + X(topo=[12, 1], lab=0, un=2, conc=4, R=2, trbp=1, nonorm=[0, 1], damp=[0, 1], steps=2) + X(topo=[3, 12], lab=0, un=1, conc=6, R=2, trbp=0, seq=[0, 1], bnd=1, steps=3, op=1) + X(topo=[18, 17], lab=0, un=2, conc=4, R=2, trbp=[0, 1], seq=[0, 1], damp=1) + X(topo=12, lab=0, un=2, conc=5, op=[2, 3], nonorm=1, seq=[0, 1])+ X(topo=12, lab=0, un=2, conc=5, op=2, nonorm=0, steps=1))
A("C11", "exact.cpp", "c11_equations", X(topo=[12, 3], lab=0, un=2, op=4, nonorm=1, conc=[2, 3], seq=0) + X(topo=12, lab=0, un=2, op=4, nonorm=1, conc=6, seq=1, steps=[1, 2]))
P("C12", "every numbered tree of 4 and every graph of 3 variables with some symbolic entries; networks with up to 3 inner nodes (complete, chain with both directions, parallel edges) and every network of 3 (4) edges over 2 inner nodes; binary models of 1-4 variables with unary, pairwise and third-order factors; min and max; three max-flow algorithms and two external libraries", "larger networks; the flow computation inside external max-flow libraries (a stand-in returns every minimum cut); truncation of fractional capacities by the integer library")
A("C12", "graphcut.cpp", "c12_cut", X(alg=[0, 1, 2, 3], net=[0, 1, 2], n=[1, 2]) + X(alg=[0, 1, 2, 3], net=3, n=2, m=3) + X(alg=[0, 1, 2], net=1, n=3, R=2), X(alg=[0, 1, 2], net=[0, 2], n=3, R=1) + X(alg=[0, 1, 2], net=3, n=2, m=4))
A("C12", "graphcut.cpp", "c12_graphcut", X(alg=[0, 1, 2, 3], topo=[0, 1, 12], op=[0, 1]) + X(alg=[0, 1, 2, 3], topo=[2, 3], op=0, potts=1, R=2) + X(alg=4, topo=0, op=[0, 1]) + X(alg=4, topo=1, op=[0, 1], R=1, un=[0, 1]) + X(alg=4, topo=[2, 3], R=1, un=2, potts=1) + X(alg=2, topo=1, cf=1, un2=1, scale=[1, 2], R=2) + X(alg=[2], topo=6, un=0, R=1) + X(alg=[0, 1, 2, 3], topo=6, un=1, R=2, c3=1) + X(alg=4, topo=6, un=0, R=1, c3=1) + X(alg=2, topo=[17,23,29,30], un=2, R=1, c3=1))
A("C12", "graphcut.cpp", "c12_graphcut", X(alg=[0, 2], topo=[113, 104], op=0, potts=1, R=2, un=2))
A("C12", "graphcut.cpp", "c12_refuse")

P("C15", "every graph of 3-4 variables and every numbering of a path of 6 with one set (or one after another) to flip; models of 1-4 variables with 2-3 labels, explicit and Potts tables up to order 3; every start labelling given three ways; subgraph sizes 1-3; two inferences in a row; sum/product, min/max; LOC: 3-6 variables, tree and block radius 1-3, size limits 2-4, lazy flipper / AD3 / CPLEX on the blocks (packages replaced by exact answers)", "larger models and subgraphs; shuffled orders; radii drawn at random by LOC come from a fixed sequence; a LOC block solver that answers worse than optimally")
A("C15", "local.cpp", "c15_icm", X(topo=[0, 1, 9], lab=[0, 2], op=[0, 1], start=[0, 1, 2]) + X(topo=1, lab=0, op=[2, 3]) + X(topo=[2, 3], lab=0, potts=1, R=2, fac=[0, 1]) + X(topo=[2, 3], lab=0, potts=1, R=1, un=2, fac=[0, 1], again=1) + X(topo=6, lab=0, un=0, fac=[0, 1], R=1) + X(topo=[10], lab=0, conc=5, un=1, fac=[1], R=4) + X(topo=1, lab=1, conc=2, fac=1, cf=1, again=1) + X(topo=32, lab=0, potts=1, R=3, un=3, fac=1, conc=[0, 2]))
A("C15", "local.cpp", "c15_lazy", X(topo=[0, 1, 9], lab=[0, 2], op=[0, 1], size=[1, 2]) + X(topo=1, lab=0, op=[2, 3], size=2) + X(topo=[2, 3], lab=0, potts=1, R=2, size=[2, 3], multi=[0, 1]) + X(topo=6, lab=0, un=0, size=3, R=1) + X(topo=10, lab=0, conc=5, size=[2, 3], R=4, multi=[1, 2]) + X(topo=1, lab=[0, 1, 5], conc=3, size=2, again=1) + X(topo=3, lab=5, conc=2, size=3) + X(topo=11, lab=0, potts=1, un=0, R=1, size=[3, 4], start=0))
A("C15", "local.cpp", "c15_graph", X(n=3, size=3, start=0, multi=[0, 1]) + X(n=4, size=[3, 4], start=0) + X(n=4, size=3, start=0, multi=1, extra=1) + X(n=6, size=3, two=1, first=[0, 1, 2, 3, 4, 5], start=0))
A("C15", "loc.cpp", "c15_loc", X(topo=[2, 3], solver=[0, 1], block=2, opt=0, R=1) + X(topo=3, solver=[0, 3], block=1, R=1, opt=1, un=0) + X(topo=2, block=0, tree=[2, 3], runs=[1, 2], op=[0, 1, 2, 3], R=2, opt=1) + X(topo=[4, 10, 24, 17, 25], block=0, tree=2, conc=5, op=[0, 2], un=2) + X(topo=[4, 24], solver=[1, 2], block=2, tree=[0, 2], conc=8, op=[0, 3]) + X(topo=[4, 24], solver=1, block=2, tree=[0, 2], conc=12, op=0, again=1) + X(topo=[5, 8, 26], solver=[1, 2], block=2, tree=[0, 2], conc=9, op=[0, 3]) + X(topo=[12, 2], block=0, tree=2, un2=1, op=[0, 2], conc=2) + X(topo=[10, 13], block=0, tree=[2, 3], maxTree=[2, 3, 4], conc=6) + X(topo=11, solver=1, block=2, maxBlock=[2, 3, 4], conc=5) + X(topo=14, solver=1, block=2, maxBlock=[3, 4], conc=9, un=2) + X(topo=[10, 24], block=0, tree=2, runs=[0, 2], conc=5, copy=1, rand=[0, 1]) + X(topo=[6, 7, 9, 21], solver=[0, 1], block=2, conc=3, cf=1) + X(topo=2, lab=[1, 2], block=0, tree=3, conc=3) + X(topo=10, lab=[1, 2], block=0, tree=3, conc=6, un=2))
P("C19", "models of 1-3 variables with 1-3 labels (tables up to order 3); every sequence of 2 (quick) / 3 (thorough) operations over all singles, ordered pairs and the whole set; sum/product, min/max, zero factor values", "longer histories; negative products")
A("C19", "local.cpp", "c19_moves", X(topo=1, lab=0, op=[0, 1]) + X(topo=1, lab=0, op=0, init=1, steps=1) + X(topo=1, lab=2, op=1, only=[0, 2, 3]) + X(topo=1, lab=2, op=0, steps=1, init=1) + X(topo=1, lab=0, op=[2, 3], zero=[0, 1], R=2) + X(topo=3, lab=[0, 5], potts=1, op=0, only=[0, 1, 2, 3], R=1) + X(topo=6, lab=5, un=2, conc=3, only=[2, 3], steps=1, R=2) + X(topo=9, lab=1, only=3, steps=1) + X(topo=1, lab=0, sing=1, steps=3, ops=[150, 152, 252, 150, 142, 242], R=2) + X(topo=2, lab=0, un=0, sing=1, steps=3, ops=[150, 130, 112], R=2), X(topo=1, lab=0, steps=3, R=2) + X(topo=1, lab=[0, 2], op=[0, 1], init=1))
A("C19", "local.cpp", "c19_propose", X(topo=[1, 2], lab=[0], op=[0, 1], R=2) + X(topo=[6], lab=[0], un=2, conc=2) + X(topo=1, lab=2, op=0))
P("C13", "every graph of 3 variables with Potts terms; binary models of 1-4 variables with unary, pairwise (any table or Potts, repeated, cyclic) and constant factors; three max-flow algorithms", "larger models; external roof duality")
A("C13", "binary.cpp", "c13_qpbo", X(alg=[0, 1, 2], topo=[0, 1], sub=[0, 1]) + X(alg=[2], topo=2, potts=1, R=2, sub=[0, 1]) + X(alg=2, topo=3, potts=1, R=2, sub=1) + X(alg=2, topo=3, potts=1, R=1) + X(alg=2, topo=12, cf=1, un=0, R=1) + X(alg=2, topo=2, R=1, un=0, last=1) + X(alg=2, topo=18, R=1, un=2, potts=1) + X(alg=[0, 1], topo=3, potts=1, un=2, R=2))
A("C13", "binary.cpp", "c13_qpbo", X(alg=2, topo=113, potts=1, R=2, sub=0))
A("C13", "binary.cpp", "c13_order")
P("C14", "every set of 3 truth tables over 3 variables (2 over 4), every 4 clauses over 3 variables, cycles of 5-6 clauses over 4 variables", "larger formulas")
A("C14", "sat.cpp", "c14_sat", X(n=2, m=2) + X(n=3, m=2) + X(n=3, m=[3], clause=1) + X(n=2, m=4, clause=1), X(n=3, m=4, clause=1) + X(n=4, m=3, clause=1))
A("C14", "sat.cpp", "c14_implications", X(n=3, m=[3, 4]) + X(n=4, m=5), X(n=4, m=6) + X(n=5, m=6)); A("C14", "sat.cpp", "c14_refuse"); A("C14", "sat.cpp", "c14_tables", X(n=4, pairs=[1132302], zeros=[2112, 1212, 1221, 2121, 2211, 1122]) + X(n=3, pairs=[10212, 120102], zeros=[222, 221, 122]), X(n=4, pairs=[1132302, 1122303], zeros=[2222, 2122, 2221]))
P("C16", "models of 1-4 variables with 2-4 labels; Potts, truncated-linear, every metric (semi-metric for the swap) table; every start, label order, repeated inference, variables short of a label", "larger models; random starts and orders")
A("C16", "graphcut.cpp", "c16_expansion", X(topo=[0, 1], nl=2, kind=0, start=[0, 1, 2]) + X(alg=[3, 4], topo=[0, 1], nl=2, kind=0) + X(alg=[3, 4], topo=1, nl=3, kind=0, R=1, conc=2) + X(topo=0, nl=3, kind=0, start=[0, 1, 2]) + X(topo=1, nl=3, kind=0, start=0) + X(topo=1, nl=3, kind=0, start=[1, 2], R=2, un=2) + X(topo=1, nl=3, kind=[1, 2], R=2, conc=2) + X(topo=1, nl=2, kind=4, R=2) + X(topo=[2, 3], nl=3, kind=0, R=2, conc=3) + X(topo=1, nl=3, kind=0, order=1, R=2, conc=2) + X(topo=1, nl=3, kind=0, start=3, again=1, R=1) + X(topo=1, nl=3, un2=1, cf=1, R=1, conc=2) + X(topo=12, nl=3, R=2, steps=2) + X(topo=1, nl=4, kind=0, R=2, conc=2) + X(topo=2, nl=3, kind=2, R=1, conc=9, start=1) + X(topo=1, nl=3, start=[0, 1], again=1, conc=2) + X(topo=1, nl=3, start=[0, 1], R=2, conc=2, uneq=[1, 2]) + X(topo=1, nl=2, R=2, uneq=[1, 2], start=[0, 1], kind=4) + X(topo=2, nl=3, R=2, conc=4, uneq=[2, -1, -2]) + X(topo=1, nl=3, R=1, conc=2, uneq=1, order=1))
A("C16", "graphcut.cpp", "c16_swap", X(topo=[0, 1], nl=2, kind=0, start=[0, 1]) + X(topo=0, nl=3, kind=0) + X(topo=1, nl=3, kind=0, start=[0]) + X(topo=1, nl=3, kind=0, start=1, R=2, un=2) + X(topo=1, nl=3, kind=[1, 2, 3], R=2, conc=2) + X(topo=1, nl=2, kind=4, R=2) + X(topo=[2, 3], nl=3, kind=0, R=1, conc=4) + X(topo=1, nl=3, un2=1, cf=1, R=1, conc=2) + X(topo=12, nl=3, R=2, iters=2) + X(topo=1, nl=4, kind=0, R=1, conc=2) + X(topo=2, nl=3, kind=2, R=1, conc=9) + X(topo=1, nl=3, again=1, R=2, conc=2, start=[0, 1]) + X(topo=1, nl=4, kind=1, R=2, conc=3) + X(topo=1, nl=3, start=[0, 1], R=2, conc=2, uneq=[1, 2]) + X(topo=1, nl=2, R=2, uneq=[1, 2], start=[0, 1]) + X(topo=2, nl=3, R=2, conc=4, uneq=[2, -1, -2]))
A("C16", "graphcut.cpp", "c16_param")
P("C20", "every numbered tree of 4 and every graph of 3 variables with some symbolic entries; models of 1-5 variables with 2-3 labels, unary, pairwise, third-order and constant factors (values k, |k|<=3); every subset of fixed variables and labels; both modes, whole reduced model and submodels; up to two rounds of fixing; sum/product, min/max", "larger models; products of negative values in the elimination of tentacles")
A("C20", "manip.cpp", "c20_fix", X(topo=[1, 2, 3, 6, 9], lab=0, drop=[0, 1], sub=[0, 1], lock=[0, 1]) + X(topo=[7, 8], lab=2, conc=3, cf=1, sub=[0, 1], drop=[0, 1], both=1) + X(topo=2, lab=0, conc=3, rounds=2, sub=[0, 1]) + X(topo=[1, 21], lab=5, un=[0, 2], freeone=1, twice=1, sub=[0, 1], cf=1) + X(topo=2, lab=0, op=1, sub=[0, 1], un=2))
A("C20", "manip.cpp", "c20_fix", X(topo=113, lab=0, conc=4, sub=[0, 1], drop=[0, 1]) + X(topo=104, lab=0, conc=6, sub=[0, 1]))  # every graph of three variables, every numbered tree of four
A("C20", "manip.cpp", "c20_tentacles", X(topo=[1, 2, 9, 21], lab=0, op=[0, 1], sub=[0, 1], potts=1) + X(topo=[3, 12], lab=0, potts=1, sub=[0, 1], R=2, again=1) + X(topo=[24, 26, 27], lab=0, conc=4, R=2, potts=1, sub=[0, 1]) + X(topo=[7, 17, 25, 28], lab=0, conc=6, R=2, un=2, sub=[0, 1]) + X(topo=[24], lab=2, conc=12, un=0, sub=[0, 1]) + X(topo=25, lab=0, conc=9, un=1, op=1) + X(topo=1, lab=2, conc=2, cf=1) + X(topo=21, lab=0, un=0))
A("C20", "manip.cpp", "c20_tentacles", X(topo=[104, 113], lab=0, conc=12, R=2, potts=1, sub=[0, 1]) + X(topo=114, lab=0, conc=12, R=2, potts=1))
P("C21", "every structure of up to 4 factors (order <= 3, constant, repeated) over 3 variables and 2-3 factors over 4 variables; every grouping of factors or variables into 1-3 submodels; every hand-made decomposition of 2 submodels with up to 2 variables each", "larger structures; fans of higher-order models (refused)")
A("C21", "decomp.cpp", "c21_auto", X(n=3, m=[1, 2, 3], kind=[0, 1, 2, 3]) + X(n=4, m=2, kind=[0, 1, 2, 3]) + X(n=1, m=1, kind=[0, 1, 2, 3]), X(n=3, m=4, kind=[0, 1, 2, 3]) + X(n=4, m=3, kind=[0, 1, 2, 3]))
A("C21", "decomp.cpp", "c21_groups", X(n=3, m=2, S=[1, 2], kind=[0, 1, 2, 3], rev=0) + X(n=3, m=2, S=3, kind=0, rev=1) , X(n=3, m=3, S=[2], kind=[0, 1, 2, 3]) + X(n=4, m=2, S=2, kind=[0, 1, 2, 3]))
A("C21", "decomp.cpp", "c21_manual", X(n=2, m=1, S=[1, 2], nv=2, off=[0, 1, 2, 3, 4], order=[0, 1]) + X(n=2, m=2, S=1, nv=2, order=[0, 1]), X(n=2, m=2, S=2, nv=2) + X(n=3, m=2, S=1, nv=3))
P("C07", "every pair of variable sets over 3 variables (4 in thorough) with 2-3 labels, explicit and Potts tables with symbolic entries k/2 and k; + - * / and logical operators; minimum, maximum, sum, product over every list of variables in every order", "more than 4 variables; value types other than double")
A("C07", "algebra.cpp", "c07_binary", X(op=0, form=range(7), dirty=[0, 1]) + X(op=[1, 2, 3], form=[0, 3, 4, 6]) + X(op=[4, 5], form=[0, 3, 4, 5], n=2) + X(op=1, form=[1, 2, 3, 5], potts=1, lab=3), X(op=[0, 1, 2], form=range(7), lab=1) + X(n=4, lab=0, op=1, form=[0, 4, 5]))
A("C07", "algebra.cpp", "c07_scalar", X(op=[0, 1, 2, 3, 4, 5], form=range(5), n=2) + X(op=1, form=range(7), n=3))
A("C07", "algebra.cpp", "c07_accumulate", X(op=2, form=range(4), lab=[0, 2]) + X(op=[0, 1], form=range(4), lab=0) + X(op=[3, 4], form=[0, 2]) + X(op=2, form=1, potts=1, lab=3), X(op=0, form=range(4), lab=2) + X(op=1, form=[0, 2], lab=2) + X(op=[0, 1, 2], form=[0, 2], n=4, lab=0))
A("C07", "algebra.cpp", "c07_total", X(op=[0, 1], form=[0, 1], n=2) + X(op=[0, 1], form=0, n=3, lab=0) + X(op=[2, 3], form=[0, 1]))
A("C07", "algebra.cpp", "c07_fix", X(lab=[0, 2, 3]), X(n=4, lab=0)); A("C07", "algebra.cpp", "c07_build", X(n=2, lab=[2, 3]) + X(n=3, lab=0))

P("C08", "every operand value k/2 (|k|<=6) of double and float and every int/int64 in [-1000,1000], every 64-bit pattern for the logical operators, sequences of up to 4 values with their states, 2x2 factors with symbolic entries and weights", "log-sum-exp: log and exp are uninterpreted functions; unsigned and narrower integer types; infinite operands other than the neutral elements")
A("C08", "ops.cpp", "c08_arith", X(type=range(6))); A("C08", "ops.cpp", "c08_extremal", X(type=range(8))); A("C08", "ops.cpp", "c08_logic"); A("C08", "ops.cpp", "c08_lse"); A("C08", "ops.cpp", "c08_functors")
A("C08", "ops.cpp", "c08_seq", X(k=range(9)) + X(k=[0, 3, 6], again=1), X(k=[0, 1, 2, 6], max=6)); A("C08", "ops.cpp", "c08_weighted", X(mul=[0, 1])); A("C08", "ops.cpp", "c08_normalize", X(k=range(5)))

P("C06", "views of every factor over subsets of 3 variables (4 in thorough) with 2-3 labels, explicit and Potts, all values, scales and offsets symbolic; every list of fixed positions in every order with every label; sum and product models; up to 3 accumulated factors; explicit copy and flat storage of models with up to 7 factors, shared functions and constants", "larger factors; conversion to probabilities: exp is an uninterpreted function, products with a temperature other than 1 are documented nowhere")
A("C06", "views.cpp", "c06_fix", X(ctor=[0, 1], mul=[0, 1]) + X(potts=1, lab=3), X(n=4, lab=[0, 2]) + X(lab=1)); A("C06", "views.cpp", "c06_view", X(mul=[0, 1], lab=[0, 2]) + X(potts=1, lab=3)); A("C06", "views.cpp", "c06_convert", X(k=range(4))); A("C06", "views.cpp", "c06_track")
A("C06", "views.cpp", "c06_explicit", X(m=[0, 1, 2], rev=[0, 1], scalar=[0, 1]) + X(m=1, dirty=1, lab=1))

P("C32", "shapes of 0-3 dimensions with extents 1-3 (all symbolic), every list of fixed positions and values; sequences of up to 4 symbolic values with 3 symbolic indices; every factor over 4 variables; partitions of up to 4 (5 in thorough) elements; models of 3 variables with up to 3 factors", "larger shapes, sequences and partitions; iterator categories other than random access")
A("C32", "util.cpp", "c32_walk", X(d=[0, 1, 2], max=3) + X(d=3, max=2), X(d=3, max=3) + X(d=4, max=2)); A("C32", "util.cpp", "c32_sub", X(d=[1, 2], max=3) + X(d=3, max=2), X(d=3, max=3) + X(d=4, max=2)); A("C32", "util.cpp", "c32_multi", X(d=[1, 2], any=1) + X(d=2, any=1, mx=3) + X(d=3, any=0, mx=2), X(d=3, any=1, mx=2) + X(d=3, any=0, mx=3))
A("C32", "util.cpp", "c32_subseq", X(n=3, m=[1, 3])); A("C32", "util.cpp", "c32_accessor", X(k=range(6))); A("C32", "util.cpp", "c32_sort", X(n=[0, 1, 2, 3]), X(n=4)); A("C32", "util.cpp", "c32_find", X(n=[0, 1, 2, 4])); A("C32", "util.cpp", "c32_pow"); A("C32", "util.cpp", "c32_tribool")
A("C32", "util.cpp", "c32_partitions", X(N=[1, 2, 3], two=[0, 1], pre=[0, 2, 4]) + X(N=4, two=0), X(N=4, two=1) + X(N=5, two=0)); A("C32", "util.cpp", "c32_canonical", X(k=range(5), m=[0, 2], share=[0, 1]) + X(k=[0, 1, 3], m=3), X(k=range(5), m=3, third=1))

P("C24", "sets: 2 (3 in thorough) operations of 9 kinds on two sets with 1-2 symbolic keys each, ascending and descending; sequences: 2-3 operations of 10 kinds, lengths 0-4 around a buffer of 2; sparse tables: 2 arbitrary entries, shapes up to 99x99x2 with 8- and 64-bit labels; partitions: 3 operations on 4-6 elements; queues: 2 pushes and 2 operations on 3 items; first-in first-out queue within its capacity", "longer histories; element types with own destructors; memory leaks; popping or changing items that are not in the queue")
A("C24", "containers.cpp", "c24_set", X(steps=1, pre=[1, 2], down=[0, 1], keys=3, both=[0, 1]) + X(steps=2, pre=0, down=0, keys=2), X(steps=2, pre=1, down=[0, 1], keys=2) + X(steps=1, pre=3, keys=4))
A("C24", "containers.cpp", "c24_fastseq", X(steps=2, start=[1, 2, 3], mx=5) + X(steps=3, mx=4), X(steps=3, start=[1, 3], mx=5) + X(steps=4, mx=4)); A("C24", "containers.cpp", "c24_buffer", X(steps=2, start=[1, 2, 3], mx=5) + X(steps=3, mx=4), X(steps=3, start=[1, 3], mx=5) + X(steps=4, mx=4))
A("C24", "containers.cpp", "c24_sparse", X(shape=[4, 302, 20302], m=[1, 2]) + X(shape=[3020302], m=1) + X(shape=21616, m=[1, 2], small=[0, 1]), X(shape=29999, m=1, small=[0, 1])); A("C24", "containers.cpp", "c24_partition", X(n=4, steps=2, int=[0, 1]) + X(n=3, steps=3), X(n=4, steps=3, int=[0, 1]))
A("C24", "containers.cpp", "c24_disjoint", X(n=4, steps=[2, 3]), X(n=5, steps=4)); A("C24", "containers.cpp", "c24_queue", X(n=3, pre=[0, 2], steps=2, down=[0, 1]), X(n=3, pre=3, steps=2, down=[0, 1]) + X(n=4, pre=4, steps=1)); A("C24", "containers.cpp", "c24_queue_big", X(n=12, few=1, change=0) + X(n=10, few=1, change=1), X(n=17, few=1, change=[0, 1])); A("C24", "containers.cpp", "c24_fifo")

P("C31", "up to 3 variables (4 after growing) with symbolic label counts 1-4 (up to 255 / 60000 for narrow label types), every history of 2 (3 in thorough) operations; grids up to 3x3", "longer histories; index types that overflow")
A("C31", "spaces.cpp", "c31_discrete", X(k=0, steps=2, empty=[0, 1]) + X(k=1, big=255, steps=1) + X(k=2, big=60000, steps=1), X(k=[0, 1], steps=3)); A("C31", "spaces.cpp", "c31_simple", X(steps=2, small=0) + X(steps=1, small=1, big=255), X(steps=3)); A("C31", "spaces.cpp", "c31_static", X(steps=2, small=[0, 1]), X(steps=3)); A("C31", "spaces.cpp", "c31_grid"); A("C31", "spaces.cpp", "c31_view")

P("C28", "2-4 symbolic weights (integers of size <= 3) and up to 2 features per label or table; 2-3 labels; tables of 1-3 dimensions; later changes of one weight, another weight vector, copies and models holding the function", "more weights and labels")
A("C28", "learn.cpp", "c28_lpotts", X(n=[0, 1, 2], L=[1, 2, 3]), X(n=3, L=3)); A("C28", "learn.cpp", "c28_lunary", X(L=[1, 2]), X(L=3)); A("C28", "learn.cpp", "c28_lunary_shared", X(L=[1, 2, 3], n=[1, 2])); A("C28", "learn.cpp", "c28_lws", X(dim=[1, 2, 3], n=[1, 2])); A("C28", "learn.cpp", "c28_plain"); A("C28", "learn.cpp", "c28_weights", X(n=[1, 3])); A("C28", "learn.cpp", "c28_constraints", X(n=2, m=[0, 1, 2])); A("C28", "learn.cpp", "c28_loss", X(L=[2, 3]))

P("C25", "indicator variables of up to 3 pairs over 2 variables (2 and 3 labels); constraints of up to 2-3 terms with coefficients and bounds k/2; functions of 1-2 constraints over 2-3 variables; label orders over up to 3x3 labels; label limits over up to 3 variables; relaxed points k/4; tolerances 0, 1/2, 1", "larger constraints; the variant of the label order with several constraints (a compile-time switch that is off)")
A("C25", "constraints.cpp", "c25_indicator", X(k=[1, 2]), X(k=3)); A("C25", "constraints.cpp", "c25_order_relation", X(sizes=[0, 1, 11, 12, 21, 22, 20], sameop=[0, 1]) + X(n=3, sizes=[111, 122], sameop=1), X(n=3, sizes=[222], sameop=1)); A("C25", "constraints.cpp", "c25_constraint", X(how=range(5), m=2) + X(how=0, m=1, k=2))
A("C25", "constraints.cpp", "c25_linear", X(m=1, what=range(4), sh=[0, 1]) + X(m=2, what=range(4), terms=1) + X(m=1, terms=2, k=2, what=[0, 1, 2, 3]), X(m=2, what=range(4), nv=[2, 3]) + X(m=1, terms=1, k=2, free=1, what=range(4))); A("C25", "constraints.cpp", "c25_labelorder", X(n1=2, n2=[1, 2, 3], what=range(4)) + X(n1=3, n2=2, what=range(4)), X(n1=3, n2=3, what=range(4))); A("C25", "constraints.cpp", "c25_limit", X(shape=[3, 22, 23, 32, 223], what=range(4)), X(shape=[222, 333], what=range(4))); A("C25", "constraints.cpp", "c25_model")

P("C33", "label-cost functions (vector of costs or one label's cost) and sum-constraint functions (shared or separate coefficients) over 1-3 variables with 1-3 labels, costs, coefficients, bound and slack values symbolic (k/2); weight of the sum constraint 0, 3/2; directly and through the factors of a model", "negative weight of a sum constraint (not representable as a linear programme); other function types are only checked to be refused")
A("C33", "transfer.cpp", "c33_labelcost", X(shape=[2, 22, 23, 31, 13], single=[0, 1], gm=[0, 1]) + X(shape=[22, 33, 222], same=1, single=[0, 1], gm=[0, 1]), X(shape=[222, 231, 123], single=[0, 1]) + X(shape=[4, 44], same=[0, 1]))
A("C33", "transfer.cpp", "c33_sum", X(shape=[2, 22, 23, 31], share=[0, 1], gm=[0, 1]) + X(shape=[22, 33], same=1, share=[0, 1], gm=[0, 1]) + X(shape=22, share=[0, 1], **{"lambda": 0}), X(shape=[222, 231, 123], share=[0, 1]) + X(shape=[222, 44], same=1, share=[0, 1]))
A("C33", "transfer.cpp", "c33_other")

P("C26", "supplies and demands: listed integer vectors of 1-4 entries, some zero, whose totals (equal or different) are powers of two so that scaling is exact; costs symbolic integers |c|<=2 (every table up to 2x3 and 3x2; larger ones with one row and one column fixed in quick), minimising and maximising; repeated use of one solver; the linked table under every sequence of 2-3 operations on 2x2 to 3x2", "larger problems; rounding of supplies in floating point (the solver refuses some such inputs with an exception)")
A("C26", "transport.cpp", "c26_solve", X(a=[1, 4], b=[1, 22, 91, 31], max=[0, 1]) + X(a=11, b=[11, 13, 22], max=[0, 1], how=[0, 1, 2]) + X(a=[13, 31, 22], b=[13, 22, 9193, 112], max=0) + X(a=[112, 211, 121], b=[11, 22], max=[0, 1]) + X(a=112, b=[112, 211, 121], lead=1, max=[0, 1]) + X(a=[1111, 4211], b=22, R=1, lead=1), X(a=[112, 211], b=[112, 121], R=1) + X(a=1111, b=[13, 112], lead=1) + X(a=224, b=[224, 422], R=2, lead=1))
A("C26", "transport.cpp", "c26_empty"); A("C26", "transport.cpp", "c26_table", X(steps=[1, 2]) + X(X=[3], Y=2, steps=1, re=1) + X(X=1, Y=2, steps=2), X(steps=3) + X(X=3, Y=2, steps=2)); A("C26", "transport.cpp", "c26_transpose", X(X=[1, 2, 3], Y=[1, 2, 3]))

P("C27", "models of 1-4 variables with 2-3 labels, one unary factor per variable (as the solvers built on this code require), pairwise, parallel, third-order and constant factors, explicit and Potts; all reparametrisation values symbolic; reparametrisation by sequential message passing with every mask and every set of immovable labels", "larger models; variables without a unary factor or with several (refused by the solvers); storage in files; smoothed reparametrisation")
A("C27", "reparam.cpp", "c27_values", X(topo=[0, 1, 9, 12], lab=[0, 2, 3], cf=[0, 1]) + X(topo=[2, 3, 6, 8], lab=0, ord=[0, 1, 2], via=[0, 1]) + X(topo=7, lab=2, potts=1), X(topo=[2, 3, 6, 7, 8, 17, 22], lab=[2, 3], cf=1, ord=1))
A("C27", "reparam.cpp", "c27_arc", X(topo=[0, 1], lab=0, max=[0, 1], cf=[0, 1]) + X(topo=[2, 12], lab=0, conc=1, dual=0) + X(topo=6, conc=1, dual=0))
A("C27", "reparam.cpp", "c27_trws", X(topo=1, lab=0, max=[0, 1], how=0, tight=1) + X(topo=1, lab=[0, 2], max=[0, 1], how=[0, 1, 3], conc=1) + X(topo=1, lab=[0, 2], how=2, conc=2) + X(topo=[9, 12], lab=0, how=[0, 1, 2, 3], conc=2) + X(topo=9, lab=[0, 2], how=[0, 3], conc=3))
A("C27", "reparam.cpp", "c27_decomposition", X(topo=[1, 2, 3], lab=0, edge=[0, 1]) + X(topo=[9, 12, 8, 18], lab=2) + X(topo=0))
P("C23", "arrays of up to five dimensions and 16 elements, both storage orders, sequences of one or two view operations (every parameter); elements symbolic; every pair of orders for assignment and arithmetic, overlapping buffers", "arrays of more than five dimensions or with zero-sized dimensions; element types other than double and int; storage in files; textual output")
A("C23", "marray.cpp", "c23_views", X(shape=[0, 1, 2, 3, 5, 6, 9, 10], ext=[0, 1], **{"in": [0, 1]}) + X(shape=[0, 7], steps=2, walk=2) + X(shape=0, steps=2, walk=2, ext=1, **{"in": 1}), X(shape=[0, 1, 3, 7, 10], ext=[0, 1], steps=2, **{"in": [0, 1]}))
A("C23", "marray.cpp", "c23_const", X(shape=[0, 2, 3], ext=[0, 1], **{"in": [0, 1]}), X(shape=[1, 7, 10], ext=[0, 1], **{"in": [0, 1]}))
A("C23", "marray.cpp", "c23_assign", X(shape=[0], what=range(13), e1=0, o1=[0, 1], o2=[0, 1]) + X(shape=[0], what=list(range(13)) + [14], pre=0, e2=1, o2=1) + X(shape=[0, 3], what=14, o1=[0, 1]) + X(shape=0, what=[0, 1, 3, 6, 8], pre=0, e1=1, o1=1, o2=[0, 1]) + X(shape=[0, 3], what=[0, 1, 3, 6, 7, 8], e1=1, o1=1) + X(shape=[0, 3], what=13, pre=0, e1=[0, 1], o1=[0, 1]) + X(shape=7, alias=1, extra=[0, 1], what=range(13), pre=2) + X(shape=[2, 3, 6, 8], what=[0, 3, 6, 8], o2=[0, 1]) + X(shape=1, tr=1, alias=1, e1=1, e2=[0, 1], what=[0, 1, 6, 8]))
A("C23", "marray.cpp", "c23_resize", X(shape=[0, 2, 3, 5, 6, 9, 20], o=[0, 1]) + X(shape=0, o=[0, 1], skip=1) + X(shape=[2, 20], o=[0, 1], steps=2, maxdim=2) + X(empty=1))
A("C23", "marray.cpp", "c23_vecmat")

P("C30", "models of 1-4 variables with 1-3 labels; every outcome of the random draws for up to 4 (Gibbs) and 3 (Swendsen-Wang) steps, with and without burn-in, start state, temperature, cyclic order, repeated inference; symbolic tables for the bookkeeping, concrete ones for the acceptance ratios of clusters", "longer runs; the distribution of the samples; cluster acceptance ratios on more than two variables")
A("C30", "sampler.cpp", "c30_random", X(lo=[0, 2], n=[1, 2, 3, 4]))
A("C30", "sampler.cpp", "c30_cyclic", X(n=[1, 2, 3], temp=[0]))
A("C30", "sampler.cpp", "c30_gibbs", X(topo=0, lab=[0, 1], mul=[0, 1], start=[0], steps=3) + X(topo=0, lab=0, mul=[0, 1], start=[1, 2], steps=3) + X(topo=0, lab=1, mul=[0, 1], start=[1, 2], steps=3, conc=1) + X(topo=0, lab=0, mul=[0, 1], again=1, start=[0, 1, 2], steps=2) + X(topo=1, lab=0, mul=[0, 1], marg=1, steps=3) + X(topo=1, lab=[0, 2], mul=0, marg=1, steps=2, burn=1) + X(topo=1, lab=[0, 2], mul=1, marg=1, steps=2, burn=1, un=0) + X(topo=1, lab=0, cyc=1, temp=[0, 1], steps=3, mul=[0, 1], per=[1, 5]) + X(topo=2, lab=0, un=0, steps=3, conc=[1, 2]),
  X(topo=0, lab=1, mul=[0, 1], start=[1, 2], steps=3) + X(topo=1, lab=[0, 2], mul=[0, 1], marg=1, steps=3, burn=[0, 1]) + X(topo=[2, 3], lab=0, steps=4, conc=[1, 2]))
A("C30", "sampler.cpp", "c30_sw", X(topo=0, lab=[0, 1], mul=[0, 1], start=[0], steps=2) + X(topo=0, lab=0, mul=[0, 1], start=1, steps=2) + X(topo=0, lab=1, mul=[0, 1], start=1, steps=2, conc=1) + X(topo=0, lab=0, conc=[1, 2], metro=1, mul=[0, 1], steps=3) + X(topo=1, lab=0, metro=1, mul=[0, 1], conc=[1, 2, 3], steps=2, start=1) + X(topo=2, lab=0, metro=1, mul=[0, 1], conc=[1, 4], steps=1, start=1) + X(topo=1, lab=0, burn=1, steps=2, mul=1, conc=1) + X(topo=0, lab=[0, 1], burn=1, steps=1, mul=1, again=1, conc=1) + X(topo=2, lab=[0, 2], mul=1, conc=[1, 2], steps=2) + X(topo=3, lab=0, mul=0, conc=3, steps=2) + X(topo=3, lab=0, mul=0, conc=2, steps=1, burn=1),
  X(topo=1, lab=0, burn=1, steps=2, mul=1, conc=1, again=1) + X(topo=3, lab=0, mul=0, conc=[1, 2, 3], steps=2, burn=1) + X(topo=1, lab=0, metro=1, mul=[0, 1], conc=[1, 2, 3], steps=3, start=1))
P("C34", "two graphs of 8 nodes with every seventh weight free by one; graphs of 1-6 nodes with integer edge weights in up to [-4,4], repeated edges, Potts and explicit tables, constant factors, repeated and interrupted runs", "larger graphs; fractional weights within the solver's tolerance")
A("C34", "partition.cpp", "c34_partition", X(topo=[0, 1, 2, 3, 8, 9, 12, 16], R=3) + X(topo=1, cf=1, eq=1, kind=1, more=1) + X(topo=12, kind=1, again=1) + X(topo=3, stop=1, vis=1) + X(topo=3, vis=0, again=1) + X(topo=[5, 18, 24, 10, 4], R=4) + X(topo=11, R=2) + X(topo=11, conc=[2, 3], cf=1) + X(topo=[13, 15], R=3) + X(topo=[26, 27], R=2) + X(topo=14, conc=[3, 4], R=2),
  X(topo=11, R=4, again=1) + X(topo=[26, 27], R=5) + X(topo=14, R=1) + X(topo=14, conc=1, R=3))
A("C34", "partition.cpp", "c34_partition", X(topo=[3, 8, 10, 12, 26, 27], seq=1, R=3) + X(topo=11, seq=1, R=2) + X(topo=11, seq=1, conc=[1, 2, 3], R=6) + X(topo=14, seq=1, conc=3, R=3) + X(topo=31, seq=1, conc=[5, 6], R=3),
  X(topo=31, seq=1, conc=[3, 4], R=5))
A("C34", "partition.cpp", "c34_partition", X(inst=[1, 2], stride=7, off=[0, 3]))
A("C34", "partition.cpp", "c34_refuse", X(c=[0, 1, 2, 3]))
P("C35", "grids up to 2x3 and 3x2 (3x3 for runs of three), full and star models of up to 4 variables, 1-3 labels fixed or random; every function kind; a random source with 255 outcomes around 0, 10^6 or its maximum; factors along runs of 1-3 variables", "larger models; the generators' distribution; the generator of models/ (does not compile); the buildFull/buildStar stubs of SyntheticModelGenerator (not implemented)")
A("C35", "generator.cpp", "c35_grid", X(h=[1, 2], w=[1, 2, 3], u=2, b=2) + X(u=[0, 1, 2, 3], b=[1, 2, 3, 4, 5, 6, 7], su=[0, 1], sb=[0, 1], nl=2) + X(rnd=1, u=2, b=4, nl=2, h=1) + X(u=2, b=5, twice=1) + X(u=2, b=3, base=[1, 2], h=1))
A("C35", "generator.cpp", "c35_full", X(n=[1, 2, 3, 4], u=[0, 3], b=[2, 4]) + X(n=3, u=1, b=7, nl=3, sb=[0, 1], twice=1) + X(n=2, rnd=1, nl=[2, 3], u=2, b=6))
A("C35", "generator.cpp", "c35_higher_order", X(order=[2, 3], h=3, w=3, u=0, b=1, sb=1))
A("C35", "generator.cpp", "c35_star", X(n=[1, 2, 3], u=[0, 3], b=[2, 4]) + X(n=4, u=[0, 1], b=4) + X(n=3, u=1, b=7, nl=3, sb=[0, 1], twice=1) + X(n=2, rnd=1, nl=[2, 3], u=2, b=6))
A("C35", "generator.cpp", "c35_runs", X(spec=[1, 11, 12, 22, 32, 42, 2], given=[0, 1], shared=[0, 1]) + X(w=3, h=[1, 3], spec=[1113, 2203], given=[0, 1]) + X(w=2, h=1, rnd=1, spec=[12, 4232]) + X(w=3, h=1, rnd=1, shared=1, spec=[1, 11, 21]) + X(w=2, h=2, rnd=1, shared=1, spec=2), X(w=2, h=2, rnd=1, shared=1, spec=[12, 32]))
P("C29", "models of 1-4 variables with 2-3 labels, symbolic factor tables of order 0-4, all pairs of labellings; polynomials of up to 4 binary variables; a random source with 5 outcomes; up to 4 rounds; the QPBO, CPLEX and AD3 moves and the reduced ones with stand-ins for the packages, any answer the package may give", "larger models; the packages' own search; the permutable-label mover (needs the vigra library)")
A("C29", "fusion.cpp", "c29_mover_min", X(topo=[0, 1], lab=[0, 1], solver=[0, 1, 2], un=255) + X(topo=1, lab=2, solver=[0, 1, 3, 4], un=255, cf=1, again=[1, 2]) + X(topo=[2, 3, 6], A=[0, 5], solver=[0, 1], un=[0, 7], sub=[1, 3]) + X(topo=[16, 9], solver=2, un=255) + X(topo=[2], lab=1, A=3, B=[13, 25], solver=[0, 1, 4], un=2, cf=1))
A("C29", "fusion.cpp", "c29_mover_max", X(topo=[0, 1, 12], lab=[1, 2], solver=[0, 1]))
A("C29", "fusion.cpp", "c29_mover_mul", X(topo=[0, 1], lab=[0, 1], solver=[0, 1, 4]))
A("C29", "fusion.cpp", "c29_views", X(topo=[1, 6], lab=[2, 3], un=255, cf=1) + X(topo=[17], un=0, lab=[0]))
A("C29", "fusion.cpp", "c29_fixfuse", X(topo=[0, 1, 2], lab=0, un=255, conc=[0, 3, 6]) + X(topo=3, un=255, conc=[4, 5], R=1) + X(topo=3, un=0, few=2) + X(topo=6, un=[0, 7], few=3, conc=[0, 3]) + X(topo=7, un=255, conc=4, few=1) + X(topo=1, lab=1, A=[99], B=[4], un=255), X(topo=[3, 6], un=[0, 255], conc=[0, 3]))
A("C29", "fusion.cpp", "c29_reduce", X(n=[1, 2, 3], neg=[0, 1, 2]) + X(n=3, mask=[128, 64+128, 8+64], twice=[0, 1]) + X(n=4, neg=[1, 2], mask=[32768, 32768+2048]))
A("C29", "fusion.cpp", "c29_hl_min", X(topo=[0, 1, 12], lab=[0, 1], fs=[0, 1]) + X(topo=[2, 6], A=[2], sub=[1, 2, 3], cf=1))
A("C29", "fusion.cpp", "c29_hl_max", X(topo=[0, 1], lab=[0, 1], fs=[0, 1]))
A("C29", "fusion.cpp", "c29_hl_refuse", X(c=[0, 1, 2]))
A("C29", "fusion.cpp", "c29_gen", X(g=range(7), topo=1, shape=[22, 32, 21, 11], steps=2) + X(g=7, topo=1, shape=[22, 21, 11], steps=1) + X(g=8, topo=1, shape=[22, 32, 21, 11], steps=1, un=[0, 1]) + X(g=[9, 10, 11], topo=1, shape=[22, 11], steps=[1, 2]) + X(g=9, topo=1, shape=32, steps=2) + X(g=range(5), topo=2, shape=[123, 332], move=1, un=5))
A("C29", "fusion.cpp", "c29_gen_dynamic", X(g=range(7), topo=1, shape=[22], steps=1))
A("C29", "fusion.cpp", "c29_gen_sweep", X(g=[0, 1, 2], topo=2, shape=[222, 321, 333]) + X(g=[2], down=1, topo=2, shape=[222, 321, 333]) + X(g=0, reset=1, shape=32))
A("C29", "fusion.cpp", "c29_inf", X(g=[0, 1, 2, 4, 5], topo=[0, 1], lab=[0, 1]) + X(g=3, topo=[0, 1], lab=0, it=2) + X(g=0, topo=1, lab=2, start=1, again=1, vis=[0, 1], stop=[0, 1]) + X(g=[0, 1], topo=[2, 3], stopit=[0, 2]))
A("C29", "fusion.cpp", "c29_self", X(inf=[0, 1, 2, 3], topo=[0, 1], lab=[0, 1], nth=[1, 2]) + X(inf=4, walk=[0, 1, 2], last=[0, 1], topo=[0, 1], lab=[0, 1], nth=[1, 2]) + X(inf=[0, 1], topo=2, lab=0, again=1))
A("C29", "fusion2.cpp", "c29_pack_mover", X(topo=[0, 1, 12], solver=[0, 1, 2, 3], lab=[0, 1]) + X(topo=[2, 6], solver=[1, 2, 3], A=0, B=7, conc=2) + X(topo=[2, 3], solver=0, A=0, B=[6, 7], conc=2) + X(topo=[2, 16], solver=[0, 2, 3], A=[1, 5], conc=3) + X(topo=1, max=1, solver=[0, 1, 2, 3]))
A("C29", "fusion2.cpp", "c29_pack_hl", X(topo=[0, 1], fs=[0, 1, 2, 3], lab=[0, 1]) + X(topo=[0, 1, 2], A=[0], fs=[2, 3], red=[1, 3, 5, 7], conc=1) + X(topo=6, fs=[1, 3], A=0, B=[3, 6], conc=1) + X(topo=6, fs=3, A=0, B=7, conc=1))
A("C29", "fusion2.cpp", "c29_pack_inf", X(topo=[0, 1], fs=[1, 2, 3], red=0) + X(topo=1, fs=[2, 3], red=[1, 7], it=2))
A("C29", "fusion2.cpp", "c29_pack_self", X(topo=1, fs=[0, 2, 3], red=0) + X(topo=1, fs=3, red=[1, 7]))
P("C17", "15 solvers on models of 1-3 variables with 2-3 labels, symbolic tables; all starting points; every stage of the life of a solver: fresh, started, at every visit, stopped by the visitor, finished, run again, reset", "larger models; solvers that need external packages; copies of solvers (they hold references)")
_c17 = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12]
A("C17", "solvers.cpp", "c17_life", X(a=_c17, topo=[0, 1], lab=0, op=[0, 1], mode=[0, 1, 2]) + X(a=[2, 3, 4, 8, 9, 10, 11, 12], topo=1, lab=1, op=[0, 1], mode=[0, 1, 2], R=1) + X(a=[0, 1, 5, 6], topo=1, lab=2, op=[0, 1], mode=[0, 2], conc=2, R=1) + X(a=_c17, topo=2, conc=3, mode=[0, 2], R=1) + X(a=[0, 1, 2, 3, 4, 8, 9, 11, 12], op=[2, 3], topo=1, mode=[0, 2]),
  X(a=_c17, topo=[1, 2], lab=[0, 1, 2, 3], op=[0, 1], mode=[0, 1, 2], conc=[0, 2]) + X(a=_c17, topo=[3, 4, 5], op=[0, 1], mode=[0, 1, 2], conc=[2, 4]) + X(a=_c17, topo=1, mode=2, stop=[1, 2], op=[0, 1]) + X(a=[0, 1, 2, 3, 4, 8, 9, 11, 12], op=[2, 3], topo=[1, 2], lab=[0, 1], mode=[0, 1, 2]))
A("C17", "solvers.cpp", "c17_reset", X(a=[1, 3, 4, 5, 6, 8, 9], op=[0, 1], topo=[0, 1]))
A("C17", "solvers.cpp", "c17_cuts", X(a=[0, 1, 2, 3, 4], topo=[0, 1, 2]) + X(a=[1, 2, 3, 4], topo=1, lab=1, mode=[0, 1, 2]) + X(a=0, mode=2, topo=3))

P("C18", "every numbered tree of 4 and every graph of 3 variables with some symbolic entries; dual decomposition by subgradient (7 decompositions, 6 step rules, both kinds of dual storage) with exact parts, sequential tree-reweighted message passing (chain, edge and grid decompositions), 2-4 variables of 2-3 labels (trees, cycles, 2x2 grids), 1-3 iterations, Potts and table terms, all values symbolic; chain storages and reparametrisations under every dual vector", "larger models and more iterations; bundle method (needs ConicBundle); adaptive smoothing and Nesterov (every branch hangs on sums of exponentials)")
A("C18", "dual.cpp", "c18_dd", X(dec=[0, 1, 2, 3, 4, 6], topo=3, it=2, conc=[4], R=1) + X(dec=5, topo=2, conc=3, R=1) + X(dec=1, topo=3, it=2, conc=4, R=1, step=[1, 4, 5]) + X(dec=2, topo=2, it=2, conc=2, R=1, step=[2, 3]) + X(dec=1, topo=3, it=2, conc=4, R=1, op=[1, 2], step=[0, 1]) + X(dec=1, topo=3, it=2, conc=5, R=1, fill=1) + X(dec=[1, 3], topo=5, it=2, conc=6, R=1) + X(dec=2, topo=2, it=3, conc=4, R=1, lab=[1, 2]) + X(dec=1, topo=3, it=2, conc=5, R=1, cf=1) + X(dec=1, topo=3, it=2, conc=5, R=1, un=[0, 5]) + X(dec=[0, 1], topo=7, it=2, conc=6, R=1) + X(dec=1, topo=2, it=1, tight=1, conc=2) + X(dec=1, topo=3, it=2, conc=5, R=1, again=1),
 X(dec=[0, 1, 2, 3, 4, 6], topo=3, it=3, conc=4, R=2) + X(dec=5, topo=2, conc=2, R=1) + X(dec=[0, 1, 3], topo=5, it=3, conc=5, R=1) + X(dec=1, topo=[7, 9, 12], it=2, conc=6, R=1) + X(dec=2, topo=2, it=3, conc=3, R=2, lab=[1, 2]) + X(dec=1, topo=3, it=2, conc=3, R=1, step=[1, 4, 5]) + X(dec=2, topo=2, it=2, conc=1, R=1, step=[2, 3]) + X(dec=1, topo=3, it=3, conc=3, R=1, op=[1, 2]))
A("C18", "dual.cpp", "c18_dd", X(dec=[0, 1, 2, 3], topo=113, it=2, conc=5, R=1) + X(dec=[2, 3], topo=104, it=2, conc=9, R=1))
A("C18", "dual.cpp", "c18_trws", X(topo=[1, 2], conc=[0, 2], fast=[0, 1], tight=1, it=3) + X(topo=3, conc=4, R=1, fast=[0, 1], pk=[0, 1, 2], canon=[0, 1]) + X(topo=[2, 3], edge=1, conc=4, R=1, fast=[0, 1], pk=[0, 2]) + X(grid=3, conc=4, R=1, pk=[0, 1]) + X(grid=1, conc=6, R=1, pk=[0, 1]) + X(topo=[1, 2], lab=[1, 2], conc=4, R=1, pk=[0, 2]) + X(topo=3, lab=[1, 2], conc=6, R=1, pk=[0, 2]) + X(topo=3, op=1, conc=4, R=1, edge=[0, 1]) + X(topo=3, prec=1, rel=[0, 1], conc=4, R=1) + X(topo=[8, 9, 20, 16, 12], conc=3, R=1) + X(topo=3, conc=4, R=1, order=1, again=1) + X(topo=3, conc=4, R=1, stop=[1, 2]),
 X(topo=[1, 2], fast=[0, 1], tight=1, it=3, R=3) + X(topo=3, conc=3, R=1, it=3, fast=[0, 1], pk=[0, 1, 2], canon=[0, 1]) + X(topo=[2, 3], edge=1, conc=3, R=2, pk=[0, 2]) + X(grid=[1, 2, 3], conc=5, R=1, pk=[0, 1]) + X(topo=[1, 2, 3], lab=[1, 2, 4], conc=4, R=2) + X(topo=[8, 9, 20, 16, 12], conc=2, R=1) + X(topo=3, op=1, conc=3, R=2, edge=[0, 1], it=3))
A("C18", "dual.cpp", "c18_trws", X(topo=113, conc=5, R=1) + X(topo=104, conc=9, R=1, edge=[0, 1]) + X(topo=114, conc=20, R=1, edge=[0, 1]))  # every numbered tree / graph
A("C18", "dual.cpp", "c18_store", X(topo=[1, 2, 3, 5, 12, 16], edge=[0, 1]) + X(topo=[8, 9, 21]) + X(grid=[1, 2, 3]) + X(topo=3, lab=[1, 2, 3], order=[0, 1]),
 X(topo=[1, 2, 3, 5, 8, 9, 12, 16, 20, 21], edge=[0, 1], lab=[0, 1, 2]) + X(grid=[1, 2, 3], lab=[0, 1]))
A("C18", "dual.cpp", "c18_store", X(topo=[104, 114, 105], edge=[0, 1]))
A("C18", "dual.cpp", "c18_repa", X(topo=[1, 2], edge=[0, 1], conc=2, R=1) + X(topo=3, edge=[0, 1], conc=4, R=1) + X(topo=3, conc=4, R=1, mask=[2, 5]) + X(topo=2, lab=2, op=1, conc=4, R=1))
A("C18", "dual.cpp", "c18_repa", X(topo=[104, 113], conc=6, R=1))

P("C22", "models of 0-3 variables with 1-3 labels and 0-3 factors of up to 3 variables, of every kind and over every set of variables, in 8 function types, 6 value types, read back with the types in another order, with more types and with fewer, also into models already filled; arrays of 1-3 dimensions in both orders and 5 number types, boxes and views of them; all values symbolic", "the HDF5 library itself (an in-memory stand-in takes its place), larger models, files written by other versions")
A("C22", "hdf.cpp", "c22_model", X(n=[1, 2, 3], k=1, to=[0, 1]) + X(n=[1, 2], k=2, to=[0, 1]) + X(n=3, k=2, labs=1, conc=1) + X(n=[1, 2, 3], k=1, used=[1, 2], labs=[1, 3]),
 X(n=3, k=2, to=[0, 1]) + X(n=2, k=3, labs=1) + X(n=2, k=2, labs=3, to=[0, 1], used=[0, 2]) + X(n=4, k=1, to=[0, 1], used=[0, 1, 2]))
A("C22", "hdf.cpp", "c22_two", X(n=[0, 2, 3], k=[0, 2], to=[0, 1, 2, 3]) + X(n=[0, 2], k=2, to=[0, 1, 2, 3], used=[1, 2]),
 X(n=[2, 3], k=3, to=[0, 1, 2, 3], labs=1) + X(n=[2, 3], k=2, to=[0, 1, 2, 3], labs=3, used=1))
A("C22", "hdf.cpp", "c22_typed", X(t=[0, 1, 2, 3, 4, 5]))
A("C22", "hdf.cpp", "c22_array", X(dim=[1, 2], t=[0, 1, 2, 3, 4]) + X(dim=3, t=[0, 2], max=2), X(dim=[2, 3], t=[0, 1, 2, 3, 4], max=3))
A("C22", "hdf.cpp", "c22_slab", X(dim=1, max=4) + X(dim=2) + X(dim=3, max=2), X(dim=2, max=4) + X(dim=3, max=3))
A("C22", "hdf.cpp", "c22_create", X(dim=[1, 2, 3]), X(dim=[3, 4]))

P("C37", "models and problems of 0-3 variables with 1-3 labels and up to 3 factors (or edges), factors of up to 3 variables in any order of the variables, all values symbolic; images of up to 4 voxels; every set of assignments between 2-3 points and edges between them; old-format models in 3 value types", "larger inputs, malformed files apart from wrong headers, number formatting, the command-line options, the tool in src/interfaces")
A("C37", "convert.cpp", "c37_uai", X(n=[0, 1, 2], k=1) + X(n=3, k=1, labs=2) + X(n=2, k=0) + X(n=2, k=2, labs=2, ord=1) + X(n=2, k=1, zero=1) + X(n=3, k=2, labs=1), X(n=2, k=2, labs=2) + X(n=3, k=2, labs=2) + X(n=4, k=1, ord=3, labs=2))
A("C37", "convert.cpp", "c37_uai_refuse", X(word=[0, 1, 2, 3]))
A("C37", "convert.cpp", "c37_uai_out", X(n=[0, 1, 2, 3], k=1, labs=2, back=1) + X(n=2, k=[0, 2], labs=2), X(n=3, k=2, labs=2) + X(n=2, k=2, back=1))
A("C37", "convert.cpp", "c37_wudag", X(n=[1, 2, 3], k=[0, 1, 2]), X(n=3, k=3) + X(n=4, k=2))
A("C37", "convert.cpp", "c37_partition", X(n=[2, 3], k=[0, 1, 2], l=2) + X(n=3, k=[2], l=[1, 3]), X(n=3, k=3, l=[2, 3]) + X(n=4, k=3, l=2))
A("C37", "convert.cpp", "c37_brain", X(dim=2), X(dim=3, max=6))
A("C37", "convert.cpp", "c37_n2n", X(nl=2, nr=[1, 2], k=[0, 1]) + X(nl=2, nr=2, k=2, anyorder=0) + X(nl=3, nr=2, k=1, anyorder=0), X(nl=2, nr=2, k=2) + X(nl=3, nr=2, k=2, anyorder=0))
A("C37", "convert.cpp", "c37_matching", X(nl=2, nr=[1, 2, 3], k=1, side=0) + X(nl=2, nr=2, k=1, side=1) + X(nl=3, nr=2, k=1, side=0, **{"lambda": 1}), X(nl=2, nr=3, k=1, side=1, most=5) + X(nl=3, nr=2, k=1, side=1, most=4))
A("C37", "convert.cpp", "c37_legacy", X(n=[1, 2], k=[0, 1, 2]) + X(n=2, k=2, t=[1, 2]) + X(n=3, k=[2], pairs=1, cache=[0, 1, 2], labs=2), X(n=3, k=2, labs=2) + X(n=3, k=3, pairs=1, labs=2))
P("C38", "models of 1-4 variables with 2-3 labels, explicit factors of up to 4 variables with symbolic values, doubled and constant factors, constraint and cost functions with symbolic labels, operators and bounds; all relaxations, integrality settings, heuristics and limits",
  "the outside solver's own search (a small exact solver stands in for it); fractional optima of loopy relaxations (the relaxed answer is checked by its own property); feasible programmes only")
A("C38", "lp.cpp", "c38_explicit", X(tp=[0, 1, 2, 3], integer=[0, 1, 2, 3]) + X(tp=4, integer=3) + X(tp=1, extra=[1, 2, 4, 7], integer=3, merge=[0, 1]) + X(tp=1, lm=1, relax=2, integer=3, max=[0, 1], visitor=1) + X(tp=1, relax=1, integer=3, max=[0, 1], visitor=1) + X(tp=1, relax=1, integer=3, per=[2, 3], weighted=[0, 1]), X(tp=1, relax=1, integer=3, per=1, weighted=[0, 1]))
A("C38", "lp.cpp", "c38_first", X(tp=[0, 1, 2], integer=[0, 1]) + X(tp=1, extra=[1, 2, 4]) + X(tp=1, add=[1, 2]), [])
A("C38", "lp.cpp", "c38_rounding", X(tp=[0, 1], v1=[0, 1]) + X(tp=0, v1=[0, 1], lm=1) + X(tp=1, v1=[0, 1], extra=4), [])
A("C38", "lp.cpp", "c38_constraints", X(tp=1, kinds=1, op=[0, 1, 2], relax=[0, 2], integer=3) + X(tp=1, kinds=1, op=[0, 1, 2], relax=2, terms=2, nc=[1, 2], k=1, integer=3) + X(tp=1, kinds=1, op=[0, 1, 2], relax=2, terms=2, nc=1, k=2, integer=3) + X(tp=1, kinds=1, op=[0, 1, 2], relax=2, terms=2, nc=2, k=2, integer=3, fixed=1, anylab=0) + X(tp=1, kinds=[2, 4], lm=1, relax=[0, 2], integer=3) + X(tp=1, kinds=[3, 6], relax=[0, 2], integer=3) + X(tp=[2, 3], kinds=[4, 8, 16, 20], relax=[0, 2], integer=3) + X(tp=1, kinds=[1, 2, 4, 8, 3], relax=[0, 2], softc=1, integer=3) + X(tp=1, kinds=[9, 3], relax=0, per=[1, 2], weighted=[0, 1], integer=3, fixed=1, anylab=0) + X(tp=1, kinds=3, relax=1, per=[1, 2], weighted=[0, 1], integer=3, fixed=1, anylab=0) + X(tp=1, kinds=[1, 3], relax=[0, 1, 2], integer=3, fixed=1) + X(tp=1, kinds=[1, 9, 3], relax=[0, 2], integer=1, fixed=2, anylab=0) + X(tp=1, kinds=[1, 3], relax=1, integer=1, fixed=2, anylab=0), X(tp=1, kinds=9, relax=1, per=[1, 2], weighted=[0, 1], integer=3, fixed=1, anylab=0) + X(tp=1, kinds=9, relax=[0, 1, 2], integer=3, fixed=1) + X(tp=1, kinds=1, op=[0, 1, 2], relax=2, terms=2, nc=2, k=2, integer=3) + X(tp=[2, 3], kinds=[1, 9], relax=[0, 1, 2], integer=3))
A("C38", "lp.cpp", "c38_transfer", X(tp=1, kinds=[1, 2, 4], transfer=[0, 1], integer=3) + X(tp=[1,2], kinds=[5, 7, 8, 15], transfer=1, integer=3) + X(tp=2, kinds=[1, 2], transfer=1, zero=[0,1,9], integer=3, relax=[0,2]), [])
A("C38", "lpcplex.cpp", "c38_explicit_cplex", X(tp=[1, 2], integer=[0, 1, 3]) + X(tp=1, extra=[1, 4, 7], integer=3) + X(tp=1, relax=1, integer=3, max=[0, 1]) + X(tp=1, relax=2, integer=3, max=[0, 1], lm=[0, 1]), [])
A("C38", "lpcplex.cpp", "c38_first_cplex", X(tp=[0, 1, 2], integer=[0, 1]) + X(tp=1, extra=[1, 2, 4]) + X(tp=1, add=[1, 2]), [])
A("C38", "lpcplex.cpp", "c38_rounding_cplex", X(tp=[0, 1], v1=[0, 1]) + X(tp=1, v1=[0, 1], extra=4), [])
A("C38", "lpcplex.cpp", "c38_constraints_cplex", X(tp=1, kinds=1, op=[0, 1, 2], relax=[0, 2], integer=3) + X(tp=1, kinds=[2, 4], lm=1, relax=2, integer=3), [])
A("C38", "lpcplex.cpp", "c38_transfer_cplex", X(tp=1, kinds=[1, 2, 4], transfer=1, integer=3), [])
P("C39", "graphs of 2-4 nodes (5 with fixed weights), as many labels as nodes or 2-3 labels with unary tables; symbolic weights of both signs, parallel, constant, second-order table and generalised Potts factors of order 3-4; all workflows, queues, roundings and limits",
  "the outside solver's own search (a small exact solver stands in for it, which answers at the corners of the unit box); numerical tolerances; cuts inside classes")
A("C39", "multicut.cpp", "c39_multicut", X(tp=[1, 2, 3], half=[0, 1]) + X(tp=18, wf=[0, 1, 2, 3, 5, 6, 7]) + X(tp=3, wf=[1, 2, 3, 4, 5, 6], oldq=[0, 1]) + X(tp=3, three=1, wf=[0, 5]) + X(tp=3, buffer=1) + X(tp=3, per=1, wf=[0, 5]) + X(tp=3, fresh=1)
  + X(tp=1, um=1, labels=2) + X(tp=2, um=2, labels=2) + X(tp=1, um=2, labels=3) + X(tp=1, um=2, labels=[2, 3], wf=[7, 8, 9, 13, 14], round=[0, 1, 2], buffer=[0, 1]) + X(tp=[9, 20], um=0) + X(tp=[9, 20], um=0, labels=2)
  + X(tp=[2, 3, 9, 21], extra=[1, 2], mode=[1, 2, 3]) + X(tp=[2, 9], extra=[1, 4, 17], labels=2, um=2, fixed=[1, 2]) + X(tp=3, extra=[1, 4], labels=2, um=2, fixed=[1, 2]) + X(tp=3, extra=17, labels=2, um=2, fixed=2) + X(tp=[2, 3, 9], extra=[1, 4, 17], labels=3, um=2, fixed=3) + X(tp=[2, 3], extra=[2, 20], labels=3, um=[0, 2], fixed=3) + X(tp=1, extra=[8, 72], labels=2, um=[0, 1]) + X(tp=[2, 3], extra=[8, 72], labels=2, um=[0, 1], fixed=[1, 2, 3]) + X(tp=[10, 18], extra=[33, 34], fixed=[1, 2, 3]) + X(tp=[2], extra=[128, 64], half=[0, 1]) + X(tp=1, um=1, labels=1) + X(tp=0, um=1, labels=[2, 3])
  + X(tp=3, frac=1, wf=[0, 1, 3, 4]) + X(tp=1, frac=1, um=2, labels=2, wf=[0, 9]), X(tp=3, extra=17, labels=2, um=2, fixed=1) + X(tp=[2, 3, 9], extra=[1, 4, 17], labels=3, um=2, fixed=[1, 2]) + X(tp=[2, 3], extra=[2, 20], labels=3, um=[0, 2], fixed=[1, 2]))
A("C39", "multicut.cpp", "c39_rounding", X(tp=1, um=1, labels=[2, 3], round=0) + X(tp=1, um=1, labels=2, round=1) + X(tp=1, um=1, labels=2, round=2, few=3, pick=1) + X(tp=1, um=1, labels=3, round=1, few=[3, 4]) + X(tp=1, um=1, labels=3, round=2, few=[2, 3], pick=1), X(tp=1, um=1, labels=3, round=1) + X(tp=1, um=1, labels=3, round=2, few=4, pick=1))
A("C39", "multicut.cpp", "c39_weights", X(tp=[1, 2, 3], flip=[0, 1]) + X(tp=18, three=[0, 1]) + X(tp=[24, 11], fixed=[1, 2, 3]), [])
A("C39", "multicut.cpp", "c39_constraint", X(tp=[2, 3], fixed=[0, 1, 2]), [])
A("C39", "multicut.cpp", "c39_asymmetric", X(tp=[1, 2], um=[1, 2], labels=2, allow=[1, 2, 3], fixed=[1, 2]) + X(tp=3, um=1, labels=[2, 3], allow=[0, 1, 2, 3], fixed=[1, 2, 3]) + X(tp=1, um=2, labels=2, allow=[1, 3]), [])
A("C39", "multicut.cpp", "c39_parameters", [{}], [])
A("C39", "multicut.cpp", "c39_refused", [{}], [])
P("C40", "models of 1-4 variables with 2-3 labels (second order; third order for binary solvers), symbolic integer values of both signs, all permutations and random numbers, every optimal answer of the package",
  "the package's own maximum flow (a small exact roof dual stands in for it); numerical tolerances; contractions found by probing other than tying everything to one optimum")
A("C40", "roofdual.cpp", "c40_qpbo", X(topo=[0, 1, 2], strong=[0, 1]) + X(topo=3, strong=[0, 1], un=[0, 1]) + X(topo=2, strong=1, start=1) + X(topo=1, probing=1, probe=[1, 2]) + X(topo=2, un=0, probing=1, probe=[1, 2]) + X(topo=1, improving=1, start=[0, 1]) + X(topo=1, ex=[1, 2, 3]) + X(topo=2, un=0, improving=1, probing=[0, 1], start=0), X(topo=2, strong=0, start=1) + X(topo=3, strong=[0, 1], un=[0, 1], start=1) + X(topo=2, un=0, improving=1, probing=[0, 1], start=1))
A("C40", "roofdual.cpp", "c40_improve", X(topo=1, probing=[0, 1]) + X(topo=3, un=0, R=1, probing=0, few=1, pat=[0, 1]) + X(topo=2, un=1, R=1, probing=0, few=1), X(topo=3, un=0, R=1, probing=[0, 1], few=[1, 9], pat=[0, 1]) + X(topo=2, un=1, R=1, probing=[0, 1]))
A("C40", "roofdual.cpp", "c40_mqpbo", X(topo=1, kov=1, rounds=0, pk=1, L=[2, 3]) + X(topo=[2, 3], kov=1, rounds=0, pk=1, un=1, L=3, R=1) + X(topo=1, mix=1, kov=1, rounds=[0, 1], pk=1, L=2, R=1) + X(topo=1, L=2, rounds=1, strong=[0, 1], un=[0, 1], R=1) + X(topo=1, L=3, rounds=1, strong=[0, 1], un=[0, 1], R=1, few=[2, 3], pat=[0, 1]) + X(topo=1, L=2, rounds=2, un=[0, 1], perm=[0, 1, 2], R=1, strict=1) + X(topo=1, L=3, rounds=2, un=0, perm=[0, 2], R=1, few=1, strict=1) + X(topo=1, mix=1, L=2, rounds=1, R=1, few=3) + X(topo=1, ex=[1, 2, 3], L=2, rounds=1) + X(topo=2, L=2, rounds=[1, 2], un=1, perm=[0, 2], few=1, strict=1) + X(topo=1, noinfer=1), X(topo=1, L=3, rounds=1, strong=[0, 1], un=[0, 1], R=1) + X(topo=1, L=3, rounds=2, un=[0, 1], perm=[0, 1, 2], R=1, strict=1) + X(topo=2, L=2, rounds=[1, 2], un=1, perm=1, few=1, strict=1) + X(topo=[2, 3], kov=1, rounds=0, pk=1, un=3, L=3, R=1))
A("C40", "roofdual.cpp", "c40_mqpbo_ties", X(topo=1, L=2, un=0, R=1))
A("C40", "roofdual.cpp", "c40_hqpbo", X(topo=[0, 1]) + X(topo=2, few=1, un=0, R=1, pat=1) + X(topo=1, start=1, ex=[1, 3], few=1) + X(topo=6, un=[0, 1], R=1, few=1, pat=1) + X(topo=6, un=0, start=1, R=1, few=1, pat=1), X(topo=1, start=1, ex=[1, 3], few=2) + X(topo=[2, 3], few=1, un=1, pat=[0, 1]) + X(topo=6, un=[0, 1], R=1, few=[1, 2], pat=[0, 1, 2]))
A("C40", "roofdual.cpp", "c40_expansion", X(topo=1, L=2, init=[0, 1, 2, 3]) + X(topo=1, L=3, init=[0, 2], few=1) + X(topo=1, L=3, init=[1, 3], few=1, R=1, un=1) + X(topo=1, L=2, order=[1, 2]) + X(topo=1, L=3, order=[1, 2], few=1, R=1, un=1) + X(topo=2, L=2, few=1, R=1, un=0) + X(topo=[1, 2], L=3, pk=1, R=1, pos=1, un=1, local=1, few=1) + X(topo=1, mix=1, L=2, init=[0, 2], few=1, R=1) + X(topo=6, L=2, un=0, R=1, few=1, pat=1) + X(topo=1, L=2, again=1, steps=[1, 1000]) + X(topo=9, un=6, L=2, init=2, few=1), X(topo=1, L=3, init=[0, 1, 2, 3], few=[2, 9]) + X(topo=1, L=3, order=[1, 2], few=[2, 9]) + X(topo=[2, 3], L=3, pk=1, R=1) + X(topo=6, L=2, un=0, R=1, few=[1, 2], pat=[0, 1, 2]))
A("C40", "roofdual.cpp", "c40_reduced", X(topo=1, mode=range(8)) + X(topo=2, mode=[1, 3, 7, 6], un=1) + X(topo=3, mode=[1, 5, 7], un=1, few=2) + X(topo=8, mode=[1, 4, 6, 7], un=1, few=1) + X(topo=9, mode=[1, 4, 6, 7], un=1) + X(topo=1, L=3, mode=[1, 7], pk=1, R=1, un=1) + X(topo=3, L=3, mode=[1, 7], un=1, pk=1, R=1) + X(topo=6, mode=[1, 3, 5, 7], un=[0, 1], R=1, few=1, pat=1) + X(topo=1, ex=[1, 3], mode=[0, 1, 4, 7]), X(topo=3, mode=[1, 5, 7], un=1) + X(topo=1, L=3, mode=[1, 7], R=1, few=[1, 9], un=[0, 3]) + X(topo=6, mode=[1, 3, 5, 7], un=[0, 1], R=1, few=1, pat=0))
A("C40", "roofdual.cpp", "c40_refuse", X(case=[0, 1]))
P("C36", "models of 1-3 variables (TRW-S), chains of up to 3 and grids up to 2x2 (GCO, MRF-LIB, FastPD), with 2-3 labels, second order, symbolic integer values of both signs; every energy type and mode of the wrappers", "the algorithms inside the packages beyond the published ones their stand-ins implement; larger models")
A("C36", "external.cpp", "c36_trws", X(energy=[0, 1], topo=[0, 1]) + X(energy=[0, 1], topo=1, turn=1) + X(energy=[0, 1], topo=1, ex=[1, 2, 4], R=1) + X(energy=[0, 1], topo=1, mix=[1, 2], un=1) + X(energy=[0, 1], topo=2, un=5, R=1, turn=[0, 1]) + X(energy=[2, 3], td=1, topo=1) + X(energy=3, td=2, L=3, topo=1) + X(energy=2, td=1, L=3, topo=1, un=1, ex=1) + X(energy=[0, 1], topo=1, bps=1, steps=[1, 2], R=1) + X(energy=[0, 1, 2, 3], td=1, topo=1, start=[1, 2], R=1) + X(energy=[0, 1], topo=1, marg=1) + X(energy=0, topo=1, steps=[2, 1000], R=1) + X(energy=[0, 1], topo=3, un=0, R=1, few=2) + X(energy=[0, 2], topo=2, ex=8), X(energy=[0, 1], topo=3, un=[0, 1], R=1) + X(energy=[0, 1], topo=3, un=7, R=1, few=2) + X(energy=0, topo=2, L=3, un=0, R=1) + X(energy=[0, 1], topo=10, un=1, R=1))
A("C36", "external.cpp", "c36_gco", X(energy=[0, 1], W=1, H=[2, 3], perm=[0, 1, 2, 3], R=1) + X(energy=[0, 1], W=2, H=2, perm=[0, 1, 2, 3], R=1) + X(energy=0, nogrid=1, W=[1, 2], H=2, perm=[0, 1], R=1) + X(energy=[0, 1], H=2, ex=[1, 2, 4, 5], nogrid=[0, 1], R=1) + X(energy=0, H=3, ex=[8, 16], R=1, un=1) + X(energy=[0, 2], H=2, mix=1) + X(energy=2, kind=3, W=1, H=[1, 2, 3], R=1, ex=[0, 1]) + X(energy=2, kind=3, few=1, W=2, H=2, perm=[0, 1], bad=range(5), R=1, un=1) + X(energy=2, kind=3, H=3, bad=[1, 2], asym=[0, 1], R=1) + X(energy=[0, 1, 2], H=2, inf=1, cycles=1, again=1, turn=1, R=1, kind=3) + X(energy=2, kind=3, H=2, L=3, R=1), [])
A("C36", "external.cpp", "c36_mrf", X(energy=[0, 1], W=1, H=[2, 3], perm=[0, 1, 2, 3], R=1) + X(energy=[0, 1], W=2, H=2, perm=[0, 1, 2, 3], R=1) + X(energy=[0, 1], H=2, ex=[1, 2, 4, 5], R=1) + X(energy=0, H=3, ex=[8, 16], R=1, un=1) + X(energy=[0, 4], H=2, mix=1) + X(energy=4, kind=3, W=1, H=[1, 2, 3], R=1, ex=[0, 1]) + X(energy=4, kind=3, few=1, W=2, H=2, perm=[0, 1], bad=range(5), R=1, un=1) + X(energy=4, kind=3, H=3, bad=[1, 2], asym=[0, 1], R=1) + X(energy=2, kind=1, H=[1, 2, 3], L=[2, 3], R=1, un=1) + X(energy=3, kind=2, H=[1, 2, 3], L=[2, 3], R=1, un=1) + X(energy=[2], kind=1, W=2, H=2, few=1, R=1, un=1) + X(energy=[0, 1, 4], H=2, again=1, turn=1, R=1, kind=3) + X(energy=0, H=2, inf=range(6), tol=[0, 1], ex=[0, 1], R=1), [])
A("C36", "external.cpp", "c36_fastpd", X(kind=3, W=1, H=[1, 2, 3], R=1, ex=[0, 1, 4]) + X(kind=3, asym=1, W=1, H=[2, 3], R=1, perm=[0, 1], un=[1, 255], repa=0) + X(kind=3, few=1, W=2, H=2, perm=[0, 1], bad=range(1, 5), R=1, un=1) + X(kind=3, H=3, bad=[1, 2], asym=[0, 1], R=1, un=1) + X(kind=0, H=2, R=1) + X(kind=1, H=2, L=3, R=1, few=1) + X(kind=3, H=[2, 3], repa=1, R=1, asym=1, steps=[1, 7]) + X(kind=3, H=2, ex=[2, 5], R=1, un=1), X(kind=3, L=3, H=2, R=1, asym=1, repa=1) + X(kind=0, H=3, R=1, un=1) + X(kind=3, few=1, W=2, H=2, R=1, un=[0, 1]))
P("C41", "models of 1-4 variables with 2-3 labels, first to third order (AD3 built in place: up to tenth order), symbolic integer values of both signs; every mode of the wrappers", "the algorithms inside the packages, which end in any answer; larger models")
A("C41", "external2.cpp", "c41_ad3", X(max=[0, 1], topo=[0, 1, 2, 6, 9], R=1) + X(max=[0, 1], topo=7, R=1, few=3) + X(max=[0, 1], kind=[0, 2], adapt=[0, 1], topo=1, mix=[0, 1, 2], un=1) + X(max=[0, 1], topo=1, ex=[1, 2, 4, 6], R=1) + X(max=[0, 1], topo=6, mix=[1, 2, 3], few=4, R=1, un=5) + X(topo=3, potts=[1, 7], un=0) + X(topo=1, L=3, un=0, R=1), X(max=[0, 1], topo=5, R=1, un=9) + X(max=[0, 1], topo=3, R=1))
A("C41", "external2.cpp", "c41_ad3_direct", X(order=range(1, 12), same=[0, 1]), [])
A("C41", "external2.cpp", "c41_srmp", X(topo=[0, 1, 2, 6, 9], R=1) + X(topo=7, R=1, few=3) + X(topo=1, mix=[0, 1, 2], un=1, relax=[0, 1, 2, 3], flag=1) + X(topo=1, ex=[1, 2, 4, 7], potts=[0, 1, 3], R=1) + X(topo=6, mix=[1, 2, 3], few=4, R=1, un=5) + X(topo=3, potts=[1, 7], un=[0, 1]) + X(topo=1, L=[1, 3], potts=[0, 1], un=2, R=1), X(topo=5, R=1, un=9) + X(topo=3, R=1))
A("C41", "external2.cpp", "c41_mplp", X(topo=[0, 1], lp=[0, 1, 20], tight=[0, 1], R=1) + X(topo=1, deco=[0, 1], deci=[0, 1], inter=[0, 1], tight=1, R=1, lp=0) + X(topo=1, uai=1, csp=[0, 1], tight=2, R=1, lp=0) + X(topo=1, stop=[1, 2, 3], lp=1, tight=1, R=1) + X(topo=[2, 6, 9], lp=0, tight=0, R=1, few=3) + X(topo=1, mix=[1, 2], un=1, tight=0) + X(topo=1, ex=[1, 2, 4], potts=[0, 1], R=1, tight=0), X(topo=3, R=1, few=3, tight=1))
A("C41", "external2.cpp", "c41_grante", X(topo=[0, 1, 2, 6, 9], R=1, kind=0) + X(kind=[1, 2, 3], flag=[0, 1], topo=1, mix=[0, 1, 2], un=1) + X(topo=1, ex=[1, 2, 4, 7], potts=[0, 1, 2], R=1) + X(topo=3, potts=[0, 1, 2, 4, 6], un=[0, 1], R=1) + X(topo=3, un=[0, 7], share=255, R=1, potts=[0, 1]) + X(topo=3, un=1, share=[4, 8], R=1) + X(topo=2, mix=[1, 2, 3], un=7, R=1, share=255) + X(topo=1, early=1), X(topo=5, un=0, share=255, R=1) + X(topo=7, R=1, few=3))
A("C41", "external3.cpp", "c41_libdai", X(algo=range(10), rule=[0, 1, 2, 3], kind=0, topo=1, mix=1) + X(algo=[0, 5, 8], kind=[1, 2, 3, 4], topo=1, mix=2) + X(algo=2, kind=range(5), topo=[0, 2, 6, 9], visit=1) + X(algo=[0, 2], kind=range(5), topo=1, ex=[1, 2, 3], early=1) + X(algo=[0, 2], kind=[0, 3], fault=[1, 2, 3, 4], visit=[0, 1], topo=1) + X(algo=2, kind=[0, 2], topo=7), X(algo=range(10), kind=[0, 3], topo=7))
A("C41", "external3.cpp", "c41_libdai_zero", X(), [])
P("C42", "pairwise models of 1-4 variables with 2-3 labels; TRWSi with 0-3 iterations before the integer programmes", "other reparametrising solvers; larger models")
A("C42", "combilp.cpp", "c42_combilp", X(topo=3, un=0, pw=0, single=[0, 1], edge=[0, 1], iter=[1, 3]) + X(topo=3, un=[1, 2, 4, 3, 7], pw=0, single=[0, 1], max=[0, 1]) + X(topo=3, un=0, pw=[1, 2, 4], R=1, single=[0, 1], max=[0, 1]) + X(topo=1, un=3, pw=1, R=1, max=[0, 1], edge=[0, 1]) + X(topo=3, L=3, un=[0, 1], R=1, single=[0, 1]) + X(topo=3, mix=[1, 2, 3], un=1, R=1) + X(topo=3, potts=7, un=0, R=1, single=[0, 1]) + X(topo=3, ord=1, un=3) + X(topo=3, ord=[0, 1], cf=1, edge=[0, 1], refuse=1) + X(topo=[0, 2, 9, 12], un=3, edge=[0, 1]) + X(topo=3, un=1, stop=[1, 2, 3], plain=0) + X(topo=3, un=1, plain=1, fast=[0, 1]) + X(topo=3, un=1, cycles=[0, 1, 2]) + X(topo=[5, 8, 18], un=1, R=1, single=[0, 1]), [])
A("C26", "transport.cpp", "c26_primal", X(topo=1, max=[0, 1], start=range(5), steps=1) + X(topo=1, mix=[1, 2], start=[0, 1], steps=1, un=1) + X(topo=2, conc=[1, 2], steps=2, un=5, reset=[0, 1]) + X(topo=1, bad=1) + X(topo=2, conc=2, steps=3, un=5, reset=1, start=3) + X(topo=2, conc=3, steps=3, un=2, stride=2, late=1) + X(topo=1, start=[1, 3], stride=[0, 2], steps=2) + X(topo=12, conc=2, un=0, steps=2), X(topo=3, conc=3, steps=3, un=0) + X(topo=2, conc=[1, 2], steps=3, un=5, reset=[0, 1]) + X(topo=2, conc=3, steps=4, un=7))
