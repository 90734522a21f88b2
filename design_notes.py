"""How each property is decided: oracle and method notes, copied into DESIGN.md by gen.py."""
O = {
"C01": "The harness keeps its own list of factors (function kind, parameters, variables) and computes every labelling's value from it; building orders, finalising, copying and assigning (also self- and cross-type) are driven by symbolic operation sequences. Refused factors must leave numbers of factors, functions and every value unchanged.",
"C02": "The factor sets are symbolic choices; adjacency, neighbours, counts and the global shape answers are recomputed from the set of factors (union-find for acyclicity and connection, degree and end tests for chains, all numberings for grids).",
"C03": "Each type's documented formula is written in the harness and compared at every label tuple with symbolic parameters; copies and assignments are compared as well.",
"C04": "A positive answer is checked by existential reconstruction: the form's parameters are read off the table and every entry compared; for explicit tables both directions are decided. Summaries against a loop over the table.",
"C05": "Serialise into arrays of exactly the announced sizes (out-of-bounds writes are memory violations), read back, compare shape and every value.",
"C06": "For every view the operation is recomputed on the viewed table; changes of the viewed function after construction are part of the run.",
"C07": "Pointwise computation over the sorted union of the variables; all subsets and orders of accumulated variables; every operator and in-place form.",
"C08": "Documented operator table, neutral and inverse laws over symbolic values; accumulators against a loop, including the attaining label tuple and partial accumulation.",
"C09": "`not exists labelling with a better value` over all labellings of a model with symbolic tables; k-best lists: order, distinctness and no omitted better labelling.",
"C10": "Optimality over all labellings; marginals against the definition (min/max/sum over the other variables) for every variable and factor.",
"C11": "Reported value against the harness's evaluation, bound against all labellings, rerun and reset against the first run; marginals against an independent implementation of the message equations run for the same steps.",
"C12": "Cut value against all source/sink partitions; labelling against all labellings, for submodular symbolic tables.",
"C13": "Persistency: some optimal labelling agrees with all fixed labels; bound <= value of every labelling; submodular: everything labelled.",
"C14": "Clause sets are symbolic; the answer is compared with the disjunction over all labellings.",
"C15": "Local optimality: no single, factor or connected-subset change improves; value no worse than the symbolic start. LOC: value against the energy of the labelling at every visit, optimum where one block or tree is the model.",
"C16": "All expansion (swap) moves of the result are enumerated in the harness and none may be better, whenever the move energies are submodular; start, label order and parameters symbolic.",
"C17": "A visitor checks validity, value and bound at every call; reset, rerun, starting points, early stopping, time limits (a stand-in clock) per solver; the solver list is in `harness/solvers.cpp`.",
"C18": "Bound <= every labelling's value, value = evaluation of the labelling, monotone value; parts with duals add up to the model at every labelling after every step (read through the solver's storage).",
"C19": "Shadow state in the harness; after every operation of a symbolic sequence value, state and the predicted values are compared with the model; subset moves against all combinations.",
"C20": "Every labelling of the free variables in the reduced model against the original; submodels' optima combined; dead-end elimination against the optimum.",
"C21": "Validity recomputed from the produced lists: cover, consistency, acyclicity; mutated decompositions must be called invalid.",
"C22": "`harness/hdf5.h` is an in-memory stand-in for the HDF5 C API that keeps groups, datasets, types and dataspaces and implements hyperslabs, so that the file's contents stay symbolic. All 316 witness runs were also executed once against the real libhdf5_serial with identical results.",
"C37": "The main functions of the converters are compiled into the harness (renamed by a macro) and run on `harness/textfile.h`, a token-level stand-in for text streams, and `harness/hdf5.h`. The oracle is the table model the input file was written from; `exp` and `log` are uninterpreted functions, so only the way values are carried matters. Matching: the cost recomputed from the lists of assignments and edges.",
"C38": "`harness/gurobi_c++.h` and `harness/ilcplex/ilocplex.h` stand in for the two outside solvers (`harness/lpcore.h`: it records the programme and, on these sizes, lists all feasible 0/1 points; the point it answers with is any optimal one, chosen by the engine's solver, or any point of the box for the rounding check). Feasible points are decoded and compared with the valid labellings, recomputed from the model's tables and the constraints' meaning; the answer of inference is compared with every valid labelling.",
"C39": "The CPLEX stand-in of C38 answers the programmes; the answer, bound and edge labels are compared with every labelling (or partition) of the model, recomputed from the tables, and for cuts inside classes with every pair of a labelling and a consistent cut.",
"C40": "A stand-in for the roof-duality package chooses, by a fork and assumptions over all half-integral points, the labels the roof dual fixes (shared by all optimal points; the least minimum cut when every edge is submodular, as the package documents), for every optimal answer; the wrappers' claims are compared with every labelling of the model, recomputed from the tables. The real package breaks ties in the submodular case, which makes several rounds of MQPBO contradict each other: that is recorded as a known finding under its own entry (c40_mqpbo_ties), and the other jobs with several rounds use the strictly shared labels (strict=1).",
"C41": "Stand-ins for the headers of AD3, SRMP, MPLP, GRANTE and libDAI record the tables, options and calls they are given and answer with any labelling (a fork), any beliefs and any dual value the package could return; the harness evaluates the recorded tables on every labelling against the model written down separately (libDAI: every table entry against the same uninterpreted exponential), and follows answer, beliefs, bound, options, errors and reset back through the wrapper.",
"C42": "The whole solver runs on symbolic values: message passing, tree agreement, reparametrisation, and the integer programmes through the CPLEX stand-in of C38, whose optimal point is any optimal one (a fork); the answer, value and bound are compared with every labelling, whose value is recomputed from the tables.",
"C23": "A shadow array (shape + index map) follows each operation of a symbolic sequence; every element is then compared by coordinate, scalar index and iterator, and writes through views are checked at every element.",
"C24": "Shadow containers (sorted sequence, map with default, union-find by relabelling, priority list) follow symbolic operation sequences.",
"C25": "Satisfaction recomputed per label tuple; relaxed violations recomputed from coefficients, bound and tolerance.",
"C26": "The plan must ship the scaled margins exactly; its cost is compared with that of every integral plan of the scaled margins (the vertices of the transport polytope are among them), with symbolic costs. The primal bound is compared, after every step of a symbolic sequence of questions and changes, with every coupling of the marginals.",
"C27": "Value of every labelling of the reparametrised model against the original; duals are symbolic.",
"C28": "Value against sum of weight*feature, gradient against the coefficient of the weight; round trips of weight vectors and constraints; loss definitions.",
"C29": "All fusions of the two labellings are enumerated; the higher-order reduction is handed to an exact pairwise solver written in the harness; proposals: range and sweep coverage.",
"C30": "`rand()` is a symbolic source with 256 outcomes, so every stream of draws within the bounds is covered; acceptance is compared with the ratio computed in the harness.",
"C31": "Label counts recorded in the harness; growth sequences symbolic.",
"C32": "Enumeration order recomputed with mixed-radix counting; iterator laws over symbolic positions.",
"C33": "Minimum over all slack assignments satisfying the produced constraints against the function value at every label tuple.",
"C34": "Partition value from signed weights; no single node move improves; result against the initial partition.",
"C35": "Structure recomputed from the parameters; random draws symbolic.",
}
DROPPED = [
 "ADSal and Nesterov smoothing were tried in C18 and dropped: their steps branch on sums of exponentials, on which the solver answers unknown, so that nothing would be decided. (Seen on the way, not repaired: smoothing_strategy.hxx:291 reads an uninitialised derivative in the worst-case strategies.)",
 "SyntheticModelGenerator's full and star generators of the old header are empty stubs in the repository; C35 covers the generator that has bodies.",
 "DAOOPT (C43) and code whose headers need them (dualdecomposition_bundle, ...) do not compile here.",
 "GraphicalModel::operator= from another model type does not compile in the repository for some argument types; only instantiable combinations are checked.",
]
