"""Property texts. gen.py turns this table (and jobs.PROPS) into properties.jsonl and MANIFEST.json."""
import os
PR = []
def p(i, title, st, over, q, why, files, mech, obs=None):
    PR.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
               "anchors": {"files": [os.path.normpath("include/opengm/" + f) for f in files], "mechanism": [{"name": n, "where": os.path.normpath("include/opengm/" + w)} for n, w in mech], "observe_at": obs or []}})
p("C01", "A model's value is the combination of exactly the factors that were added",
  "For every graphical model and every labelling, evaluating the model returns the sum (product, for multiplicative models) of the values of exactly the factors added so far, each read with the labels of its own variables in its own order. This holds for any mix of function types, factors sharing one function, repeated and unary and constant factors, any order of building and finalising, and for copied and assigned models; a factor whose variables are unsorted, out of range or do not match the function's shape is refused without changing the model.",
  ["inputs", "programs", "histories"], "every factor structure, label-count vector, table of values, labelling and order of building, copying and assigning models",
  "The tests evaluate a handful of fixed models with fixed tables at a few labellings and never copy a model with shared functions and then edit one of the copies.",
  ["graphicalmodel/graphicalmodel.hxx", "graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_function_wrapper.hxx", "graphicalmodel/graphviews/factorgraph.hxx"],
  [("GraphicalModel::evaluate / addFactor / addFunction / operator=", "graphicalmodel/graphicalmodel.hxx"), ("FunctionWrapper dispatch on the function type id", "graphicalmodel/graphicalmodel_function_wrapper.hxx")])
p("C02", "Structure queries of the factor graph tell the truth about the model",
  "For every model, the adjacency lists, neighbour counts and connectivity queries between variables and factors agree with the set of factors and their variables, in both directions and without duplicates. The global shape queries (acyclic, connected, chain, grid, maximum factor order, one-sided neighbour lists) answer yes exactly when the graph has that shape, and a returned chain or grid order really is one.",
  ["inputs", "programs"], "every set of factors over the variables, including unary, constant, repeated and higher-order ones, and every numbering of the variables",
  "Tests query three or four fixed small graphs whose variable numbering is the natural one, so a wrong answer that depends on the numbering or on repeated factors does not show.",
  ["graphicalmodel/graphviews/factorgraph.hxx", "datastructures/randomaccessset.hxx", "graphicalmodel/graphicalmodel.hxx"],
  [("FactorGraph adjacency lists and isAcyclic/isChain/isGrid/isConnected", "graphicalmodel/graphviews/factorgraph.hxx"), ("adjacency insertion in addFactor", "graphicalmodel/graphicalmodel.hxx")])
p("C03", "Built-in function types return their documented value at every label tuple",
  "Every built-in function type (explicit table, sparse table, constant, the Potts family, absolute and squared differences with and without truncation, label cost, sum constraint, fields of experts, single-site) returns its documented value at every label tuple inside its shape and reports its documented dimension, shape and size. Equal and unequal labels, the truncation boundary, rectangular label ranges and dimensions of one to four are all included.",
  ["inputs"], "every parameter value, every shape and every label tuple of each function type", "Tests evaluate each type with one or two integer parameter sets on one shape and compare at few points, often away from the truncation boundary.",
  ["functions/explicit_function.hxx", "functions/sparsemarray.hxx", "functions/constant.hxx", "functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/truncated_absolute_difference.hxx", "functions/truncated_squared_difference.hxx", "functions/soft_constraint_functions/label_cost_function.hxx", "functions/soft_constraint_functions/sum_constraint_function.hxx", "functions/fieldofexperts.hxx", "functions/singlesitefunction.hxx"],
  [("operator()(Iterator) of each function class", "functions/")])
p("C04", "Function property flags and summaries agree with the function's table",
  "For every built-in function and parameter setting, a positive answer to a structural question (Potts, generalised Potts, submodular, squared, truncated squared, absolute or truncated absolute difference) is given only if the table has that form, and for explicit tables of two or three variables with at least two labels each the answer is positive whenever it does. Submodularity refers to two binary variables; generalised Potts means that the value depends only on which of the labels are equal. The reported minimum, maximum, sum, product and min-max of a function or factor equal those of its table, whatever shortcut the type uses.",
  ["inputs"], "every parameter value including negative, zero and tied ones, every shape up to the stated size and every explicit table", "Tests check the flags on a handful of typical integer parameter sets; tables that come close to a form without having it, and parameters with unusual signs, are not tried.",
  ["functions/function_properties_base.hxx", "functions/function_properties.hxx", "functions/operations/accumulator.hxx", "functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/absolute_difference.hxx", "functions/truncated_absolute_difference.hxx"],
  [("FunctionBase::is*/min/max/sum/product/minMax and per-type overrides", "functions/function_properties_base.hxx"), ("factor forwarding", "graphicalmodel/graphicalmodel_factor.hxx")])
p("C05", "Serialising a function and reading it back yields the same function",
  "For every function type that supports serialisation, writing a function into index and value sequences of the announced sizes and reading them back yields a function with the same shape and the same value at every label tuple. Writing never touches memory beyond the announced sizes.",
  ["inputs", "programs"], "every serialisable function type, parameter setting and shape within the bounds", "The tests round-trip one instance per type and for some types do not compare the result at all.",
  ["functions/explicit_function.hxx", "functions/sparsemarray.hxx", "functions/potts.hxx", "functions/pottsg.hxx", "functions/learnable/lpotts.hxx", "functions/learnable/lunary.hxx", "functions/learnable/lweightedsum_of_functions.hxx", "functions/soft_constraint_functions/label_cost_function.hxx", "functions/soft_constraint_functions/sum_constraint_function.hxx"],
  [("FunctionSerialization<...>::serialize / deserialize / indexSequenceSize / valueSequenceSize", "functions/")])
p("C06", "Function views equal the table of what they view",
  "A view that mirrors a factor, fixes some of its variables, scales it, adds an offset, converts it to probabilities or combines several factors over the same variables returns, at every label tuple, what that operation on the underlying table gives, with matching dimension, shape and size, and follows later changes of the viewed function and offset. Copying a model into explicit or flat storage keeps every factor's table, whatever function types and shared functions it mixes.",
  ["inputs", "programs"], "every underlying table, every set of fixed positions and labels, scale factor and list of viewed factors", "Tests build one example of each view and compare a few values.",
  ["functions/view_fix_variables_function.hxx", "functions/accumulated_view.hxx", "functions/scaled_view.hxx", "functions/view_convert_function.hxx", "functions/modelviewfunction.hxx", "functions/view.hxx", "graphicalmodel/graphicalmodel_explicit_storage.hxx"],
  [("operator() of each view", "functions/")])
p("C07", "Factor algebra: combining and reducing factors matches pointwise computation",
  "Combining two factors or independent factors with any supported operator gives, over the sorted union of their variables, the pointwise combination of both tables, and accumulating over any subset of variables (minimum, maximum, sum, product) gives the reduced table over the remaining ones, whatever the order in which the variables are listed. Fixing variables of an independent factor restricts its table; in-place and out-of-place forms agree.",
  ["inputs", "programs"], "every pair of variable sets over up to four variables (disjoint, overlapping, nested, equal, empty), every table, operator and subset to reduce over", "Tests exercise a few overlaps with fixed tables; alignment mistakes for particular overlaps or orders of the reduced variables stay invisible.",
  ["graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_factor_operator.hxx", "graphicalmodel/graphicalmodel_factor_accumulator.hxx", "functions/operations/operator.hxx", "functions/operations/accumulator.hxx"],
  [("opengm::operateBinary / BinaryOperationImpl / AccumulateSomeImpl / ComputeViAndAShape", "functions/operations/")])
p("C08", "Operators and accumulators obey the algebra the solvers rely on",
  "Each operator (plus, times, min, max, and, or, integrate, log-sum-exp) computes its documented result in every calling form, and has its neutral element and inverse: combining with the neutral element changes nothing, the inverse undoes the operation, and the ordering predicates of min and max agree with what they accumulate. Accumulating a sequence gives the documented value together with a label tuple that attains it; the weighted combinations, the normalisation and the adapter functors compute what they document, on scalars and on factors.",
  ["inputs"], "every operand value and every sequence within the bounds", "Tests apply each operator to a few constants.",
  ["operations/adder.hxx", "operations/multiplier.hxx", "operations/minimizer.hxx", "operations/maximizer.hxx", "operations/integrator.hxx", "operations/and.hxx", "operations/or.hxx", "operations/weightedoperations.hxx", "operations/normalize.hxx", "utilities/accumulation.hxx"],
  [("neutral/op/iop/hop/bop/ibop of each operation", "operations/"), ("Accumulation", "utilities/accumulation.hxx")])
p("C09", "Exhaustive and best-first search return true optima",
  "For every model, exhaustive search and best-first search return a labelling whose value is the global optimum for minimisation and for maximisation, with sums and with products, for any factor order and label counts. The k-best list of the best-first search contains the k best labellings, distinct and in order, and its reported value belongs to its labelling.",
  ["inputs", "programs", "configurations"], "every table of values (including ties), model structure, label-count vector and node order within the bounds", "Tests compare against brute force on random models from one generator; admissibility errors of the bound or tie handling need particular tables.",
  ["inference/bruteforce.hxx", "inference/astar.hxx"], [("Bruteforce::infer odometer", "inference/bruteforce.hxx"), ("AStar::expand and tree heuristic", "inference/astar.hxx")])
p("C10", "Dynamic programming and message passing are exact on acyclic models",
  "On every acyclic model, dynamic programming and (tree-reweighted) max-product or min-sum message passing return an optimal labelling, including forests, single variables, variables without factors and higher-order hypertrees for message passing. Message-passing marginals and factor marginals on such models equal the true ones, for min-sum, max-sum, min-product, max-product and sum-product.",
  ["inputs", "programs", "schedules"], "every acyclic structure within the bounds, every table of values and both message schedules", "Tests run random instances from a star/grid generator with one root choice and tolerate ties.",
  ["inference/dynamicprogramming.hxx", "inference/messagepassing/messagepassing.hxx", "inference/messagepassing/messagepassing_bp.hxx", "inference/messagepassing/messagepassing_trbp.hxx", "inference/messagepassing/messagepassing_operations.hxx"],
  [("DynamicProgramming::infer upward and downward pass", "inference/dynamicprogramming.hxx"), ("message update rules", "inference/messagepassing/messagepassing_bp.hxx")])
p("C11", "Loopy message passing is sound about what it reports",
  "On models with cycles, loopy message passing always terminates within its step limit and returns a valid labelling whose reported value is the value of that labelling; with reweighting it reports a bound no better than attainable. After any number of steps the marginals and factor marginals are what the message equations of the chosen schedule give (each variable passes on the messages of its other factors, each factor the best or the sum over its other variables, damping weighs the new message against the previous one, reweighting scales, normalisation only rescales), and it stops early only when all messages moved less than the bound. Resetting it and running again gives the same labelling and marginals, with every schedule, with and without damping and normalisation, and normalisation does not change the marginals found on trees.",
  ["inputs", "programs", "configurations"], "every cyclic structure within the bounds, table of values, damping and step count", "Tests only compare the result with a tolerance on random grids.",
  ["inference/messagepassing/messagepassing.hxx", "inference/messagepassing/messagepassing_bp.hxx", "inference/messagepassing/messagepassing_trbp.hxx"],
  [("MessagePassing::infer schedules", "inference/messagepassing/messagepassing.hxx")])
p("C12", "Graph cuts minimise binary submodular models exactly",
  "For every binary model with unary, submodular pairwise and (minimising) submodular third-order factors, graph-cut inference returns a labelling of minimum value (maximum after negation), and the underlying cut solvers return a source/sink partition of minimum capacity in every network. Factors between the same pair of variables, constant factors and unary terms of either sign are handled, and models with non-binary variables or factors of higher order are refused rather than mis-solved.",
  ["inputs", "programs"], "every submodular table, sign pattern and structure within the bounds; every capacity assignment of small networks", "Tests compare with a fixed set of random grids and one hand-made network.",
  ["inference/graphcut.hxx", "inference/auxiliary/minstcutboost.hxx", "inference/auxiliary/minstcutkolmogorov.hxx", "inference/auxiliary/minstcutibfs.hxx"], [("GraphCut::addPairwise/addUnary reparametrisation", "inference/graphcut.hxx"), ("MinSTCutBoost", "inference/auxiliary/minstcutboost.hxx")])
p("C13", "Roof duality labels persistently and bounds from below",
  "For every binary pairwise model, the roof-duality solver's fixed labels agree with at least one optimal labelling, unlabelled variables are reported as such, its bound never exceeds the optimum, and on submodular models it labels everything optimally.",
  ["inputs", "programs"], "every pairwise table, submodular or not, within the bounds", "Tests only check random submodular or half-random grids against brute force values.",
  ["inference/qpbo.hxx"], [("QPBO::addEdgeCapacity / infer", "inference/qpbo.hxx")])
p("C14", "Two-satisfiability is decided correctly",
  "For every boolean model made of two-literal clauses, the satisfiability solver answers satisfiable exactly when some labelling satisfies every factor.",
  ["inputs", "programs"], "every truth table of the pairwise factors over every structure within the bounds", "One random model per size is tried.", ["inference/sat.hxx"], [("Sat::infer strongly connected components", "inference/sat.hxx")])
p("C15", "Local search ends in a local optimum no worse than its start",
  "Iterated conditional modes, the lazy flipper and LOC never return a labelling worse than the start they were given. What ICM and the lazy flipper return cannot be improved by the moves they cover: one variable at a time, one factor at a time, or connected subsets up to the requested size. LOC never gets worse at any visit, whatever radii, size limits and solver its parameter names, and a block or tree that covers the whole model ends in the optimum.",
  ["inputs", "programs", "histories"], "every table of values, starting labelling and move size within the bounds", "Tests compare final values on random models; they never test the returned labelling for local optimality from arbitrary starts.",
  ["inference/icm.hxx", "inference/lazyflipper.hxx", "inference/movemaker.hxx", "inference/loc.hxx", "inference/auxiliary/submodel/submodel_builder.hxx"], [("LOC::optimizeSubmodel", "inference/loc.hxx"), ("SubmodelOptimizer", "inference/auxiliary/submodel/submodel_builder.hxx"), ("ICM::infer queue of dirty variables", "inference/icm.hxx"), ("LazyFlipper subgraph forest and activation", "inference/lazyflipper.hxx")])
p("C16", "Move-making solvers never lose ground and end locally optimal",
  "Alpha-expansion and alpha-beta-swap never return a labelling worse than the one they start from, and when every pairwise term admits the move the result cannot be improved by any single expansion (swap) move. Start points, label orders and constant or repeated factors do not matter.",
  ["inputs", "programs", "configurations"], "every metric or semi-metric pairwise term, unary table, starting point and label order within the bounds", "Tests compare values on random Potts grids only.",
  ["inference/alphaexpansion.hxx", "inference/alphabetaswap.hxx"], [("AlphaExpansion::expand", "inference/alphaexpansion.hxx"), ("AlphaBetaSwap::infer", "inference/alphabetaswap.hxx")])
p("C17", "Every solver reports a valid labelling with its true value",
  "Whenever a solver hands out a labelling - after inference, at every visit, stopped early, before inference or after a reset - it has one in-range label per variable, and the value the solver reports then is the model's value at that labelling; its bound is never on the wrong side of the optimum. A starting point set by the user is where the solver stands and is never lost to something worse, running a deterministic solver again does not lose, and after a reset it does what a fresh solver does.",
  ["inputs", "histories", "configurations"], "15 solvers that build without external packages, every table of values and call order within the bounds", "The tests check the final value of one infer call.",
  ["inference/inference.hxx", "inference/bruteforce.hxx", "inference/icm.hxx", "inference/lazyflipper.hxx", "inference/astar.hxx", "inference/dynamicprogramming.hxx", "inference/infandflip.hxx", "inference/greedygremlin.hxx", "inference/fusion_based_inf.hxx", "inference/messagepassing/messagepassing.hxx", "inference/alphaexpansion.hxx", "inference/alphabetaswap.hxx", "inference/graphcut.hxx", "inference/self_fusion.hxx"],
  [("Inference::value / bound / arg defaults and their overrides", "inference/inference.hxx")])
p("C18", "Dual solvers bound the optimum, and what they decompose keeps the energy",
  "Dual decomposition by subgradient and sequential tree-reweighted message passing keep bound <= optimum <= value at every stopping point, with the value belonging to the returned labelling and never getting worse; the parts, with their duals, always add up to the model, whatever the step rule. On tree-structured models the gap closes. The chain storages, and the reparametrisations read from the solver or applied to the storages, keep the energy of every labelling.",
  ["inputs", "configurations"], "every table of values, step size, decomposition and iteration limit within the bounds, and every dual vector", "Tests look at the final gap of random grids.",
  ["inference/dualdecomposition/dualdecomposition_base.hxx", "inference/dualdecomposition/dualdecomposition_subgradient.hxx", "inference/trws/trws_base.hxx", "inference/trws/trws_trws.hxx", "inference/trws/trws_subproblemsolver.hxx", "inference/trws/trws_decomposition.hxx", "inference/trws/trws_reparametrization.hxx", "inference/auxiliary/lp_reparametrization.hxx"],
  [("DualDecompositionSubGradient::infer / dualStep", "inference/dualdecomposition/dualdecomposition_subgradient.hxx"), ("TRWSPrototype", "inference/trws/trws_base.hxx"), ("DecompositionStorage::addDDvector", "inference/trws/trws_base.hxx"), ("LPReparametrisationStorage::getFactorValue", "inference/auxiliary/lp_reparametrization.hxx")])
p("C19", "The move maker's incremental values are the model's values",
  "After any sequence of moves the move maker's value equals the model's value at its current labelling; the value predicted for a move equals the value after performing it, and an optimal move over a subset of variables is the best one over all label combinations of that subset.",
  ["inputs", "histories"], "every sequence of moves, every subset of variables (in any order) and table of values within the bounds", "Tests perform a few moves on one model.", ["inference/movemaker.hxx"], [("Movemaker::valueAfterMove / move / moveOptimally", "inference/movemaker.hxx")])
p("C20", "Fixing variables preserves the values of the model",
  "When some variables are fixed, the reduced model (or the set of independent submodels) assigns to every labelling of the free variables the value of the original model with the fixed labels filled in, the labelling mapped back contains the fixed labels, and freeing variables again undoes fixing. Combining optimal labellings of the submodels gives an optimal completion, and eliminating dangling chains or trees first gives the value and the optimum of the whole model back.",
  ["inputs", "programs", "histories"], "every set of fixed variables and labels, order of fixing and freeing, structure and table within the bounds", "Tests fix a few variables of one model.", ["graphicalmodel/graphicalmodel_manipulator.hxx"], [("GraphicalModelManipulator::buildModifiedModel / buildModifiedSubModels / modifiedState2OriginalState", "graphicalmodel/graphicalmodel_manipulator.hxx")])
p("C21", "Decompositions cover every factor and variable of the model",
  "Every decomposition produced (per-factor, edges, trees, spanning trees, blocks) is valid: each factor is contained in some submodel, each variable of a submodel factor is in that submodel, and its variable and factor lists match the submodels; tree decompositions are acyclic. A decomposition that misses something is reported invalid.",
  ["inputs", "programs"], "every structure within the bounds and every way a hand-made decomposition can miss a factor or variable", "Tests validate one grid.", ["graphicalmodel/decomposition/graphicalmodeldecomposer.hxx", "graphicalmodel/decomposition/graphicalmodeldecomposition.hxx"], [("GraphicalModelDecomposer::decomposeIntoTree / ...SpanningTrees", "graphicalmodel/decomposition/graphicalmodeldecomposer.hxx"), ("GraphicalModelDecomposition::isValid / complete", "graphicalmodel/decomposition/graphicalmodeldecomposition.hxx")])
p("C22", "Saving a model to a file and loading it back yields the same model",
  "A model written to a file and loaded again has the same variables, label counts, factors, function types and values at every labelling, with any mix of serialisable function types, shared functions and factor orders. Loading into a model that is not empty replaces it, also when its function types come in another order or are more; a file with functions of a type the model cannot hold is refused. Arrays, views and boxes of arrays written to a file come back with the same shape, order and elements, and a wrong type, name or box is refused.",
  ["inputs", "programs", "histories"], "every model within the bounds", "The tests round-trip a few models and compare a few values.", ["graphicalmodel/graphicalmodel_hdf5.hxx", "datastructures/marray/marray_hdf5.hxx"], [("hdf5::save / load", "graphicalmodel/graphicalmodel_hdf5.hxx")])
p("C23", "Multi-dimensional arrays and their views address the right elements",
  "For every array shape, storage order and sequence of view operations (sub-view, bound coordinate, permute, transpose, squeeze, reshape, copy, assignment, resize, arithmetic), element access by coordinates, by scalar index and by iterator refers to the element the operations define, and writes through a view reach exactly the elements it denotes. Copies are independent; views alias.",
  ["inputs", "programs", "histories"], "every shape up to the stated size, both storage orders and every sequence of view operations within the bounds", "The array has no test of its own in the suite.", ["datastructures/marray/marray.hxx"], [("View address computation, Marray assignment, Iterator", "datastructures/marray/marray.hxx")])
p("C24", "Containers and sparse tables behave like their mathematical counterparts",
  "The ordered set, sparse table, small-buffer sequence, disjoint-set partition, buffered vector and changeable priority queue behave as a set, a map with default, a sequence, a partition and a priority queue under every sequence of their operations.",
  ["histories", "inputs"], "every sequence of operations up to the stated length with arbitrary elements", "Tests run one fixed script per container; several containers have none.", ["datastructures/randomaccessset.hxx", "datastructures/sparsemarray/sparsemarray.hxx", "datastructures/fast_sequence.hxx", "datastructures/buffer_vector.hxx", "datastructures/partition.hxx", "utilities/disjoint-set.hxx", "utilities/queues.hxx"], [("RandomAccessSet::insert/erase/find", "datastructures/randomaccessset.hxx"), ("Partition::merge/find", "datastructures/partition.hxx"), ("ChangeablePriorityQueue", "utilities/queues.hxx")])
p("C25", "Linear constraints and their functions decide satisfaction and violation correctly",
  "For every constraint over indicator variables, a constraint function returns the satisfied value exactly at the label tuples that satisfy all its constraints and the violated value elsewhere, and its list of violated constraints under a relaxed assignment, with offsets and weights, is exactly the violated ones. Indicator variables evaluate to the logical combination of the labels they mention, and are ordered and compared consistently with that. Label-order and label-limit functions equal the constraints they stand for. Reading a serialised constraint function back gives the same function, and within a model such a factor evaluates like its table.",
  ["inputs", "programs"], "every coefficient, bound, operator and label set within the bounds", "Tests check one example per operator.", ["datastructures/linear_constraint.hxx", "datastructures/indicator_variable.hxx", "functions/constraint_functions/linear_constraint_function.hxx", "functions/constraint_functions/linear_constraint_function_base.hxx", "functions/constraint_functions/label_order_function.hxx", "functions/constraint_functions/num_labels_limitation_function.hxx"], [("challenge / operator() of the constraint functions", "functions/constraint_functions/")])
p("C26", "The transport solver and the primal bound built on it return minimum-cost couplings",
  "For every supply, demand and cost table, the returned plan ships exactly the supplies and demands (each side scaled to a total of one; supplies below the relative precision count as zero), is non-negative, and has the best cost when minimising as well as when maximising, and the returned value is its cost. The solver can be run again with other margins and transposed sides, and the sparse matrix that stores the plan reads row-wise and column-wise alike. For any marginals of the variables, set and changed in any order and asked for in any order, the primal bound of a pairwise model is its unary terms plus the cheapest couplings of the marginals (for a labelling: its value), the coupling handed out is one of those, and models it cannot handle are refused.",
  ["inputs"], "every cost table, supply and demand within the bounds, including zero supplies and ties", "Tests run a few fixed instances.", ["inference/auxiliary/transportationsolver.hxx", "inference/auxiliary/primal_lpbound.hxx"], [("TransportationSolver::Solve simplex on the transport polytope", "inference/auxiliary/transportationsolver.hxx"), ("PrimalLPBound", "inference/auxiliary/primal_lpbound.hxx")])
p("C27", "Reparametrisation never changes the value of any labelling",
  "For every model with one unary factor per variable and every choice of reparametrisation values, the reparametrised model assigns the same value to every labelling as the original model, including after saving the values and reading them back, and with factors of higher order or constant ones. The values of the submodels of a decomposition add up to the model's for every labelling. Message passing on chains with a limited number of labels keeps the total too, and a labelling reported as consistent with all the locally optimal labels is optimal.",
  ["inputs", "programs"], "every value of the reparametrisation and every model structure within the bounds", "One random model is reparametrised.", ["inference/auxiliary/lp_reparametrization.hxx", "inference/trws/trws_reparametrization.hxx"], [("LPReparametrizer / ReparametrizationView", "inference/auxiliary/lp_reparametrization.hxx")])
p("C28", "Parametrised functions are linear in the weights with the true gradient",
  "Every learnable function's value at every label tuple is the documented combination of the current weights and its features, follows later changes of the shared weights, and its reported gradient for a weight is the derivative of the value with respect to that weight. Weight vectors, their regulariser with its gradient, and bounds and linear constraints on weights report what was put in, and the loss functions used for learning have their documented value.",
  ["inputs", "histories"], "every weight vector, feature table and label tuple within the bounds", "Tests check one label tuple per function.", ["functions/learnable/lpotts.hxx", "functions/learnable/lunary.hxx", "functions/learnable/lweightedsum_of_functions.hxx", "graphicalmodel/weights.hxx", "functions/unary_loss_function.hxx"], [("weightGradient / operator()", "functions/learnable/")])
p("C29", "Fusing labellings never loses to either parent",
  "Fusing two labellings returns a labelling that takes each variable's label from one of the two, with a value no worse than both, and optimal among all such labellings when fused exactly, also when the fusion is reduced to pairs of binary variables. The proposal generators propose labellings of the model, the sweeps reach every label or pair of labels, and fusion-based solvers (also those fusing the labellings another solver passes through) report the value of the labelling they return and never return worse than their start or than any labelling they fused.",
  ["inputs", "programs"], "every pair of labellings and table of values within the bounds", "Tests fuse on random grids and compare values with tolerance.", ["inference/auxiliary/fusion_move/fusion_mover.hxx", "inference/fusion_based_inf.hxx", "inference/self_fusion.hxx", "inference/fix-fusion/higher-order-energy.hpp"], [("HlFusionMover::fuse / FusionMover::setup", "inference/auxiliary/fusion_move/fusion_mover.hxx")])
p("C30", "Samplers only visit states whose reported values are right",
  "For every stream of random numbers, the Gibbs and Swendsen-Wang samplers move between valid labellings, one variable or one connected cluster of equal labels at a time, keep track of the best one seen (start included; with Swendsen-Wang after the burn-in), and report its value. A worse state is entered exactly when the draw falls below the acceptance probability, cyclic proposals take every variable in turn, marginal counts collected during sampling add up and match the states visited, and random draws stay in their range.",
  ["inputs", "schedules"], "every outcome of the random draws within the step bound, every table of values", "A test run follows one random stream.", ["inference/gibbs.hxx", "inference/swendsenwang.hxx"], [("Gibbs::infer accept step", "inference/gibbs.hxx"), ("SwendsenWang::infer cluster growth", "inference/swendsenwang.hxx")])
p("C31", "Label spaces report the label counts they were given",
  "Every label space (individual, simple, static, grid, view, vector-view) reports the number of variables and per-variable label counts it was built or assigned with, and growing a space adds exactly one variable with the given count.",
  ["inputs", "histories"], "every label-count vector and history of construction, assignment and growth within the bounds", "Tests build one instance of each.", ["graphicalmodel/space/discretespace.hxx", "graphicalmodel/space/simplediscretespace.hxx", "graphicalmodel/space/static_simplediscretespace.hxx", "graphicalmodel/space/grid_space.hxx", "graphicalmodel/space/viewspace.hxx", "graphicalmodel/space/vector_view_space.hxx"], [("numberOfLabels / addVariable", "graphicalmodel/space/")])
p("C32", "Shape walkers, iterators and sorting utilities enumerate exactly what they should",
  "Walking a shape visits every coordinate tuple once in order with matching flat indices, sub-walks visit exactly the free coordinates, subsequence and accessor iterators are consistent random-access iterators over the selected elements, coupled sorting permutes all sequences alike, and three-valued logic follows its truth table.",
  ["inputs", "programs"], "every shape, fixed-coordinate set, selection and sequence within the bounds", "Tests walk one shape and sort a few sequences.", ["utilities/indexing.hxx", "utilities/subsequence_iterator.hxx", "utilities/accessor_iterator.hxx", "utilities/sorting.hxx", "utilities/canonical_view.hxx", "utilities/tribool.hxx", "utilities/partitions.hxx", "utilities/shape_accessor.hxx"], [("ShapeWalker / SubShapeWalker", "utilities/indexing.hxx"), ("SubsequenceIterator / AccessorIterator", "utilities/subsequence_iterator.hxx")])
p("C33", "Moving a function into another form by linear transfer preserves it",
  "Transforming a soft-constraint function (label cost, sum constraint) into slack variables and linear constraints keeps its value: at every label tuple, the best slack assignment satisfying the constraints yields the function value. A function of a type that has no such form is refused.",
  ["inputs", "programs"], "every cost, coefficient and shape within the bounds", "Tests check one instance per function.", ["inference/auxiliary/lp_functiontransfer.hxx", "functions/soft_constraint_functions/label_cost_function.hxx", "functions/soft_constraint_functions/sum_constraint_function.hxx"], [("LPFunctionTransfer::transfer", "inference/auxiliary/lp_functiontransfer.hxx")])
p("C34", "Partition search returns a partition with its true value and no improving single move",
  "Greedy partition search over signed edge weights returns a labelling that encodes a partition of the nodes, reports its true value, never returns a partition worse than the one it started from (nodes joined by attractive edges together), and stops only where neither moving a single node to another or a new part nor the sequence of best single moves between two neighbouring parts (or off into a new part) improves. Several factors on one pair of nodes add up, and models it cannot handle are refused.",
  ["inputs", "programs"], "every signed weighting of every graph within the bounds", "No test in the suite runs it.", ["inference/partition-move.hxx"], [("PartitionMove::inferKL / inferGC", "inference/partition-move.hxx")])
p("C35", "Synthetic model generators build the structure they announce",
  "Generated grid, star, full and random models have exactly the announced variables, label counts and factors, whatever numbers the random source returns, and the generated values stay in the configured range and have the configured form (constant, Potts, distance, shared or not). The same seed gives the same model.",
  ["inputs", "configurations"], "every outcome of the random source and every configuration within the bounds", "Tests use the generators but do not check them.", ["graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx"], [("SyntheticModelGenerator::buildGrid / buildStar / buildFull", "graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx")])
p("C36", "Solvers backed by TRW-S, GCO, MRF-LIB and FastPD agree with the model",
  "The wrappers of these four packages hand over exactly the model's energy for every labelling, whichever way round the package asks for a pair of sites, and however the variables are ordered in a factor, factors repeat or overlap, and constants occur. They map the package's answer back to the model's variables and labels and report the model's true value of it; the bound is below the value of every labelling whatever dual variables the package ends with; min-marginals of chains are exact; parameters mean what they say in the package's own units. Models and energy types the package cannot express (third order, different label numbers, non-proportional tables) are refused.",
  ["inputs", "configurations"], "every model within the bounds, all values symbolic of both signs, every energy type and mode, and every answer of the package", "The packages are not part of the repository's default build, so the tests of these wrappers are not even compiled.", ["inference/external/trws.hxx", "inference/external/typeView.h", "inference/external/gco.hxx", "inference/external/mrflib.hxx", "inference/external/fastPD.hxx"], [("external::TRWS; TypeView; GCOLIB; MRFLIB; FastPD", "inference/external/trws.hxx")])
p("C37", "Converters preserve the model across file formats",
  "Converting a file between the supported formats (UAI, weighted partition graph, partition problem as Potts model, raw image, feature matching, old HDF5 layout, current HDF5 layout) yields a file that describes the same model: the same variables, label counts and factors, and the same value for every labelling, for any order of the variables of a factor and any order of the records, with or without a line break at the end. What a format cannot express is refused.",
  ["inputs", "configurations"], "every model, problem or image within the bounds, all values symbolic", "No test runs the converters; the default build does not even compile them.", ["../../src/converter/uai2opengm.cxx", "../../src/converter/opengm2uai.cxx", "../../src/converter/opengm2wudag.cxx", "../../src/converter/partition2potts.cxx", "../../src/converter/brain.cxx", "../../src/converter/matching2opengm.cxx", "../../src/converter/matching2opengm-N2N.cxx", "../../src/converter/opengm1TOopengm2.cxx"], [("main of every converter; ConcreteConverterDispatcher::exec", "../../src/converter")])
p("C38", "The linear programme of a model describes the model, and its answer is read back",
  "For every model of explicit, linear-constraint, label-order, label-limit, label-cost and sum-constraint functions, the integer programme handed to the outside solver has exactly one feasible point per labelling that satisfies the constraints, and its cost there is the energy of the labelling (up to the factors without variables). Any relaxation and row heuristic, any limit of rows per iteration, merging parallel factors, soft constraints and function transfer end with the same optimal answer: a valid labelling no other beats, its value, and a bound equal to it. For any point the solver returns, the answer takes a largest entry per variable.",
  ["inputs", "configurations"], "every model within the bounds, all values, labels, operators and bounds symbolic, and every optimal (or, for rounding, every) answer of the outside solver", "The tests for these interfaces are compiled only when CPLEX or Gurobi is installed and compare a few random models.", ["inference/lp_inference_base.hxx", "inference/lpgurobi.hxx", "inference/lpgurobi2.hxx", "inference/lpcplex.hxx", "inference/lpcplex2.hxx", "inference/auxiliary/lp_solver/lp_solver_gurobi.hxx", "inference/auxiliary/lp_solver/lp_solver_cplex.hxx", "inference/auxiliary/lp_functiontransfer.hxx"], [("LPInferenceBase; LPFunctionTransfer; LPSolverGurobi; LPGurobi; LPGurobi2; LPSolverCplex; LPCplex; LPCplex2", "inference/lp_inference_base.hxx")])
p("C39", "Multicut finds a best partition or labelling, and its bound is the optimum",
  "For every model of (generalised) Potts factors, and for edge weights given alone, the cutting-plane solver ends, whatever the workflow, queue, buffering, rounding and limits of rows, with a partition or labelling that no other beats, a bound equal to its value, an edge labelling that cuts exactly between the parts, and rows added by the user satisfied; with cuts inside classes allowed the bound is the best pair of a labelling and a consistent cut. For any point the outside solver returns, nearest rounding takes a nearest label and the derandomised roundings the best of their thresholds' candidates. Models and workflows it cannot handle are refused.",
  ["inputs", "configurations"], "every model within the bounds, all weights symbolic, every workflow, and every optimal (or, for rounding, every) answer of the outside solver", "The multicut tests are compiled only when CPLEX is installed.", ["inference/multicut.hxx", "utilities/partitions.hxx", "utilities/queues.hxx"], [("Multicut::infer; find...Constraints; arg; addConstraint; getSegmentation; getEdgeLabeling", "inference/multicut.hxx")])
p("C40", "Solvers on roof duality keep an optimum, improve their start and bound it",
  "Whatever labels roof duality leaves open, and whichever optimal answer the package gives, the wrapper for binary models (with probing and improving) and its multi-label extension (label orders, rounds, Kovtun's method) call variables and labels optimal only when some optimal labelling agrees with all of it; the answer is a labelling that carries those labels and the start elsewhere, and the bound (of these and of the higher-order solver) is below the value of every labelling. The higher-order solver and expansion by fusion end no worse than their start; expansion of Potts models ends where no expansion is better. Reducing a model by persistency, tentacles and components keeps its optimum. Models outside their limits are refused.",
  ["inputs", "configurations"], "every model within the bounds, all values symbolic of both signs, every start, permutation, mode, and every optimal answer of the package", "The tests of these solvers are compiled only when the external package is installed.", ["inference/external/qpbo.hxx", "inference/mqpbo.hxx", "inference/hqpbo.hxx", "inference/alphaexpansionfusion.hxx", "inference/reducedinference.hxx", "inference/fix-fusion/higher-order-energy.hpp"], [("external::QPBO; MQPBO; HQPBO; AlphaExpansionFusion; ReducedInference", "inference/external/qpbo.hxx")])
p("C41", "Solvers backed by AD3, SRMP, MPLP, GRANTE and libDAI agree with the model",
  "The wrappers of these five packages hand over exactly the model: the package's score or energy of every labelling is the model's value (up to sign, for libDAI the documented exponential or reciprocal of every table entry), also when functions are shared, repeated or of different types, label counts differ and constants occur (AD3 refuses those). They map the package's answer and beliefs back to the model's variables and labels, report the model's true value of the answer and a bound below the value of every labelling, and pass every parameter on. Only one best labelling is offered; errors of the package are reported, not hidden; reset starts over.",
  ["inputs", "configurations"], "every model within the bounds, all values symbolic of both signs, every mode, every answer and every belief of the package", "The packages are not part of the repository's default build, so the tests of these wrappers are not even compiled.", ["inference/external/ad3.hxx", "inference/external/srmp.hxx", "inference/external/mplp.hxx", "inference/external/grante.hxx", "inference/external/libdai/inference.hxx", "inference/external/libdai/bp.hxx", "inference/external/libdai/mean_field.hxx", "inference/external/libdai/junction_tree.hxx"], [("AD3Inf; SRMP; MPLP; GRANTE; LibDaiInference and its algorithms' Parameter::toString", "inference/external/ad3.hxx")])
p("C42", "CombiLP ends with an optimal labelling",
  "For every pairwise model, whether minimising or maximising, whatever the relaxation's solver left undecided and whichever optimal answers the integer programmes give, CombiLP (with the message passing solver on chains or edges, one or several reparametrisations) ends with a labelling that no other beats, its value, and a bound equal to it; stopped early, or with too few rounds, the answer is still a labelling with its value and a valid bound. The visitor sees begin and end once. Models outside its limits are refused.",
  ["inputs", "configurations"], "every pairwise model within the bounds, all values symbolic of both signs (part of them fixed in larger models), and every optimal answer of the integer programmes", "The test is compiled only when CPLEX is installed, and compares a few random models.", ["inference/combilp.hxx", "inference/trws/trws_decomposition.hxx", "inference/trws/trws_reparametrization.hxx", "inference/trws/trws_base.hxx"], [("CombiLP::infer; CombiLP_base::infer; DilateMask; GetMaskBoundary; MaxSumTRWS::getTreeAgreement; EdgeDecomposition; MonotoneChainsDecomposition", "inference/combilp.hxx")])
p("C43", "DAOOPT's wrapper agrees with the model",
  "The wrapper of DAOOPT passes the model's values to the package unchanged and maps the answer back to the model's variables and labels.",
  ["inputs", "configurations"], "every model accepted by the wrapper", "The package is not part of the repository's default build, so its test is not even compiled.", ["inference/external/daoopt.hxx"], [("external::DAOOPT", "inference/external/daoopt.hxx")])
# properties not claimed: why (solver-based checking cannot decide them here)
NA = {
 "C43": "the package and its headers are not present in the sandbox, so the wrapper does not compile, natively or to IR; and the wrapper relies on conventions of the package (a dummy variable in its answer, which one of the package's tables are logarithms) that a stand-in written from the wrapper alone could only repeat, not decide",
}
