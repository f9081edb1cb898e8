#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run after editing the table below)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


p("C01", "Clique elimination order is a valid sparse elimination of every clique family",
  "For every family of variable cliques and every admissible root or leaf hint, the computed order eliminates each clique exactly once, "
  "the supernodes partition the variables, every clique variable and every fill-in pair has a stored place, and a requested root is eliminated last. "
  "The column permutation used for storage is a bijection consistent with it.",
  ["inputs", "configurations"],
  "All sequences of variable subsets (any order of cliques, any overlap, disconnected, nested or repeated) and all root/leaf hints.",
  "Tests run a handful of hand-picked families; a wrong fill-in only shows for particular overlap patterns and clique orders.",
  ["conex/clique_ordering.cc", "conex/tree_utils.cc", "conex/supernodal_solver.cc"],
  [("maximum-overlap spanning tree and fill-in", "conex/clique_ordering.cc"), ("storage layout from an order", "conex/supernodal_solver.cc GetData")],
  ["PickCliqueOrder", "GetData"])

p("C02", "Assembled system equals the sum of all constraint blocks for any sparsity",
  "After assembly the solver's sparse system matrix, residual vectors and scalars equal exactly the sum over constraints of their dense blocks scattered to their variables "
  "(including equality multipliers), for every overlap pattern and every variable order inside a constraint. Assembling again does not change it.",
  ["inputs", "histories"],
  "All lists of up to a bounded number of constraints over up to 5-6 variables, all orders of the variables inside a constraint, with and without equality constraints, repeated assemblies.",
  "Tests assemble a few fixed patterns; overwrite/accumulate and fill-in decisions depend on the elimination order and on variable order within a constraint.",
  ["conex/supernodal_assembler.cc", "conex/kkt_solver.cc", "conex/supernodal_solver.cc", "conex/constraint_manager.h"],
  [("per-block overwrite/increment binding", "conex/supernodal_assembler.cc"), ("scatter maps", "conex/supernodal_assembler.cc BindDiagonalBlock"),
   ("residual scatter", "conex/constraint_manager.h AssembleSchurComplementResiduals")],
  ["SupernodalKKTSolver::KKTMatrix", "SupernodalKKTSolver::Assemble", "Program::sys"])

p("C03", "Factor and solve give the solution of the assembled system in every mode",
  "Whenever factorization of the assembled system reports success, solving returns the solution of that system for every right-hand side, for the Cholesky, LDLT (equalities) and QR modes, "
  "with or without iterative refinement and with repeated factorizations; a system that is not positive definite is reported as failed by Cholesky.",
  ["inputs", "configurations", "histories"],
  "All sparsity patterns within the bound, all solver modes and refinement counts, all right-hand sides (by linearity, all unit vectors), repeated factor/solve sequences.",
  "Unit tests solve a few structures in one mode; block substitution errors hide in particular separator shapes.",
  ["conex/kkt_solver.cc", "conex/block_triangular_operations.cc", "conex/RLDLT.h", "conex/triangular_matrix_workspace.cc", "conex/supernodal_solver.cc"],
  [("block Cholesky / LDLT", "conex/block_triangular_operations.cc"), ("mode dispatch and refinement", "conex/kkt_solver.cc")],
  ["SupernodalKKTSolver::Factor", "Solve", "SolveInPlace"])

p("C04", "Workspace layout is disjoint, aligned and inside its declared size",
  "For every constraint type and every size, all arrays a constraint keeps in shared workspace memory lie inside the declared size, do not overlap each other or another constraint's, and are aligned. "
  "A program therefore never reads or writes outside its workspace.",
  ["inputs", "configurations", "histories"],
  "All small dimensions of every workspace kind, all short lists of constraints of mixed kinds and sizes, own or caller-supplied memory, repeated initialization.",
  "Tests use a few sizes with padding that hides overlap; off-by-one sizes only matter for particular dimensions.",
  ["conex/workspace.h", "conex/linear_workspace.h", "conex/workspace_soc.h", "conex/newton_step.h", "conex/memory_utils.h", "conex/hermitian_psd.h", "conex/quadratic_cone_constraint.h",
   "conex/triangular_matrix_workspace.cc", "conex/supernodal_solver.cc"],
  [("SizeOf/Initialize pairs", "conex/*workspace*.h"), ("program-level layout", "conex/cone_program.h InitializeWorkspace")],
  ["SizeOf", "Initialize", "Program::workspaces"])

p("C05", "C interface validates arguments, reports status and stays consistent",
  "Every sequence of C interface calls with in- or out-of-range arguments (and null pointers for the calls that check them) reports success exactly for valid calls, never reads or writes invalid memory and never terminates the process, "
  "and a rejected call leaves the program unchanged: identifiers stay sequential and later solves behave as if it had not been made.",
  ["histories", "inputs"],
  "All call sequences up to a bounded depth over the interface's functions with a small argument alphabet that includes each boundary and each invalid class. (CONEX_AddLinearInequalities returns -1 always; its acceptance is judged by the constraints it adds.)",
  "Tests check a few invalid calls in isolation; interactions of failed calls with later ones are not covered.",
  ["interfaces/conex.cc", "interfaces/conex.h", "conex/cone_program.h", "conex/constraint_manager.h", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/linear_constraint.cc"],
  [("argument checks", "interfaces/conex.cc CONEX_DEMAND"), ("constraint registration", "conex/constraint_manager.h")],
  ["CONEX_* return values", "ids", "CONEX_GetDualVariable*"])

p("C06", "Incremental construction equals one-shot construction",
  "A constraint built entry by entry through the interface (any order of updates, repeated and overwritten entries, untouched entries being zero) represents exactly the constraint built in one shot from the resulting data. "
  "Solving both gives the same answer.",
  ["histories"],
  "All sequences of linear-operator and affine-term updates up to a bounded length over all entries, for linear, second-order-cone, Hermitian (real, complex, quaternion, octonion) and quadratic-cost constraints.",
  "Tests apply one fixed sequence of updates.",
  ["interfaces/conex.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/linear_constraint.cc", "conex/quadratic_cost.cc", "conex/quadratic_epigraph.cc"],
  [("UpdateLinearOperator / UpdateAffineTerm", "conex/*.cc")], ["Schur complement data", "CONEX_Maximize result"])

p("C07", "Equivalent formulations of one problem give the same optimum",
  "Stating the same feasible set through different constraint types (linear, bounds, real/complex/quaternion/octonion Hermitian, dense or sparse matrix, second-order or quadratic cone, equality substituted out) yields the same optimal point and value within the solver's accuracy.",
  ["inputs", "programs"],
  "All small problems over an integer data alphabet, stated through every applicable pair of formulations.",
  "Tests compare a couple of random instances for one pair of formulations.",
  ["conex/linear_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/cone_program.cc"],
  [("cone implementations", "conex/*constraint*.cc"), ("common algorithm", "conex/cone_program.cc Solve")], ["Solve", "CONEX_Maximize"])

p("C08", "Cone operations match their mathematical definitions in every reachable state",
  "In every state a constraint can reach by steps from the identity, its contribution to the system (matrix, vectors, scalars; overwriting or accumulating), its step norms and its slack eigenvalues equal the cone's definitions evaluated on the constraint data and its scaling point. "
  "The scaling point stays strictly inside the cone and step updates equal the closed-form geodesic update up to the declared approximation.",
  ["inputs", "histories"],
  "All small integer data matrices and all step sequences up to a bounded depth, for each cone type.",
  "Tests verify selected quantities at the identity or for random points with one cone type.",
  ["conex/linear_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/quadratic_cost.cc", "conex/equality_constraint.cc", "conex/newton_step.h"],
  [("ConstructSchurComplementSystem, PrepareStep, TakeStep, GetWeightedSlackEigenvalues", "each cone's source file")], ["SchurComplementSystem", "StepInfo", "WeightedSlackEigenvalues"])

p("C09", "A linear program reported solved is primal-dual optimal",
  "Whenever a bounded feasible linear program with interior is solved, the returned point satisfies the constraints, its objective equals the exact optimum within tolerance, and the solver does report it solved.",
  ["inputs", "configurations"],
  "All small linear programs over an integer alphabet that have a strictly feasible primal and dual, through the C++ and C interfaces and the supported solver options.",
  "Tests solve a few random instances.",
  ["conex/cone_program.cc", "conex/linear_constraint.cc", "conex/divergence.cc", "interfaces/conex.cc"],
  [("barrier path following", "conex/cone_program.cc Solve")], ["Solve return value", "primal variable", "objective"])

p("C10", "Infeasible or unbounded problems are never reported solved",
  "If a problem has no feasible point, or its objective is unbounded, the solver does not report it as solved. When it sets an infeasibility flag, the flag names a condition that the problem really has.",
  ["inputs", "configurations"],
  "All small linear, semidefinite and second-order-cone problems over an integer alphabet that are strongly infeasible or unbounded, through every interface.",
  "Tests try a few instances.",
  ["conex/cone_program.cc"],
  [("infeasibility threshold on mu and sign tests", "conex/cone_program.cc Solve")], ["Solve return value", "ConexStatus"])

p("C11", "Equality constraints hold at the solution and equal substitution",
  "A solved problem with equality constraints satisfies them to solver accuracy and has the optimum of the problem in which they are substituted out, whichever variables they touch, however many there are and in whatever order they are added.",
  ["inputs", "histories"],
  "All small problems with 1-3 equality constraints over variable subsets in any order, added before, between or after inequalities.",
  "Tests use fixed structures.",
  ["conex/equality_constraint.cc", "conex/constraint_manager.h", "conex/kkt_solver.cc", "conex/clique_ordering.cc", "conex/RLDLT.h"],
  [("dual variables appended to cliques", "conex/constraint_manager.h"), ("supernode reordering for zero pivots", "conex/clique_ordering.cc")], ["Solve"])

p("C12", "A solved convex quadratic program is optimal",
  "With quadratic costs (any number, on any variable subsets, with linear costs) a run reported solved returns the minimiser of the total cost over the feasible set within tolerance.",
  ["inputs", "configurations"],
  "All small quadratic programs over an integer alphabet with one or two quadratic terms, bounds, inequalities and equalities.",
  "Tests check a couple of random programs.",
  ["conex/quadratic_cost.cc", "conex/cone_program.cc", "conex/linear_constraint.cc"],
  [("quadratic cost as Schur complement term", "conex/quadratic_cost.cc"), ("line search for mu", "conex/cone_program.cc")], ["Solve", "CONEX_Maximize"])

p("C13", "Answers do not depend on constraint order, variable labels or splitting",
  "Permuting constraints, relabelling variables, splitting a block constraint into its rows, duplicating a constraint's clique order or padding a constraint with zero columns changes neither the reported status nor the optimum beyond solver accuracy.",
  ["inputs", "configurations"],
  "All permutations and splits of small problems.",
  "Tests solve each problem in one order.",
  ["conex/cone_program.cc", "conex/clique_ordering.cc", "conex/supernodal_assembler.cc", "conex/constraint_manager.h"],
  [("sparse assembly independent of labels", "conex/supernodal_assembler.cc")], ["Solve"])

p("C14", "Cold starts do not depend on history and programs do not interfere",
  "A cold-started solve returns bit-for-bit the result a fresh program returns (given the same state of the C random generator, which starts the eigenvalue approximation), whatever was solved, failed, configured or updated before on it, on other programs, or in the memory it uses. Solving one program never changes another one's state.",
  ["histories"],
  "All operation sequences up to a bounded depth over several live programs: solves with different options, costs, failed solves, queries, memory sharing.",
  "Tests create one program and solve once or twice.",
  ["conex/cone_program.cc", "conex/cone_program.h", "interfaces/conex.cc", "conex/supernodal_assembler.cc", "conex/kkt_solver.cc"],
  [("re-initialisation on cold start", "conex/cone_program.cc Initialize")], ["Solve", "primal variable", "dual variable", "stats"])

p("C15", "Warm starts never change the answer",
  "A warm-started solve that reports solved returns the optimum of the current problem (after cost changes, option changes, failed or truncated earlier solves) within solver accuracy, and never touches memory outside the program's workspace. One that is aborted in its first iteration starts over from the identity and is solved like a cold start.",
  ["histories"],
  "All sequences of cold and warm solves with option and cost changes up to a bounded depth.",
  "Tests warm start once with equal options.",
  ["conex/cone_program.cc", "conex/newton_step.h"],
  [("state kept in workspace between solves", "conex/cone_program.cc"), ("abort threshold", "conex/cone_program.cc")], ["Solve"])

p("C16", "Iteration statistics are consistent with the run",
  "After any run, the iteration count lies between 1 and the configured maximum, the recorded barrier parameters respect the configured limits, any valid index (including negative ones from the end) returns the record of that iteration, and invalid queries are rejected.",
  ["histories", "configurations"],
  "All small problems, option combinations and query indices, before and after runs.",
  "Tests query one run.",
  ["interfaces/conex.cc", "conex/cone_program.cc", "conex/newton_step.h"],
  [("WorkspaceStats", "conex/newton_step.h"), ("CONEX_GetIterationStats", "interfaces/conex.cc")], ["CONEX_GetIterationStats", "Status"])

p("C17", "Returned dual variables certify optimality",
  "After a solved run of a linear, semidefinite or convex quadratic program with dual variables requested, each constraint's dual variable has the documented size, lies in its cone, and together they satisfy stationarity and complementarity with the returned point within solver accuracy. (Hypercomplex constraints expose the real part only.)",
  ["inputs", "configurations"],
  "All small linear and semidefinite problems over an integer alphabet, all constraint positions.",
  "Tests check a few.",
  ["conex/cone_program.cc", "conex/cone_program.h", "conex/linear_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc"],
  [("affine step at the end", "conex/cone_program.cc"), ("GetDualVariable scaling", "conex/cone_program.h")], ["GetDualVariable", "CONEX_GetDualVariable"])

p("C18", "Hypercomplex matrix algebra obeys the Jordan-algebra laws",
  "For real, complex, quaternion and octonion Hermitian matrices the implemented products, traces, inner products, quadratic representations, eigenvalues and exponentials satisfy their defining identities for all arguments.",
  ["inputs"],
  "All products of basis elements (hence, by multilinearity, all arguments) for every supported dimension and order up to a bound, and all small integer combinations for the nonlinear operations.",
  "Tests draw random matrices of a few sizes.",
  ["conex/jordan_matrix_algebra.cc", "conex/jordan_matrix_algebra.h", "conex/exponential_map.cc", "conex/hermitian_psd.cc"],
  [("multiplication tables", "conex/jordan_matrix_algebra.cc"), ("quadratic representation", "conex/jordan_matrix_algebra.cc")], ["HyperComplexMatrix operations"])

p("C19", "Stand-alone triangular factorizations are exact on every elimination pattern",
  "For every elimination pattern (including empty supernodes and fill-in) the sparse matrix stores and returns exactly the entries put into it and its copies are independent; block and column Cholesky compute its Cholesky factor, block Cholesky failing exactly on matrices that are not positive definite; the forward and backward substitutions apply the inverses of that factor; block LDLT of a matrix whose pivots do not vanish is exact and has its inertia. Factoring again in the same memory gives the same as in fresh memory. The dense LDLT reconstructs every symmetric matrix up to the regularization of vanishing pivots, solves with it, reports its sign, and updates it by one vector.",
  ["inputs", "histories"],
  "All families of up to 3 (4) cliques on 4-5 variables with every root, all trees, bands and cycles up to larger sizes, with definite, indefinite and every sign pattern of values; all symmetric matrices of order 1-4 over small integers.",
  "Tests use a few patterns and random values; empty supernodes and permuted blocks are rare.",
  ["conex/supernodal_solver.cc", "conex/block_triangular_operations.cc", "conex/triangular_matrix_workspace.cc", "conex/RLDLT.h"],
  [("column operations", "conex/supernodal_solver.cc"), ("block operations", "conex/block_triangular_operations.cc"), ("regularized LDLT", "conex/RLDLT.h")], ["TriangularMatrixOperations", "BlockTriangularOperations", "RLDLT"])

p("C20", "Barrier-parameter selection stays within its guarantee",
  "The step-size rules return a barrier parameter whose divergence bound does not exceed the requested limit whenever one exists, and a line search never returns a parameter that violates the norm bound it was asked for.",
  ["inputs"],
  "All slack-eigenvalue profiles and directions over a grid that includes every branch boundary.",
  "Tests evaluate two or three points.",
  ["conex/divergence.cc", "conex/cone_program.cc", "conex/linear_constraint.cc", "conex/quadratic_cost.cc"],
  [("DivergenceUpperBoundInverse", "conex/divergence.cc"), ("PerformLineSearch", "conex/linear_constraint.cc")], ["DivergenceUpperBoundInverse", "PerformLineSearch"])

p("C21", "Two-sided inequality preprocessing preserves the feasible set",
  "Adding lower and upper bounds on linear expressions produces constraints that describe exactly the same set, for every mixture of finite, infinite, equal and one-variable rows, with every scaled or negated coefficient.",
  ["inputs"],
  "All small coefficient rows and bound pairs over an alphabet including infinities, equal bounds, zero rows and single-variable rows.",
  "Tests use a few rows.",
  ["conex/linear_constraint.cc", "conex/linear_constraint.h", "interfaces/conex.cc"],
  [("PreprocessLinearInequality", "conex/linear_constraint.cc")], ["AddLinearInequalities", "constraints added to the program"])

p("C22", "A failed or truncated run is never reported as solved",
  "A run that hits its iteration limit, whose factorization fails at any iteration (its system being indefinite or not a number), or that is rejected for invalid configuration reports not solved, leaves the program usable, and a later valid run gives the correct answer.",
  ["fault_sequences", "configurations", "histories"],
  "All iteration limits up to convergence, factorization failure injected at every iteration, all invalid configurations, followed by every recovery action.",
  "Tests hardly exercise failure paths.",
  ["conex/cone_program.cc", "conex/error_checking_macros.h", "interfaces/conex.cc"],
  [("status handling in Solve", "conex/cone_program.cc"), ("CONEX_DEMAND", "conex/error_checking_macros.h")], ["Solve return value", "ConexStatus"])

p("C23", "Graph elimination utilities are right on every graph",
  "For every undirected graph, given by its 0/1 adjacency matrix or, for the orderings, by any matrix with its nonzero pattern, the chordality test agrees with the definition, the perfect-ordering test agrees with the definition, and the computed elimination ordering is a permutation that is perfect whenever the graph is chordal.",
  ["inputs"],
  "All graphs up to a bounded number of vertices, all orderings, all small weights.",
  "Tests check a handful of graphs.",
  ["conex/elimination_ordering.cc", "conex/elimination_ordering.h"],
  [("maximum cardinality search", "conex/elimination_ordering.cc")], ["IsChordal", "IsPerfectlyOrdered", "EliminationOrdering"])

p("C24", "C interface options mean what the native options mean",
  "Default options are fully initialised and equal the native defaults, and each option changes the native behaviour it names and no other (minimum_mu, unused by the native solver, changes nothing): the C interface returns bit-for-bit what the native interface returns for the same problem and options.",
  ["configurations", "inputs"],
  "All single and pairwise deviations from the defaults of every option, on small problems of every kind.",
  "Tests set two or three options.",
  ["interfaces/conex.cc", "interfaces/conex.h", "conex/cone_program.h"],
  [("field-by-field copy", "interfaces/conex.cc")], ["CONEX_SetDefaultOptions", "CONEX_Maximize"])

p("C25", "Matrix exponential and extreme-eigenvalue approximations meet their accuracy",
  "The geodesic update's exponential agrees with the true exponential within its stated accuracy over the range of arguments the solver can pass, and approximate extreme eigenvalues bracket the exact ones as the solver assumes.",
  ["inputs"],
  "All small symmetric matrices over an integer/fraction alphabet with bounded norm, all hypercomplex kinds.",
  "Tests use random matrices.",
  ["conex/exponential_map.cc", "conex/exponential_map_pade.cc", "conex/approximate_eigenvalues.cc"],
  [("Pade approximation", "conex/exponential_map_pade.cc"), ("Lanczos", "conex/approximate_eigenvalues.cc")], ["GeodesicUpdate", "ApproximateEigenvalues"])

p("C26", "The MATLAB binding forwards faithfully",
  "The MATLAB wrapper passes problem data and options to the C interface unchanged and returns its results unchanged.",
  ["inputs", "histories"],
  "All wrapper calls.",
  "No test runs the bindings here.",
  ["interfaces/matlab"],
  [("calllib wrapper classes", "interfaces/matlab")])

p("C27", "The Python wrapper forwards faithfully and its operators are exact",
  "For every sequence of calls of the Python class Conex, with the data held in any NumPy layout, type or shape it accepts, the program built and the results (constraint ids, status, solution, iteration statistics, and dual variables of linear and real matrix inequalities, in the order they were added) are those of the C interface called directly with the same data and options; a call the C interface or the wrapper refuses raises and leaves the program and the wrapper as they were. LMIOperator is the linear map of its matrices and variables and transpose() its adjoint, and ComputeErrors returns the slacks, residual, complementarity and smallest eigenvalues of its own arguments.",
  ["inputs", "histories"],
  "All histories of a few calls over small constraints of every kind, six memory layouts and types of every array, every pair of options.",
  "No test runs the binding; its errors depend on the layout of the data and on the history.",
  ["interfaces/python/ConexProgram.py", "interfaces/python/conex.i", "interfaces/conex.h"],
  [("SWIG typemaps", "interfaces/python/conex.i"), ("wrapper class and bookkeeping", "interfaces/python/ConexProgram.py")], ["Conex", "LMIOperator"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
