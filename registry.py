"""What decides each property: harness sources, build configurations, notes."""

STATELESS = "stateless explicit-state model checking of the real code (exhaustive bounded enumeration)"

NOT_APPLICABLE = {
    "C26": "The binding needs MATLAB or Octave, neither of which is installed; without executing it no execution can be explored.",
}

CHECKS = {
    "C01": dict(
        harnesses=[("c01_ordering", "fast2")],
        level="model_checking",
        technique=STATELESS + " over all clique families and hints, against the definition of a supernodal elimination",
        note="Complete within the stated bounds (families of up to 4 cliques on up to 5 variables in quick; more in thorough); the oracle is the definition itself.",
        rule="one case per clique family, root and leaf hint; non-trivial when cliques overlap",
    ),
}
CHECKS["C02"] = dict(
    harnesses=[("c02_assembly", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all overlap patterns, variable orders and short histories, against the dense sum of the blocks",
    note="",
    rule="one case per list of constraint variable tuples (and history); non-trivial when two constraints share a variable",
)
CHECKS["C03"] = dict(
    harnesses=[("c03_solve", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all sparsity patterns, solver modes and factor/solve histories; residual against the dense system",
    note="",
    rule="one case per system, mode, refinement count and history; non-trivial when two constraints share a variable",
)
CHECKS["C23"] = dict(
    harnesses=[("c23_graphs", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all labelled graphs, against the definitions of chordal graph and perfect elimination order",
    note="",
    rule="one case per labelled graph and diagonal; non-trivial with four or more edges",
)
CHECKS["C18"] = dict(
    harnesses=[("c18_jordan", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all products of basis elements (deciding the multilinear laws for all arguments) and all small integer combinations",
    note="",
    rule="one case per tuple of basis elements or integer combination; non-trivial when the product is not zero by shape",
)
CHECKS["C25"] = dict(
    harnesses=[("c25_expm", "fast")],
    level="model_checking",
    technique=STATELESS + " over all small matrices of an alphabet, against exact references",
    note="",
    rule="one case per matrix pair, scale, start vector and iteration count; non-trivial when the matrix is not zero",
)
CHECKS["C19"] = dict(
    harnesses=[("c19_triangular", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all elimination patterns of small clique families and all small dense symmetric matrices, against dense factorizations",
    note="",
    rule="one case per clique family, root and choice of diagonal, or dense matrix; non-trivial when a factorization succeeds and is compared",
)
CHECKS["C20"] = dict(
    harnesses=[("c20_step_rules", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small spectra, line searches and first solver iterations, against the definition of the two bounds",
    note="",
    rule="one case per spectrum and limit, or constraint, weights and end points; non-trivial when a parameter exists and the spectrum is not constant",
)
CHECKS["C21"] = dict(
    harnesses=[("c21_bounds", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small mixtures of rows and bounds, judged as point sets and by the optimum of the resulting program",
    note="",
    rule="one case per list of rows with bounds; non-trivial when more than one constraint results, or an equality is present",
)
CHECKS["C09"] = dict(
    harnesses=[("c09_lp", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small linear programs and solver modes, against exact vertex enumeration",
    note="",
    rule="one case per linear program, grouping of its rows and solver mode; non-trivial when the cost is not zero",
)
CHECKS["C10"] = dict(
    harnesses=[("c10_infeasible", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small infeasible or unbounded linear, semidefinite and second-order-cone problems, classified exactly",
    note="",
    rule="one case per problem, grouping of rows and solver mode; every case is infeasible or unbounded, hence non-trivial",
)
CHECKS["C11"] = dict(
    harnesses=[("c11_equalities", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small linear programs with equalities, their groupings and insertion orders, against exact vertex enumeration on the substituted problem",
    note="",
    rule="one case per program, grouping and order of its equalities and solver mode; non-trivial with two equalities or a cost",
)
CHECKS["C12"] = dict(
    harnesses=[("c12_qp", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small convex quadratic programs, groupings of the cost and solver modes, against exact enumeration of active sets",
    note="",
    rule="one case per quadratic program, list of costs, order of insertion and solver mode; non-trivial when feasible",
)
CHECKS["C07"] = dict(
    harnesses=[("c07_equivalent", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all pairs of formulations (constraint types, coordinates, copied variables) of small sets with a closed-form optimum",
    note="",
    rule="one case per set, cost, formulation of its parts and solver mode; every case has a unique optimum, hence non-trivial",
)
CHECKS["C08"] = dict(
    harnesses=[("c08_cones", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all bounded step histories from the identity of every cone type, against the definitions in a matrix representation of its algebra",
    note="",
    rule="one case per constraint, affine term and history of slack queries and steps; non-trivial when a step is taken",
)
CHECKS["C14"] = dict(
    harnesses=[("c14_history", "fast")],
    level="model_checking",
    technique=STATELESS + " over all histories (solves, failures, updates, other programs, scribbled memory) up to a depth, compared bit for bit with a fresh program",
    note="",
    rule="one case per program, kind of memory, history and final configuration; non-trivial when the history is not empty",
)
CHECKS["C15"] = dict(
    harnesses=[("c15_warm", "fast")],
    level="model_checking",
    technique=STATELESS + " over all histories up to a depth followed by a warm start, against the optimum of the current program and canaries behind the workspace",
    note="",
    rule="one case per program, history and warm start configuration; non-trivial when the history is not empty",
)
CHECKS["C24"] = dict(
    harnesses=[("c24_options", "fast")],
    level="model_checking",
    technique=STATELESS + " over all deviations of up to two (three) options from the defaults, comparing the C interface bit for bit with the native one and each option with what it names",
    note="",
    rule="one case per program, set of deviating options and entry point; non-trivial when an option deviates",
)
CHECKS["C16"] = dict(
    harnesses=[("c16_stats", "fast")],
    level="model_checking",
    technique=STATELESS + " over all short histories of runs and all query indices",
    note="",
    rule="one case per program, history of runs and query; non-trivial after a run",
)
CHECKS["C17"] = dict(
    harnesses=[("c17_duals", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all small linear and semidefinite programs of an alphabet and solver modes, against the optimality conditions",
    note="",
    rule="one case per program, cost, solver mode and start; non-trivial when solved",
)
CHECKS["C22"] = dict(
    harnesses=[("c22_failed", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all iteration limits, all faults at every assembly, all refused calls and all recoveries",
    note="",
    rule="one case per problem, limit or fault or refused calls, and recovery; non-trivial when the run failed",
)
CHECKS["C05"] = dict(
    harnesses=[("c05_capi", "asan"), ("c05_capi", "fast")],
    level="model_checking",
    technique=STATELESS + " over all sequences of valid and invalid C interface calls under AddressSanitizer, against a reference model and a program that saw only the accepted calls",
    note="",
    rule="one case per sequence of calls; non-trivial when one of them has to be refused",
)
CHECKS["C06"] = dict(
    harnesses=[("c06_incremental", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all short sequences of updates, against the constraint built in one shot from a model of the data, bit for bit",
    note="",
    rule="one case per sequence of updates; non-trivial when it is not empty",
)
CHECKS["C13"] = dict(
    harnesses=[("c13_invariance", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all constraint orders, labellings, column orders, zero columns and row partitions of small programs, against the answer to the program itself",
    note="",
    rule="one case per rewriting of a program; non-trivial always",
)
CHECKS["C04"] = dict(
    harnesses=[("c04_layout", "asan"), ("c04_layout", "fast2")],
    level="model_checking",
    technique=STATELESS + " over all workspace kinds and sizes, lists of constraints, histories of initialisations and operations, with guarded neighbours and AddressSanitizer",
    note="",
    rule="one case per workspace kind and size, list of constraints and history, operation sequence, or clique family; non-trivial with more than one entry, constraint or clique",
)
CHECKS["C27"] = dict(
    harnesses=[("c27_python", "shared")],
    level="model_checking",
    technique=STATELESS + " over all short call histories and data layouts of the Python wrapper, against direct calls of the C interface",
    note="SWIG is not installed: the extension module is a stand-in derived from conex.h and the %apply directives of conex.i with the documented conversions of numpy.i; the wrapper itself (Python 2) runs as it is, with print statements rewritten.",
    rule="one case per call history, data layout, option pair or operator; non-trivial when there are several constraints or options",
)
