"""The Python wrapper against the C interface called directly: every short
history of calls, in every way NumPy may hold the data."""
import ctypes
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from mc import explore, pybinding  # noqa: E402

LIBC = ctypes.CDLL(None)
LIB = ctypes.CDLL(sys.argv[sys.argv.index("--lib") + 1])
REPO = os.environ.get("CONEX_REPO", "/repo")
WRAPPER, BINDING = pybinding.load(REPO, LIB)

M = 2  # variables


# ---------------------------------------------------------------- the oracle
class Config(ctypes.Structure):
    _fields_ = [(n, {"i": ctypes.c_int, "d": ctypes.c_double}[t]) for n, t in [
        ("prepare_dual_variables", "i"), ("initialization_mode", "i"), ("inv_sqrt_mu_max", "d"), ("minimum_mu", "d"),
        ("maximum_mu", "d"), ("divergence_upper_bound", "d"), ("enable_line_search", "i"), ("dinf_upper_bound", "d"),
        ("final_centering_steps", "i"), ("final_centering_tolerance", "d"), ("initial_centering_steps_warmstart", "i"),
        ("initial_centering_steps_coldstart", "i"), ("warmstart_abort_threshold", "d"), ("max_iterations", "i"),
        ("iterative_refinement_iterations", "i"), ("infeasibility_threshold", "d"), ("kkt_error_tolerance", "d"),
        ("enable_rescaling", "i"), ("kkt_solver", "i")]]


class Stats(ctypes.Structure):
    _fields_ = [("mu", ctypes.c_double), ("iteration_number", ctypes.c_int)]


P, I, D = ctypes.c_void_p, ctypes.c_int, ctypes.c_double
DP = ctypes.POINTER(D)
RAW = ctypes.CDLL(LIB._name)  # separate function objects, with prototypes
for name, res, args in [
        ("CreateConeProgram", P, []), ("DeleteConeProgram", None, [P]),
        ("AddDenseLinearConstraint", I, [P, DP, I, I, DP, I]),
        ("AddLinearInequalities", I, [P, DP, I, I, DP, I, DP, I]),
        ("AddQuadraticCost", I, [P, DP, I, I]),
        ("AddDenseLMIConstraint", I, [P, DP, I, I, I, DP, I, I]),
        ("AddSparseLMIConstraint", I, [P, DP, I, I, I, DP, I, I, ctypes.POINTER(ctypes.c_long), I]),
        ("Maximize", I, [P, DP, I, ctypes.POINTER(Config), DP, I]), ("Solve", I, [P, ctypes.POINTER(Config), DP, I]),
        ("GetDualVariable", None, [P, I, DP, I, I]), ("SetDefaultOptions", None, [ctypes.POINTER(Config)]),
        ("GetIterationStats", None, [P, ctypes.POINTER(Stats), I]),
        ("UpdateLinearOperator", I, [P, I, D, I, I, I, I]), ("UpdateAffineTerm", I, [P, I, D, I, I, I]),
        ("NewLinearMatrixInequality", I, [P, I, I, ctypes.POINTER(I)]), ("NewLorentzConeConstraint", I, [P, I, ctypes.POINTER(I)]),
        ("NewLinearInequality", I, [P, I, ctypes.POINTER(I)]), ("NewQuadraticCost", I, [P, ctypes.POINTER(I)]),
        ("UpdateQuadraticCostMatrix", I, [P, I, D, I, I]), ("SetNumberOfVariables", I, [P, I])]:
    f = getattr(RAW, "CONEX_" + name)
    f.restype, f.argtypes = res, args


def dbl(values):
    values = [float(v) for v in values]
    return (D * max(1, len(values)))(*values)


def columns(rows):
    return [rows[i][j] for j in range(len(rows[0])) for i in range(len(rows))]


class Direct:
    """The same program through plain C calls."""

    def __init__(self, m):
        self.p, self.m = RAW.CONEX_CreateConeProgram(), m
        RAW.CONEX_SetNumberOfVariables(self.p, m)
        # (id, shape) of the constraints whose dual variables the wrapper
        # returns; their entries are compared unless the library has none.
        self.duals, self.unset = [], set()

    def close(self):
        RAW.CONEX_DeleteConeProgram(self.p)

    def linear(self, A, c):
        i = RAW.CONEX_AddDenseLinearConstraint(self.p, dbl(columns(A)), len(A), len(A[0]), dbl(c), len(c))
        self.duals.append((i, (len(A), 1)))

    def bounds(self, A, lb, ub):
        RAW.CONEX_AddLinearInequalities(self.p, dbl(columns(A)), len(A), len(A[0]), dbl(lb), len(lb), dbl(ub), len(ub))

    def cost(self, Q):
        RAW.CONEX_AddQuadraticCost(self.p, dbl(columns(Q)), len(Q), len(Q[0]))

    def lmi(self, mats, c):
        n = len(c)
        i = RAW.CONEX_AddDenseLMIConstraint(self.p, dbl(sum((columns(a) for a in mats), [])), n, n, len(mats), dbl(columns(c)), n, n)
        self.duals.append((i, (n, n)))

    def sparse(self, mats, c, variables):
        n = len(c)
        v = (ctypes.c_long * max(1, len(variables)))(*variables)
        i = RAW.CONEX_AddSparseLMIConstraint(self.p, dbl(sum((columns(a) for a in mats), [])), n, n, len(mats), dbl(columns(c)), n, n, v, len(variables))
        self.duals.append((i, (n, n)))

    def new(self, name, *args):
        out = I(-7)
        s = getattr(RAW, "CONEX_New" + name)(self.p, *(list(args) + [ctypes.byref(out)]))
        return s, out.value

    def maximize(self, b, config):
        y = dbl([1] * self.m)
        s = RAW.CONEX_Maximize(self.p, dbl(b), len(b), ctypes.byref(config), y, self.m)
        return s, list(y)

    def solve(self, config):
        y = dbl([1] * self.m)
        s = RAW.CONEX_Solve(self.p, ctypes.byref(config), y, self.m)
        return s, list(y)

    def dual(self, i, shape):
        x = dbl([1] * (shape[0] * shape[1]))
        RAW.CONEX_GetDualVariable(self.p, i, x, shape[0], shape[1])
        return [[x[r + shape[0] * k] for k in range(shape[1])] for r in range(shape[0])]

    def stats(self):
        out, s = [], Stats()
        RAW.CONEX_GetIterationStats(self.p, ctypes.byref(s), -1)
        for i in range(s.iteration_number + 1):
            t = Stats()
            RAW.CONEX_GetIterationStats(self.p, ctypes.byref(t), i)
            out.append((t.mu, t.iteration_number))
        return out


# ------------------------------------------------- the ways to hold the data
def sliced(a):
    """The same values in every other element of a larger array."""
    big = np.full(tuple(2 * s for s in a.shape), 777.)
    view = big[tuple(slice(None, None, 2) for _ in a.shape)]
    view[...] = a
    return view


def reversed_view(a):
    r = tuple(slice(None, None, -1) for _ in a.shape)
    return np.array(a[r])[r]


MATRIX = [("C", lambda a: np.array(a, order="C")), ("F", lambda a: np.array(a, order="F")),
          ("slice", sliced), ("reversed", reversed_view), ("int", lambda a: np.array(a).astype(int)),
          ("matrix", lambda a: np.matrix(a))]
VECTOR = [("1d", lambda a: np.array(a)), ("column", lambda a: np.array(a).reshape(-1, 1)), ("row", lambda a: np.array(a).reshape(1, -1)),
          ("column-matrix", lambda a: np.matrix(a).transpose()), ("slice", sliced), ("list", lambda a: list(a)), ("int", lambda a: np.array(a).astype(int))]
INDEX = [("array", lambda v: np.array(v)), ("list", lambda v: list(v)), ("int32", lambda v: np.array(v, dtype=np.int32)), ("tuple", lambda v: tuple(v))]

A1 = [[[1, -2]], [[1, 1]]]
LINEAR = [([[1, 2]], [4]), ([[1, 0], [-2, 3]], [3, 5]), ([[1, 0], [0, 1], [-1, 0], [0, -1]], [2, 3, 4, 5])]
BOUNDS = [([[1, 1]], [-3], [4]), ([[1, 0], [1, -1]], [-2, -5], [3, 6]), ([[1, 2], [1, 0]], [1, -4], [1, 4])]
COSTS = [[[2, 1], [1, 3]], [[0, 0], [0, 4]], [[4, 0], [0, 0]], [[2, 2], [0, 3]]]
LMIS = [([[[1, 0], [0, -1]], [[0, 2], [2, 1]]], [[5, 1], [1, 6]]), ([[[1]], [[-3]]], [[7]]),
        ([[[1, 2, 0], [2, 0, 0], [0, 0, 1]], [[0, 0, 1], [0, 1, 0], [1, 0, 0]]], [[9, 0, 1], [0, 8, 0], [1, 0, 7]])]
SPARSE = [([[[1, 0], [0, -1]], [[0, 2], [2, 1]]], [[5, 1], [1, 6]], (1, 0)), ([[[1, 2], [2, -1]]], [[6, 1], [1, 6]], (1,)),
          ([[[1, 0], [0, -1]], [[0, 2], [2, 1]]], [[5, 1], [1, 6]], (0, 1)), ([[[2, 1], [1, -3]]], [[4, 0], [0, 9]], (0,))]
GOALS = [(1, 2), (-3, 1), (0, -1)]


def stack(mats):
    a = np.zeros((len(mats[0]), len(mats[0]), len(mats)))
    for k, m in enumerate(mats):
        a[:, :, k] = np.array(m, dtype=float)
    return a


def num(a):
    return np.array(a, dtype=float)


class Pair:
    def __init__(self, c, m=M):
        self.c, self.w, self.d = c, WRAPPER.Conex(m), Direct(m)
        self.tale = []
        self.data = []  # (kind, A, c) of the constraints with data the wrapper keeps
        self.others = False

    def close(self):
        self.d.close()

    def say(self, s):
        self.tale.append(s)
        self.c.describe("; ".join(self.tale))

    def linear(self, which, fa, fc):
        A, b = LINEAR[which]
        self.say("AddLinearInequality #%d A as %s, c as %s" % (which, fa[0], fc[0]))
        self.w.AddLinearInequality(fa[1](num(A)), fc[1](num(b)))
        self.d.linear(A, b)
        self.data.append(("linear", A, b, None))

    def bounds(self, which, fa, fl):
        A, lb, ub = BOUNDS[which]
        self.say("AddLinearInequalities #%d A as %s, bounds as %s" % (which, fa[0], fl[0]))
        self.w.AddLinearInequalities(fa[1](num(A)), fl[1](num(lb)), fl[1](num(ub)))
        self.d.bounds(A, lb, ub)
        self.others = True

    def cost(self, which, f):
        self.say("AddQuadraticCost #%d as %s" % (which, f[0]))
        self.w.AddQuadraticCost(f[1](num(COSTS[which])))
        self.d.cost(COSTS[which])

    def lmi(self, which, fa, fc):
        mats, aff = LMIS[which]
        self.say("AddDenseLinearMatrixInequality #%d A as %s, c as %s" % (which, fa[0], fc[0]))
        self.w.AddDenseLinearMatrixInequality(fa[1](stack(mats)), fc[1](num(aff)))
        self.d.lmi(mats, aff)
        self.data.append(("lmi", mats, aff, list(range(self.d.m))))

    def sparse(self, which, fa, fv):
        mats, aff, v = SPARSE[which]
        self.say("AddSparseLinearMatrixInequality #%d A as %s, variables as %s" % (which, fa[0], fv[0]))
        self.w.AddSparseLinearMatrixInequality(fa[1](stack(mats)), num(aff), fv[1](v))
        self.d.sparse(mats, aff, v)
        self.data.append(("lmi", mats, aff, list(v)))

    def created(self, got, want, what):
        status, ident = want
        self.c.check(status == 0 and got == ident, "id", "%s: %s returned %s, the C interface %s" % (self.c.desc, what, got, (status, ident)))
        self.c.judged()
        return ident

    def set_linear(self, ident, v, var, r, k=0, h=0):
        self.w.UpdateLinearOperator(ident, v, var, r, k, h)
        RAW.CONEX_UpdateLinearOperator(self.d.p, ident, v, var, r, k, h)

    def set_affine(self, ident, v, r, k=0, h=0):
        self.w.UpdateAffineTerm(ident, v, r, k, h)
        RAW.CONEX_UpdateAffineTerm(self.d.p, ident, v, r, k, h)

    def new_lmi(self, order, dim):
        self.say("NewLinearMatrixInequality(%d, %d) and entries" % (order, dim))
        i = self.created(self.w.NewLinearMatrixInequality(order, dim), self.d.new("LinearMatrixInequality", order, dim), "NewLinearMatrixInequality")
        for r in range(order):
            self.set_affine(i, 5 + r, r, r)
            self.set_linear(i, 1 - 2 * r, 0, r, r)
        if order > 1:
            for h in range(dim):
                self.set_linear(i, 1. + h, 1, 1, 0, h)
                self.set_affine(i, .5 - h, 1, 0, h)
        if dim == 1:
            self.d.duals.append((i, (order, order)))
        else:
            self.others = True

    def new_soc(self, order):
        self.say("NewLorentzConeConstraint(%d) and entries" % order)
        i = self.created(self.w.NewLorentzConeConstraint(order), self.d.new("LorentzConeConstraint", order), "NewLorentzConeConstraint")
        self.set_affine(i, 6, 0)
        for r in range(1, order + 1):
            self.set_linear(i, 1. + r, r % 2, r)
            self.set_affine(i, .25 * r, r)
        self.d.duals.append((i, (order + 1, 1)))
        self.d.unset.add(i)  # a known finding of C17

    def new_linear(self, rows):
        self.say("NewLinearInequality(%d) and entries" % rows)
        i = self.created(self.w.NewLinearInequality(rows), self.d.new("LinearInequality", rows), "NewLinearInequality")
        for r in range(rows):
            self.set_linear(i, 1. - r, r % 2, r)
            self.set_linear(i, .5, 1 - r % 2, r)
            self.set_affine(i, 3 + r, r)
        self.d.duals.append((i, (rows, 1)))

    def new_cost(self):
        self.say("NewQuadraticCost and entries")
        i = self.created(self.w.NewQuadraticCost(), self.d.new("QuadraticCost"), "NewQuadraticCost")
        for v, r, k in [(2, 0, 0), (3, 1, 1), (1, 1, 0)]:
            self.w.UpdateQuadraticCostMatrix(i, v, r, k)
            RAW.CONEX_UpdateQuadraticCostMatrix(self.d.p, i, v, r, k)

    def refused(self, what, call):
        """The wrapper raises, and nothing changes."""
        self.say("refused: " + what)
        try:
            call(self.w)
        except Exception:
            self.c.judged()
            return
        self.c.check(False, "accepted", "%s: no exception" % self.c.desc)

    def configs(self, change=()):
        w = self.w.DefaultConfiguration()
        d = Config()
        for name, _ in Config._fields_:
            setattr(d, name, getattr(w, name))
        for k, v in change:
            setattr(w, k, v)
            setattr(d, k, v)
        return w, d

    def run(self, how, goal=(1, 2), form=VECTOR[0], change=None):
        if how == "solve":
            self.say("Solve")
            w, d = self.configs(change or ())
            LIBC.srand(1)  # eigenvalue approximations start at random
            d.enable_line_search, d.enable_rescaling = 1, 0
            s = self.w.Solve(w) if change is not None else self.w.Solve()
            LIBC.srand(1)
            want = self.d.solve(d)
        else:
            self.say("Maximize %s as %s" % (goal, form[0]))
            w, d = self.configs(change or ())
            LIBC.srand(1)
            s = self.w.Maximize(form[1](num(goal)), w) if change is not None else self.w.Maximize(form[1](num(goal)))
            LIBC.srand(1)
            want = self.d.maximize(goal, d)
        got = (s.status, [float(v) for v in np.ravel(s.y)])
        self.c.check(repr(got) == repr(want), "answer", lambda: "%s: status and y %s, the C interface gives %s" % (self.c.desc, got, want))
        self.c.state(self.tale[-1], want)
        self.c.count("solved" if want[0] else "not_solved")
        self.c.judged()
        stats = [(t.mu, t.iteration_number) for t in self.w.GetIterationStats()]
        ref = self.d.stats()
        self.c.check(stats == ref, "stats", lambda: "%s: statistics %s, the C interface gives %s" % (self.c.desc, stats, ref))
        self.c.judged()
        return s, want

    def duals(self):
        # The wrapper cannot know which constraint a two-sided inequality
        # becomes (a TODO there) or the layout of hypercomplex variables.
        if self.others:
            return
        self.say("GetDualVariables")
        got = self.w.GetDualVariables()
        self.c.check(len(got) == len(self.d.duals), "dual-count", "%s: %d dual variables for %d constraints" % (self.c.desc, len(got), len(self.d.duals)))
        for x, (i, shape) in zip(got, self.d.duals):
            ref = np.array(self.d.dual(i, shape))
            x = np.array(x)
            self.c.check(x.shape == ref.shape and (i in self.d.unset or np.array_equal(x, ref.T if shape[1] > 1 else ref, equal_nan=True)), "duals",
                         lambda: "%s: dual variable of constraint %d is %s, the C interface gives %s" % (self.c.desc, i, x.tolist(), ref.tolist()))
            self.c.judged()


def operations(short):
    """Every way to add a constraint; short: one way to hold the data each."""
    one = lambda forms: forms[:1] if short else forms
    ops = []
    for k in range(len(LINEAR)):
        for fa in one(MATRIX):
            for fc in one(VECTOR):
                ops.append(lambda p, k=k, fa=fa, fc=fc: p.linear(k, fa, fc))
    for k in range(len(BOUNDS)):
        for fa in one(MATRIX):
            for fl in one(VECTOR):
                ops.append(lambda p, k=k, fa=fa, fl=fl: p.bounds(k, fa, fl))
    for k in range(len(COSTS)):
        for f in one(MATRIX):
            ops.append(lambda p, k=k, f=f: p.cost(k, f))
    for k in range(len(LMIS)):
        for fa in one(MATRIX[:5]):
            for fc in one(MATRIX):
                ops.append(lambda p, k=k, fa=fa, fc=fc: p.lmi(k, fa, fc))
    for k in range(len(SPARSE)):
        for fa in one(MATRIX[:5]):
            for fv in one(INDEX):
                ops.append(lambda p, k=k, fa=fa, fv=fv: p.sparse(k, fa, fv))
    for order in (1, 2, 3):
        for dim in (1, 2, 4, 8):
            if not short or order == 2 or dim == 1:
                ops.append(lambda p, order=order, dim=dim: p.new_lmi(order, dim))
    for order in (1, 2, 3):
        ops.append(lambda p, order=order: p.new_soc(order))
        ops.append(lambda p, order=order: p.new_linear(order))
    ops.append(lambda p: p.new_cost())
    return ops


def refusals():
    bad = [
        ("quadratic cost of order 3", lambda w: w.AddQuadraticCost(np.eye(3))),
        ("linear inequality with three columns", lambda w: w.AddLinearInequality(np.ones((2, 3)), np.ones(2))),
        ("linear inequality with a right-hand side too few", lambda w: w.AddLinearInequality(np.ones((3, M)), np.ones(2))),
        ("matrix inequality with a matrix too few", lambda w: w.AddDenseLinearMatrixInequality(np.ones((2, 2, M - 1)), np.eye(2))),
        ("matrix inequality of two orders", lambda w: w.AddDenseLinearMatrixInequality(np.ones((2, 2, M)), np.eye(3))),
        ("sparse matrix inequality on variable 2", lambda w: w.AddSparseLinearMatrixInequality(np.ones((2, 2, 1)), np.eye(2), np.array([M]))),
        ("sparse matrix inequality on variable -1", lambda w: w.AddSparseLinearMatrixInequality(np.ones((2, 2, 1)), np.eye(2), np.array([-1]))),
        ("sparse matrix inequality with a repeated variable", lambda w: w.AddSparseLinearMatrixInequality(np.ones((2, 2, 2)), np.eye(2), np.array([0, 0]))),
        ("sparse matrix inequality with a variable too many", lambda w: w.AddSparseLinearMatrixInequality(np.ones((2, 2, 1)), np.eye(2), np.array([0, 1]))),
        ("matrix inequality of order -2", lambda w: w.NewLinearMatrixInequality(-2, 2)),
        ("matrix inequality of dimension 3", lambda w: w.NewLinearMatrixInequality(2, 3)),
        ("octonions of order 4", lambda w: w.NewLinearMatrixInequality(4, 8)),
        ("Lorentz cone of order 0", lambda w: w.NewLorentzConeConstraint(0)),
        ("linear inequality of 0 rows", lambda w: w.NewLinearInequality(0)),
        ("entry of constraint 99", lambda w: w.UpdateLinearOperator(99, 1, 0, 0)),
        ("entry of constraint -1", lambda w: w.UpdateAffineTerm(-1, 1, 0)),
        ("cost entry of constraint 99", lambda w: w.UpdateQuadraticCostMatrix(99, 1, 0, 0)),
        ("cost of three variables", lambda w: w.Maximize(np.ones(3))),
    ]
    return bad


LONG, SHORT, BAD = operations(False), operations(True), refusals()


def finish(c, p):
    goal = c.among(GOALS)
    how = c.among(["maximize", "solve"])
    c.require(not (how == "solve" and goal != GOALS[0]))
    p.run(how, goal)
    p.duals()


def forms(c):
    """Every way to hold the data of one constraint, inside of a box."""
    p = Pair(c)
    try:
        p.linear(2, MATRIX[0], VECTOR[0])
        c.among(LONG)(p)
        f = c.among(VECTOR)
        p.run("maximize", (1, 2), f)
        p.duals()
        c.nontrivial()
    finally:
        p.close()


def histories(c):
    """Every sequence of constraints, refused calls and solves."""
    p = Pair(c)
    try:
        depth = c.pick(3, 4)
        solved = 0
        for _ in range(depth):
            kind = c.choose(4)
            if kind == 0:
                break
            if kind == 1:
                c.among(SHORT)(p)
            elif kind == 2:
                p.refused(*c.among(BAD))
            else:
                c.require(p.tale and not p.tale[-1].startswith(("Maximize", "Get")))
                p.run("maximize", (1, -1))
                p.duals()
        c.require(any(not t.startswith(("refused", "Maximize", "Get")) for t in p.tale))
        c.require(not (p.tale and p.tale[-1].startswith("Get")))
        if len(p.tale) > 1:
            c.nontrivial()
        if c.thorough:
            finish(c, p)
        else:
            p.run("maximize", GOALS[0])
            p.duals()
    finally:
        p.close()


FIELDS = [("prepare_dual_variables", 0), ("prepare_dual_variables", 1), ("initialization_mode", 1), ("inv_sqrt_mu_max", 50.),
          ("minimum_mu", 1e-3), ("maximum_mu", 10.), ("divergence_upper_bound", .4), ("enable_line_search", 1), ("enable_line_search", 0),
          ("dinf_upper_bound", .5), ("final_centering_steps", 0), ("final_centering_steps", 4), ("final_centering_tolerance", 1e-4),
          ("initial_centering_steps_warmstart", 3), ("initial_centering_steps_coldstart", 3), ("warmstart_abort_threshold", .1),
          ("max_iterations", 3), ("max_iterations", 12), ("iterative_refinement_iterations", 2), ("infeasibility_threshold", 10.),
          ("kkt_error_tolerance", 1e-12), ("enable_rescaling", 0), ("enable_rescaling", 1), ("kkt_solver", 1), ("kkt_solver", 2)]


def options(c):
    """Every pair of options, on every kind of program."""
    p = Pair(c)
    try:
        p.linear(2, MATRIX[0], VECTOR[0])
        c.among([lambda: p.lmi(0, MATRIX[0], MATRIX[0]), lambda: p.bounds(2, MATRIX[0], VECTOR[0]), lambda: p.new_soc(2), lambda: p.cost(0, MATRIX[0])])()
        i = c.choose(len(FIELDS))
        j = c.choose(len(FIELDS))
        c.require(i <= j)
        how = c.among(["maximize", "solve"])
        change = (FIELDS[i], FIELDS[j])
        p.say("options %s" % (change,))
        c.nontrivial()
        p.run(how, (1, 2), change=change)
        if c.flip():  # and again, now warm where asked for
            p.run(how, (2, 1), change=change)
        p.duals()
    finally:
        p.close()


# ------------------------------------------------------- operators and errors
def lmi_operator(c):
    """LMIOperator against its definition, and its transpose against it."""
    n, k = 1 + c.choose(3), 1 + c.choose(3)
    m = k + c.choose(2)
    sparse = c.flip()
    perms = list(itertools.permutations(range(m), k))
    variables = list(c.among(perms)) if sparse else list(range(k))
    c.require(sparse or m == k)
    form = c.among(MATRIX[:5])
    seed = c.choose(3)
    mats = []
    for v in range(k):
        a = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                a[i, j] = a[j, i] = ((3 * i + 5 * j + 7 * v + 2 * seed) % 9) - 4
        mats.append(a)
    op = WRAPPER.LMIOperator(form[1](stack(mats)), [m, c.among(INDEX)[1](variables)]) if sparse else WRAPPER.LMIOperator(form[1](stack(mats)))
    c.describe("LMIOperator n=%d m=%d variables %s as %s" % (n, m, variables, form[0]))
    c.nontrivial()
    where = c.desc
    y = [1. + i * i for i in range(m)]
    want = sum(mats[i] * y[v] for i, v in enumerate(variables))
    for shape in (np.array(y), np.matrix(y).transpose(), np.array(y).reshape(-1, 1)):
        got = np.array(op * shape)
        c.check(got.shape == (n, n) and np.array_equal(got, want), "operator", lambda: "%s: A*y is %s instead of %s" % (where, got.tolist(), want.tolist()))
        c.judged()
    X = num([[(2 + i + j) % 5 - 1 for j in range(n)] for i in range(n)])
    adj = op.transpose()
    got = np.ravel(np.array(adj * X))
    ref = np.zeros(m)
    for i, v in enumerate(variables):
        ref[v] += float((mats[i] * X.T).sum())
    c.check(got.shape == (m,) and np.array_equal(got, ref), "adjoint", lambda: "%s: A'*X is %s instead of %s" % (where, got.tolist(), ref.tolist()))
    again = np.array(adj.transpose() * np.array(y))
    c.check(again.shape == (n, n) and np.array_equal(again, want), "double-adjoint", lambda: "%s: the transpose of the transpose is not the operator" % where)
    back = np.array(op * np.array(y))
    c.check(np.array_equal(back, want), "unchanged", "%s: the operator changed when it was transposed" % where)
    c.judged(3)
    c.state(where, want.tolist(), ref.tolist())


def errors(c):
    """ComputeErrors against its definition, at any point, more than once."""
    p = Pair(c)
    try:
        depth = 1 + c.choose(c.pick(2, 3))
        for _ in range(depth):
            c.among([lambda k=k, f=f: p.linear(k, MATRIX[0], f) for k in range(len(LINEAR)) for f in VECTOR[:4]] +
                    [lambda k=k: p.lmi(k, MATRIX[0], MATRIX[0]) for k in range(len(LMIS))] +
                    [lambda k=k: p.sparse(k, MATRIX[0], INDEX[0]) for k in range(len(SPARSE))])()
        if len(p.data) > 1:
            c.nontrivial()
        # Symmetric, not necessarily definite, points.
        for turn in range(2):
            y = [1. - 2 * turn, .5 + turn]
            b = [2. + turn, -1.]
            xs = []
            for kind, A, aff, v in p.data:
                n = len(aff)
                if kind == "linear":
                    xs.append(np.matrix([[1. + i - turn] for i in range(n)]))
                else:
                    xs.append(np.matrix([[2. - abs(i - j) + turn * (i == j) for j in range(n)] for i in range(n)]))
            p.say("ComputeErrors")
            sa, err = p.w.ComputeErrors(np.matrix(y).transpose(), xs, np.matrix(b) if turn else np.matrix(b).transpose())
            residual, gap, smin, xmin = np.array(b), 0., [], []
            for k, ((kind, A, aff, v), x) in enumerate(zip(p.data, xs)):
                x = np.array(x)
                if kind == "linear":
                    s = num(aff) - num(A).dot(y)
                    residual = residual - num(A).T.dot(x[:, 0])
                    gap += float(s.dot(x[:, 0]))
                    smin.append(s.min())
                    xmin.append(x.min())
                else:
                    s = num(aff)
                    for i, var in enumerate(v):
                        s = s - num(A[i]) * y[var]
                        residual[var] -= (num(A[i]) * x).sum()
                    gap += float((s * x).sum())
                    smin.append(np.linalg.eigvalsh(s).min())
                    xmin.append(np.linalg.eigvalsh(x).min())
                got = np.array(sa[k])
                ok = np.allclose(np.ravel(got), np.ravel(s), atol=1e-9) and got.size == s.size
                c.check(ok, "slack", lambda: "%s: slack %d is %s instead of %s" % (c.desc, k, got.tolist(), s.tolist()))
            c.check(abs(float(err.Ax_minus_b) - np.linalg.norm(residual)) < 1e-9, "residual",
                    lambda: "%s: |b - A'x| is %s instead of %s" % (c.desc, err.Ax_minus_b, np.linalg.norm(residual)))
            got = float(np.ravel(err.x_dot_s)[0])
            c.check(abs(got - gap) < 1e-8, "complementarity", lambda: "%s: x's is %s instead of %s" % (c.desc, got, gap))
            for name, have, want in (("S", err.min_eig_S, smin), ("X", err.min_eig_X, xmin)):
                have = [complex(np.ravel(h)[0]).real for h in have]
                c.check(len(have) == len(want) and np.allclose(have, want, atol=1e-7), "eigenvalues",
                        lambda: "%s: smallest eigenvalues of %s are %s instead of %s" % (c.desc, name, have, want))
            c.judged(4 + len(xs))
            c.state(p.tale[:-1], turn, gap)
    finally:
        p.close()


if __name__ == "__main__":
    S = [
        dict(name="forms", body=forms, split=1, bounds="a box and each of %d ways to give one further constraint, x 7 ways to hold the objective" % len(LONG)),
        dict(name="histories", body=histories, split=2, bounds="all histories of 3 (thorough: 4) of %d constraints, %d refused calls and solves" % (len(SHORT), len(BAD))),
        dict(name="options", body=options, split=2, bounds="every pair of %d option settings, on 4 programs, one or two runs" % len(FIELDS)),
        dict(name="operator", body=lmi_operator, split=3, bounds="orders 1-3, 1-3 matrices, every choice of variables, 5 memory layouts"),
        dict(name="errors", body=errors, split=2, bounds="all sequences of 1-2 (thorough: 3) constraints with data, two points each"),
    ]
    sys.exit(explore.main(sys.argv[1:], S))
