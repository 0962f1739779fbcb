"""P30: convergence-based termination."""
import numpy as np
from symx.harness import harness
from common import meta, pop_of, rows

T = "pymoo/termination/"
META = meta(
    "Convergence criteria end a run exactly when the change is within the tolerance",
    "For every history of optima, the single-objective, multi-objective, design-space and violation criteria report progress 1 exactly when the change from the reference (the previous recorded optimum) to the current one is at most the tolerance, a value in [0, 1) otherwise, and 0 at the first update; with n_skip, skipped updates repeat the last progress. "
    "Unknown (infeasible) optima never count as converged, and constraint-violation criteria only look at constrained problems. "
    "The robust version reports the minimum over the last `period` updates, the default criteria end as soon as any of their parts (or the generation or evaluation budget) ends, and until-feasible ends exactly when a feasible solution is found.",
    ["histories", "inputs"], "all histories of up to 4 optima of the stated sizes, tolerances and budgets", "tests check at most that a run ends",
    [T + x for x in ("delta.py", "ftol.py", "xtol.py", "cv.py", "robust.py", "default.py")] + ["pymoo/util/sliding_window.py"],
    [("delta", T + "delta.py:DeltaToleranceTermination._update"), ("single", T + "ftol.py:SingleObjectiveSpaceTermination"), ("multi", T + "ftol.py:MultiObjectiveSpaceTermination"), ("design space", T + "xtol.py:DesignSpaceTermination"),
     ("violation", T + "cv.py:ConstraintViolationTermination"), ("robust", T + "robust.py:RobustTermination"), ("default", T + "default.py:DefaultTermination"), ("window", "pymoo/util/sliding_window.py:SlidingWindow")],
    "bounded: histories of 2-4 updates with 1-3 solutions; design-space and multi-objective movements of one symbolic coordinate among representative sets")


class Alg:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Prob:
    def __init__(self, constr=False, xl=None, xu=None):
        self.constr, self.xl, self.xu = constr, xl, xu

    def has_constraints(self):
        return self.constr

    def has_bounds(self):
        return self.xl is not None and self.xu is not None


class Ref:
    """the documented behaviour of a delta criterion over a history"""

    def __init__(self, S, tol, skip=0):
        self.S, self.tol, self.skip, self.ref, self.k, self.last = S, tol, skip, None, 0, None

    def check(self, t, p, current, delta):
        S = self.S
        if self.ref is None:
            S.require(S.same(p, 0.0), "first update")
            self.ref, self.k = current, self.k + 1
        elif self.k % (self.skip + 1) != 0:
            S.require(S.same(p, self.last), "skipped update")
            self.ref, self.k = current, self.k + 1
        else:
            d = delta(self.ref, current)
            conv = S.truth(False) if d is None else S.truth(S.xle(d, self.tol))
            if conv:
                S.require(S.same(p, 1.0) and t.has_terminated(), "converged")
            else:
                S.require(S.all([S.xle(0.0, p), S.xlt(p, 1.0)]) and not t.has_terminated(), "not converged")
                self.ref, self.k = current, self.k + 1
        self.last = p


@harness("P30", "single", quick=[dict(n=3, skip=0), dict(n=4, skip=1)], thorough=[dict(n=3, skip=0), dict(n=4, skip=1), dict(n=5, skip=2), dict(n=4, skip=0)], functions=[T + "ftol.py:SingleObjectiveSpaceTermination", T + "delta.py:DeltaToleranceTermination._update"],
         bounds="3-4 updates with one solution each; feasibility symbolic when n_skip = 0")
def single(S, n, skip):
    from pymoo.termination.ftol import SingleObjectiveSpaceTermination
    tol = S.real("tol", 0, 10)
    only = S.choose(2) == 0
    t = SingleObjectiveSpaceTermination(tol, only_feas=only, n_skip=skip)
    F = S.reals("F", (n, 1))
    CV = S.reals("cv", (n, 1), lo=0) if skip == 0 else S.array([[0.0]] * n)
    ref = Ref(S, tol, skip)
    for g in range(n):
        p = t.update(Alg(opt=pop_of(S, F=F[g:g + 1], CV=CV[g:g + 1]), problem=Prob()))
        cur = F[g, 0] if (not only or S.truth(S.xle(CV[g, 0], 0.0))) else None
        ref.check(t, p, (cur,), lambda a, b: None if a[0] is None or b[0] is None else S.max([0.0, a[0] - b[0]]))


@harness("P30", "best_of_several", quick=[dict()], functions=[T + "ftol.py:SingleObjectiveSpaceTermination._data", T + "cv.py:ConstraintViolationTermination._data"], bounds="2 updates with 2 solutions each")
def best_of_several(S):
    from pymoo.termination.ftol import SingleObjectiveSpaceTermination
    t = SingleObjectiveSpaceTermination(0.5)
    F = S.reals("F", (4, 1))
    CV = S.reals("cv", (4, 1), lo=0)
    for g in range(2):
        t.update(Alg(opt=pop_of(S, F=F[2 * g:2 * g + 2], CV=CV[2 * g:2 * g + 2]), problem=Prob()))
    best = []
    for g in range(2):
        ok = [F[i, 0] for i in (2 * g, 2 * g + 1) if S.truth(S.xle(CV[i, 0], 0.0))]
        best.append(S.min(ok) if ok else None)
    S.require(S.iff(t.has_terminated(), None not in best and S.truth(S.xle(best[0] - best[1], 0.5))), "best feasible value")


@harness("P30", "violation", quick=[dict(n=3)], thorough=[dict(n=3), dict(n=4)], functions=[T + "cv.py:ConstraintViolationTermination"], bounds="3-4 updates with one solution each")
def violation(S, n):
    from pymoo.termination.cv import ConstraintViolationTermination
    tol = S.real("tol", 0, 10)
    when, constr = S.choose(2) == 0, S.choose(2) == 0
    t = ConstraintViolationTermination(tol, terminate_when_feasible=when)
    CV = S.reals("cv", (n, 1), lo=0)
    F = S.array([[0.0]])
    ref = Ref(S, tol)
    for g in range(n):
        p = t.update(Alg(opt=pop_of(S, F=F, CV=CV[g:g + 1]), problem=Prob(constr)))
        if not constr:
            S.require(S.same(p, 0.0), "unconstrained problem")
        elif S.truth(S.xle(CV[g, 0], 0.0)):
            S.require(S.same(p, 1.0 if when else 0.0), "feasible")
        else:
            ref.check(t, p, CV[g, 0], lambda a, b: S.max([0.0, a - b]))


@harness("P30", "until_feasible", quick=[dict(n=3)], functions=[T + "cv.py:UntilFeasibleTermination"], bounds="3 updates with 1-2 solutions each, violations may also grow")
def until_feasible(S, n):
    from pymoo.termination.cv import UntilFeasibleTermination
    t = UntilFeasibleTermination()
    CV = S.reals("cv", (n, 1), lo=0)
    done = False
    for g in range(n):
        cv = CV[g:g + 1]
        p = t.update(Alg(opt=pop_of(S, F=S.array([[0.0]]), CV=cv), problem=Prob(True)))
        feas = S.truth(S.xle(CV[g, 0], 0.0))
        S.require(S.xle(0.0, p), "progress")
        S.require(t.has_terminated() == feas, "ended exactly when feasible")
        if feas:
            break


PREV = [[[0.0, 2.0], [2.0, 0.0]], [[1.0, 1.0]], [[0.0, 1.0], [0.0, 1.0]], [[0.0, 3.0], [1.0, 1.0], [3.0, 0.0]]]
CUR = [[["x", 1.0]], [["x", 2.0], [2.0, 0.0]], [[0.0, 1.0], [1.0, "x"]], [["x", 0.0], ["x", 0.0]], [[0.0, 3.0], ["x", 1.0], [3.0, 0.0]]]


def sets(S, x, prev=(0, 1, 2, 3), cur=(0, 1, 2, 3, 4)):
    A = PREV[prev[S.choose(len(prev))]]
    B = [[x if v == "x" else v for v in r] for r in CUR[cur[S.choose(len(cur))]]]
    return A, B


def mean_dist(S, A, B, norm, bound):
    """mean over B of the distance to the closest point of A, compared with the bound (squares where possible)"""
    q = [S.min([S.sum([((u[j] - v[j]) / norm[j]) * ((u[j] - v[j]) / norm[j]) for j in range(2)]) for u in A]) for v in B]
    if len(q) == 1:
        return S.xle(q[0], bound * bound)
    return S.xle(S.sum([S.sqrt(v) for v in q]), bound * len(q))


@harness("P30", "multi", quick=[dict(prev=(0, 1, 2), cur=(0, 3, 4), hi=3)], thorough=[dict(prev=(0, 1, 2, 3), cur=(0, 3, 4), hi=3), dict(prev=(0, 1, 2, 3), cur=(1, 2), hi=4)], functions=[T + "ftol.py:MultiObjectiveSpaceTermination"], bounds="2 updates; 4 previous and 5 current sets of 1-3 solutions with 2 objectives, one objective value of the current set symbolic, 4 tolerances",
         timeout_ms=8000)
def multi(S, prev, cur, hi):
    from pymoo.termination.ftol import MultiObjectiveSpaceTermination
    tol = [0.0, 0.25, 1.0][S.choose(3)]
    t = MultiObjectiveSpaceTermination(tol)
    x = S.real("x", 0, hi)
    A, B = sets(S, x, prev, cur)
    fa = S.choose(2) == 0
    t.update(Alg(opt=pop_of(S, F=S.array(A), CV=S.array([[0.0 if fa else 1.0]] * len(A))), problem=Prob()))
    S.require(not t.has_terminated(), "first update")
    p = t.update(Alg(opt=pop_of(S, F=S.array(B), CV=S.array([[0.0]] * len(B))), problem=Prob()))
    S.require(S.xle(0.0, p), "progress")
    if not fa:
        S.require(not t.has_terminated(), "no feasible solution before")
        return
    conv, norm = [], []
    for j in range(2):
        ia, ib = S.min([r[j] for r in A]), S.min([r[j] for r in B])
        na, nb = S.max([r[j] for r in A]), S.max([r[j] for r in B])
        w = nb - ib if S.truth(S.xlt(ib, nb)) else 1.0
        S.assume(S.any([S.same(ib, nb), S.xle(0.001, nb - ib)]))
        norm.append(w)
        conv += [S.xle(S.abs(ia - ib), tol * w), S.xle(S.abs(na - nb), tol * w)]
    conv.append(mean_dist(S, A, B, norm, tol))
    S.require(S.iff(t.has_terminated(), S.all(conv)), "converged exactly when ideal, nadir and set moved at most tol")


@harness("P30", "design", quick=[dict()], functions=[T + "xtol.py:DesignSpaceTermination"], bounds="2 updates; 4 previous and 5 current sets of 1-3 solutions with 2 variables, one value of the current set symbolic, with and without bounds",
         timeout_ms=8000)
def design(S):
    from pymoo.termination.xtol import DesignSpaceTermination
    tol = [0.0, 0.25, 1.0][S.choose(3)]
    bounds = S.choose(2) == 0
    t = DesignSpaceTermination(tol)
    x = S.real("x", 0, 4)
    A, B = sets(S, x)
    pr = Prob(xl=S.array([-1.0, 0.0]), xu=S.array([7.0, 4.0])) if bounds else Prob()
    for P in (A, B):
        S.require(not t.has_terminated(), "first update")
        t.update(Alg(opt=pop_of(S, X=S.array(P), F=S.array([[0.0]] * len(P)), CV=S.array([[0.0]] * len(P))), problem=pr))
    conv = mean_dist(S, A, B, [8.0, 4.0] if bounds else [1.0, 1.0], tol)
    S.require(S.iff(t.has_terminated(), conv), "converged exactly when the mean movement in the (normalized) design space is at most tol")


def stub(vals):
    from pymoo.core.termination import Termination

    class T0(Termination):
        def __init__(self):
            super().__init__()
            self.n = 0

        def _update(self, algorithm):
            self.n += 1
            return vals[self.n - 1]
    return T0()


@harness("P30", "robust", quick=[dict(n=3, period=2), dict(n=3, period=1), dict(n=3, period=3)], thorough=[dict(n=4, period=2), dict(n=4, period=3), dict(n=3, period=1)], functions=[T + "robust.py:RobustTermination._update", "pymoo/util/sliding_window.py:SlidingWindow"], bounds="3-4 updates with symbolic progress, period 1-3")
def robust(S, n, period):
    from pymoo.termination.robust import RobustTermination
    p = [S.real("p%d" % i, lo=0) for i in range(n)]
    t = RobustTermination(stub(p), period=period)
    for g in range(n):
        t.update(None)
        last = p[max(0, g + 1 - period):g + 1]
        S.require(S.same(t.perc, S.min(last)), "minimum of the last updates")
        S.require(S.iff(t.has_terminated(), S.all([S.xle(1.0, v) for v in last])), "ended exactly when all of them ended")


@harness("P30", "default", quick=[dict()], functions=[T + "default.py:DefaultTermination._update"], bounds="symbolic progress of the parts and symbolic counts", stubs=["the x, cv and f parts are symbolic"])
def default(S):
    from pymoo.termination.default import DefaultTermination, DefaultSingleObjectiveTermination, DefaultMultiObjectiveTermination
    from pymoo.core.algorithm import default_termination
    x, c, f = S.real("x", lo=0), S.real("c", lo=0), S.real("f", lo=0)
    g, e = S.int("g", 1, 5000), S.int("e", 1, 500000)
    t = DefaultTermination(stub([x]), stub([c]), stub([f]), **([{}, dict(n_max_gen=20, n_max_evals=300)][S.choose(2)]))
    lg, le = t.max_gen.n_max_gen, t.max_evals.n_max_evals
    S.require((lg, le) in ((1000, 100000), (20, 300)), "budgets")
    t.update(Alg(n_gen=g, n_iter=g, evaluator=Alg(n_eval=e)))
    S.require(S.iff(t.has_terminated(), S.any([S.xle(1.0, x), S.xle(1.0, c), S.xle(1.0, f), S.xle(lg, g), S.xle(le, e)])), "ended exactly when any part ended")
    from common import problem
    S.require(isinstance(default_termination(problem(n_obj=1)), DefaultSingleObjectiveTermination), "single-objective default")
    S.require(isinstance(default_termination(problem(n_obj=3)), DefaultMultiObjectiveTermination), "multi-objective default")


@harness("P30", "default_budget", quick=[dict()], functions=[T + "default.py:DefaultSingleObjectiveTermination", T + "default.py:DefaultMultiObjectiveTermination"], bounds="one update of the real default criteria with symbolic counts, then two more with another optimum")
def default_budget(S):
    from pymoo.termination.default import DefaultSingleObjectiveTermination, DefaultMultiObjectiveTermination
    single = S.choose(2) == 0
    g, e = S.int("g", 1, 100), S.int("e", 1, 1000)
    t = (DefaultSingleObjectiveTermination if single else DefaultMultiObjectiveTermination)(n_max_gen=50, n_max_evals=500)
    pr = Prob(False, xl=S.array([0.0]), xu=S.array([1.0]))
    for i in range(2):
        F = S.array([[1.0]] if single else [[1.0, 2.0], [2.0, 1.0]])
        X = S.array([[0.5]] if single else [[0.5], [0.75]])
        t.update(Alg(n_gen=g, n_iter=g, evaluator=Alg(n_eval=e), opt=pop_of(S, F=F, X=X, CV=S.array([[0.0]] * len(F))), problem=pr))
        S.require(S.iff(t.has_terminated(), S.any([S.xle(50, g), S.xle(500, e)])), "only the budget can end the run this early")


@harness("P30", "window", quick=[dict()], functions=["pymoo/util/sliding_window.py:SlidingWindow.append"], bounds="up to 4 appended values, sizes 1-3 and unlimited")
def window(S):
    from pymoo.util.sliding_window import SlidingWindow
    size = [1, 2, 3, None][S.choose(4)]
    v = [S.real("v%d" % i) for i in range(4)]
    w = SlidingWindow(size)
    for i in range(4):
        w.append(v[i])
        want = v[:i + 1] if size is None else v[max(0, i + 1 - size):i + 1]
        S.require(len(w) == len(want) and S.truth(S.all([S.same(a, b) for a, b in zip(w, want)])), "the last values in order")
        S.require(w.is_full() == (size is not None and i + 1 >= size), "full")
    w.clear()
    S.require(len(w) == 0 and not w.is_full(), "cleared")


@harness("P30", "renormalized", quick=[dict()], finding=True, functions=[T + "ftol.py:MultiObjectiveSpaceTerminationWithRenormalization"], bounds="first update")
def renormalized(S):
    from pymoo.termination.ftol import MultiObjectiveSpaceTerminationWithRenormalization
    t = MultiObjectiveSpaceTerminationWithRenormalization()
    try:
        t.update(Alg(opt=pop_of(S, F=S.array([[0.0, 1.0]]), CV=S.array([[0.0]])), problem=Prob()))
        ok = not t.has_terminated()
    except TypeError:
        ok = False
    S.require(ok, "first update works")
