"""P22: Problem.evaluate."""
import numpy as np
from symx.harness import harness
from common import meta, rows, vsame

PR = "pymoo/core/problem.py"
META = meta(
    "Problem.evaluate returns, row by row, exactly what the user's functions compute",
    "For every input, evaluate returns the values the problem's _evaluate sets, one row per input row in the same order, with shapes (N, n_obj), (N, n_ieq_constr) and (N, n_eq_constr); "
    "a single one-dimensional x yields the same values without the first axis; elementwise and vectorized definitions, any runner of parallel evaluations whatever the order its workers finish in, dictionary and tuple results, and return_values_of in any order agree. "
    "Only NaN entries are changed, and only when replace_nan_values_by is set; constraints that do not exist have width 0, and bounds given as scalars apply to every variable.",
    ["inputs", "configurations", "schedules"], "all X of the stated sizes; any order in which workers finish; all combinations of elementwise/vectorized, single/batch, result form and numbers of constraints",
    "tests evaluate a few points of shipped problems", [PR, "pymoo/util/misc.py", "pymoo/problems/functional.py", "pymoo/parallelization/"],
    [("evaluate", PR + ":Problem.evaluate"), ("elementwise", PR + ":Problem._evaluate_elementwise"), ("shapes", PR + ":Problem._format_dict"), ("2-d input", "pymoo/util/misc.py:at_least_2d_array"),
     ("functions", "pymoo/problems/functional.py:FunctionalProblem._evaluate"), ("workers", "pymoo/parallelization/dask.py:DaskParallelization.__call__")],
    "bounded: up to 3 rows, 2 variables, up to 2 objectives and 2+1 constraints; the user function is a fixed linear map of symbolic inputs, so rows, columns and order are distinguishable")


def f_of(r, k):
    return (k + 2) * r[0] - (2 * k + 1) * r[1] + k


def build(elementwise, n_obj, n_ieq, n_eq, form=0, log=None, **kw):
    from pymoo.core.problem import Problem

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            if log is not None:
                log.append((x, args, kwargs))
            for key, m, o in (("F", n_obj, 0), ("G", n_ieq, 5), ("H", n_eq, 9)):
                if m == 0:
                    continue
                if elementwise:
                    v = [f_of(x, o + k) for k in range(m)]
                    out[key] = v[0] if form == 2 and m == 1 else (np.array(v) if form == 1 else v)
                else:
                    v = [(o + k + 2) * x[:, 0] - (2 * (o + k) + 1) * x[:, 1] + (o + k) for k in range(m)]
                    out[key] = v if form == 0 else (v[0] if form == 2 and m == 1 else np.column_stack(v))
    return P(n_var=2, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, elementwise=elementwise, **kw)


@harness("P22", "values", quick=[dict(n=1, one=True), dict(n=3, one=False)], thorough=[dict(n=1, one=True), dict(n=1, one=False), dict(n=3, one=False), dict(n=4, one=False)],
         functions=[PR + ":Problem.evaluate", PR + ":Problem.do", PR + ":Problem._format_dict", PR + ":Problem._evaluate_elementwise", "pymoo/util/misc.py:at_least_2d_array"],
         bounds="1 to 4 rows, 2 variables; 1-2 objectives, 0-2 inequality and 0-1 equality constraints; list, column-stacked and flat outputs")
def values(S, n, one):
    X = S.reals("X", (n, 2))
    r = rows(X)
    el = S.choose(2) == 1
    n_obj, n_ieq, n_eq = S.pick([(1, 0, 0), (2, 2, 1), (1, 1, 0), (2, 0, 1)])
    p = build(el, n_obj, n_ieq, n_eq, form=S.choose(3))
    how = S.choose(4)
    arg = X[0] if one else X
    keys = ["F"] + ["G"] * (n_ieq > 0) + ["H"] * (n_eq > 0)
    if how == 0:
        out = p.evaluate(arg)
        out = dict(zip(keys, [out] if len(keys) == 1 else out))
    elif how == 1:
        out = p.evaluate(arg, return_as_dictionary=True)
        S.require(set(keys) <= set(out), "every requested value present")
    elif how == 2:
        keys = ["H", "F", "G"]
        out = dict(zip(keys, p.evaluate(arg, return_values_of=list(keys))))
    else:
        keys = ["G"]
        out = dict(G=p.evaluate(arg, return_values_of=["G"]))
    W = dict(F=(n_obj, 0), G=(n_ieq, 5), H=(n_eq, 9))
    for k in keys:
        m, o = W[k]
        S.require(out[k].shape == ((m,) if one else (n, m)), "shape")
        for i in range(n):
            for j in range(m):
                S.require(S.eq(out[k][j] if one else out[k][i, j], f_of(r[i], o + j)), "value of the user's function")
    S.require(S.all([S.same(X[i, j], r[i][j]) for i in range(n) for j in range(2)]), "input untouched")


@harness("P22", "nan", quick=[dict()], functions=[PR + ":Problem.evaluate"], bounds="2 rows, 2 objectives; any set of NaN entries; symbolic replacement")
def nan(S):
    from pymoo.core.problem import Problem
    V = S.reals("V", (2, 2))
    v = rows(V)
    bad = [[S.choose(2) == 1 for _ in range(2)] for _ in range(2)]
    rep = S.real("rep") if S.choose(2) == 1 else None

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            F = V.copy()
            for i in range(2):
                for j in range(2):
                    if bad[i][j]:
                        F[i, j] = np.nan
            out["F"] = F
    F = P(n_var=1, n_obj=2, replace_nan_values_by=rep).evaluate(S.array([[0.0], [1.0]]))
    for i in range(2):
        for j in range(2):
            if not bad[i][j]:
                S.require(S.same(F[i, j], v[i][j]), "a number is never replaced")
            elif rep is None:
                S.require(not S.finite(F[i, j]), "NaN is reported")
            else:
                S.require(S.same(F[i, j], rep), "NaN replaced by the configured value")


@harness("P22", "shell", quick=[dict()], functions=[PR + ":Problem.__init__", PR + ":Problem.evaluate", PR + ":Problem.bounds", PR + ":Problem.has_bounds", PR + ":Problem.has_constraints"],
         bounds="2 rows; keyword arguments required or not, callback, scalar/list bounds, missing F, object inputs")
def shell(S):
    import warnings
    from pymoo.core.problem import Problem
    X = S.reals("X", (2, 2))
    r = rows(X)
    which = S.choose(4)
    if which == 0:
        log, cb = [], []
        req = S.choose(2) == 1
        p = build(S.choose(2) == 1, 1, 0, 0, form=1, log=log, requires_kwargs=req, callback=lambda x, out: cb.append((x, out)))
        out = p.evaluate(X, return_as_dictionary=True, color="red")
        S.require(all(kw == (dict(color="red") if req else {}) for _, _, kw in log), "keyword arguments only where required")
        S.require(len(log) == (2 if p.elementwise else 1), "every row evaluated once")
        S.require(len(cb) == 1 and cb[0][1] is out or cb[0][1].keys() == out.keys(), "callback sees the result")
    elif which == 1:
        lo, hi = S.real("lo"), S.real("hi")
        S.assume(S.lt(lo, hi))
        a = S.choose(3)
        L, U = [(lo, hi), ([lo, lo], [hi, hi]), (S.array([lo, lo]), S.array([hi, hi]))][a]
        p = build(False, 1, 0, 0, xl=L, xu=U)
        xl, xu = p.bounds()
        S.require(p.has_bounds() and xl.shape == (2,) and xu.shape == (2,), "one bound per variable")
        S.require(S.all([S.same(xl[j], lo) for j in range(2)] + [S.same(xu[j], hi) for j in range(2)]), "bounds as given")
        S.require(not build(False, 1, 0, 0, xl=L).has_bounds() and not p.has_constraints() and build(False, 1, 0, 1).has_constraints(), "flags")
        S.require(build(False, 1, 2, 1).n_constr == 3, "number of constraints")
    elif which == 2:
        class Q(Problem):
            def _evaluate(self, x, out, *args, **kwargs):
                out["extra"] = [x[0, 0] + 1, x[1, 0] + 1]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = Q(n_var=2, n_obj=2).evaluate(X, return_as_dictionary=True)
        S.require(out["F"].shape == (2, 2) and all(not S.finite(v) and v > 0 for v in np.ravel(out["F"]).tolist()), "missing objectives are +inf")
        S.require(S.all([S.eq(out["extra"][i], r[i][0] + 1) for i in range(2)]), "additional values are passed on")
    else:
        class O(Problem):
            def _evaluate(self, x, out, *args, **kwargs):
                out["F"] = x["a"] * 2
        o = [dict(a=r[0][0]), dict(a=r[1][0])]
        p = O(n_var=2, n_obj=1, elementwise=True)
        F = p.evaluate(o) if S.choose(2) == 0 else p.evaluate(np.array(o, dtype=object))
        S.require(F.shape == (2, 1) and S.truth(S.all([S.eq(F[i, 0], 2 * r[i][0]) for i in range(2)])), "objects are evaluated in order")


@harness("P22", "functional", quick=[dict()], functions=["pymoo/problems/functional.py:FunctionalProblem._evaluate"], bounds="2 rows, 1-2 objectives, 2 inequality and 1 equality functions")
def functional(S):
    from pymoo.problems.functional import FunctionalProblem
    X = S.reals("X", (2, 2))
    r = rows(X)
    two = S.choose(2) == 1
    f = [lambda x: f_of(x, 0), lambda x: f_of(x, 1)]
    p = FunctionalProblem(2, f if two else f[0], constr_ieq=[lambda x: f_of(x, 5), lambda x: f_of(x, 6)], constr_eq=[lambda x: f_of(x, 9)])
    F, G, H = p.evaluate(X)
    S.require(F.shape == (2, 2 if two else 1) and G.shape == (2, 2) and H.shape == (2, 1), "shape")
    for i in range(2):
        S.require(S.all([S.eq(F[i, j], f_of(r[i], j)) for j in range(F.shape[1])] + [S.eq(G[i, j], f_of(r[i], 5 + j)) for j in range(2)] + [S.eq(H[i, 0], f_of(r[i], 9))]), "values")


class Pool:
    """stand-in for worker processes: jobs are finished in any order, each one on a copy of the function as a worker would have it"""

    def __init__(self, S, n):
        left, self.order = list(range(n)), []
        while left:
            self.order.append(left.pop(S.choose(len(left))))
        self.jobs, self.done = [], {}

    def submit(self, f, *args, **kwargs):
        self.jobs.append((f, args))
        return Future(self, len(self.jobs) - 1)

    def map(self, f, X, **kwargs):
        return [self.submit(f, x) for x in X]

    def gather(self, jobs):
        return [j.result() for j in jobs]

    def finish(self):
        for k in self.order:
            if k < len(self.jobs) and k not in self.done:
                f, args = self.jobs[k]
                self.done[k] = f(*args)

    def starmap(self, f, args, *more):
        first = len(self.jobs)
        js = [self.submit(f, *a) for a in args]
        self.finish()
        return [self.done[first + k] for k in range(len(js))]


class Future:
    def __init__(self, pool, k):
        self.pool, self.k = pool, k

    def result(self, *args, **kwargs):
        self.pool.finish()
        return self.pool.done[self.k]


def fake_joblib(pool):
    from types import SimpleNamespace

    class Parallel:
        def __init__(self, n_jobs=None, **kwargs):
            pool.options = dict(kwargs, n_jobs=n_jobs)

        def __enter__(self):
            return self

        def __exit__(self, *args):
            return False

        def __call__(self, tasks):
            return pool.starmap(lambda f, a, k: f(*a, **k), list(tasks))
    return SimpleNamespace(Parallel=Parallel, delayed=lambda f: lambda *a, **k: (f, a, k))


def fake_ray(pool):
    from types import SimpleNamespace

    class Remote:
        def __init__(self, f):
            self.f = f

        def options(self, **kwargs):
            pool.options = kwargs
            return self

        def remote(self, *args):
            return pool.submit(self.f, *args)
    return SimpleNamespace(remote=Remote, get=lambda jobs: [j.result() for j in jobs] if isinstance(jobs, (list, tuple)) else jobs.result())


PA = "pymoo/parallelization/"


@harness("P22", "parallel", quick=[dict(how=h) for h in ("starmap", "dask", "joblib", "ray")], functions=[PA + "%s.py:%sParallelization.__call__" % (h, h.capitalize()) for h in ("starmap", "dask", "joblib", "ray")] + [PR + ":Problem._evaluate_elementwise"],
         bounds="3 rows, finished in any order; the runner is copied with the problem", stubs=["the worker processes of multiprocessing, dask, joblib and ray are a pool that finishes its jobs in any order"])
def parallel(S, how):
    import copy
    import sys
    X = S.reals("X", (3, 2))
    r = rows(X)
    pool = Pool(S, 3)
    if how == "starmap":
        from pymoo.parallelization.starmap import StarmapParallelization
        runner = StarmapParallelization(pool.starmap)
    elif how == "dask":
        from pymoo.parallelization.dask import DaskParallelization
        runner = DaskParallelization(pool)
    else:
        old = sys.modules.get(how)
        sys.modules[how] = (fake_joblib if how == "joblib" else fake_ray)(pool)
        try:
            if how == "joblib":
                from pymoo.parallelization.joblib import JoblibParallelization
                runner = JoblibParallelization(n_jobs=2, prefer="threads")
            else:
                from pymoo.parallelization.ray import RayParallelization
                runner = RayParallelization(dict(num_cpus=2))
        finally:
            if old is None:
                sys.modules.pop(how)
            else:
                sys.modules[how] = old
    p = build(True, 2, 1, 1, form=S.choose(2), elementwise_runner=runner)
    if how in ("starmap", "dask"):
        q = copy.copy(p)
        q.elementwise_runner = copy.copy(runner)
        S.require(not any(v is pool or v == pool.starmap for v in vars(q.elementwise_runner).values()), "workers are not copied with the problem")
    F, G, H = p.evaluate(X)
    S.require(F.shape == (3, 2) and G.shape == (3, 1) and H.shape == (3, 1), "shape")
    S.require(S.all([S.eq(F[i, j], f_of(r[i], j)) for i in range(3) for j in range(2)] + [S.eq(G[i, 0], f_of(r[i], 5)) for i in range(3)] + [S.eq(H[i, 0], f_of(r[i], 9)) for i in range(3)]), "the values of each row, in whatever order the workers finish")
    S.require(len(pool.jobs) == 3, "every row is evaluated once")
    if how == "joblib":
        S.require(pool.options == dict(n_jobs=2, prefer="threads"), "the options of the workers are passed on")
    if how == "ray":
        S.require(pool.options == dict(num_cpus=2), "the resources asked for are passed on")
