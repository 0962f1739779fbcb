"""P27: problem wrappers."""
import numpy as np
from symx.harness import harness
from common import meta, rows

PB = "pymoo/problems/"
META = meta(
    "Problem wrappers compute the wrapped problem's values at the transformed input",
    "For every input, ZeroToOne evaluates the original problem at xl + x * (xu - xl) and normalize/denormalize are inverse; MultiToSingleObjective and decompose return the scalarized objective of the original values and keep constraints; StaticProblem replaces exactly the given outputs. "
    "The wrapped problem itself is never modified. "
    "A dynamic test problem has time floor(tau / taut) / nt unless set explicitly, tic advances tau, and pareto_front, pareto_set, ideal_point and nadir_point are recomputed after a tic and otherwise computed once.",
    ["inputs", "histories"], "all inputs of the stated sizes, all tau in a range and sequences of tics", "wrappers are exercised by one example each, if at all",
    [PB + x for x in ("zero_to_one.py", "multi_to_single.py", "static.py", "util.py", "dyn.py")] + ["pymoo/core/meta.py", "pymoo/util/cache.py"],
    [("unit box", PB + "zero_to_one.py:ZeroToOne.do"), ("scalarized", PB + "multi_to_single.py:MultiToSingleObjective.do"), ("scalarized copy", PB + "util.py:decompose"), ("static", PB + "static.py:StaticProblem"),
     ("time", PB + "dyn.py:DynamicTestProblem.time"), ("cache", "pymoo/util/cache.py:Cache"), ("ideal/nadir", "pymoo/core/problem.py:Problem.nadir_point")],
    "bounded: 1-2 rows, 2 variables, 2 objectives, 1 constraint; up to 3 tics")


def prob(xl=None, xu=None, cls=None):
    from pymoo.core.problem import Problem

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = np.column_stack([x[:, 0] + 2 * x[:, 1], x[:, 0] - x[:, 1]])
            out["G"] = 3 * x[:, 0] - 1
    return P(n_var=2, n_obj=2, n_ieq_constr=1, xl=xl, xu=xu)


@harness("P27", "zero_to_one", quick=[dict(n=2)], functions=[PB + "zero_to_one.py:ZeroToOne.do", "pymoo/core/meta.py:Meta.__init__"], bounds="2 rows; concrete bounds (also one negative, one wide)")
def zero_to_one(S, n):
    from pymoo.problems.zero_to_one import ZeroToOne
    X = S.reals("X", (n, 2))
    r = rows(X)
    lo, hi = [-2.0, 1.0], [2.0, 9.0]
    p = prob(S.array(lo), S.array(hi))
    z = ZeroToOne(p)
    S.require([float(v) for v in z.xl] == [0.0, 0.0] and [float(v) for v in z.xu] == [1.0, 1.0], "unit box")
    S.require([float(v) for v in p.xl] == lo and [float(v) for v in p.xu] == hi, "the wrapped problem keeps its bounds")
    F, G = z.evaluate(X)
    for i in range(n):
        x = [lo[j] + r[i][j] * (hi[j] - lo[j]) for j in range(2)]
        S.require(S.all([S.eq(F[i, 0], x[0] + 2 * x[1]), S.eq(F[i, 1], x[0] - x[1]), S.eq(G[i, 0], 3 * x[0] - 1)]), "values at the denormalized point")
    Y = z.normalize(z.denormalize(X))
    S.require(S.all([S.eq(Y[i, j], r[i][j]) for i in range(n) for j in range(2)]), "normalize and denormalize are inverse")


@harness("P27", "scalarized", quick=[dict(n=2), dict(n=1)], functions=[PB + "multi_to_single.py:MultiToSingleObjective.do", PB + "util.py:decompose"], bounds="1-2 rows, weighted sum and Chebyshev")
def scalarized(S, n):
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    from pymoo.problems.multi_to_single import MultiToSingleObjective
    from pymoo.problems.util import decompose
    X = S.reals("X", (n, 2))
    r = rows(X)
    w = S.array([0.25, 2.0])
    p = prob()
    ws = S.choose(2) == 0
    d = WeightedSum() if ws else Tchebicheff()
    k = S.choose(3)
    if k == 0:
        q = MultiToSingleObjective(p, d, dict(weights=w))
    elif k == 1:
        class D:
            def do(self, F, **kwargs):
                assert not kwargs
                return d.do(F, w)
        q = MultiToSingleObjective(p, D())
    else:
        q = decompose(p, d, w)
    S.require(q.n_obj == 1 and p.n_obj == 2 and q.n_ieq_constr == 1, "one objective, same constraints, original untouched")
    F, G = q.evaluate(X)
    S.require(F.shape == (n, 1), "shape")
    for i in range(n):
        f = [r[i][0] + 2 * r[i][1], r[i][0] - r[i][1]]
        v = 0.25 * f[0] + 2 * f[1] if ws else S.max([0.25 * S.abs(f[0]), 2 * S.abs(f[1])])
        S.require(S.all([S.eq(F[i, 0], v), S.eq(G[i, 0], 3 * r[i][0] - 1)]), "scalarized objective")
    F2, _ = p.evaluate(X)
    S.require(F2.shape == (n, 2) and S.truth(S.eq(F2[0, 1], r[0][0] - r[0][1])), "the original problem still has two objectives")


@harness("P27", "static", quick=[dict()], functions=[PB + "static.py:StaticProblem._evaluate"], bounds="2 rows")
def static(S):
    from pymoo.problems.static import StaticProblem
    X, F0, G0 = S.reals("X", (2, 2)), S.reals("F", (2, 2)), S.reals("G", (2, 1))
    f, g = rows(F0), rows(G0)
    p = prob()
    q = StaticProblem(p, F=F0, G=G0)
    F, G = q.evaluate(X)
    S.require(S.all([S.same(F[i, j], f[i][j]) for i in range(2) for j in range(2)] + [S.same(G[i, 0], g[i][0]) for i in range(2)]), "the given values")
    F, G = p.evaluate(X)
    S.require(S.eq(F[0, 1], X[0, 0] - X[0, 1]), "the wrapped problem is untouched")


@harness("P27", "dynamic", quick=[dict()], functions=[PB + "dyn.py:DynamicTestProblem.tic", PB + "dyn.py:DynamicTestProblem.time", PB + "dyn.py:TimeSimulation.update", "pymoo/util/cache.py:Cache",
         "pymoo/core/problem.py:Problem.pareto_front", "pymoo/core/problem.py:Problem.nadir_point"], bounds="tau 1..12 plus up to 2 tics of 1..5, taut 3 or 4, nt 4 or 8; fronts with 2 symbolic points")
def dynamic(S):
    from pymoo.problems.dyn import DynamicTestProblem, TimeSimulation
    nt, taut, tau = S.pick([(4, 3, 1), (8, 4, 3), (4, 3, 11)])
    A = S.reals("A", (3, 4))
    calls = []

    class P(DynamicTestProblem):
        def _calc_pareto_front(self, *args, **kwargs):
            calls.append("pf")
            k = len(steps)
            return np.array([[A[k, 0], A[k, 1]], [A[k, 2], A[k, 3]]]) if S.sym else np.array([[A[k, 0], A[k, 1]], [A[k, 2], A[k, 3]]], dtype=float)

        def _calc_pareto_set(self, *args, **kwargs):
            calls.append("ps")
            return np.array([0.5 * self.tau])
    steps = []
    p = P(nt, taut, tau=tau, n_var=1, n_obj=2)
    for _ in range(2):
        S.require(S.eq(p.time, (tau // taut) / nt), "time")
        n0 = len(calls)
        a = [A[len(steps), j] for j in range(4)]
        idl, nad, pf, ps = p.ideal_point(), p.nadir_point(), p.pareto_front(), p.pareto_set()
        S.require(S.all([S.same(idl[j], S.min([a[j], a[2 + j]])) for j in range(2)] + [S.same(nad[j], S.max([a[j], a[2 + j]])) for j in range(2)]), "ideal and nadir of the current front")
        S.require(pf.shape == (2, 2) and S.truth(S.xle(pf[0, 0], pf[1, 0])), "front sorted by the first objective")
        S.require(S.any([S.all([S.same(pf[x, j], a[j]) for j in range(2)] + [S.same(pf[1 - x, j], a[2 + j]) for j in range(2)]) for x in range(2)]), "points of the current front")
        S.require(float(ps[0, 0]) == 0.5 * tau, "current set")
        p.pareto_front()
        p.nadir_point()
        S.require(len(calls) == n0 + 2, "computed once")
        k = S.choose(3)
        if k == 0:
            p.tic()
            d = 1
        elif k == 1:
            d = 5
            p.tic(elapsed=5)
        else:
            d = 1

            class Alg:
                problem = p
            TimeSimulation().update(Alg())
        tau += d
        steps.append(d)
    t = S.real("t")
    p.time = t
    S.require(S.same(p.time, t), "explicit time")
