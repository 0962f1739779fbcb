"""P35: performance indicators."""
import numpy as np
from symx.harness import harness
from common import meta, rows

I = "pymoo/indicators/"
META = meta(
    "Performance indicators return their defined values",
    "For every solution set and reference front: GD (GD+) is the mean over the solutions of the smallest (one-sided) distance to the front, IGD (IGD+) the mean over the front of the smallest distance to the solutions, additive and multiplicative epsilon the largest over the front of the best worst-case difference or ratio, hypervolume the volume dominated within the reference point, spacing the deviation of the nearest-neighbour city-block distances. "
    "zero_to_one applies the front's (or the given) ideal and nadir point to solutions, front and reference point alike, norm_by_dist divides the differences by the range; a single vector counts as a set of one and an empty set gives the default value. "
    "The inputs are never modified.",
    ["inputs", "configurations"], "all values of a coordinate in representative sets (all coordinates where the indicator is piecewise linear)", "tests compare a few precomputed values", [I + x for x in ("gd.py", "igd.py", "gd_plus.py", "igd_plus.py", "distance_indicator.py", "epsilon.py", "hv/__init__.py", "spacing.py", "migd.py")] + ["pymoo/core/indicator.py"],
    [("distances", I + "distance_indicator.py:DistanceIndicator"), ("one-sided", I + "distance_indicator.py:modified_distance"), ("IGD", I + "igd.py:IGD"), ("hypervolume", I + "hv/__init__.py:Hypervolume"), ("epsilon", I + "epsilon.py:EpsilonIndicator"), ("spacing", I + "spacing.py:SpacingIndicator"), ("empty and single", "pymoo/core/indicator.py:Indicator.do")],
    "bounded: sets of 1-3 vectors with 2 objectives; moocore's compiled igd, igd_plus, epsilon and hypervolume are replaced by their mathematical contracts")

PF = [[[0.0, 4.0], [4.0, 0.0]], [[1.0, 1.0]], [[0.0, 2.0], [1.0, 1.0], [2.0, 0.0]], [[0.0, 0.0], [2.0, 8.0]]]
SETS = [[["x", 1.0]], [["x", 3.0], [3.0, 1.0]], [[2.0, "x"], [0.0, 3.0]]]


def pick_sets(S, pfs=range(4), sets=range(3)):
    x = S.real("x", -1, 6)
    pf = PF[list(pfs)[S.choose(len(list(pfs)))]]
    F = [[x if v == "x" else v for v in r] for r in SETS[list(sets)[S.choose(len(list(sets)))]]]
    return x, pf, F


def ranges(pf):
    lo = [min(p[j] for p in pf) for j in range(2)]
    hi = [max(p[j] for p in pf) for j in range(2)]
    return lo, hi


def same_value(S, v, squares, msg):
    """v is the mean of the square roots"""
    S.require(S.xle(0.0, v), "not negative")
    if len(squares) == 1:
        S.require(S.le(S.abs(v * v - squares[0]), 1e-7), msg)
    else:
        S.require(S.le(S.abs(v * len(squares) - S.sum([S.sqrt(q) for q in squares])), 1e-7), msg)


@harness("P35", "distance", quick=[dict(kind="gd", mode=0), dict(kind="gd_plus", mode=0), dict(kind="igd", mode=0), dict(kind="igd_plus", mode=0), dict(kind="gd", mode=1), dict(kind="igd", mode=1), dict(kind="gd_plus", mode=2), dict(kind="igd", mode=2), dict(kind="igd_plus", mode=2)],
         thorough=[dict(kind=k, mode=m) for k in ("gd", "gd_plus", "igd", "igd_plus") for m in range(3)], functions=[I + "distance_indicator.py:DistanceIndicator._do", I + "distance_indicator.py:euclidean_distance", I + "distance_indicator.py:modified_distance", I + "igd.py:IGD._do", I + "igd_plus.py:IGDPlus._do", "pymoo/util/misc.py:vectorized_cdist"],
         bounds="4 fronts x 3 sets, one symbolic coordinate in [-1, 6]; plain, normalized, norm_by_dist", timeout_ms=10000)
def distance(S, kind, mode):
    from pymoo.indicators.gd import GD
    from pymoo.indicators.gd_plus import GDPlus
    from pymoo.indicators.igd import IGD
    from pymoo.indicators.igd_plus import IGDPlus
    cls = dict(gd=GD, gd_plus=GDPlus, igd=IGD, igd_plus=IGDPlus)[kind]
    x, pf, F = pick_sets(S, (0, 1, 2, 3) if mode != 2 else (0, 2, 3), (0, 1) if kind.startswith("igd") else (0, 2))
    lo, hi = ranges(pf)
    kw = {}
    if mode == 1:
        kw = dict(zero_to_one=True)
        if S.choose(2) == 1:
            lo, hi = [-1.0, 0.0], [3.0, 2.0]
            kw.update(ideal=S.array(lo), nadir=S.array(hi))
    elif mode == 2:
        kw = dict(norm_by_dist=True)
    ind = cls(S.array(pf), **kw)
    arr = S.array(F)
    if len(F) == 1 and S.choose(2) == 0:
        v = ind.do(arr[0])
    else:
        v = ind(arr)
    sc = [1.0, 1.0]
    if mode:
        sc = [hi[j] - lo[j] if hi[j] > lo[j] else 1.0 for j in range(2)]
    plus = kind.endswith("plus")

    def d2(f, z):
        # differences f - z, one-sided for the plus versions
        d = [(f[j] - z[j]) / sc[j] for j in range(2)]
        return S.sum([(S.max([0.0, e]) if plus else e) * (S.max([0.0, e]) if plus else e) for e in d])
    if kind.startswith("igd"):
        q = [S.min([d2(f, z) for f in F]) for z in pf]
    else:
        q = [S.min([d2(f, z) for z in pf]) for f in F]
    same_value(S, v, q, kind)
    S.require(S.all([S.same(arr[i, j], F[i][j]) for i in range(len(F)) for j in range(2)]), "input untouched")


@harness("P35", "epsilon", quick=[dict()], functions=[I + "epsilon.py:Epsilon._calc", I + "epsilon.py:EpsilonMultiplicative._calc", I + "epsilon.py:EpsilonIndicator._do"], bounds="4 fronts, 1-2 solutions with all coordinates symbolic (additive), one symbolic coordinate (multiplicative)")
def epsilon(S):
    from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
    if S.choose(2) == 0:
        n = S.choose(2) + 1
        F = S.reals("F", (n, 2))
        f = rows(F)
        pf = PF[S.choose(4)]
        norm = S.choose(2) == 1
        v = Epsilon(S.array(pf), **(dict(zero_to_one=True) if norm else {})).do(F)
        lo, hi = ranges(pf)
        sc = [(hi[j] - lo[j] or 1.0) if norm else 1.0 for j in range(2)]
        S.require(S.eq(v, S.max([S.min([S.max([(a[j] - z[j]) / sc[j] for j in range(2)]) for a in f]) for z in pf])), "additive epsilon")
    else:
        x = S.real("x", 1, 9)
        pf = [[[1.0, 4.0], [4.0, 1.0]], [[2.0, 2.0]]][S.choose(2)]
        F = [[[x, 1.0]], [[x, 2.0], [2.0, 4.0]]][S.choose(2)]
        v = EpsilonMultiplicative(S.array(pf)).do(S.array(F))
        S.require(S.eq(v, S.max([S.min([S.max([a[j] / z[j] for j in range(2)]) for a in F]) for z in pf])), "multiplicative epsilon")


@harness("P35", "hypervolume", quick=[dict()], functions=[I + "hv/__init__.py:Hypervolume.__init__", I + "hv/__init__.py:Hypervolume._do"], bounds="1-2 solutions, 2 objectives, one or two symbolic coordinates, reference point given or from the front, normalized or not")
def hypervolume(S):
    from pymoo.indicators.hv import HV, Hypervolume
    x, y = S.real("x", -1, 6), S.real("y", -1, 6)
    F = [[[x, y]], [[x, 1.0], [1.0, y]], [[0.0, x], [2.0, 1.0]]][S.choose(3)]
    k = S.choose(4)
    pf = [[0.0, 4.0], [5.0, 0.0]]
    # reference point and per-axis scale and offset used for the expected value
    o, s = [0.0, 0.0], [1.0, 1.0]
    if k == 0:
        r, ind = [3.0, 5.0], HV(ref_point=S.array([3.0, 5.0]))
    elif k == 1:
        r, ind = [5.0, 4.0], Hypervolume(pf=S.array(pf))
    elif k == 2:
        o, s = [0.0, 0.0], [5.0, 4.0]
        r, ind = [3.0, 5.0], HV(ref_point=S.array([3.0, 5.0]), pf=S.array(pf), zero_to_one=True)
    else:
        o, s = [-1.0, 0.0], [4.0, 2.0]
        r, ind = [0.75 * 4.0 - 1.0, 0.5 * 2.0], HV(ref_point=S.array([0.75, 0.5]), ideal=S.array(o), nadir=S.array([3.0, 2.0]), zero_to_one=True, norm_ref_point=False)
    v = ind.do(S.array(F))

    def box(p):
        q = 1.0
        for j in range(2):
            q = q * (S.max([0.0, r[j] - p[j]]) / s[j])
        return q
    want = box(F[0])
    if len(F) == 2:
        want = want + box(F[1]) - box([S.max([F[0][j], F[1][j]]) for j in range(2)])
    S.require(S.le(S.abs(v - want), 1e-7), "dominated volume")


@harness("P35", "spacing", quick=[dict(k=0), dict(k=1)], thorough=[dict(k=0), dict(k=1), dict(k=2)], functions=[I + "spacing.py:SpacingIndicator._do"], bounds="2-3 solutions, one symbolic coordinate, normalized or not", timeout_ms=10000)
def spacing(S, k):
    from pymoo.indicators.spacing import SpacingIndicator
    x = S.real("x", -1, 6)
    F = [[[x, 1.0], [0.0, 3.0]], [[x, 2.0], [0.0, 4.0], [3.0, 0.0]], [[1.0, x], [0.0, 4.0], [4.0, 0.0]]][k]
    norm = S.choose(2) == 1
    kw = dict(pf=S.array([[0.0, 4.0], [2.0, 0.0]]), zero_to_one=True) if norm else {}
    s = [2.0, 4.0] if norm else [1.0, 1.0]
    v = SpacingIndicator(**kw).do(S.array(F))
    n = len(F)
    d = [S.min([S.sum([S.abs(F[i][j] - F[m][j]) / s[j] for j in range(2)]) for m in range(n) if m != i]) for i in range(n)]
    dm = S.sum(d) / n
    S.require(S.xle(0.0, v), "not negative")
    S.require(S.le(S.abs(v * v - S.sum([(e - dm) * (e - dm) for e in d]) / n), 1e-7), "spacing")


@harness("P35", "empty", quick=[dict()], functions=["pymoo/core/indicator.py:Indicator.do"], bounds="empty sets for every indicator; value 0 for a set equal to the front")
def empty(S):
    from pymoo.indicators.gd import GD
    from pymoo.indicators.gd_plus import GDPlus
    from pymoo.indicators.hv import HV
    from pymoo.indicators.igd import IGD
    from pymoo.indicators.igd_plus import IGDPlus
    x = S.real("x", 0, 5)
    pf = S.array([[0.0, x], [6.0, 1.0]])
    cls = [GD, GDPlus, IGD, IGDPlus][S.choose(4)]
    S.require(cls(pf).do(np.zeros((0, 2))) == 0.0, "empty set")
    S.require(HV(ref_point=S.array([1.0, 1.0])).do(np.zeros((0, 2))) == 0.0, "empty set")
    S.require(S.eq(cls(pf).do(pf), 0.0), "the front itself has distance 0")
    S.require(S.eq(cls(pf).do(S.array([[6.0, 1.0], [0.0, x]])), 0.0), "in any order")


@harness("P35", "migd", quick=[dict()], functions=[I + "migd.py:MIGD"], bounds="two time steps, one symbolic coordinate, re-evaluated or not")
def migd(S):
    from pymoo.indicators.migd import MIGD
    x = S.real("x", 0, 5)
    re = S.choose(2) == 0

    class P:
        n_constr = 0
        time = 0.0

        def pareto_front(self):
            return S.array([[0.0, 1.0 + self.time]])

        def evaluate(self, X, return_values_of=None, **kw):
            return S.array([[x, 1.0]])

    class Pop:
        def get(self, k):
            return S.array([[2.0, 1.0]]) if k == "F" else S.array([[0.0]])

    class A:
        problem, pop = P(), Pop()
    m = MIGD(reevaluate=re)
    a = A()
    m(a)
    a.problem.time = 3.0
    m(a)
    S.require([t for t, _ in m.records] == [0.0, 3.0], "one record per call")
    d0 = x if re else 2.0
    v = [r for _, r in m.records]
    S.require(S.all([S.eq(v[0], d0), S.le(S.abs(v[1] * v[1] - (d0 * d0 + 9.0)), 1e-7)]), "IGD of the current time step")
    S.require(S.le(S.abs(m.value() - (v[0] + v[1]) / 2), 1e-9), "mean")
