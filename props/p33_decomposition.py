"""P33: scalarization by decomposition."""
import numpy as np
from symx.harness import harness
from common import meta, rows

D = "pymoo/decomposition/"
META = meta(
    "Decompositions give each point-weight pair its scalarized value",
    "For every set of objective vectors, weights, ideal or utopian point: weighted sum is sum w_i f_i, Tchebicheff max w_i |f_i - u_i|, ASF max (f_i - u_i) / w_i (weight 0 replaced by weight_0), AASF adds rho * sum (f_i - u_i) / w_i, PBI is d1 + theta * d2 with the projection and perpendicular distances along the weight, and PerpendicularDistance is d2. "
    "The result is arranged by the call's form - one value per point for one weight or paired weights, one per weight for a single point, a points x weights matrix otherwise - and the utopian point defaults to ideal - eps, the ideal point to 0. "
    "The inputs are never modified.",
    ["inputs", "configurations"], "all objective values and reference points of the stated sizes; representative weights including 0", "tests compare a few fixed vectors", ["pymoo/core/decomposition.py"] + [D + x for x in ("weighted_sum.py", "tchebicheff.py", "asf.py", "aasf.py", "pbi.py", "perp_dist.py", "util.py")],
    [("arrangement", "pymoo/core/decomposition.py:Decomposition.do"), ("Tchebicheff", D + "tchebicheff.py:Tchebicheff"), ("ASF", D + "asf.py:ASF"), ("AASF", D + "aasf.py:AASF"), ("PBI", D + "pbi.py:PBI"),
     ("distances", "pymoo/functions/standard/decomposition.py:calc_distance_to_weights")],
    "bounded: up to 2 points, 2 weights, 2 objectives (3 for single pairs); weights are concrete representatives")

WEIGHTS = [[3.0, 4.0], [1.0, 0.0], [0.25, 0.75], [0.0, 2.0]]


def forms(S):
    """(F, weights, pairs, shape): pairs lists (point, weight) in the order of the flattened result"""
    k = S.choose(6)
    nf = [1, 1, 2, 2, 2, 2][k]
    F = S.reals("F", (nf, 2))
    f = rows(F)
    a = S.choose(len(WEIGHTS))
    b = (a + 1) % len(WEIGHTS)
    w1, w2 = WEIGHTS[a], WEIGHTS[b]
    if k == 0:
        return F[0], S.array([w1, w2]), f, [(f[0], w1), (f[0], w2)], (2,), None
    if k == 1:
        return F, S.array([w1]), f, [(f[0], w1)], (1,), "one_to_one"
    if k == 2:
        return F, S.array(w1), f, [(f[0], w1), (f[1], w1)], (2,), None
    if k == 3:
        return F, S.array([w1, w2]), f, [(f[0], w1), (f[1], w2)], (2,), None
    if k == 4:
        return F, S.array([w1, w2, [1.0, 1.0]]), f, [(p, w) for p in f for w in (w1, w2, [1.0, 1.0])], (2, 3), None
    return F, S.array([w1, w2]), f, [(p, w) for p in f for w in (w1, w2)], (2, 2), "many_to_many"


def run(S, d, eps=0.0, **kw):
    F, W, f, pairs, shape, typ = forms(S)
    w0 = rows(W) if W.ndim == 2 else [list(W)]
    ref = S.choose(3)
    p = S.reals("p", (2,))
    args = dict(kw)
    u = [0.0 - eps, 0.0 - eps]
    if ref == 1:
        args["ideal_point"] = p
        u = [p[0] - eps, p[1] - eps]
    elif ref == 2:
        args["utopian_point"] = p
        u = [p[0], p[1]]
    if typ is not None:
        args["_type"] = typ
    V = d.do(F, W, **args) if S.choose(2) == 0 else d(F, W, **args)
    S.require(tuple(V.shape) == shape, "arrangement of the result")
    FF = F.reshape(-1, 2)
    S.require(S.all([S.same(FF[i, j], f[i][j]) for i in range(len(f)) for j in range(2)]), "objectives untouched")
    WW = W.reshape(-1, 2)
    S.require(S.all([S.same(WW[i, j], w0[i][j]) for i in range(len(w0)) for j in range(2)]), "weights untouched")
    v = list(V.reshape(-1))
    return v, pairs, u


@harness("P33", "weighted_sum", quick=[dict()], functions=["pymoo/core/decomposition.py:Decomposition.do", D + "weighted_sum.py:WeightedSum._do"], bounds="1-2 points, 1-3 weights, 2 objectives, all call forms")
def weighted_sum(S):
    from pymoo.decomposition.weighted_sum import WeightedSum
    v, pairs, u = run(S, WeightedSum())
    S.require(S.all([S.eq(x, f[0] * w[0] + f[1] * w[1]) for x, (f, w) in zip(v, pairs)]), "weighted sum")


@harness("P33", "tchebicheff", quick=[dict()], functions=["pymoo/core/decomposition.py:Decomposition.do", D + "tchebicheff.py:Tchebicheff._do"], bounds="1-2 points, 1-3 weights, 2 objectives, all call forms, eps 0 or 0.5")
def tchebicheff(S):
    from pymoo.decomposition.tchebicheff import Tchebicheff
    eps = [0.0, 0.5][S.choose(2)]
    v, pairs, u = run(S, Tchebicheff(eps=eps), eps)
    S.require(S.all([S.eq(x, S.max([w[j] * S.abs(f[j] - u[j]) for j in range(2)])) for x, (f, w) in zip(v, pairs)]), "Tchebicheff")


@harness("P33", "asf", quick=[dict()], functions=["pymoo/core/decomposition.py:Decomposition.do", D + "asf.py:ASF._do"], bounds="1-2 points, 1-3 weights, 2 objectives, all call forms")
def asf(S):
    from pymoo.decomposition.asf import ASF
    w0 = [None, 0.125][S.choose(2)]
    v, pairs, u = run(S, ASF(), 0.0, **({} if w0 is None else dict(weight_0=w0)))
    z = 1e-10 if w0 is None else w0
    for x, (f, w) in zip(v, pairs):
        S.require(S.eq(x, S.max([(f[j] - u[j]) / (w[j] if w[j] != 0 else z) for j in range(2)])), "ASF")


@harness("P33", "aasf", quick=[dict()], functions=["pymoo/core/decomposition.py:Decomposition.do", D + "aasf.py:AASF._do"], bounds="1-2 points, 1-3 weights, 2 objectives, positive weights", timeout_ms=8000)
def aasf(S):
    from pymoo.decomposition.aasf import AASF
    if S.choose(2) == 0:
        d, rho = AASF(eps=0.0, rho=0.25), 0.25
    else:
        d = AASF(eps=0.0, beta=30)
        rho = 1 / (1 - np.tan(30 / 360 * 2 * np.pi)) - 1
    try:
        AASF()
        S.require(False, "rho or beta is needed")
    except Exception as e:
        S.require("rho" in str(e), "rho or beta is needed")
    F = S.reals("F", (2, 2), -100, 100)
    f = rows(F)
    w = [[4.0, 2.0], [0.5, 1.0]][S.choose(2)]
    p = S.reals("p", (2,), -100, 100)
    v = d.do(F, S.array(w), utopian_point=p)
    for i in range(2):
        t = [(f[i][j] - p[j]) / w[j] for j in range(2)]
        S.require(S.le(S.abs(v[i] - (S.max(t) + rho * (t[0] + t[1]))), 1e-6), "AASF")


@harness("P33", "distances", quick=[dict()], functions=["pymoo/functions/standard/decomposition.py:calc_distance_to_weights", D + "pbi.py:PBI._do", D + "perp_dist.py:PerpendicularDistance._do"], bounds="2 points, weights (3, 4), (1, 0), (0, 2)", timeout_ms=8000)
def distances(S):
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    F = S.ints("F", (2, 2), -20, 20).astype(float)
    f = rows(F)
    # exact norms
    w, n = [([3.0, 4.0], 5.0), ([1.0, 0.0], 1.0), ([0.0, 2.0], 2.0)][S.choose(3)]
    u = S.array([-1.0, 2.0])
    ref = S.choose(2) == 0
    o = [-1.0, 2.0] if ref else [0.0, 0.0]
    kw = dict(ideal_point=u) if ref else {}
    W = S.array(w)
    v0 = PBI(theta=0).do(F, W, **kw)
    for i in range(2):
        S.require(S.eq(v0[i] * n, (f[i][0] - o[0]) * w[0] + (f[i][1] - o[1]) * w[1]), "projection onto the weight")
    p = PerpendicularDistance().do(F, W)
    for i in range(2):
        # in two dimensions the perpendicular distance is |cross product| / norm
        c = S.abs(f[i][0] * w[1] - f[i][1] * w[0]) / n
        S.require(S.all([S.xle(0.0, p[i]), S.le(S.abs(p[i] - c), 1e-6)]), "perpendicular distance")


@harness("P33", "pbi", quick=[dict()], functions=[D + "pbi.py:PBI._do"], bounds="1 point, one symbolic coordinate", timeout_ms=8000)
def pbi(S):
    from pymoo.decomposition.pbi import PBI
    x = S.real("x", -50, 50)
    y = [0.0, 2.0, -3.0][S.choose(3)]
    theta = [None, 0.5, 2][S.choose(3)]
    w, n = [([3.0, 4.0], 5.0), ([1.0, 0.0], 1.0)][S.choose(2)]
    d = PBI() if theta is None else PBI(theta=theta)
    v = d.do(S.array([[x, y]]), S.array([w])).reshape(-1)
    d1 = (x * w[0] + y * w[1]) / n
    d2 = S.abs(x * w[1] - y * w[0]) / n
    S.require(S.le(S.abs(v[0] - (d1 + (5 if theta is None else theta) * d2)), 1e-6), "PBI")


@harness("P33", "monotone", quick=[dict()], functions=[D + "asf.py:ASF._do", D + "tchebicheff.py:Tchebicheff._do", D + "weighted_sum.py:WeightedSum._do", D + "aasf.py:AASF._do"], bounds="2 points, 3 objectives, representative weights")
def monotone(S):
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    d = [ASF, Tchebicheff, WeightedSum, lambda: AASF(rho=0.5)][S.choose(4)]()
    F = S.reals("F", (2, 3), lo=0)
    f = rows(F)
    S.assume(S.all([S.xle(f[0][j], f[1][j]) for j in range(3)]))
    w = S.array([[0.5, 0.25, 0.25], [0.0, 1.0, 0.5]][S.choose(2)])
    v = d.do(F, w)
    S.require(S.xle(v[0], v[1]), "a point that is nowhere worse has no larger value")
