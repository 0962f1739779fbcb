"""P38: multi-criteria decision making."""
import numpy as np
from symx.harness import harness
from common import meta

DM = "pymoo/core/decision_making.py"
META = meta(
    "Decision making selects by pseudo weights and trade-offs as defined",
    "Pseudo weights are each solution's distances to the nadir point, normalised by the range of each objective and to a sum of one, with the ideal and nadir point given or, without them, those of the set; the solution selected is one whose pseudo weights are closest (sum of absolute differences) to the weights asked for. "
    "The trade-off of a solution is the least ratio of sacrifice to gain over its neighbours, and high trade-off points are those at least two standard deviations above the mean or, if there are none, the largest if it is more than one above. "
    "Neighbours are the adjacent solutions for two objectives, or all solutions within the radius.",
    ["inputs"], "2-4 solutions, some objective values, ideal, nadir and weights symbolic",
    "tests check one recorded front",
    [DM, "pymoo/mcdm/pseudo_weights.py", "pymoo/mcdm/high_tradeoff.py"],
    [("pseudo weights", "pymoo/mcdm/pseudo_weights.py:PseudoWeights._do"), ("trade-off", "pymoo/mcdm/high_tradeoff.py:HighTradeoffPoints._do"), ("outliers", DM + ":find_outliers_upper_tail"), ("neighbours", DM + ":NeighborFinder.find")],
    "bounded: 2-5 solutions and 2-3 objectives; the search tree is modelled by its definition; compromise programming is not implemented by pymoo")


@harness("P38", "pseudo", quick=[dict(n=n, m=m, given=g) for n, m in ((2, 2), (3, 2), (3, 3)) for g in (False, True)] + [dict(n=4, m=2, given=True)], functions=["pymoo/mcdm/pseudo_weights.py:PseudoWeights._do"],
         bounds="2-4 solutions with 2-3 objectives; ideal and nadir given: one solution symbolic within them; otherwise the weights symbolic", resolve=True)
def pseudo(S, n, m, given):
    from pymoo.mcdm.pseudo_weights import PseudoWeights
    base = [[0.5, 3.0, 1.0], [2.0, 1.0, 3.0], [1.5, 2.0, 0.25], [3.0, 0.5, 2.0]][:n]
    F = [r[:m] for r in base]
    if given:
        ideal, nadir = [0.0] * m, [4.0] * m
        F[0] = [S.real("f%d" % j, lo=0, hi=3.5) for j in range(m)]
        w = [0.75] + [0.25 / (m - 1)] * (m - 1)
        dm = PseudoWeights(S.array(w), ideal=np.array(ideal), nadir=np.array(nadir))
    else:
        ideal, nadir = [min(r[j] for r in F) for j in range(m)], [max(r[j] for r in F) for j in range(m)]
        w = [S.real("w%d" % j, lo=0, hi=1) for j in range(m - 1)]
        w.append(1 - S.sum(w) if m == 2 else S.real("w2", lo=0, hi=1))
        dm = PseudoWeights(S.array(w))
    A = S.array(F)
    I, P = dm.do(A, return_pseudo_weights=True)
    raw = [[(nadir[j] - r[j]) / (nadir[j] - ideal[j]) for j in range(m)] for r in F]
    want = [[v / S.sum(r) for v in r] for r in raw]
    for i in range(n):
        S.require(S.all([S.le(S.abs(P[i, j] - want[i][j]), 1e-9) for j in range(m)]), "pseudo weights are the normalised distances to the nadir point")
    d = [S.sum([S.abs(want[i][j] - w[j]) for j in range(m)]) for i in range(n)]
    S.require(S.all([S.le(d[int(I)], v + 1e-9) for v in d]), "the selected solution has the closest pseudo weights")
    S.require(S.eq(dm.do(A), I), "the same solution is selected without the weights being returned")
    S.require(S.all([S.same(A[i, j], F[i][j]) for i in range(n) for j in range(m)]), "the objective values are not changed")


@harness("P38", "tradeoff", quick=[dict(n=n, k=k) for n, k in ((3, 0), (3, 2), (4, 0), (4, 3))], functions=["pymoo/mcdm/high_tradeoff.py:HighTradeoffPoints._do"], bounds="3-4 mutually non-dominated solutions, one objective value symbolic, all solutions neighbours",
         stubs=["neighbours are all solutions", "the selection of outliers records the trade-offs"], resolve=True)
def tradeoff(S, n, k):
    from pymoo.mcdm import high_tradeoff as H
    F = [[0.0, 8.0], [1.0, 4.0], [2.0, 2.0], [5.0, 0.0]][-n:]
    lo, hi = (F[k + 1][1] if k + 1 < n else -1.0), (F[k - 1][1] if k else 12.0)
    F[k][1] = S.real("f", lo=lo + 0.125, hi=hi - 0.125)
    got, args = [], []

    class Finder:
        def __init__(self, N, epsilon=None, **kwargs):
            args.append(epsilon)

        def find(self, i):
            return list(range(n))
    old = H.NeighborFinder, H.find_outliers_upper_tail
    H.NeighborFinder, H.find_outliers_upper_tail = Finder, lambda mu: got.extend(mu)
    try:
        H.HighTradeoffPoints(epsilon=0.25).do(S.array(F))
    finally:
        H.NeighborFinder, H.find_outliers_upper_tail = old
    S.require(args == [0.25], "neighbours are searched in the radius asked for")
    S.require(len(got) == n, "one trade-off per solution")
    for i in range(n):
        r = []
        for j in range(n):
            if j != i:
                d = [F[j][c] - F[i][c] for c in range(2)]
                r.append(S.sum([S.max([0, v]) for v in d]) / S.sum([S.max([0, -v]) for v in d]))
        S.require(S.le(S.abs(got[i] - S.min(r)), 1e-9), "the trade-off is the least sacrifice per gain of the neighbours")


@harness("P38", "outliers", quick=[dict(n=n, k=k) for n, k in ((3, 0), (4, 0), (6, 0), (6, 1), (8, 0))], functions=[DM + ":find_outliers_upper_tail"], bounds="3-8 values, one of them symbolic, up to one NaN or infinite value", resolve=True)
def outliers(S, n, k):
    from pymoo.core.decision_making import find_outliers_upper_tail
    mu = [1.0, 1.5, 0.75, 1.25, 1.0, 0.5, 1.125, 0.875][:n]
    if n == 8:
        mu[1] = 6.0
    x = S.real("x", lo=-8, hi=16)
    mu[n // 2] = x
    vals = list(range(n))
    if k:
        mu[0] = S.pick([float("nan"), float("inf"), float("-inf")])
        vals = vals[1:]
    m = S.sum([mu[i] for i in vals]) / len(vals)
    var = S.sum([(mu[i] - m) * (mu[i] - m) for i in vals]) / len(vals)
    dev = [mu[i] - m for i in vals]

    def over(d, t):  # d >= t standard deviations
        return S.all([S.xle(0, d), S.xle(t * t * var, d * d)])
    for d in dev:
        for t in (1, 2):
            S.assume(S.any([S.xlt(d, 0), S.xlt(1e-6, S.abs(d * d - t * t * var))]))
    got = find_outliers_upper_tail(S.array(mu))
    S2 = [i for i, d in zip(vals, dev) if S.truth(over(d, 2))]
    if not S2:
        big = [i for i, d in zip(vals, dev) if S.truth(S.all([over(d, 1), S.all([S.xle(e, d) for e in dev])]))]
        S.require((got is None) == (not big), "there are high trade-off points if one is more than a standard deviation above the mean")
        if got is not None:
            S.require(len(got) == 1 and int(got[0]) in big, "the largest value is selected")
    else:
        S.require(got is not None and sorted(int(i) for i in got) == S2, "values two standard deviations above the mean are selected")


@harness("P38", "neighbours", quick=[dict(n=n) for n in (2, 3, 4)], functions=[DM + ":NeighborFinder.find"], bounds="2-4 solutions of two objectives in every order", resolve=True)
def neighbours(S, n):
    from pymoo.core.decision_making import NeighborFinder
    x = [S.real("x%d" % i, lo=0, hi=1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.ne(x[i], x[j]))
    f = NeighborFinder(S.array([[v, 1 - v] for v in x]))
    for i in range(n):
        got = [int(v) for v in f.find(i)]
        below = [j for j in range(n) if S.truth(S.xlt(x[j], x[i]))]
        above = [j for j in range(n) if j != i and j not in below]
        want = [j for j in below if S.truth(S.all([S.xle(x[o], x[j]) for o in below]))] + [j for j in above if S.truth(S.all([S.xle(x[j], x[o]) for o in above]))]
        S.require(got == want, "the neighbours are the adjacent solutions")
