"""P03: the survivals of AGE-MOEA, AGE-MOEA-II and R-NSGA-II."""
import math

import numpy as np
from symx.harness import harness
from common import dom, meta, pop_of, problem, rows, uids

A = "pymoo/algorithms/moo/"
META = meta(
    "AGE-MOEA and R-NSGA-II rank by fronts, then by geometry or preference",
    "AGE-MOEA(-II): n_survive solutions survive, all better fronts completely, and of the splitting front those with the highest survival scores: the corner solutions of the first front first, then greedily the solution with the largest sum of the distances "
    "to its two closest selected neighbours (relative to the distance to the ideal point); solutions of later fronts the closer to the ideal point the better. "
    "R-NSGA-II: all better fronts survive and of the splitting front those with the best preference rank, which is the best position of a solution among the distances to each reference point; solutions closer than epsilon to a preferred one are set back. "
    "The distances are weighted and normalised and are numbers also if an objective has no range; the reference points are those the user has given (plus, if asked for, the extreme points of the current population).",
    ["inputs", "histories"], "all bounded populations and survivor counts",
    "tests only check that two runs with one seed agree and that single examples run without error",
    [A + "age.py", A + "age2.py", A + "rnsga2.py", "pymoo/core/survival.py"],
    [("AGE-MOEA survival", A + "age.py:AGEMOEASurvival._do"), ("survival score", A + "age.py:AGEMOEASurvival.survival_score"), ("geometry of AGE-MOEA-II", A + "age2.py:AGEMOEA2Survival"), ("R-NSGA-II survival", A + "rnsga2.py:RankAndModifiedCrowdingSurvival._do")],
    "bounded: 4-5 solutions, 2-3 objectives, representative sets with one symbolic coordinate or arbitrary scores in place of the survival score; the geometry exponent p is 1 where distances are checked")

SETS = [
    [[0.0, 4.0], [1.0, 3.0], [None, 2.0], [4.0, 0.0]],
    [[0.0, 4.0], [1.0, None], [1.0, 3.0], [3.0, 1.0]],
    [[1.0, 1.0], [2.0, None], [3.0, 2.0], [4.0, 4.0]],
    [[None, 3.0], [2.0, 1.0], [2.0, 1.0], [4.0, 0.5]],
    [[1.0, 1.0], [2.0, 3.0], [None, 2.0], [2.5, 2.5]],
]


def ranks(S, R):
    n = len(R)
    d = [[i != j and S.truth(dom(S, R[i], R[j])) for j in range(n)] for i in range(n)]
    rank, left, k = [None] * n, set(range(n)), 0
    while left:
        f = [j for j in left if not any(d[i][j] for i in left)]
        for j in f:
            rank[j] = k
        left -= set(f)
        k += 1
    return rank


@harness("P03", "age_survival", quick=[dict(two=0), dict(two=1)], functions=[A + "age.py:AGEMOEASurvival._do", "pymoo/core/survival.py:Survival.do"], stubs=["survival_score: arbitrary scores of the first front, p=1, given normalisation"],
         bounds="4 solutions, one symbolic coordinate, all n_survive, symbolic scores of the first front; the order within a later splitting front is the known finding", timeout_ms=8000)
def age_survival(S, two):
    age_do(S, two, False)


@harness("P03", "age_last_front", quick=[dict(two=0)], functions=[A + "age.py:AGEMOEASurvival._do"], stubs=["survival_score: arbitrary scores of the first front, p=1, given normalisation"], finding=True,
         bounds="as age_survival, including the order within a later splitting front", timeout_ms=8000)
def age_last_front(S, two):
    age_do(S, two, True)


def age_do(S, two, strict):
    if two:
        from pymoo.algorithms.moo.age2 import AGEMOEA2Survival as C
    else:
        from pymoo.algorithms.moo.age import AGEMOEASurvival as C
    n = 4
    t = S.real("t", lo=0.5, hi=6)
    F = S.array([[t if v is None else v for v in r] for r in SETS[S.choose(len(SETS))]])
    k = 1 + S.choose(n)
    R = rows(F)
    F0 = F.copy()
    pop = pop_of(S, F=F, CV=np.zeros((n, 1)))
    sv = C()
    sc = S.reals("s", (n,), lo=0, hi=9)
    nrm = np.array([2.0, 4.0])
    sv.survival_score = lambda front, ideal: (sc[: len(front)], 1, nrm)
    ids = uids(sv.do(problem(n_var=1, n_obj=2), pop, n_survive=k))
    rk = ranks(S, R)
    S.require(len(ids) == k and len(set(ids)) == k, "n_survive distinct survivors")
    split = max(rk[i] for i in ids)
    S.require(all(i in ids for i in range(n) if rk[i] < split), "better fronts survive")
    front = [i for i in range(n) if rk[i] == split]
    f0 = [i for i in range(n) if rk[i] == 0]
    ideal = [S.min([R[i][j] for i in f0]) for j in range(2)]
    far = {i: S.abs(R[i][0] / 2.0 - ideal[0]) + S.abs(R[i][1] / 4.0 - ideal[1]) for i in front}
    unscored = split > 0 and all(S.truth(S.same(pop[i].get("crowding"), 0)) for i in front)
    for a in front:
        for b in front:
            if a in ids and b not in ids:
                if split == 0:
                    S.require(S.xle(sc[f0.index(b)], sc[f0.index(a)]), "highest scores survive")
                elif strict or not unscored:
                    S.require(S.xle(far[a] - far[b], 1e-9), "the closest to the ideal point survive")
    for i in ids:
        S.require(int(pop[i].get("rank")) == rk[i], "rank stored")
    S.require(S.all([S.same(pop[i].F[j], F0[i, j]) for i in range(n) for j in range(2)]), "objective values unchanged")


@harness("P03", "age_score", quick=[dict(k=0), dict(k=1), dict(k=2)], functions=[A + "age.py:AGEMOEASurvival.survival_score", A + "age.py:find_corner_solutions", A + "age.py:normalize", A + "age.py:AGEMOEASurvival.pairwise_distances"], stubs=["compute_geometry: p = 1"],
         bounds="front of 4 with one symbolic coordinate, 2 objectives", timeout_ms=10000, resolve=True)
def age_score(S, k):
    score(S, k, lambda own, other: S.any([own(), other()]))


@harness("P03", "age_proximity", quick=[dict(k=0)], functions=[A + "age.py:AGEMOEASurvival.survival_score"], stubs=["compute_geometry: p = 1"], finding=True, bounds="as age_score, relative to the solution's own proximity", timeout_ms=10000, resolve=True)
def age_proximity(S, k):
    score(S, k, lambda own, other: own())


def score(S, k, which):
    from pymoo.algorithms.moo import age as M
    n = 4
    F, lo, hi = [([[0.0, 4.0], [None, 2.0], [2.0, 1.0], [4.0, 0.0]], 0.25, 1.75), ([[0.0, 3.0], [1.0, None], [2.0, 1.5], [5.0, 1.0]], 1.75, 2.75), ([[0.0, 3.0], [1.0, 2.0], [None, 1.0], [4.0, 0.5]], 1.25, 3.75)][k]
    t = S.real("t", lo=lo, hi=hi)
    F = S.array([[t if v is None else v for v in r] for r in F])
    R = rows(F)
    sv = M.AGEMOEASurvival()
    sv.compute_geometry = lambda front, extreme, m: 1
    ideal = F.min(axis=0)
    score, p, norm = sv.survival_score(F.copy(), ideal)
    I = [S.min([r[j] for r in R]) for j in range(2)]
    T = [[r[j] - I[j] for j in range(2)] for r in R]
    corner = [i for i in range(n) if not S.truth(S.finite(score[i]))]
    S.require(len(corner) == 2, "two corner solutions")
    S.require(p == 1 and S.truth(S.all([S.xlt(0, norm[j]) for j in range(2)])), "positive normalisation")
    N = [[T[i][j] / norm[j] for j in range(2)] for i in range(n)]
    nn = [N[i][0] + N[i][1] for i in range(n)]
    rest = [i for i in range(n) if i not in corner]
    a, b = rest if S.truth(S.xle(score[rest[1]], score[rest[0]])) else rest[::-1]

    def ok(own):
        d = lambda i, j: (S.abs(N[i][0] - N[j][0]) + S.abs(N[i][1] - N[j][1])) / nn[i if own else j]
        first = {i: d(i, corner[0]) + d(i, corner[1]) for i in rest}
        near = [d(b, corner[0]), d(b, corner[1]), d(b, a)]
        return S.all([S.le(S.abs(score[a] - first[a]), 1e-6), S.le(first[b], first[a] + 1e-6), S.le(S.abs(score[b] - (near[0] + near[1] + near[2] - S.max(near))), 1e-6)])
    S.require(which(lambda: ok(True), lambda: ok(False)), "the distance to the two closest selected solutions, largest first")


@harness("P03", "age_corners", quick=[dict(m=2), dict(m=3)], functions=[A + "age.py:find_corner_solutions", A + "age.py:point_2_line_distance"], bounds="front of 4-5 with one symbolic coordinate", timeout_ms=10000)
def age_corners(S, m):
    from pymoo.algorithms.moo.age import find_corner_solutions
    t = S.real("t", lo=0, hi=3)
    F = [[[0.0, 4.0], [1.0, 2.0], [t, 1.0], [4.0, 0.0]], [[t, 4.0], [0.5, 5.0], [2.0, 1.0]], [[0.5, 0.5], [3.0, 1.0 + t], [2.0, 3.0]], [[1.0, 1.0], [1.0, 1.0], [1.0, 1.0]]] if m == 2 else [[[0.0, 0.0, 4.0], [4.0, t, 0.0], [1.0, 1.0, 1.0], [0.0, 3.0, 0.5], [2.0, 2.0, t]]]
    F = S.array(S.pick(F))
    R = rows(F)
    E = [int(v) for v in find_corner_solutions(F)]
    S.require(len(E) == m and len(set(E)) == m, "one corner solution per objective")
    w = lambda r, k: off_axis(r, k, m)
    for k, e in enumerate(E):
        for i in range(len(R)):
            if i not in E[: k + 1]:
                S.require(S.xle(w(R[e], k) - w(R[i], k), 1e-4), "the closest solution to each axis")


def off_axis(r, k, m):
    return sum(r[j] * r[j] for j in range(m) if j != k)


@harness("P03", "age2_distances", quick=[dict()], functions=[A + "age2.py:AGEMOEA2Survival.pairwise_distances", A + "age2.py:project_on_manifold"], bounds="3 solutions with one symbolic coordinate, p = 1", timeout_ms=10000)
def age2_distances(S):
    from pymoo.algorithms.moo.age2 import AGEMOEA2Survival
    t = S.real("t", lo=0.25, hi=4)
    F = S.array(S.pick([[[t, 1.0], [2.0, 3.0], [0.0, 1.0]], [[0.5, t], [1.0, 1.0], [2.0, 0.0]]]))
    R = rows(F)
    D = AGEMOEA2Survival.pairwise_distances(F, 1.0)
    N = [[r[j] / (r[0] + r[1]) for j in range(2)] for r in R]
    for i in range(3):
        S.require(S.eq(D[i, i], 0.0), "no distance to itself")
        for j in range(3):
            S.require(S.same(D[i, j], D[j, i]), "symmetric")
            if i != j:
                want = (N[i][0] - N[j][0]) * (N[i][0] - N[j][0]) + (N[i][1] - N[j][1]) * (N[i][1] - N[j][1])
                S.require(S.all([S.le(0, D[i, j]), S.le(S.abs(D[i, j] * D[i, j] - want), 1e-6)]), "distance of the projections onto the simplex")


@harness("P03", "rnsga2_distance", quick=[dict()], functions=[A + "rnsga2.py:calc_norm_pref_distance"], bounds="2x2 points with symbolic coordinates, representative weights and ranges including an empty one", timeout_ms=10000)
def rnsga2_distance(S):
    from pymoo.algorithms.moo.rnsga2 import calc_norm_pref_distance
    a = S.reals("a", (2,), lo=-4, hi=4)
    X, Y = S.array([[a[0], 1.0], [2.0, a[1]]]), np.array([[0.5, 1.0], [3.0, -2.0]])
    w = S.pick([np.array([0.5, 0.5]), np.array([0.25, 0.75])])
    lo, hi = S.pick([(np.array([0.0, 0.0]), np.array([1.0, 1.0])), (np.array([-1.0, 2.0]), np.array([3.0, 4.0])), (np.array([0.0, 1.0]), np.array([2.0, 1.0]))])
    D = calc_norm_pref_distance(X, Y, w, lo, hi)
    S.require(D.shape == (2, 2), "one distance per pair")
    for i in range(2):
        for j in range(2):
            S.require(S.finite(D[i, j]), "a number")
            if hi[1] > lo[1]:
                u = [(X[i, q] - float(Y[j, q])) / float(hi[q] - lo[q]) for q in range(2)]
                want = 2 * (float(w[0]) * u[0] * u[0] + float(w[1]) * u[1] * u[1])
                S.require(S.all([S.le(0, D[i, j]), S.le(S.abs(D[i, j] * D[i, j] - want), 1e-6)]), "weighted normalised distance")


class Dist:
    """arbitrary distances (checked by themselves in `rnsga2_distance`)"""

    def __init__(self, S, F, n, k, eps):
        self.F, self.S = F, S
        self.ref = S.array(S.pick([[[0.1, 0.9], [0.2, 0.3], [0.4, 0.2], [0.8, 0.1]], [[0.5, 0.5], [0.1, 0.2], [0.3, 0.1], [0.2, 0.4]]]))[:n, :k]
        t = S.real("d", lo=0, hi=1)
        self.ref[1, 0] = t
        close = S.pick([[], [(0, 1)], [(0, 1), (1, 2)], [(2, 3), (1, 3)]])
        self.other = np.ones((n, n))
        for i, j in close:
            self.other[i, j] = self.other[j, i] = 0.01
        self.calls = []

    def __call__(self, X, Y, weights, ideal, nadir):
        I = self.idx(X)
        self.calls.append((len(X), len(Y), ideal, nadir))
        if len(X) == len(self.F) and len(self.calls) == 1:
            self.refs = np.array(Y, dtype=float)
            return self.ref.copy()
        return self.other[np.ix_(I, I)].copy()

    def idx(self, X):
        return [next(i for i, f in enumerate(self.F.tolist()) if f == [float(v) for v in r]) for r in X]


@harness("P03", "rnsga2_survival", quick=[dict()], functions=[A + "rnsga2.py:RankAndModifiedCrowdingSurvival._do"], stubs=["calc_norm_pref_distance: a table with one symbolic distance"],
         bounds="4 solutions in representative fronts, 1-2 reference points, a symbolic distance, all close pairs of a list, all n_survive", timeout_ms=8000)
def rnsga2_survival(S):
    from pymoo.algorithms.moo import rnsga2 as M
    n = 4
    F = np.array(S.pick([[[0.0, 4.0], [1.0, 3.0], [2.0, 2.0], [4.0, 0.0]], [[1.0, 1.0], [0.5, 3.0], [2.0, 2.0], [3.0, 1.5]], [[3.0, 3.0], [0.0, 2.0], [1.0, 1.0], [2.0, 0.0]]]))
    nref = 1 + S.choose(2)
    k = 1 + S.choose(n)
    refs = np.array([[0.0, 1.0], [2.0, 0.5]])[:nref]
    pop = pop_of(S, F=F.copy(), CV=np.zeros((n, 1)))
    sv = M.RankAndModifiedCrowdingSurvival(refs, 0.05, None, "front", False)
    T = Dist(S, F, n, nref, 0.05)
    orig = M.calc_norm_pref_distance
    M.calc_norm_pref_distance = T
    try:
        ids = uids(sv.do(problem(n_var=1, n_obj=2), pop, n_survive=k))
    finally:
        M.calc_norm_pref_distance = orig
    S.require(len(ids) == k and len(set(ids)) == k, "n_survive distinct survivors")
    S.require(np.array_equal(T.refs, refs), "the user's reference points")
    rk = ranks(S, F.tolist())
    split = max(rk[i] for i in ids)
    S.require(all(i in ids for i in range(n) if rk[i] < split), "better fronts survive")
    for q in range(split + 1):
        front = [i for i in range(n) if rk[i] == q]
        pos = {}
        for i in front:
            pos[i] = min(sum(1 for j in front if j != i and S.truth(S.xlt(T.ref[j, c], T.ref[i, c]))) for c in range(nref))
        full = sum(1 for i in range(n) if rk[i] <= q) <= k
        cr = {i: int(-pop[i].get("crowding")) for i in front}
        back = int(np.round(len(front) / 2))
        ties = any(S.truth(S.same(T.ref[i, c], T.ref[j, c])) for c in range(nref) for i in front for j in front if i < j)
        if ties:
            S.skip()
        if full:
            S.require(all(cr[i] == pos[i] for i in front), "preference rank")
            continue
        S.require(all(cr[i] in (pos[i], pos[i] + back) for i in front), "preference rank, set back or not")
        ok = [i for i in front if cr[i] == pos[i]]
        for i in front:
            near = [j for j in ok if j != i and T.other[i, j] < 0.05]
            if i in ok:
                S.require(not near, "of close solutions one is preferred")
            else:
                S.require(any(pos[j] <= pos[i] for j in near), "only solutions close to a preferred one are set back")
        for a in front:
            for b in front:
                if a in ids and b not in ids:
                    S.require(cr[a] <= cr[b], "the best preference rank survives")


@harness("P03", "rnsga2_state", quick=[dict(mode="front"), dict(mode="ever"), dict(mode="no")], functions=[A + "rnsga2.py:RankAndModifiedCrowdingSurvival._do"], stubs=["calc_norm_pref_distance: records its arguments"],
         bounds="two generations of 3 solutions with one symbolic coordinate each, with and without extreme points", timeout_ms=8000)
def rnsga2_state(S, mode):
    from pymoo.algorithms.moo import rnsga2 as M
    ext = bool(S.choose(2))
    refs = np.array([[0.0, 1.0]])
    sv = M.RankAndModifiedCrowdingSurvival(refs, 0.05, None, mode, ext)
    seen = []
    t = S.reals("t", (2,), lo=-2, hi=3)
    orig = M.calc_norm_pref_distance
    try:
        for g in range(2):
            rec = []

            def stub(X, Y, weights, ideal, nadir):
                rec.append((len(X), np.array(Y), ideal, nadir))
                return np.arange(float(len(X) * len(Y))).reshape(len(X), len(Y))
            M.calc_norm_pref_distance = stub
            F = S.array([[t[g], 3.0 - g], [1.0, 2.0], [4.0, 1.0]])
            R = rows(F)
            seen += R
            sv.do(problem(n_var=1, n_obj=2), pop_of(S, F=F, CV=np.zeros((3, 1))), n_survive=3)
            rk = ranks(S, R)
            base = dict(front=[R[i] for i in range(3) if rk[i] == 0], ever=seen, no=[[0.0, 0.0], [1.0, 1.0]])[mode]
            if len(base) > 1:
                for j in range(2):
                    S.require(S.eq(rec[0][2][j], S.min([r[j] for r in base])), "ideal point used for the normalisation")
                    S.require(S.eq(rec[0][3][j], S.max([r[j] for r in base])), "nadir point used for the normalisation")
            S.require(len(rec[0][1]) == (3 if ext else 1), "reference points of the user and the extreme points of this generation")
            S.require(S.all([S.eq(rec[0][1][0, j], float(refs[0, j])) for j in range(2)]), "the user's reference points")
    finally:
        M.calc_norm_pref_distance = orig
