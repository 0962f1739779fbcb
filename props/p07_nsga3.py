"""P07: NSGA-III survival by reference directions."""
import itertools

import numpy as np
from symx.harness import harness
from common import dom, meta, pop_of, problem, rows, uids, vsame

M = "pymoo/algorithms/moo/nsga3.py:"
META = meta(
    "NSGA-III keeps the better fronts and balances the niches of the last one",
    "NSGA-III's survival returns exactly n_survive distinct members of the given population: every solution of the fronts before the splitting front and none behind it, "
    "filling up with the least violating infeasible ones only if there are not enough feasible ones. Every solution is associated with the reference line closest to it after normalisation and the stored distance is the "
    "perpendicular distance to that line. From the splitting front the niching always serves a niche with the fewest members among those that still have candidates, and an empty niche gets its closest candidate. "
    "The ideal and the worst point are those of all feasible solutions ever seen, the nadir point never lies below the ideal or beyond the worst point, the extreme points are solutions that have been seen, "
    "and the reported optimum is a non-empty part of the first front (or the least infeasible solution). "
    "Its tournaments prefer the smaller violation; U-NSGA-III's prefer the better rank and then the smaller distance within a niche; everything else is decided by a fair draw between the two.",
    ["inputs", "histories"], "all bounded sets of objective values, violations, niche assignments, distances and niche counts, and all random draws",
    "tests run the algorithm on benchmark problems and look at final quality; a niche that is served too often or a lost first-front solution changes a run only slightly",
    ["pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/unsga3.py", "pymoo/core/survival.py"],
    [("niching", M + "niching"), ("association", M + "associate_to_niches"), ("normalisation", M + "HyperplaneNormalization.update"), ("survival", M + "ReferenceDirectionSurvival._do"),
     ("tournaments", M + "comp_by_cv_then_random"), ("tournaments", "pymoo/algorithms/moo/unsga3.py:comp_by_rank_and_ref_line_dist")],
    "bounded: up to 5 solutions, 3 niches, 2-3 objectives; niching, association and tournaments over fully symbolic distances, draws and violations; the whole survival and the normalisation over representative objective sets "
    "with one symbolic coordinate (the hyperplane solve is nonlinear)")


@harness("P07", "niching", quick=[dict(n=4, k=3), dict(n=3, k=2, big=1)], thorough=[dict(n=5, k=3), dict(n=4, k=3, big=1), dict(n=4, k=2, big=1)],
         functions=[M + "niching", M + "calc_niche_count"], bounds="4 candidates, 3 niches with representative assignments and counts (big: 3 candidates, 2 niches, all assignments and counts up to 5), symbolic distances and draws")
def niching(S, n, k, big=0):
    from pymoo.algorithms.moo.nsga3 import niching
    D = S.reals("d", (n,), lo=0)
    if big:
        niche = np.array([0] + [S.choose(k) for _ in range(n - 1)])
        count0 = np.array([int(c) for c in [S.choose(6) for _ in range(k)]])
        m = 1 + S.choose(n)
    else:
        niche = np.array(S.pick([[0, 0, 0, 0, 0], [0, 1, 0, 0, 1], [0, 2, 1, 0, 1], [1, 1, 2, 1, 2]])[:n])
        count0 = np.array(S.pick([[0, 0, 0, 0], [0, 1, 0, 2], [2, 0, 0, 1], [3, 1, 1, 1]])[:k])
        m = 1 + S.choose(n)
    count = count0.copy()
    pop = list(range(n))
    got = niching(pop, m, count, niche, D, random_state=S.rng())
    S.require(len(got) == m, "number of survivors")
    S.require(len(set(got)) == m and all(0 <= int(g) < n for g in got), "distinct members of the front")
    add = np.zeros(k, dtype=int)
    for g in got:
        add[niche[g]] += 1
    S.require(all(int(count[j]) == count0[j] + add[j] for j in range(k)), "niche counts updated")
    left = {int(niche[i]) for i in range(n) if i not in got}
    for i in range(k):
        for j in left:
            if add[i]:
                S.require(count0[i] + add[i] <= count0[j] + add[j] + 1, "the niches with the fewest members come first")
    for j in range(k):
        if add[j] and count0[j] == 0:
            mem = [i for i in range(n) if niche[i] == j]
            S.require(S.any([S.all([S.xle(D[i], D[o]) for o in mem]) for i in mem if i in got]), "an empty niche gets its closest candidate")


DIRS = {2: np.array([[1.0, 0.0], [0.5, 0.5], [0.0, 1.0]]), 3: np.array([[1.0, 0.0, 0.0], [0.0, 0.5, 0.5], [1 / 4, 1 / 4, 1 / 2]])}


@harness("P07", "associate", quick=[dict(m=2), dict(m=3)], thorough=[dict(m=2, sym=2), dict(m=3, sym=2)],
         functions=[M + "associate_to_niches", "pymoo/util/reference_direction.py", "pymoo/functions/standard/calc_perpendicular_distance.py"],
         bounds="two points with one (thorough: two) symbolic coordinates, representative ideal/nadir points including a degenerate range, 3 lines", timeout_ms=8000)
def associate(S, m, sym=1):
    from pymoo.algorithms.moo.nsga3 import associate_to_niches
    refs = DIRS[m]
    t = S.reals("t", (sym,), lo=-2, hi=6)
    rest = S.pick([1.0, 0.25])
    F = S.array([[t[0], t[1] if sym > 1 else rest, 0.5][:m], [rest, 2.0, t[0]][:m]])
    ideal, nadir = [(np.array([0.0, 0.0, 0.0]), np.array([1.0, 2.0, 4.0])), (np.array([-2.0, 0.25, 0.0]), np.array([6.0, 0.5, 1.0])),
                    (np.array([0.0, 1.0, 0.0]), np.array([2.0, 1.0, 3.0]))][S.choose(3)]
    ideal, nadir = ideal[:m], nadir[:m]
    i0, n0 = ideal.copy(), nadir.copy()
    niche, dist, D = associate_to_niches(F, refs, ideal, nadir)
    den = np.where(n0 - i0 == 0, 1e-12, n0 - i0)
    S.require(np.array_equal(ideal, i0) and np.array_equal(nadir, n0), "inputs unchanged")
    degenerate = bool(np.any(n0 == i0))
    for i in range(2):
        N = [(F[i, j] - i0[j]) / den[j] for j in range(m)]
        S.require(S.same(dist[i], D[i, int(niche[i])]), "distance to the own niche")
        for q in range(len(refs)):
            S.require(S.xle(dist[i], D[i, q]), "the closest niche is chosen")
            if degenerate:
                continue
            d = refs[q]
            dot = sum(N[j] * d[j] for j in range(m))
            want = sum(v * v for v in N) - dot * dot / float(d @ d)
            got = D[i, q] * D[i, q]
            S.require(S.all([S.le(0, D[i, q]), S.xle(got - want, 1e-9), S.xle(want - got, 1e-9)]), "perpendicular distance to the line")


SETS = [
    [[0.0, 4.0], [4.0, 0.0], [2.0, 2.0], [None, 1.0], [5.0, 5.0]],
    [[0.0, 4.0], [0.0, 4.0], [1.0, None], [3.0, 1.0], [4.0, 3.0]],
    [[None, 3.0], [2.0, 3.0], [3.0, 3.0], [3.0, 5.0], [2.0, 4.0]],
    [[1.0, 1.0], [None, 2.0], [2.0, 0.5], [5.0, 5.0], [0.5, 6.0]],
]


def objs(S, n, which, name="t"):
    t = S.real(name, lo=-1, hi=6)
    return S.array([[t if v is None else v for v in r] for r in SETS[which][:n]])


def ranks(S, R):
    """non-domination rank of each row (forks)"""
    n = len(R)
    d = [[i != j and S.truth(dom(S, R[i], R[j])) for j in range(n)] for i in range(n)]
    rank, left, k = [None] * n, set(range(n)), 0
    while left:
        f = [j for j in left if not any(d[i][j] for i in left)]
        for j in f:
            rank[j] = k
        left -= set(f)
        k += 1
    return rank


class Assoc:
    """the association as a table of arbitrary distances (checked by itself in `associate`)"""

    def __init__(self, S, F, k):
        self.F, n = F, len(F)
        self.niche = np.array(S.pick([[0, 1, 0, 0, 1], [0, 0, 0, 0, 0], [1, 0, 2, 0, 1]])[:n])
        D = S.reals("D", (n, k), lo=0)
        for i in range(n):
            for q in range(k):
                if q != self.niche[i]:
                    S.assume(S.lt(D[i, int(self.niche[i])], D[i, q]))
        self.D = D

    def __call__(self, F, niches, ideal, nadir, **kwargs):
        I = [next(i for i, f in enumerate(self.F.tolist()) if f == [float(v) for v in r]) for r in F]
        D = self.D[I]
        niche = self.niche[I]
        return niche, D[np.arange(len(I)), niche], D


@harness("P07", "survival", quick=[dict(n=4, con=0), dict(n=4, con=1), dict(n=4, con=0, real=1)],
         thorough=[dict(n=5, con=0), dict(n=5, con=1), dict(n=4, con=0, real=2), dict(n=4, con=1, real=2)],
         functions=[M + "ReferenceDirectionSurvival._do", M + "HyperplaneNormalization.update", M + "get_extreme_points_c", M + "get_nadir_point", "pymoo/core/survival.py:Survival.do"],
         bounds="4 solutions, representative objective sets, all n_survive; symbolic distances to 3 lines in place of the association (real: the real association of 2 objectives with one symbolic value); "
                "with constraints: every feasibility pattern, symbolic violations", timeout_ms=8000)
def survival(S, n, con, real=0):
    from pymoo.algorithms.moo import nsga3
    from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
    which = S.choose(len(SETS)) if real != 1 else S.pick([0, 2])
    if real:
        F = objs(S, n, which)
        k = 2 if real == 1 else 1 + S.choose(n)
    else:
        t = S.pick([0.5, 2.0])
        F = np.array([[t if v is None else v for v in r] for r in SETS[which][:n]])
        k = 1 + S.choose(n)
    R = rows(F)
    p = problem(n_var=1, n_obj=2, n_ieq=1 if con else 0)
    CV = np.zeros((n, 1))
    infeas = []
    if con:
        infeas = S.pick([[0], [1, 3], [0, 1, 2], [1, 2, 3]])
        c = S.reals("cv", (n,), lo=0.25, hi=4)
        CV = S.array([[c[i] if i in infeas else 0.0] for i in range(n)])
    pop = pop_of(S, F=F, CV=CV)
    sv = ReferenceDirectionSurvival(DIRS[2])
    orig = nsga3.associate_to_niches
    if not real:
        nsga3.associate_to_niches = Assoc(S, F, 3)
    try:
        out = sv.do(p, pop, n_survive=k, random_state=S.rng())
    finally:
        nsga3.associate_to_niches = orig
    ids = uids(out)
    S.require(len(ids) == k and len(set(ids)) == k, "n_survive distinct survivors")
    feas = [i for i in range(n) if i not in infeas]
    rk = dict(zip(feas, ranks(S, [R[i] for i in feas])))
    if len(feas) >= k:
        S.require(all(i in feas for i in ids), "infeasible solutions only if there are not enough feasible ones")
    else:
        S.require(all(i in ids for i in feas), "all feasible solutions survive")
        for a in infeas:
            for b in infeas:
                if a in ids and b not in ids:
                    S.require(S.xle(CV[a, 0], CV[b, 0]), "least violating infeasible solutions")
    for a in feas:
        for b in feas:
            if a in ids and b not in ids:
                S.require(rk[a] <= rk[b], "no solution survives one of a better front")
    if feas:
        split = max(rk[i] for i in ids if i in rk)
        S.require(all(i in ids for i in feas if rk[i] < split), "all better fronts survive")
        opt = uids(sv.opt)
        S.require(len(opt) > 0 and all(rk[i] == 0 for i in opt), "the optimum is a non-empty part of the first front")
        for i in ids:
            if i in feas:
                S.require(int(pop[i].get("rank")) == rk[i], "rank stored")
        lo = [S.min([R[i][j] for i in feas]) for j in range(2)]
        S.require(S.all([S.eq(sv.norm.ideal_point[j], lo[j]) for j in range(2)]), "ideal point")


@harness("P07", "hyperplane", quick=[dict(m=2)], thorough=[dict(m=2, more=1), dict(m=3)],
         functions=[M + "HyperplaneNormalization.update", M + "get_extreme_points_c", M + "get_nadir_point"],
         bounds="two generations of 3 solutions, representative sets with one symbolic value each", timeout_ms=8000)
def hyperplane(S, m, more=0):
    from pymoo.algorithms.moo.nsga3 import HyperplaneNormalization
    norm = HyperplaneNormalization(m)
    seen = []
    t = S.real("t", lo=-3, hi=5)
    gens = [[[0.0, 4.0, 2.0], [2.0, 1.0, 1.0], [4.0, 0.0, 3.0]], [[t, 2.0, 2.0], [1.0, 1.0, 0.0], [3.0, t if more else 0.5, 1.0]]]
    if S.choose(2):
        gens = gens[::-1]
    if S.choose(2):
        gens[0] = [r[:1] + [1.0] + r[2:] for r in gens[0]]
    for g in gens:
        F = S.array([r[:m] for r in g])
        R = rows(F)
        rk = ranks(S, R)
        norm.update(F, nds=np.array([i for i in range(3) if rk[i] == 0]))
        seen += R
        for j in range(m):
            lo, hi = S.min([r[j] for r in seen]), S.max([r[j] for r in seen])
            S.require(S.eq(norm.ideal_point[j], lo), "ideal point of everything seen")
            S.require(S.eq(norm.worst_point[j], hi), "worst point of everything seen")
            S.require(S.all([S.xle(lo, norm.nadir_point[j]), S.xle(norm.nadir_point[j], hi)]), "nadir point between ideal and worst")
            S.require(S.implies(S.xle(norm.nadir_point[j] - lo, 1e-6), S.eq(norm.nadir_point[j], S.max([r[j] for r in R]))), "a small range falls back to the worst of the population")
        E = norm.extreme_points
        S.require(E.shape == (m, m), "one extreme point per objective")
        for e in range(m):
            S.require(S.any([S.all([S.same(E[e, j], r[j]) for j in range(m)]) for r in seen]), "extreme points have been seen")


@harness("P07", "tournament", quick=[dict(un=0), dict(un=1)], functions=[M + "comp_by_cv_then_random", "pymoo/algorithms/moo/unsga3.py:comp_by_rank_and_ref_line_dist", "pymoo/operators/selection/tournament.py:compare"],
         bounds="2 tournaments of 4 solutions with symbolic violations, ranks and distances, all niches, symbolic draws")
def tournament(S, un):
    if un:
        from pymoo.algorithms.moo.unsga3 import comp_by_rank_and_ref_line_dist as comp
    else:
        from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random as comp
    n = 3
    CV = S.reals("cv", (n, 1), lo=0)
    rank, dist = S.ints("rank", (n,), 0, 3), S.reals("dist", (n,), lo=0)
    niche = [0, S.choose(2), S.choose(2)]
    pop = pop_of(S, F=np.zeros((n, 2)), CV=CV)
    for i in range(n):
        pop[i].set("rank", rank[i])
        pop[i].set("dist_to_niche", dist[i])
        pop[i].set("niche", niche[i])
    P = np.array([[0, 1], [2, 1]])
    W = comp(pop, P, random_state=S.rng())
    S.require(W.shape == (2, 1), "one winner per tournament")
    for (a, b), w in zip(P, W[:, 0]):
        w = int(w)
        S.require(w in (a, b), "the winner takes part")
        l = b if w == a else a
        inf = S.any([S.xlt(0, CV[a, 0]), S.xlt(0, CV[b, 0])])
        S.require(S.implies(inf, S.xle(CV[w, 0], CV[l, 0])), "the smaller violation wins")
        if un and niche[a] == niche[b]:
            S.require(S.implies(S.not_(inf), S.any([S.xlt(rank[w], rank[l]), S.all([S.same(rank[w], rank[l]), S.xle(dist[w], dist[l])])])), "within a niche: rank, then distance")


@harness("P07", "optimum", quick=[{}], functions=[M + "NSGA3._set_optimum"], bounds="3 solutions, every feasibility pattern, symbolic violations")
def optimum(S):
    from pymoo.algorithms.moo.nsga3 import NSGA3
    n = 3
    infeas = S.pick([[], [0], [1, 2], [0, 1, 2]])
    c = S.reals("cv", (n,), lo=0.25)
    CV = S.array([[c[i] if i in infeas else 0.0] for i in range(n)])
    F = np.array([[1.0, 2.0], [2.0, 1.0], [3.0, 3.0]])
    p = problem(n_var=1, n_obj=2, n_ieq=1)
    alg = NSGA3(DIRS[2], pop_size=3)
    alg.pop = pop_of(S, F=F, CV=CV)
    alg.pop = alg.survival.do(p, alg.pop, n_survive=n, random_state=S.rng())
    alg._set_optimum()
    got = uids(alg.opt)
    S.require(len(got) > 0, "there is an optimum")
    if len(infeas) < n:
        S.require(all(g not in infeas for g in got), "feasible optimum")
        if 2 not in infeas and len(infeas) < 2:
            S.require(2 not in got, "the optimum is not dominated")
    else:
        S.require(len(got) == 1 and S.truth(S.all([S.xle(c[got[0]], v) for v in c])), "least infeasible solution")
