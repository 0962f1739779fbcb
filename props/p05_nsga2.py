"""P05: NSGA-II survival (rank and crowding)."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, uids, cvs, vsame, dom, rows

C = "pymoo/operators/survival/rank_and_crowding/classes.py:"
META = meta(
    "Rank-and-crowding survival is elitist by rank, then by crowding",
    "Rank-and-crowding survival never drops an individual while keeping one of a worse Pareto rank (among the feasible), and in the front that has to be split it "
    "drops only individuals whose crowding value is not larger than that of every kept one of this front. Every surviving feasible individual carries its true Pareto rank and "
    "the crowding value computed for its own front, whatever crowding measure is configured.",
    ["inputs", "configurations"], "all objective matrices, all crowding values, all n_survive, all random tie-breaking permutations",
    "tests run whole algorithms and look at convergence; a mis-sliced front is invisible to them",
    ["pymoo/operators/survival/rank_and_crowding/classes.py", "pymoo/util/randomized_argsort.py"],
    [("survival", C + "RankAndCrowding._do"), ("random tie breaking", "pymoo/util/randomized_argsort.py:randomized_argsort")],
    "bounded: n<=4 individuals, 2 objectives; the crowding values are arbitrary reals (metrics themselves: P06); moocore.pareto_rank contract")


def ranks(S, F, ids):
    """Pareto rank of each id as an expression (peeling, at most len(ids) ranks)"""
    R = rows(F)
    n = len(ids)
    D = {(i, j): dom(S, R[i], R[j]) for i in ids for j in ids if i != j}
    # longest dominating chain
    depth = {i: 0 for i in ids}
    for _ in range(n - 1):
        depth = {i: S.max([0] + [S.ite(D[j, i], depth[j] + 1, 0) for j in ids if j != i]) for i in ids}
    return depth


@harness("P05", "rank_and_crowding", quick=[dict(n=3, m=2, perm=1), dict(n=4, m=2, perm=0), dict(n=3, m=3, perm=1)], thorough=[dict(n=4, m=2, perm=1), dict(n=4, m=3, perm=0)],
         functions=[C + "RankAndCrowding._do", "pymoo/util/randomized_argsort.py:randomized_argsort", "pymoo/core/survival.py:Survival.do"],
         bounds="n<=4 individuals", stubs=["crowding measure: arbitrary values", "moocore.pareto_rank contract"])
def rank_and_crowding(S, n, m, perm):
    from pymoo.operators.survival.rank_and_crowding.classes import RankAndCrowding
    from pymoo.operators.survival.rank_and_crowding.metrics import CrowdingDiversity
    F = S.reals("F", (n, m))
    pop = pop_of(S, F=F)
    calls = []

    class Crowd(CrowdingDiversity):
        def _do(self, F, n_remove=None, **kw):
            c = S.reals("c%d_" % len(calls), (len(F),))
            calls.append((F, c, int(n_remove)))
            return c
    surv = RankAndCrowding(crowding_func=Crowd())
    if perm:
        rs = S.rng()
    else:
        class Rot:
            def permutation(self, k):
                return np.arange(k)[::-1]
        rs = Rot()
    k = 1 + S.choose(n)
    res = surv.do(problem(n_obj=m), pop, n_survive=k, random_state=rs)
    ids = uids(res)
    S.require(len(ids) == k and len(set(ids)) == k, "exactly n_survive distinct survivors")
    depth = ranks(S, F, range(n))
    out = [i for i in range(n) if i not in ids]
    for i in ids:
        S.require(S.same(pop[i].get("rank"), depth[i]), "survivors carry their Pareto rank")
        S.require(pop[i].get("crowding") is not None, "survivors carry a crowding value")
        for o in out:
            S.require(S.xle(depth[i], depth[o]), "no worse rank kept while a better one is dropped")
    # values written belong to the right individual
    for Fc, c, nrem in calls:
        members = []
        for r in range(len(Fc)):
            match = [i for i in range(n) if pop[i].get("crowding") is not None]
            S.require(S.any([S.all([vsame(S, [Fc[r, j] for j in range(m)], [F[i, j] for j in range(m)]), S.same(pop[i].get("crowding"), c[r])]) for i in match]),
                      "crowding value stored at the individual it was computed for")
    last = S.max([depth[i] for i in ids])
    for i in ids:
        for o in out:
            co = pop[o].get("crowding")
            if co is not None:
                S.require(S.implies(S.all([S.same(depth[i], last), S.same(depth[o], last)]), S.xle(co, pop[i].get("crowding"))),
                          "in the split front the larger crowding survives")
            else:
                S.require(S.xlt(depth[i], depth[o]), "a dropped one without a crowding value is beyond the split front")


@harness("P05", "n_remove", quick=[dict(n=3), dict(n=4)], functions=[C + "RankAndCrowding._do"], bounds="n<=4, mutually non-dominated", stubs=["crowding measure: arbitrary values"])
def n_remove(S, n):
    from pymoo.operators.survival.rank_and_crowding.classes import RankAndCrowding
    from pymoo.operators.survival.rank_and_crowding.metrics import CrowdingDiversity
    F = np.array([[float(i), float(-i)] for i in range(n)])
    seen = []

    class Crowd(CrowdingDiversity):
        def _do(self, F, n_remove=None, **kw):
            seen.append(int(n_remove))
            return S.reals("c", (len(F),))
    k = 1 + S.choose(n)

    class Rot:
        def permutation(self, k):
            return np.arange(k)
    ids = uids(RankAndCrowding(crowding_func=Crowd()).do(problem(), pop_of(S, F=F), n_survive=k, random_state=Rot()))
    S.require(len(ids) == k and seen == [n - k], "the measure is told how many will be removed")


@harness("P05", "randomized_argsort", quick=[dict(n=3)], thorough=[dict(n=4)], functions=["pymoo/util/randomized_argsort.py:randomized_argsort", "pymoo/util/randomized_argsort.py:quicksort"],
         bounds="n<=3 values, all random draws")
def rargsort(S, n):
    from pymoo.util.randomized_argsort import randomized_argsort
    A = S.reals("A", (n,))
    up = S.choose(2)
    I = [int(i) for i in randomized_argsort(A, method="numpy", order="ascending" if up else "descending", random_state=S.rng())]
    S.require(sorted(I) == list(range(n)), "a permutation")
    for i, j in zip(I, I[1:]):
        S.require(S.xle(A[i], A[j]) if up else S.xle(A[j], A[i]), "sorted")
