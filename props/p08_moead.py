"""P08: MOEA/D."""
import numpy as np
from symx.harness import harness
from common import meta, pop_of, problem, rows, uids

M = "pymoo/algorithms/moo/moead.py:"
META = meta(
    "MOEA/D replaces exactly the neighbours an offspring improves",
    "In MOEA/D every subproblem is served exactly once per generation; its neighbourhood consists of the n_neighbors reference directions closest to its own. The parents of a mating are distinct and, "
    "when mating is restricted (always for prob_neighbor_mating = 1), neighbours. An offspring first updates the ideal point, which always is the componentwise minimum of everything seen so far, and then replaces exactly the neighbours "
    "whose scalarised value with respect to that ideal point it strictly improves; all other solutions stay. The parallel variant creates n_offsprings offspring for distinct subproblems "
    "and ends with the best of the old solution and the offspring for each subproblem. Without reference directions the default ones are used.",
    ["inputs", "histories"], "all bounded populations and offspring (objective values), all draws",
    "tests run it on ZDT and compare the final hypervolume or a stored trajectory",
    ["pymoo/algorithms/moo/moead.py", "pymoo/decomposition/tchebicheff.py", "pymoo/core/algorithm.py"],
    [("selection", M + "NeighborhoodSelection._do"), ("neighbourhood", M + "MOEAD._setup"), ("replacement", M + "MOEAD._replace"), ("generation", M + "MOEAD._next"), ("parallel", M + "ParallelMOEAD._advance")],
    "bounded: 3-4 subproblems, 2 objectives, symbolic objective values of population and offspring; Tchebicheff scalarisation; a stand-in for the mating")

DIRS = np.array([[0.0, 1.0], [0.25, 0.75], [0.5, 0.5], [1.0, 0.0]])


def tcheb(S, f, w, ideal):
    return S.max([S.abs(f[j] - ideal[j]) * float(w[j]) for j in range(len(f))])


class Mate:
    """hands out prepared offspring"""

    class crossover:
        n_parents = 2
        n_offsprings = 2

    def __init__(self, off, per=1):
        self.off, self.per, self.k, self.calls = off, per, 0, []

    def do(self, problem, pop, n, parents=None, **kwargs):
        self.calls.append(parents)
        m = self.per * len(parents)
        r = self.off[self.k: self.k + m]
        self.k += m
        return r


@harness("P08", "selection", quick=[dict(prob=1.0), dict(prob=0.0), dict(prob=0.5)], functions=[M + "NeighborhoodSelection._do"], bounds="2 matings, 5 solutions, neighbourhoods of 3, symbolic draws")
def selection(S, prob):
    from pymoo.algorithms.moo.moead import NeighborhoodSelection
    N = np.array([[0, 1, 3], [4, 2, 1]])
    npar = S.pick([2, 3]) if prob == 1.0 else 2
    P = NeighborhoodSelection(prob=prob)._do(None, list(range(5 if prob == 1.0 else 4)), 2, npar, neighbors=N if prob == 1.0 else N % 4, random_state=S.rng())
    S.require(P.shape == (2, npar), "one row of parents per mating")
    n = 5 if prob == 1.0 else 4
    for k in range(2):
        p = [int(v) for v in P[k]]
        S.require(len(set(p)) == npar, "distinct parents")
        S.require(all(0 <= v < n for v in p), "parents are members of the population")
        if prob == 1.0:
            S.require(all(v in N[k] for v in p), "parents are neighbours")


@harness("P08", "neighbors", quick=[dict(k=2)], thorough=[dict(k=2), dict(k=3), dict(k=2, sym=2)], functions=[M + "MOEAD._setup"],
         bounds="4 directions, one (thorough: two) symbolic coordinates", timeout_ms=8000)
def neighbors(S, k, sym=1):
    from pymoo.algorithms.moo.moead import MOEAD
    t = S.reals("t", (sym,), lo=0, hi=1)
    W = S.array([[0.0, 1.0], [0.25, 0.75], [t[0], 1 - t[0]] if sym == 1 else [t[0], t[1]], [1.0, 0.0]])
    R = rows(W)
    alg = MOEAD(W, n_neighbors=k)
    alg._setup(problem(n_var=1, n_obj=2))
    N = alg.neighbors
    S.require(alg.pop_size == 4 and N.shape == (4, k), "n_neighbors for each subproblem")
    d2 = [[sum((a - b) * (a - b) for a, b in zip(R[i], R[j])) for j in range(4)] for i in range(4)]
    for i in range(4):
        own = [int(v) for v in N[i]]
        S.require(len(set(own)) == k, "distinct neighbours")
        for j in range(4):
            if j not in own:
                S.require(S.all([S.xle(d2[i][o], d2[i][j] + 1e-9) for o in own]), "the nearest directions are the neighbours")
        S.require(S.eq(d2[i][own[0]], 0), "the subproblem is its own first neighbour (or has the same direction)")


def moead(S, F, neighbors, cls="MOEAD", **kw):
    import pymoo.algorithms.moo.moead as mod
    from pymoo.decomposition.tchebicheff import Tchebicheff
    n = len(F)
    alg = getattr(mod, cls)(DIRS[:n], n_neighbors=2, decomposition=Tchebicheff(), **kw)
    alg.problem = problem(n_var=1, n_obj=2)
    alg._setup(alg.problem)
    alg.neighbors = np.array(neighbors)
    alg.pop = pop_of(S, F=F)
    alg.random_state = S.rng()
    alg._initialize_advance(infills=alg.pop)
    return alg


def offs(S, F, n0):
    off = pop_of(S, F=F)
    for i in range(len(off)):
        off[i].set("uid", n0 + i)
    return off


NB = {3: [[0, 1], [1, 2], [2, 0]], 4: [[0, 1, 2], [1, 0], [2, 3], [3, 2]]}


@harness("P08", "replace", quick=[{}], functions=[M + "MOEAD._replace", "pymoo/decomposition/tchebicheff.py:Tchebicheff._do", "pymoo/core/decomposition.py:Decomposition.do"],
         bounds="4 solutions and an offspring with symbolic objective values, all neighbourhood sizes 1-3, symbolic ideal point below all of them")
def replace(S):
    F, f, z = S.reals("F", (4, 2)), S.reals("f", (1, 2)), S.reals("z", (2,))
    R = rows(F)
    N = S.pick([[0, 1, 3], [2], [3, 1]])
    alg = moead(S, F, [N] * 4)
    alg.ideal = z
    for j in range(2):
        S.assume(S.all([S.xle(z[j], r[j]) for r in R + [[f[0, 0], f[0, 1]]]]))
    zz = [z[0], z[1]]
    off = offs(S, f, 10)
    alg._replace(0, off[0])
    ids = uids(alg.pop)
    S.require(len(ids) == 4, "population size")
    for i in range(4):
        better = S.xlt(tcheb(S, [f[0, 0], f[0, 1]], DIRS[i], zz), tcheb(S, R[i], DIRS[i], zz))
        S.require(ids[i] in (i, 10), "a solution stays or becomes the offspring")
        S.require(S.iff(ids[i] == 10, better) if i in N else ids[i] == i, "exactly the improved neighbours are replaced")


@harness("P08", "generation", quick=[dict(n=2)], thorough=[dict(n=3)], functions=[M + "MOEAD._next", M + "MOEAD._replace", M + "MOEAD._initialize_advance", "pymoo/core/algorithm.py:LoopwiseAlgorithm._advance"],
         bounds="one generation of 2 (thorough: 3) subproblems, symbolic objective values of population and offspring")
def generation(S, n):
    F, f = S.reals("F", (n, 2)), S.reals("f", (n, 2))
    R, Q = rows(F), rows(f)
    nb = NB[3] if n == 3 else [[0, 1], [1, 0]]
    alg = moead(S, F, nb)
    off = offs(S, f, 10)
    alg.mating = Mate(off)
    served = []

    class Sel:
        def do(self, problem, pop, n_select, n_parents, neighbors=None, **kwargs):
            served.append(int(neighbors[0][0]))
            return np.array([[0, 1]])
    alg.selection = Sel()
    for g in range(n):
        before = uids(alg.pop)
        val = {i: (R[i] if i < 10 else Q[i - 10]) for i in before + list(range(10, 10 + g + 1))}
        inf = alg._infill()
        S.require(int(inf.get("uid")) == 10 + g, "the next offspring is handed out")
        ret = alg._advance(infills=inf)
        S.require((ret is None or bool(ret)) == (g == n - 1), "a generation ends when every subproblem has been served")
        seen = R + Q[:g + 1]
        ideal = [S.min([r[j] for r in seen]) for j in range(2)]
        S.require(S.all([S.eq(alg.ideal[j], ideal[j]) for j in range(2)]), "ideal point of everything seen")
        k = served[g]
        after = uids(alg.pop)
        for i in range(n):
            better = S.xlt(tcheb(S, Q[g], DIRS[i], ideal), tcheb(S, val[before[i]], DIRS[i], ideal))
            S.require(S.iff(after[i] != before[i], better) if i in nb[k] else after[i] == before[i], "exactly the improved neighbours are replaced")
            S.require(after[i] in (before[i], 10 + g), "only by the offspring")
    S.require(sorted(served) == list(range(n)), "every subproblem is served once")


@harness("P08", "parallel", quick=[dict(n=2)], thorough=[dict(n=2)], functions=[M + "ParallelMOEAD._infill", M + "ParallelMOEAD._advance", M + "MOEAD._replace"],
         bounds="one generation of 2 (thorough: 3) subproblems, symbolic objective values of population and offspring")
def parallel(S, n):
    F, f = S.reals("F", (n, 2)), S.reals("f", (n, 2))
    R, Q = rows(F), rows(f)
    nb = NB[3] if n == 3 else [[0, 1], [1, 0]]
    alg = moead(S, F, nb, cls="ParallelMOEAD")
    m = alg.n_offsprings
    S.require(m == n, "as many offspring as subproblems")
    cand = pop_of(S, X=np.zeros((2 * n, 1)), F=np.zeros((2 * n, 2)))
    alg.mating = Mate(cand, per=2)
    off = alg._infill()
    S.require(len(off) == n and sorted(int(v) for v in alg.indices) == list(range(n)), "one offspring for each subproblem")
    S.require(all(u // 2 == i for i, u in enumerate(uids(off))), "one of the two offspring of each mating")
    P = alg.mating.calls[0]
    S.require(len(P) == n and all(len(set(uids(p))) == 2 for p in P), "distinct parents")
    new = offs(S, f, 10)
    alg._advance(infills=new)
    ideal = [S.min([r[j] for r in R + Q]) for j in range(2)]
    S.require(S.all([S.eq(alg.ideal[j], ideal[j]) for j in range(2)]), "ideal point of everything seen")
    for i in range(n):
        mine = [j for j in range(n) if i in nb[int(alg.indices[j])]]
        got = alg.pop[i].get("F")
        want = S.min([tcheb(S, v, DIRS[i], ideal) for v in [R[i]] + [Q[j] for j in mine]])
        S.require(S.eq(tcheb(S, [got[0], got[1]], DIRS[i], ideal), want), "the best solution for each subproblem")
        S.require(int(alg.pop[i].get("uid")) in [i] + [10 + j for j in mine], "the old one or an offspring of a neighbour")


@harness("P08", "default", quick=[{}], functions=[M + "MOEAD.__init__", M + "MOEAD._setup", M + "default_decomp"], bounds="2 objectives, neighbourhood sizes 1-3")
def default(S):
    from pymoo.algorithms.moo.moead import MOEAD
    k = 1 + S.choose(3)
    alg = MOEAD(n_neighbors=k)
    alg._setup(problem(n_var=1, n_obj=2))
    S.require(alg.pop_size == len(alg.ref_dirs) > 1, "default reference directions")
    S.require(alg.neighbors.shape == (alg.pop_size, k) and all(i in alg.neighbors[i] for i in range(alg.pop_size)), "neighbourhoods contain the subproblem")
