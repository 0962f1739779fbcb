"""P09: the survivals of SPEA2, SMS-EMOA, RVEA and C-TAEA."""
import math

import numpy as np
from symx.harness import harness
from common import cvs, dom, meta, pop_of, problem, rows, uids

A = "pymoo/algorithms/moo/"
META = meta(
    "SPEA2, SMS-EMOA, RVEA and C-TAEA survival keep what their definitions say",
    "SPEA2: the raw fitness of a solution is the sum of the strengths (numbers of dominated solutions) of those dominating it, the density part is below one; survivors are all non-dominated solutions, filled up by the best fitness, or, if there are too many, "
    "reduced one by one by the solution with the lexicographically smallest sorted distances to the remaining ones. SMS-EMOA: all better fronts survive, the splitting front loses one by one the solution with the least hypervolume contribution with respect to the normalised objectives. "
    "RVEA: each reference vector keeps, of the solutions for which it is the closest one in angle, the one with the least angle-penalised distance to the ideal point seen so far; a solution lying exactly on a vector is as good as any other. "
    "C-TAEA: the convergence archive keeps feasible solutions first, completes with the best of (violation, scalarised value) and reduces the most crowded niches; the diversity archive has distinct members of its candidates and serves niches the convergence archive leaves out first. "
    "The tournaments prefer the less violating, then the better solution. Nothing of this is shared between algorithm instances.",
    ["inputs", "histories"], "all bounded populations, survivor counts and draws",
    "tests compare trajectories or final quality for a few seeds",
    [A + "spea2.py", A + "sms.py", A + "rvea.py", A + "ctaea.py", "pymoo/core/survival.py"],
    [("SPEA2", A + "spea2.py:SPEA2Survival._do"), ("SMS-EMOA", A + "sms.py:LeastHypervolumeContributionSurvival._do"), ("RVEA", A + "rvea.py:APDSurvival._do"), ("C-TAEA", A + "ctaea.py:CADASurvival")],
    "bounded: 4-5 solutions, 2 objectives (RVEA also 3), representative sets with one symbolic coordinate; moocore's hypervolume contributions replaced by their contract")

SETS = [
    [[0.0, 4.0], [1.0, 3.0], [None, 2.0], [4.0, 0.0]],
    [[0.0, 4.0], [1.0, None], [1.0, 3.0], [3.0, 1.0]],
    [[1.0, 1.0], [2.0, None], [3.0, 2.0], [4.0, 4.0]],
    [[None, 3.0], [2.0, 1.0], [2.0, 1.0], [4.0, 0.5]],
]


def objs(S, which, n=4, lo=-1, hi=6, name="t"):
    t = S.real(name, lo=lo, hi=hi)
    return S.array([[t if v is None else v for v in r] for r in SETS[which][:n]])


def dominance(S, R):
    n = len(R)
    return [[i != j and S.truth(dom(S, R[i], R[j])) for j in range(n)] for i in range(n)]


def ranks(S, R):
    n = len(R)
    d = dominance(S, R)
    rank, left, k = [None] * n, set(range(n)), 0
    while left:
        f = [j for j in left if not any(d[i][j] for i in left)]
        for j in f:
            rank[j] = k
        left -= set(f)
        k += 1
    return rank


@harness("P09", "spea2", quick=[dict(norm=False), dict(norm=True)], functions=[A + "spea2.py:SPEA2Survival._do", A + "spea2.py:_truncation_candidate", "pymoo/util/dominator.py:Dominator.calc_domination_matrix"],
         stubs=["normalisation: given ideal and nadir point"], bounds="4 solutions, one symbolic coordinate, all n_survive", timeout_ms=8000)
def spea2(S, norm):
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    n = 4
    F = objs(S, S.choose(len(SETS)))
    if S.choose(2):
        F = F * 0.0625
    k = 1 + S.choose(n)
    R = rows(F)
    pop = pop_of(S, F=F, CV=np.zeros((n, 1)))
    sv = SPEA2Survival(normalize=norm)
    scale = [1.0, 1.0]
    if norm:
        scale = [4.0, 2.0]
        sv.norm = type("Norm", (), dict(ideal_point=np.array([-1.0, 0.5]), nadir_point=np.array([3.0, 2.5]), extreme_points=np.array([[-1.0, 2.5], [3.0, 0.5]]), update=lambda self, F: S.require(len(F) == n, "normalised with all solutions")))()
    out = sv.do(problem(n_var=1, n_obj=2), pop, n_survive=k)
    ids = uids(out)
    S.require(len(ids) == k and len(set(ids)) == k, "n_survive distinct survivors")
    d = dominance(S, R)
    strength = [sum(d[i]) for i in range(n)]
    nd = [j for j in range(n) if not any(d[i][j] for i in range(n))]
    fit = [pop[i].get("SPEA_F") for i in range(n)]
    for j in range(n):
        S.require(S.eq(pop[j].get("SPEA_R"), sum(strength[i] for i in range(n) if d[i][j])), "raw fitness")
        S.require(S.all([S.lt(0, pop[j].get("SPEA_D")), S.lt(pop[j].get("SPEA_D"), 1)]), "the density does not change the order of raw fitness values")
        if not (norm and j in nd):
            S.require(S.eq(fit[j], pop[j].get("SPEA_R") + pop[j].get("SPEA_D")), "fitness")
    N = [[r[j] / scale[j] for j in range(2)] for r in R]
    d2 = lambda i, j: (N[i][0] - N[j][0]) * (N[i][0] - N[j][0]) + (N[i][1] - N[j][1]) * (N[i][1] - N[j][1])
    if len(nd) <= k:
        S.require(all(i in ids for i in nd), "all non-dominated solutions survive")
        for a in range(n):
            for b in range(n):
                if a in ids and b not in ids and a not in nd:
                    S.require(S.le(fit[a], fit[b]), "filled up by fitness")
    else:
        S.require(all(i in nd for i in ids), "only non-dominated solutions survive")
        if k == len(nd) - 1:
            gone = [i for i in nd if i not in ids][0]
            vec = {i: sorted_(S, [d2(i, j) for j in nd if j != i]) for i in nd}
            for i in ids:
                a, b = vec[gone], vec[i]
                S.require(lex_le(S, a, b), "the solution with the smallest distances goes")


@harness("P09", "spea2_constant", quick=[dict()], functions=[A + "spea2.py:SPEA2Survival._do", A + "nsga3.py:HyperplaneNormalization.update"], bounds="3-4 solutions with a constant objective of symbolic value, normalised, all n_survive", timeout_ms=8000)
def spea2_constant(S):
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    c = S.real("c", lo=-3, hi=3)
    v = S.pick([[1.0, 2.0, 4.0, 3.0], [1.0, 1.0, 2.0], [0.0, 5.0, 1.0]])
    n, j = len(v), S.choose(2)
    F = S.array([[c, x] if j == 0 else [x, c] for x in v])
    k = 1 + S.choose(n)
    pop = pop_of(S, F=F, CV=np.zeros((n, 1)))
    ids = uids(SPEA2Survival(normalize=True).do(problem(n_var=1, n_obj=2), pop, n_survive=k))
    S.require(len(ids) == k and len(set(ids)) == k, "n_survive distinct survivors")
    for i in range(n):
        S.require(S.finite(pop[i].get("SPEA_D")), "the density is a number")
        S.require(S.all([S.le(0, pop[i].get("SPEA_D")), S.lt(pop[i].get("SPEA_D"), 1)]), "the density does not change the order of raw fitness values")
    best = [i for i in range(n) if v[i] == min(v)]
    S.require(all(i in ids for i in best) if len(best) <= k else all(i in best for i in ids), "non-dominated solutions first")


def sorted_(S, v):
    """sorted values (forks)"""
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if S.truth(S.xlt(v[j + 1], v[j])):
                v[j], v[j + 1] = v[j + 1], v[j]
    return v


def lex_le(S, a, b):
    r = True
    for x, y in reversed(list(zip(a, b))):
        r = S.any([S.xlt(x, y), S.all([S.le(x, y), S.le(y, x), r])])
    return r


@harness("P09", "spea2_tournament", quick=[dict(which="spea2"), dict(which="sms"), dict(which="ctaea")], functions=[A + "spea2.py:spea_binary_tournament", A + "sms.py:cv_and_dom_tournament", A + "ctaea.py:comp_by_cv_dom_then_random", "pymoo/operators/selection/tournament.py:compare"],
         bounds="2 tournaments among 3 solutions, symbolic violations, objectives, fitness and draws")
def spea2_tournament(S, which):
    n = 3
    CV, F = cvs(S, n), S.reals("f", (n, 2))
    fit = S.reals("fit", (n,))
    pop = pop_of(S, F=F, CV=CV)
    for i in range(n):
        pop[i].set("SPEA_F", fit[i])
    P = np.array([[0, 1], [2, 1]])
    if which == "spea2":
        from pymoo.algorithms.moo.spea2 import spea_binary_tournament as comp
        W = comp(pop, P, None, random_state=S.rng())
    elif which == "sms":
        from pymoo.algorithms.moo.sms import cv_and_dom_tournament as comp
        W = comp(pop, P, random_state=S.rng())
    else:
        from pymoo.algorithms.moo.ctaea import comp_by_cv_dom_then_random as comp
        W = comp(pop, P, random_state=S.rng())
    S.require(W.shape == (2, 1), "one winner per tournament")
    R = rows(F)
    for (a, b), w in zip(P, W[:, 0]):
        w = int(w)
        S.require(w in (a, b), "the winner takes part")
        l = b if w == a else a
        inf = S.any([S.xlt(0, CV[a, 0]), S.xlt(0, CV[b, 0])])
        if which == "ctaea":
            S.require(S.implies(S.xle(CV[l, 0], 0), S.xle(CV[w, 0], 0)), "an infeasible solution does not win against a feasible one")
        else:
            S.require(S.implies(inf, S.xle(CV[w, 0], CV[l, 0])), "the smaller violation wins")
        if which == "spea2":
            S.require(S.implies(S.not_(inf), S.xle(fit[w], fit[l])), "the better fitness wins")
        else:
            S.require(S.implies(S.not_(inf), S.not_(dom(S, R[l], R[w]))), "a dominated solution does not win")
    S.require(S.unseeded() == 0, "all draws come from the given generator")


@harness("P09", "sms", quick=[dict(given=0), dict(given=1)], functions=[A + "sms.py:LeastHypervolumeContributionSurvival._do"], stubs=["moocore.hv_contributions: volume lost without the point", "moocore.pareto_rank contract"],
         bounds="4 solutions, one symbolic coordinate, n_survive 2-3, ideal and nadir given or not", timeout_ms=10000)
def sms(S, given):
    from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
    n = 4
    F = objs(S, S.choose(len(SETS)), lo=0, hi=5)
    k = 2 + S.choose(2)
    R = rows(F)
    pop = pop_of(S, F=F, CV=np.zeros((n, 1)))
    ideal, nadir = (np.array([0.0, 0.0]), np.array([5.0, 4.0])) if given else ([S.min([r[j] for r in R]) for j in range(2)], [S.max([r[j] for r in R]) for j in range(2)])
    sv = LeastHypervolumeContributionSurvival(eps=1.0)
    out = sv.do(problem(n_var=1, n_obj=2), pop, n_survive=k, **(dict(ideal=ideal, nadir=nadir) if given else {}))
    ids = uids(out)
    S.require(len(ids) == k and len(set(ids)) == k, "n_survive distinct survivors")
    rk = ranks(S, R)
    split = max(rk[i] for i in ids)
    S.require(all(i in ids for i in range(n) if rk[i] < split), "better fronts survive")
    front = [i for i in range(n) if rk[i] == split]
    gone = [i for i in front if i not in ids]
    if len(gone) == 1 and len(front) > 1:
        # products of ranges cancel: the contributions are compared unnormalised
        ref = [ideal[j] + 2.0 * (nadir[j] - ideal[j]) for j in range(2)]
        con = {i: contribution(S, R, front, i, ref) for i in front}
        for i in front:
            S.require(S.xle(con[gone[0]] - con[i], 1e-9), "the least contribution goes")
    if len(gone) == 2 and len(front) > 2:
        ref = [ideal[j] + 2.0 * (nadir[j] - ideal[j]) for j in range(2)]
        con = {i: contribution(S, R, front, i, ref) for i in front}
        ok = []
        for a, b in (gone, gone[::-1]):
            rest = [i for i in front if i != a]
            c2 = {i: contribution(S, R, rest, i, ref) for i in rest}
            ok.append(S.all([S.xle(con[a] - con[i], 1e-9) for i in front] + [S.xle(c2[b] - c2[i], 1e-9) for i in rest]))
        S.require(S.any(ok), "the least contributions go one by one")
    for i in ids:
        S.require(int(pop[i].get("rank")) == rk[i], "rank stored")


def contribution(S, R, front, i, ref):
    """two objectives, mutually non-dominated points (duplicates allowed): exclusive area of i"""
    others = [R[j] for j in front if j != i]
    x = S.min([ref[0]] + [S.ite(S.any([S.xlt(R[i][0], o[0]), S.all([S.eq(R[i][0], o[0]), S.eq(R[i][1], o[1])])]), o[0], ref[0]) for o in others])
    y = S.min([ref[1]] + [S.ite(S.any([S.xlt(R[i][1], o[1]), S.all([S.eq(R[i][0], o[0]), S.eq(R[i][1], o[1])])]), o[1], ref[1]) for o in others])
    return (x - R[i][0]) * (y - R[i][1])


@harness("P09", "sms_advance", quick=[dict(norm=True), dict(norm=False)], functions=[A + "sms.py:SMSEMOA._advance"], bounds="population of 2-3 with symbolic objectives, one offspring; the survival is a recorder")
def sms_advance(S, norm):
    from pymoo.algorithms.moo.sms import SMSEMOA

    class Rec:
        def do(self, problem, pop, n_survive=None, **kw):
            self.pop, self.n, self.kw = pop, n_survive, kw
            return pop[:n_survive]
    rec = Rec()
    n = 2 + S.choose(2)
    alg = SMSEMOA(pop_size=n, normalize=norm, survival=rec)
    alg.problem, alg.random_state = problem(n_var=1, n_obj=2), S.rng()
    F = S.reals("f", (n, 2))
    off = pop_of(S, F=S.reals("o", (1, 2)))
    off[0].set("uid", 9)
    alg.pop = pop_of(S, F=F)
    alg._advance(infills=off)
    S.require(uids(rec.pop) == list(range(n)) + [9] and rec.n == n, "parents and offspring compete")
    S.require(len(alg.pop) == n, "population size")
    S.require(rec.kw.get("random_state") is alg.random_state, "the algorithm's generator")
    if norm:
        for j in range(2):
            S.require(S.eq(rec.kw["ideal"][j], S.min([F[i, j] for i in range(n)])), "ideal of the parents")
            S.require(S.eq(rec.kw["nadir"][j], S.max([F[i, j] for i in range(n)])), "nadir of the parents")
    else:
        S.require(rec.kw["ideal"] is None and rec.kw["nadir"] is None, "not normalised")


VECS = {2: [np.array([[0.0, 1.0], [0.5, 0.5], [1.0, 0.0]]), np.array([[0.0, 1.0], [1.0, 0.0]]), np.array([[0.0, 1.0], [0.125, 0.875], [1.0, 0.0]])]}


@harness("P09", "rvea", quick=[dict()], thorough=[dict(), dict(sym=2)], functions=[A + "rvea.py:APDSurvival._do", A + "rvea.py:calc_V", A + "rvea.py:calc_gamma"],
         bounds="4 solutions from representative sets, symbolic generation number (penalty linear in it, alpha=1) and previous ideal point", timeout_ms=10000)
def rvea(S, sym=1):
    from pymoo.algorithms.moo.rvea import APDSurvival
    dirs = S.pick(VECS[2])
    which = S.choose(len(SETS))
    t = S.pick([0.5, 1.0, 2.5])
    F = np.array([[t if v is None else v for v in r] for r in SETS[which]])
    n = len(F)
    g, G = S.real("g", lo=0, hi=4), 4
    prev = S.pick([None, np.array([-1.0, 0.25]), np.array([0.0, 0.0])])
    sv = APDSurvival(dirs, alpha=1)
    if prev is not None:
        sv.ideal = prev.copy()
    pop = pop_of(S, F=F.copy(), CV=np.zeros((n, 1)))
    out = sv.do(problem(n_var=1, n_obj=2), pop, n_survive=n, n_gen=g, n_max_gen=G)
    ids = uids(out)
    ideal = F.min(axis=0) if prev is None else np.minimum(prev, F.min(axis=0))
    S.require(np.array_equal(np.array(sv.ideal, dtype=float), ideal), "ideal point seen so far")
    V = [[float(c) / math.hypot(*r) for c in r] for r in dirs.tolist()]
    ang = [[angle((F[i] - ideal).tolist(), v) for v in V] for i in range(n)]
    gam = [min(angle(V[a], V[b]) for b in range(len(V)) if b != a) for a in range(len(V))]
    dist = [math.hypot(*(F[i] - ideal)) for i in range(n)]
    niche = {}
    for i in range(n):
        if min(abs(x - y) for a, x in enumerate(ang[i]) for y in ang[i][a + 1:]) < 1e-7 or dist[i] < 1e-12:
            S.skip()
        niche.setdefault(ang[i].index(min(ang[i])), []).append(i)
    S.require(len(ids) == len(niche) and len(set(ids)) == len(ids), "one survivor per occupied niche")
    for q, I in niche.items():
        w = [i for i in ids if i in I]
        S.require(len(w) == 1, "one survivor per occupied niche")
        apd = {i: dist[i] * (1 + (g / G) * (ang[i][q] / gam[q])) for i in I}
        for i in I:
            S.require(S.xle(apd[w[0]] - apd[i], 1e-9), "least angle-penalised distance")
    S.require(np.allclose(np.array(sv.nadir, dtype=float), F[ids].max(axis=0)), "nadir of the survivors")


def angle(a, b):
    na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
    return math.acos(max(-1.0, min(1.0, sum(x * y for x, y in zip(a, b)) / (na * nb)))) if na and nb else 0.0


@harness("P09", "rvea_on_vector", quick=[dict()], functions=[A + "rvea.py:APDSurvival._do"], bounds="Das-Dennis directions (2-3 objectives); for each a worse and a better solution lying exactly on it, symbolic choice of both")
def rvea_on_vector(S):
    from pymoo.algorithms.moo.rvea import APDSurvival
    from pymoo.util.ref_dirs import get_reference_directions
    m, p = S.pick([(2, 7), (3, 4), (3, 12)])
    dirs = np.asarray(get_reference_directions("das-dennis", m, n_partitions=p), dtype=float)
    q = S.choose(len(dirs)) if len(dirs) < 20 else S.pick([1, 8, 12, 23, 40, 77])
    a, b = S.pick([(1.0, 2.0), (3.0, 2.0), (0.7, 0.3)])
    F = np.vstack([np.zeros(m), a * dirs[q], b * dirs[q], 5.0 * dirs[(q + 3) % len(dirs)]])
    pop = pop_of(S, F=F.copy(), CV=np.zeros((4, 1)))
    sv = APDSurvival(dirs)
    sv.ideal = np.full(m, 0.0)
    ids = uids(sv.do(problem(n_var=1, n_obj=m), pop[1:], n_survive=3, n_gen=2, n_max_gen=4))
    best = 1 if a < b else 2
    S.require(best in ids, "the closer one of two solutions on a vector survives")
    S.require(len(ids) == 2 and 3 in ids, "one survivor for each of the two vectors")


@harness("P09", "rvea_adapt", quick=[dict()], functions=[A + "rvea.py:APDSurvival.adapt", A + "rvea.py:RVEA._advance"], bounds="symbolic ideal and nadir point (ranges in 1/4..8), 3 directions; 1..8 generations, 2 frequencies", timeout_ms=10000)
def rvea_adapt(S):
    from pymoo.algorithms.moo import rvea as R
    dirs = VECS[2][0]
    sv = R.APDSurvival(dirs)
    V0 = np.array(sv.V)
    sv.adapt()
    S.require(np.array_equal(np.array(sv.V), V0), "nothing to adapt to before the first survival")
    r = S.pick([np.array([0.25, 8.0]), np.array([2.0, 2.0]), np.array([1.0, 3.0])])
    lo = S.reals("lo", (2,), lo=-4, hi=4)
    sv.ideal, sv.nadir = S.array([lo[0], lo[1]]), S.array([lo[0] + r[0], lo[1] + r[1]])
    if S.choose(2):
        r = np.array([1.0, 0.5])
        sv.adapt()
        sv.ideal, sv.nadir = S.array([lo[0], lo[1]]), S.array([lo[0] + r[0], lo[1] + r[1]])
    sv.adapt()
    W = [[float(V0[i, 0] * r[0]), float(V0[i, 1] * r[1])] for i in range(len(dirs))]
    for i in range(len(dirs)):
        S.require(S.le(S.abs(sv.gamma[i] - min(angle(W[i], W[j]) for j in range(len(dirs)) if j != i)), 1e-6), "the angles to the closest vectors are updated")
    for i in range(len(dirs)):
        v = [sv.V[i, 0], sv.V[i, 1]]
        S.require(S.le(S.abs(v[0] * float(V0[i, 1] * r[1]) - v[1] * float(V0[i, 0] * r[0])), 1e-6), "the vectors are stretched by the range of the objectives")
        S.require(S.le(S.abs(v[0] * v[0] + v[1] * v[1] - 1.0), 1e-6), "unit vectors")

    class Rec:
        n = 0

        def adapt(self):
            self.n += 1
    freq, n_max, n_gen = S.pick([0.25, 0.4]), S.pick([4, 10]), 1 + S.choose(8)
    alg = object.__new__(R.RVEA)
    alg.survival, alg.adapt_freq, alg.n_gen = Rec(), freq, n_gen
    alg.termination = type("T", (), dict(n_max_gen=n_max))()
    orig = R.GeneticAlgorithm._advance
    R.GeneticAlgorithm._advance = lambda self, **kw: None
    try:
        alg._advance(infills=None)
    finally:
        R.GeneticAlgorithm._advance = orig
    S.require(alg.survival.n == (1 if n_gen % math.ceil(n_max * freq) == 0 else 0), "adapted every fraction of the run")


def ctaea_survival(S, n):
    from pymoo.algorithms.moo.ctaea import CADASurvival
    dirs = np.array([[0.0, 1.0], [0.5, 0.5], [1.0, 0.0]])[:n] if n < 3 else np.array([[0.0, 1.0], [0.5, 0.5], [1.0, 0.0]])
    return CADASurvival(dirs)


class Niches:
    """arbitrary niches and scalarised values in place of the association (checked by itself in `ctaea_associate`)"""

    def __init__(self, S, n, sym=True):
        self.niche = np.array(S.pick([[0, 0, 1, 1, 2, 0], [0, 0, 0, 1, 1, 1], [1, 2, 1, 2, 0, 0], [2, 2, 2, 2, 2, 2]])[:n])
        v = S.real("fv", lo=0, hi=5)
        self.FV = S.reals("fv", (n,), lo=0, hi=5) if sym else S.array([1.0, v, 3.0, 1.0, 2.0, 2.5][:n])

    def __call__(self, pop):
        I = [int(i.get("uid")) for i in pop]
        pop.set("niche", self.niche[I])
        pop.set("FV", self.FV[I])
        return self.niche[I].copy(), self.FV[I]


@harness("P09", "ctaea_ca", quick=[dict()], thorough=[dict(), dict(sym=True)], functions=[A + "ctaea.py:CADASurvival._updateCA"], stubs=["association: arbitrary niches and scalarised values"],
         bounds="5 solutions, archive of 3, every number of feasible ones, symbolic violations and scalarised values", timeout_ms=8000)
def ctaea_ca(S, sym=False):
    n, k = 5, 3
    CA = [[0.0, 4.0], [1.0, 3.0], [2.0, 2.5], [3.5, 1.0], [4.0, 0.0]]
    F = np.array(S.pick([CA, [[0.0, 4.0], [1.0, 5.0], [1.5, 2.0], [1.5, 2.0], [3.0, 3.0]]]))
    infeas = S.pick([[], [0], [1, 3], [0, 2, 4], [0, 1, 2, 3, 4]])
    c = S.real("cv", lo=0.25, hi=4)
    CV = S.array([[[c, 2.0, 1.0, 2.0, 3.0][i] if i in infeas else 0.0] for i in range(n)])
    pop = pop_of(S, F=F.copy(), CV=CV)
    sv = ctaea_survival(S, 3)
    sv._associate = T = Niches(S, n, sym=sym)
    out = sv._updateCA(pop, k, random_state=S.rng())
    ids = uids(out)
    S.require(len(ids) == k and len(set(ids)) == k, "archive of the given size without repetition")
    feas = [i for i in range(n) if i not in infeas]
    rk = dict(zip(feas, ranks(S, F[feas].tolist()))) if feas else {}
    if len(feas) <= k:
        S.require(all(i in ids for i in feas), "all feasible solutions are kept")
        pts = {i: [CV[i, 0], T.FV[i]] for i in infeas}
        r2 = dict(zip(infeas, ranks(S, list(pts.values())))) if infeas else {}
        for a in infeas:
            for b in infeas:
                if a in ids and b not in ids:
                    S.require(r2[a] <= r2[b], "completed by fronts of violation and scalarised value")
                    if r2[a] == r2[b]:
                        S.require(S.xle(CV[a, 0], CV[b, 0]), "the last front by violation")
    else:
        S.require(all(i in feas for i in ids), "only feasible solutions")
        last, cnt = 0, 0
        for q in sorted(set(rk.values())):
            if cnt < k:
                last, cnt = q, cnt + sum(1 for i in feas if rk[i] == q)
        cand = [i for i in feas if rk[i] <= last]
        S.require(all(i in cand for i in ids), "only fronts needed to fill the archive")
        gone = [i for i in cand if i not in ids]
        if len(gone) == 1:
            count = {q: sum(1 for i in cand if T.niche[i] == q) for q in range(3)}
            S.require(count[int(T.niche[gone[0]])] == max(count.values()), "the most crowded niche loses a member")
        fin = [sum(1 for i in ids if T.niche[i] == q) for q in range(3)]
        ini = [sum(1 for i in cand if T.niche[i] == q) for q in range(3)]
        for q in range(3):
            S.require(fin[q] == ini[q] or fin[q] >= max(fin) - 1, "niches are evened out")
    opt = uids(sv.opt)
    S.require(len(opt) > 0 or len(feas) > k, "there is an optimum")


@harness("P09", "ctaea_da", quick=[dict()], functions=[A + "ctaea.py:CADASurvival._updateDA"], stubs=["association: arbitrary niches and scalarised values"], bounds="6 candidates for a diversity archive of 3 with symbolic scalarised values; every occupation of the convergence archive", timeout_ms=8000)
def ctaea_da(S):
    n, k = 6, 3
    F = np.array([[0.0, 4.0], [1.0, 5.0], [1.5, 2.0], [1.5, 1.0], [3.0, 3.0], [5.0, 0.0]])
    pop = pop_of(S, F=F.copy(), CV=np.zeros((n, 1)))
    sv = ctaea_survival(S, 3)
    T = Niches(S, n)
    ca = S.pick([[0, 0, 0], [0, 1, 2], [2, 2, 1], [1, 1, 1]])
    CA = pop_of(S, F=np.zeros((3, 2)), CV=np.zeros((3, 1)))
    sv._associate = lambda p: (np.array(ca), np.zeros(3)) if p is CA else T(p)
    out = sv._updateDA(CA, pop, k)
    ids = uids(out)
    S.require(len(ids) == k and len(set(ids)) == k, "archive of the given size without repetition")
    for q in range(3):
        I = [i for i in range(n) if T.niche[i] == q]
        if q not in ca and I:
            S.require(any(i in ids for i in I), "a niche without a member of the convergence archive is served")
        for a in I:
            for b in I:
                if a in ids and b not in ids and dom(S, F[b].tolist(), F[a].tolist()) is True:
                    S.require(False, "a dominated solution of the same niche is not preferred")
        J = [i for i in I if i in ids]
        if len(J) == 1:
            nd = [i for i in I if not any(all(F[j] <= F[i]) and any(F[j] < F[i]) for j in I)]
            for i in nd:
                S.require(S.xle(T.FV[J[0]], T.FV[i]), "the best scalarised value of the niche")


@harness("P09", "ctaea_do", quick=[dict()], functions=[A + "ctaea.py:CADASurvival.do"], bounds="population 2, offspring 2, symbolic objectives; the archive updates are recorders")
def ctaea_do(S):
    sv = ctaea_survival(S, 2)
    F = S.reals("f", (4, 2))
    prev = S.reals("ip", (2,))
    sv.ideal_point = S.array([prev[0], prev[1]])
    pop = pop_of(S, F=F)
    da = pop_of(S, F=np.zeros((2, 2)))
    da[0].set("uid", 10), da[1].set("uid", 11)
    log = {}

    def ca(p, n_survive, random_state=None):
        log["ca"] = (uids(p), n_survive, random_state)
        return p[:n_survive]

    def du(p, hd, n_survive):
        log["da"] = (uids(p), uids(hd), n_survive)
        return hd[:n_survive]
    sv._updateCA, sv._updateDA = ca, du
    r = S.rng()
    p2, d2 = sv.do(None, pop, da, n_survive=2, random_state=r)
    for j in range(2):
        S.require(S.eq(sv.ideal_point[j], S.min([prev[j], F[2, j], F[3, j]])), "ideal point of all offspring so far")
    S.require(log["ca"] == ([0, 1, 2, 3], 2, r), "convergence archive from parents and offspring")
    S.require(log["da"] == ([0, 1], [10, 11, 2, 3], 2), "diversity archive from its members and the offspring")
    S.require(uids(p2) == [0, 1] and uids(d2) == [10, 11], "both archives returned")


@harness("P09", "not_shared", quick=[dict(which="spea2"), dict(which="rvea"), dict(which="age")], functions=[A + "spea2.py:SPEA2.__init__", A + "rvea.py:RVEA.__init__", A + "spea2.py:SPEA2Survival._do"],
         bounds="two instances, the first one has seen one of three populations", timeout_ms=8000)
def not_shared(S, which):
    from pymoo.algorithms.moo import rvea as R, spea2 as Z, nsga3 as N
    mk = dict(spea2=lambda: Z.SPEA2(pop_size=3), rvea=lambda: R.RVEA(VECS[2][0], pop_size=3), age=lambda: N.NSGA3(VECS[2][0], pop_size=3))[which]
    a, b = mk(), mk()
    t = S.pick([-4.0, 1.0, 4.0])
    F1, F2 = S.array([[t, 3.0], [1.0, 2.0], [2.0, 1.0]]), S.array([[5.0, 8.0], [6.0, 7.0], [9.0, 4.0]])
    p = problem(n_var=1, n_obj=2)
    kw = dict(n_survive=3, random_state=S.rng())
    if which == "rvea":
        kw.update(n_gen=1, n_max_gen=4)
    a.survival.do(p, pop_of(S, F=F1, CV=np.zeros((3, 1))), **kw)
    b.survival.do(p, pop_of(S, F=F2, CV=np.zeros((3, 1))), **kw)
    ip = b.survival.ideal if which == "rvea" else b.survival.norm.ideal_point
    S.require(S.all([S.eq(ip[0], 5.0), S.eq(ip[1], 4.0)]), "the second instance knows nothing of the first one")
