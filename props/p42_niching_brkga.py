"""P42: clearing, niching, biased random keys and stochastic ranking."""
import itertools
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, uids, veq

SO = "pymoo/algorithms/soo/nonconvex/"
CL = "pymoo/util/clearing.py"
META = meta(
    "NicheGA, BRKGA and stochastic ranking select what their definitions say",
    "Clearing repeatedly takes the best solution that is not cleared, and clears exactly the solutions closer to it than epsilon; when nothing is left, only the selected ones stay cleared and the next round begins. NicheGA survivors carry the round and rank in which they were "
    "taken and the niche of the closest solution of this survival's first round, and its optimum is exactly the first round. BRKGA's elites are the best n_elites (none worse than any non-elite, feasible first), survive unchanged, every mating has one elite and one "
    "non-elite parent, every generation has the offspring and mutants requested, and no two solutions that are equal for the duplicate elimination survive. Stochastic ranking is the bubble sort that compares neighbours by objective with the given probability or if both are feasible, by violation "
    "otherwise: sorted by objective if the probability is one or all are feasible, by feasibility and violation first if it is zero.",
    ["inputs"], "all distances, objective values, violations, random numbers and attributes left over from earlier generations (symbolic) of the given sizes",
    "tests run the algorithms with one seed and compare the final objective value",
    [SO + "ga_niching.py", CL, SO + "brkga.py", SO + "sres.py", "pymoo/functions/standard/stochastic_ranking.py"],
    [("clearing", CL + ":EpsilonClearing.select"), ("niching", SO + "ga_niching.py:EpsilonClearingSurvival._do"), ("elites", SO + "brkga.py:EliteSurvival._do"), ("ranking", "pymoo/functions/standard/stochastic_ranking.py:stochastic_ranking")],
    "bounded: 3-5 solutions; BRKGA with several objectives is not covered; the compiled (Cython) stochastic ranking is not encoded, the Python implementation is")


class Rnd:
    """random numbers given by the harness, in order"""
    def __init__(self, vals):
        self.vals, self.n = vals, 0

    def random(self, *a, **k):
        self.n += 1
        return self.vals[self.n - 1]


# ---------------------------------------------------------------------------------------------------- stochastic ranking

SRK = "pymoo/functions/standard/stochastic_ranking.py:stochastic_ranking"


@harness("P42", "ranking", quick=[dict(n=3, k=k) for k in range(3)], thorough=[dict(n=3, k=k, sweep=3) for k in range(3)], functions=[SRK], bounds="3 solutions, symbolic objective values, violations and random numbers")
def ranking(S, n, k, sweep=2):
    """one step of the sort after the other, with the random numbers it was given"""
    from pymoo.functions.standard.stochastic_ranking import stochastic_ranking
    pr = 0.5
    u = [S.real("u%d" % i, lo=0, hi=1) for i in range(sweep * (n - 1))] + [0.25, 0.75] * n
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(n)]
    phi = [S.real("v%d" % i, lo=0, hi=1) if i != k else 0.0 for i in range(n)]
    start = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][k]
    J = np.array(start)
    r = Rnd(list(u))
    got = stochastic_ranking(S.array(f), S.array(phi), pr, J, random_state=r)
    I, c = list(start), 0
    for i in range(n):
        swapped = False
        for j in range(n - 1):
            a, b = I[j], I[j + 1]
            by_f = S.truth(S.any([S.xlt(u[c], pr), S.all([S.same(phi[a], 0), S.same(phi[b], 0)])]))
            c += 1
            if S.truth(S.xlt(f[b], f[a]) if by_f else S.xlt(phi[b], phi[a])):
                I[j], I[j + 1] = b, a
                swapped = True
        if not swapped:
            break
    S.require([int(v) for v in got] == I, "neighbours compared by objective or violation")


@harness("P42", "ranking_sorted", quick=[dict(kind=k) for k in ("zero", "one", "feasible")], functions=[SRK], bounds="4 solutions (3 for zero), symbolic values")
def ranking_sorted(S, kind):
    from pymoo.functions.standard.stochastic_ranking import stochastic_ranking
    n = 3 if kind == "zero" else 4
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(n)]
    phi = [0.0] * n if kind == "feasible" else [S.real("v%d" % i, lo=0, hi=1) for i in range(n)]
    r = Rnd([0.5] * (n * n))
    I = [int(i) for i in stochastic_ranking(S.array(f), S.array(phi), dict(zero=0.0, one=1.0, feasible=0.25)[kind], random_state=r)]
    S.require(sorted(I) == list(range(n)), "each solution once")
    for a, b in zip(I[:-1], I[1:]):
        if kind == "zero":
            S.require(S.xle(phi[a], phi[b]), "sorted by violation")
            S.require(S.implies(S.all([S.same(phi[a], 0), S.same(phi[b], 0)]), S.xle(f[a], f[b])), "feasible ones by objective")
        else:
            S.require(S.xle(f[a], f[b]), "sorted by objective")


@harness("P42", "ranking_survival", quick=[dict(con=False), dict(con=True)], functions=[SO + "sres.py:StochasticRankingSurvival._do", SO + "sres.py:SRES.__init__"], bounds="4 solutions, 2 survive, symbolic values and violations")
def ranking_survival(S, con):
    from pymoo.algorithms.soo.nonconvex.sres import SRES
    import pymoo.algorithms.soo.nonconvex.sres as M
    algo = SRES(PF=0.25)
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(4)]
    kw, seen = {}, []
    if con:
        g = S.reals("g", (4, 1), lo=-1, hi=1)
        kw = dict(G=g, H=S.array([[0.0]] * 4), CV=S.array([[S.max([0.0, g[i, 0]])] for i in range(4)]))
    pop = pop_of(S, X=np.arange(8.0).reshape(4, 2), F=S.array([[v] for v in f]), **kw)
    rs = np.random.default_rng(1)
    order = S.pick([[2, 0, 1, 3], [3, 1, 0, 2]]) if con else None

    def load(name):
        S.require(name == "stochastic_ranking", "the ranking")

        def rank(f_, phi, pr, I=None, random_state=None):
            seen.append((f_, phi, pr, random_state))
            I[:] = order
            return I
        return rank
    old, M.load_function = M.load_function, load
    try:
        out = algo.survival.do(problem(n_var=2, n_obj=1, n_ieq=1 if con else 0), pop, n_survive=2, random_state=rs)
    finally:
        M.load_function = old
    got = uids(out)
    S.require(len(got) == 2 and len(set(got)) == 2, "two survive")
    if con:
        S.require(len(seen) == 1, "ranked once")
        f_, phi, pr, r = seen[0]
        S.require(pr == 0.25 and r is rs, "with the given probability and random state")
        S.require(veq(S, f_, f) and veq(S, phi, [S.max([0.0, g[i, 0]]) for i in range(4)]), "objective and violation of each solution")
        S.require(got == order[:2], "the first of the ranking survive")
    else:
        S.require(S.all([S.xle(f[got[0]], f[got[1]])] + [S.xle(f[got[1]], f[j]) for j in range(4) if j not in got]), "the best survive")


# ---------------------------------------------------------------------------------------------------- clearing

@harness("P42", "clearing", quick=[dict(n=3, how="matrix"), dict(n=3, how="function")], thorough=[dict(n=4, how="matrix")], functions=[CL + ":EpsilonClearing.select", CL + ":EpsilonClearing.reset", CL + ":EpsilonClearing.remaining"],
         bounds="3 (thorough 4) solutions, any symmetric distances and epsilon, every sequence of selections with resets")
def clearing(S, n, how):
    from pymoo.util.clearing import EpsilonClearing
    eps = S.real("eps", lo=0, hi=1)
    D = [[0.0] * n for _ in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        D[i][j] = D[j][i] = S.real("d%d%d" % (i, j), lo=0, hi=1)
    M = S.array(D)
    c = EpsilonClearing(M if how == "matrix" else (n, lambda k: M[k]), eps)
    chosen, cleared = [], set()
    for step in range(n + 1):
        rem = [int(i) for i in c.remaining()]
        S.require(rem == [i for i in range(n) if i not in cleared], "exactly those not cleared remain")
        S.require(bool(c.has_remaining()) == (len(rem) > 0) and [bool(v) for v in c.cleared()] == [i in cleared for i in range(n)], "flags")
        if len(rem) == 0:
            c.reset()
            cleared = set(chosen)
            if len(chosen) == n:
                break
            continue
        k = S.pick(rem)
        out = sorted(int(i) for i in c.select(k))
        new = [i for i in range(n) if i not in cleared and i != k and S.truth(S.xlt(D[k][i], eps))]
        S.require(out == new, "exactly those closer than epsilon are cleared")
        chosen.append(k)
        cleared |= set(new) | {k}
        S.require([int(i) for i in c.selected()] == chosen, "in the order of selection")


@harness("P42", "greedy", quick=[dict(n=3, m=3)], functions=[CL + ":select_by_clearing", CL + ":func_select_by_objective"], bounds="3 solutions, symbolic distances and objective values")
def greedy(S, n, m):
    from pymoo.util.clearing import select_by_clearing, func_select_by_objective, func_select_from_sorted
    sortd = S.pick([False, True])
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(n)]
    D = [[0.0] * n for _ in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        D[i][j] = D[j][i] = S.real("d%d%d" % (i, j), lo=0, hi=1)
    pop = pop_of(S, F=S.array([[v] for v in f]))
    got = [int(i) for i in select_by_clearing(pop, S.array(D), m, func_select_from_sorted if sortd else func_select_by_objective, delta=0.5)]
    S.require(len(got) == m and len(set(got)) == m, "as many as requested, each once")
    cleared = set()
    for t, k in enumerate(got):
        if len(cleared) == n:
            cleared = set(got[:t])
        S.require(k not in cleared, "not cleared")
        rest = [i for i in range(n) if i not in cleared]
        S.require(k == rest[0] if sortd else S.all([S.xle(f[k], f[i]) for i in rest]), "the best of the remaining")
        cleared |= {i for i in range(n) if i == k or S.truth(S.xlt(D[k][i], 0.5))}


NS = SO + "ga_niching.py:EpsilonClearingSurvival._do"


@harness("P42", "niches", quick=[dict(n=4, m=3, k=k, **o) for k in (0, 2) for o in (dict(), dict(cap=1), dict(dim=True))] + [dict(n=4, m=4, k=1, con=True), dict(n=5, m=5, k=0, cap=2)], thorough=[dict(n=5, m=4, k=k, con=c) for k in (0, 3) for c in (False, True)],
         functions=[NS, "pymoo/util/misc.py:norm_eucl_dist"], bounds="4 (thorough 5) solutions, one symbolic coordinate, symbolic objective values and violations, attributes left over from an earlier generation")
def niches(S, n, m, k, cap=None, dim=False, con=False):
    from pymoo.algorithms.soo.nonconvex.ga_niching import EpsilonClearingSurvival
    p = problem(n_var=4, n_obj=1, n_ieq=1 if con else 0, xl=np.array([0.0, 0.0, 0.0, 0.0]), xu=np.array([4.0, 2.0, 1.0, 1.0]))
    X = [[v, 1.0, 0.5, 0.25] for v in [0.0, 1.0, 3.0, 3.5, 2.25]][:n]
    x = S.real("x", lo=0, hi=4)
    X[k] = [x] + X[k][1:]
    f = [S.real("f%d" % i, lo=0, hi=1) if i in (0, 1) else [0.5, 0.25, 0.75][i - 2] for i in range(n)]
    cv = [S.real("v%d" % i, lo=0, hi=1) if con and i in (0, 2) else 0.0 for i in range(n)]
    eps = 0.1875 if dim else 0.375
    pop = pop_of(S, X=S.array(X), F=S.array([[v] for v in f]), CV=S.array([[v] for v in cv]))
    # the population of the last generation comes with its rounds, ranks and niches
    for i, v in enumerate(S.pick([[None] * n, [1, 1, None, 2, 1][:n]])):
        if v is not None:
            pop[i].set("iter", v), pop[i].set("rank", 7), pop[i].set("niche", 70 + i)
    out = EpsilonClearingSurvival(eps, n_max_each_iter=cap, norm_by_dim=dim).do(p, pop, n_survive=m)
    got = uids(out)
    S.require(len(got) == m and len(set(got)) == m, "as many as requested, each once")
    scale = 4.0 * (2.0 if dim else 1.0)
    dist = lambda i, j: S.abs(X[i][0] - X[j][0])
    for i in range(n):
        for j in range(i):
            S.assume(S.ne(dist(i, j), eps * scale))
    near = lambda i, j: S.truth(S.xlt(dist(i, j), eps * scale))
    better = lambda i, j: S.any([S.xlt(cv[i], cv[j]), S.all([S.same(cv[i], cv[j]), S.xle(f[i], f[j])])])
    cleared, it, rank, first = set(), 1, 1, None
    for t, c in enumerate(got):
        if len(cleared) == n or (cap is not None and rank > cap):
            cleared, it, rank = set(got[:t]), it + 1, 1
            first = list(got[:t]) if first is None else first
        S.require(c not in cleared, "not cleared in this round")
        S.require(S.all([better(c, i) for i in range(n) if i not in cleared]), "the best of those that are not cleared")
        S.require(pop[c].get("iter") == it and pop[c].get("rank") == rank, "round and rank")
        if it == 1:
            S.require(pop[c].get("niche") == rank, "a niche of its own")
        else:
            ok = S.any([S.all([S.le(dist(c, i), dist(c, j)) for j in first] + [bool(pop[c].get("niche") == pop[i].get("niche"))]) for i in first])
            S.require(ok, "the niche of the closest solution of the first round")
        cleared |= {i for i in range(n) if i == c or near(c, i)}
        rank += 1
    S.observe("survivors", got)


@harness("P42", "niche_run", quick=[dict(all_opt=True), dict(all_opt=False)], functions=[SO + "ga_niching.py:NicheGA._set_optimum", NS], bounds="3 individuals, 2 generations, symbolic objective values and one coordinate of each generation")
def niche_run(S, all_opt):
    from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
    algo = NicheGA(pop_size=3, norm_niche_size=0.25, return_all_opt=all_opt)
    p = problem(n_var=1, n_obj=1, xl=0.0, xu=1.0)
    algo.setup(p, seed=1, termination=("n_gen", 10), verbose=False)
    known = []
    from pymoo.core.population import Population
    algo._infill = lambda: Population.new(X=np.array([[0.0], [0.375], [0.75]]))
    for g in range(2):
        q = algo.ask()
        F = [S.real("f%d%d" % (g, i), lo=0, hi=1) if i < 1 else [0.5, 0.25, 0.75][i] + 0.0625 * g for i in range(len(q))]
        x = S.real("x%d" % g, lo=0, hi=1)
        for i, v in enumerate(F):
            q[i].set("F", S.array([v]))
            if i == 0 and g == 1:
                q[i].set("X", S.array([x]))
            q[i].evaluated = {"F", "G", "H"}
        known += list(F)
        algo.tell(infills=q)
        opt = list(algo.opt)
        if all_opt:
            S.require([id(i) for i in opt] == [id(i) for i in algo.pop if i.get("iter") == 1] and len(opt) >= 1, "the first round is the optimum")
            for a, b in itertools.combinations(opt, 2):
                S.require(S.le(0.25, S.abs(a.X[0] - b.X[0])), "optima are epsilon apart")
        else:
            S.require(len(opt) == 1, "one optimum")
        S.require(S.any([S.eq(o.F[0], S.min(known)) for o in opt]), "the best solution found so far is an optimum")


# ---------------------------------------------------------------------------------------------------- biased random keys

ES = SO + "brkga.py:EliteSurvival._do"


@harness("P42", "elites", quick=[dict(n=4, e=2), dict(n=3, e=4), dict(n=4, e=2, con=True)], functions=[ES], bounds="3-4 solutions, up to 4 elites, symbolic values and violations")
def elites(S, n, e, con=False):
    from pymoo.algorithms.soo.nonconvex.brkga import EliteSurvival
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(n)]
    cv = [S.real("v%d" % i, lo=0, hi=1) if con and i < 3 else 0.0 for i in range(n)]
    pop = pop_of(S, X=np.arange(n)[:, None] * 1.0, F=S.array([[v] for v in f]), CV=S.array([[v] for v in cv]))
    # types of the last generation
    pop.set("type", S.pick([["elite"] * n, ["non_elite"] * n, [None] * n]))
    out = EliteSurvival(e).do(problem(n_var=1, n_obj=1, n_ieq=1 if con else 0), pop, n_survive=n)
    got = uids(out)
    S.require(sorted(got) == list(range(n)), "everything stays")
    T = {u: i.get("type") for u, i in zip(got, out)}
    el = [u for u in got if T[u] == "elite"]
    S.require(all(T[u] in ("elite", "non_elite") for u in got) and len(el) == min(e, n), "as many elites as requested")
    for a in el:
        for b in got:
            if b not in el:
                S.require(S.any([S.xlt(cv[a], cv[b]), S.all([S.same(cv[a], cv[b]), S.xle(f[a], f[b])])]), "no elite is worse than a non-elite")


@harness("P42", "elite_duplicates", quick=[dict(kind="F", n=3), dict(kind="own", n=3), dict(kind="own", n=4)], functions=[ES], bounds="3-4 solutions, objective values and keys of any equality pattern (equal keys have equal values)")
def elite_duplicates(S, kind, n):
    from pymoo.algorithms.soo.nonconvex.brkga import EliteSurvival
    from pymoo.core.duplicate import ElementwiseDuplicateElimination

    class Own(ElementwiseDuplicateElimination):
        def is_equal(self, a, b):
            return a.get("key") == b.get("key")
    key = [0] + [S.choose(3) for _ in range(n - 1)] if kind == "own" else [0] * n
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(2)] + [0.5] + ([0.5] if n == 4 else [])
    for i, j in itertools.combinations(range(n), 2):
        S.assume(S.any([S.same(f[i], f[j]), S.xlt(f[i] + 0.001, f[j]), S.xlt(f[j] + 0.001, f[i])]))
        if kind == "own" and key[i] == key[j]:
            S.assume(S.same(f[i], f[j]))
    pop = pop_of(S, X=np.arange(n)[:, None] * 1.0, F=S.array([[v] for v in f]), CV=np.zeros((n, 1)))
    for i in range(n):
        pop[i].set("key", key[i])
    out = EliteSurvival(2, eliminate_duplicates=True if kind == "F" else Own()).do(problem(n_var=1, n_obj=1), pop, n_survive=n)
    got = uids(out)
    same = lambda i, j: S.all([S.same(f[i], f[j]), key[i] == key[j]])
    S.require(len(got) == len(set(got)), "each once")
    for i, j in itertools.combinations(got, 2):
        S.require(S.not_(same(i, j)), "no two solutions that are equal survive")
    for i in range(n):
        if i not in got:
            S.require(S.any([same(i, j) for j in got]), "only duplicates are removed")
    S.require([i.get("type") for i in out].count("elite") == min(2, len(got)), "elites of what is left")


@harness("P42", "elite_mating", quick=[dict(types="ene"), dict(types="nnee"), dict(types="ee")], functions=[SO + "brkga.py:EliteBiasedSelection._do"], bounds="2-4 solutions, 2 matings, every draw")
def elite_mating(S, types):
    from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
    n = len(types)
    pop = pop_of(S, F=np.zeros((n, 1)))
    pop.set("type", [dict(e="elite", n="non_elite")[c] for c in types])
    P = EliteBiasedSelection().do(None, pop, 2, 2, to_pop=False, random_state=S.rng(open_=True))
    S.require(P.shape == (2, 2), "two matings")
    for a, b in P:
        S.require(types[int(a)] == "e" and (types[int(b)] == "n" or "n" not in types), "one elite and one non-elite parent")
    S.observe("parents", [[int(v) for v in r] for r in P])


@harness("P42", "elite_mating_reach", quick=[dict(a=a, b=b) for a in (1, 3) for b in (0, 2)] + [dict(a=1, b=0, types="eeee")], functions=[SO + "brkga.py:EliteBiasedSelection._do"], bounds="4 solutions, each pair drawn by some random numbers")
def elite_mating_reach(S, a, b, types="nene"):
    from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
    pop = pop_of(S, F=np.zeros((4, 1)))
    pop.set("type", [dict(e="elite", n="non_elite")[c] for c in types])

    class R:
        n = 0

        def choice(self, x, size=None, **k):
            S.require(size == 1, "one for each mating")
            self.n += 1
            return np.array([[v for v in x if v == (a, b)[self.n - 1]][0]])
    P = EliteBiasedSelection().do(None, pop, 1, 2, to_pop=False, random_state=R())
    S.require([int(v) for v in P[0]] == [a, b], "each elite and each non-elite can be drawn")


@harness("P42", "brkga", quick=[dict(seed=1, sym=((0,), (0,), (2,))), dict(seed=2, sym=((), (0, 2), ())), dict(seed=3, sym=((3,), (), (1,)))], thorough=[dict(seed=4, sym=((0,), (0, 2), (1,)))], functions=[SO + "brkga.py:BRKGA._infill", SO + "brkga.py:BRKGA._advance", SO + "brkga.py:BRKGA.__init__", "pymoo/operators/crossover/binx.py:BinomialCrossover._do"],
         bounds="2 elites, 2 offspring, 1 mutant; 3 generations, symbolic objective values of one or two solutions each, seeded random numbers")
def brkga(S, seed, sym, gens=3):
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    algo = BRKGA(n_elites=2, n_offsprings=2, n_mutants=1, bias=0.75)
    S.require(algo.mating.crossover.n_offsprings == 1, "one child")
    algo.setup(problem(n_var=3, n_obj=1, xl=0.0, xu=1.0), seed=seed, termination=("n_gen", 100), verbose=False)
    best = []
    for g in range(gens):
        q = algo.ask()
        old = list(algo.pop) if g else []
        if g:
            S.require(len(q) == 3, "offspring and mutants as requested")
            el = [i for i in old if i.get("type") == "elite"]
            rest = [i for i in old if i.get("type") != "elite"]
            for i in list(q)[:2]:
                ok = any(all(v in (a.X[j], b.X[j]) for j, v in enumerate(i.X)) and any(v == a.X[j] for j, v in enumerate(i.X)) for a in el for b in rest)
                S.require(ok, "children have the genes of an elite and a non-elite")
        else:
            S.require(len(q) == 5, "initial population")
        S.require(all(0 <= v <= 1 for i in q for v in i.X), "within the bounds")
        F = [S.real("f%d%d" % (g, i), lo=0, hi=1) if i in sym[g] else [0.5, 0.25, 0.75, 0.875, 0.375][i - 1] + 0.03125 * g for i in range(len(q))]
        for i, v in zip(q, F):
            i.set("F", S.array([v]))
            i.evaluated = {"F", "G", "H"}
        best += F
        algo.tell(infills=q)
        kept = {id(i) for i in algo.pop}
        if g:
            S.require(kept == {id(i) for i in el} | {id(i) for i in q}, "elites, offspring and mutants make the next generation")
        el = [i for i in algo.pop if i.get("type") == "elite"]
        S.require(len(el) == 2, "two elites")
        S.require(S.eq(S.min([i.F[0] for i in el]), S.min(best)), "the best solution found so far is an elite")
        S.require(S.eq(algo.opt[0].F[0], S.min(best)), "and the optimum")


@harness("P42", "elite_bias", quick=[dict()], functions=["pymoo/operators/crossover/binx.py:BinomialCrossover._do", SO + "brkga.py:BRKGA.__init__"], bounds="one mating with 2 variables, symbolic random numbers and parents")
def elite_bias(S):
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    algo = BRKGA(bias=0.75)
    u = [S.real("u%d" % j, lo=0, hi=1) for j in range(2)]
    a, b = S.reals("a", 2, lo=0, hi=1), S.reals("b", 2, lo=0, hi=1)

    class R:
        def random(self, size=None, **k):
            return S.array([list(u)])

        def integers(self, *x, **k):
            return 0
    Y = algo.mating.crossover._do(problem(n_var=2, n_obj=1), S.array([[list(a)], [list(b)]]), random_state=R())
    for j in range(2):
        own = S.any([S.xlt(u[j], 0.75), S.all([S.xle(0.75, u[0]), S.xle(0.75, u[1]), j == 0])])
        S.require(S.implies(own, S.eq(Y[0, 0, j], a[j])) if S.truth(own) else S.eq(Y[0, 0, j], b[j]), "a gene comes from the elite with the probability of the bias")
