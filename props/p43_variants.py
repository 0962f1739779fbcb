"""P43: differential, loose-dominance, preference-based, dynamic and interactive variants of the NSGA family."""
import itertools
import sys
import types
import numpy as np
from symx.harness import harness
from common import dom, meta, problem, pop_of, rows, uids, veq

MO = "pymoo/algorithms/moo/"
META = meta(
    "Variants of NSGA-II and NSGA-III vary, select and react as they are defined",
    "NSDE trial vectors take, at every coordinate, the target's or the donor's value (at least one from the donor, with probability CR), the donor being the base plus F times the differences (jittered by at most gamma/2), repaired into the bounds. GDE3 keeps the better one of each parent and its own "
    "trial if one dominates the other, both otherwise. Omni-Optimizer: a solution loosely dominates another exactly if it dominates it and is better by more than delta times the range in some objective; survivors come front by front, the last one by crowding, which is the mean normalised gap to the neighbours in each space; "
    "tournaments are held between a solution and its closest remaining neighbour, each taking part once per pass. R-NSGA-III's directions are the shrunken reference directions around the projection of each reference point, without negative components, on the unit plane; it takes front after front, balances the niches of the last "
    "front, and keeps the ideal and worst points of everything seen. D-NSGA-II and KGB detect exactly the changes whose mean squared deviation exceeds eps, after which all individuals carry values of the problem as it is now, lie within the bounds, and runs do not share any memory; without a change nothing is evaluated again. PINSGA-II turns pairwise preferences into the ranks they imply.",
    ["inputs", "histories"], "all objective values, coordinates, random numbers, amounts of change and preference orders (symbolic) of the given sizes",
    "tests run each of these algorithms with one seed on one problem, and compare with recorded results",
    [MO + "nsde.py", MO + "gde3.py", MO + "nsder.py", MO + "omni.py", MO + "rnsga3.py", MO + "dnsga2.py", MO + "kgb.py", MO + "pinsga2.py"],
    [("variation", MO + "nsde.py:VariantDE._do"), ("loose dominance", MO + "omni.py:LooseDominator.calc_domination_matrix"), ("directions", MO + "rnsga3.py:get_ref_dirs_from_points"), ("change", MO + "dnsga2.py:DNSGA2._advance"), ("preferences", MO + "pinsga2.py:PINSGA2._get_pairwise_ranks")],
    "bounded: 2-6 solutions, 2-3 variables; the naive Bayes classifier of KGB (scikit-learn) is replaced by an arbitrary one, the value functions of PINSGA-II (scipy) are not covered")


def sklearn_stub():
    """KGB imports scikit-learn, which the verification environment may lack; the classifier is replaced in the harness anyway"""
    m, n = types.ModuleType("sklearn"), types.ModuleType("sklearn.naive_bayes")
    n.GaussianNB = object
    m.naive_bayes = n
    sys.modules.setdefault("sklearn", m)
    sys.modules.setdefault("sklearn.naive_bayes", n)


# ---------------------------------------------------------------------------------------------------- NSDE, GDE3

class Parents:
    """the parents are given (their selection is checked by P18)"""
    def __init__(self, P):
        self.P = np.array(P)

    def do(self, problem, pop, n_select, n_parents, to_pop=True, random_state=None, **kwargs):
        assert self.P.shape == (n_select, n_parents) and not to_pop
        return self.P


V = MO + "nsde.py:VariantDE._do"


@harness("P43", "trials", quick=[dict(cross=c, diffs=d, k=k) for c in ("bin", "exp") for d in (1, 2) for k in (0, 3)], functions=[V, MO + "nsde.py:VariantDE._sample_F"], bounds="6 individuals with 2 variables, one of them symbolic, 2 trials, every random number")
def trials(S, cross, diffs, k):
    from pymoo.algorithms.moo.nsde import VariantDE
    X = [[0.0625 * i + 0.5 * (i % 2), 1.0 - 0.125 * i] for i in range(6)]
    x = S.reals("x", 2, lo=0, hi=1)
    X[k] = [x[0], x[1]]
    pop = pop_of(S, X=S.array(X), F=np.zeros((6, 2)))
    v = VariantDE("DE/rand/%d/%s" % (diffs, cross), CR=0.25, F=0.5, gamma=None)
    P = [[0, 1, 2, 3, 4, 5], [3, 4, 5, 0, 1, 2]] if diffs == 2 else [[0, 1, 2, 3], [3, 4, 5, 0]]
    S.require(v.n_total_parents == len(P[0]), "number of parents")
    v.selection = Parents(P)
    off = v._do(problem(n_var=2, n_obj=2, xl=-50.0, xu=50.0), pop, 2, random_state=S.rng(open_=True))
    S.require(len(off) == 2, "one trial for each target")
    for t, p in enumerate(P):
        d = [X[p[1]][j] + 0.5 * (X[p[2]][j] - X[p[3]][j]) + (0.5 * (X[p[4]][j] - X[p[5]][j]) if diffs == 2 else 0) for j in range(2)]
        own = [S.eq(off[t].X[j], X[p[0]][j]) for j in range(2)]
        don = [S.eq(off[t].X[j], d[j]) for j in range(2)]
        S.require(S.all([S.any([a, b]) for a, b in zip(own, don)]), "the target's or the donor's values")
        S.require(S.any(don), "at least one from the donor")


@harness("P43", "trial_reach", quick=[dict(m=m) for m in ("10", "01", "11")], functions=[V], bounds="one trial with 2 variables, each mask reached")
def trial_reach(S, m):
    """for CR = 0.25 a coordinate is taken exactly if its random number is less"""
    from pymoo.algorithms.moo.nsde import VariantDE
    x = S.reals("x", 2, lo=0, hi=1)
    pop = pop_of(S, X=S.array([[x[0], x[1]], [2.0, 3.0], [0.5, 0.0], [0.0, 0.5]]), F=np.zeros((4, 2)))
    v = VariantDE("DE/rand/1/bin", CR=0.25, F=0.5, gamma=None)
    v.selection = Parents([[0, 1, 2, 3]])
    u = [S.real("u%d" % j, lo=0, hi=1) for j in range(2)]
    S.assume(S.all([S.xlt(a, 0.25) if c == "1" else S.xle(0.25, a) for a, c in zip(u, m)]))

    class R:
        def random(self, size=None):
            return S.array([list(u)]) if size is not None else 0.0

        def integers(self, *a, **k):
            return np.zeros(k["size"], dtype=int) if k.get("size") is not None else 0

        def choice(self, *a, **k):
            return np.zeros(k["size"], dtype=int) if k.get("size") is not None else 0
    Y = v._do(problem(n_var=2, n_obj=2, xl=-50.0, xu=50.0), pop, 1, random_state=R())[0].X
    d = [2.25, 2.75]
    for j in range(2):
        S.require(S.eq(Y[j], d[j] if m[j] == "1" else x[j]), "taken from the donor with probability CR")


@harness("P43", "factors", quick=[dict(gamma=0.5), dict(gamma=None), dict(gamma=1e-4)], functions=[V, MO + "nsde.py:VariantDE._sample_F"], bounds="2 trials, concrete parents, symbolic range of F and random numbers", resolve=True)
def factors(S, gamma):
    from pymoo.algorithms.moo.nsde import VariantDE
    X = np.array([[0.5, 0.25], [0.5, 0.75], [1.0, 3.0], [0.0, 1.0], [2.0, 0.75]])
    pop = pop_of(S, X=X, F=np.zeros((5, 2)))
    lo, hi = (0.5, 0.75) if gamma else (0.25, 1.0)
    v = VariantDE("DE/rand/1/bin", CR=1.0, F=(lo, hi), gamma=gamma)
    P = [[0, 1, 2, 3], [3, 4, 0, 2]]
    v.selection = Parents(P)
    f = [S.real("f%d" % i, lo=0, hi=1) for i in range(2)]
    g = [[S.real("g%d" % j, lo=0, hi=1), 0.25] for j in range(2)]
    n = [0]

    class R:
        def random(self, size=None, **k):
            n[0] += 1
            if n[0] == 1:
                return S.array(f)
            return S.array(g) if n[0] == 2 and gamma else np.zeros(size)

        def integers(self, *a, **k):
            return np.zeros(k["size"], dtype=int) if k.get("size") is not None else 0
    Y = v._do(problem(n_var=2, n_obj=2, xl=-50.0, xu=50.0), pop, 2, random_state=R()).get("X")
    for t, p in enumerate(P):
        F = lo + f[t] * (hi - lo)
        for j in range(2):
            d = X[p[2], j] - X[p[3], j]
            moved, a = Y[t, j] - X[p[1], j], gamma or 0.0
            ends = [F * d * (1 - a / 2), F * d * (1 + a / 2)]
            S.require(S.all([S.le(S.min(ends), moved + 1e-9), S.le(moved, S.max(ends) + 1e-9)]), "F between its bounds, jitter of at most gamma/2")


@harness("P43", "trial_bounds", quick=[dict(rep=r) for r in ("bounce-back", "to-bounds", "midway", "rand-init")], functions=[V], bounds="2 trials, one coordinate symbolic, every random number", resolve=True)
def trial_bounds(S, rep):
    from pymoo.algorithms.moo.nsde import VariantDE
    x = S.real("x", lo=0, hi=1)
    X = [[0.25, 1.0], [x, 0.5], [1.0, 0.0], [0.0, 1.0]]
    pop = pop_of(S, X=S.array(X), F=np.zeros((4, 2)))
    v = VariantDE("DE/rand/1/bin", CR=0.5, F=0.75, gamma=None, de_repair=rep)
    v.selection = Parents([[0, 1, 2, 3], [3, 1, 3, 2]])
    Y = v._do(problem(n_var=2, n_obj=2, xl=0.0, xu=1.0), pop, 2, random_state=S.rng(open_=True)).get("X")
    for i in range(2):
        S.require(S.all([S.all([S.le(0, Y[i, j]), S.le(Y[i, j], 1)]) for j in range(2)]), "within the bounds")
    if rep == "to-bounds":
        for i, s in ((0, 0.75), (1, -0.75)):
            t = [0.25, 1.0] if i == 0 else [0.0, 1.0]
            S.require(S.any([S.eq(Y[i, 0], t[0]), S.eq(Y[i, 0], S.max([0.0, S.min([1.0, x + s])]))]), "only what is outside is repaired")
    if rep in ("midway", "bounce-back"):
        for i, (own, base, d) in enumerate(((0.25, x, 0.75), (0.0, x, -0.75))):
            raw, bound = base + d, 1.0 if i == 0 else 0.0
            v, lo, hi = Y[i, 0], S.min([x, bound]), S.max([x, bound])
            out = S.xlt(1, raw) if i == 0 else S.xlt(raw, 0)
            fixed = S.eq(2 * v, base + bound) if rep == "midway" else S.all([S.le(lo, v), S.le(v, hi)])
            S.require(S.any([S.eq(v, own), S.implies(out, fixed)]), "repaired between the base and the bound")
            S.require(S.any([S.eq(v, own), out, S.eq(v, raw)]), "only what is outside is repaired")


@harness("P43", "gde3", quick=[dict(con=False), dict(con=True)], functions=[MO + "gde3.py:GDE3._advance"], bounds="2 pairs, 2 objectives, symbolic objective values (and violations)")
def gde3(S, con):
    from pymoo.algorithms.moo.gde3 import GDE3
    algo = GDE3(pop_size=2)
    algo.setup(problem(n_var=2, n_obj=2, n_ieq=1 if con else 0, xl=0.0, xu=1.0), seed=1, termination=("n_gen", 9), verbose=False)
    F = [[[S.real("a", lo=0, hi=4), 2.0], [S.real("b", lo=0, hi=4), 1.0]], [[1.0, S.real("c", lo=0, hi=4)], [S.real("d", lo=0, hi=4), 1.0]]]
    cv = [[S.real("v", lo=0, hi=1), S.real("w", lo=0, hi=1)], [S.real("y", lo=0, hi=1), 0.5]] if con else [[0.0, 0.0], [0.0, 0.0]]
    P, O = [pop_of(S, X=np.ones((2, 2)) * k, F=S.array([F[i][k] for i in range(2)]), CV=S.array([[cv[i][k]] for i in range(2)])) for k in range(2)]
    algo.pop = P
    seen = []

    class Surv:
        def do(self, problem, pop, n_survive=None, random_state=None, **kw):
            seen.append((list(pop), n_survive, random_state))
            return pop[:n_survive]
    algo.survival = Surv()
    algo._advance(infills=O)
    S.require(len(seen) == 1 and seen[0][1] == 2 and seen[0][2] is algo.random_state and len(algo.pop) == 2, "truncated to the population size")
    pool = [id(i) for i in seen[0][0]]
    n = 0
    for i in range(2):
        better = lambda a, b: S.truth(S.any([S.xlt(cv[i][a], cv[i][b]), S.all([S.same(cv[i][a], cv[i][b]), dom(S, F[i][a], F[i][b])])]))
        want = [0] if better(0, 1) else [1] if better(1, 0) else [0, 1]
        n += len(want)
        for k in range(2):
            S.require((id((P, O)[k][i]) in pool) == (k in want), "the better one of a pair, both if they are indifferent")
    S.require(len(pool) == n, "each once")


@harness("P43", "nsder", quick=[dict()], functions=[MO + "nsder.py:NSDER.__init__", MO + "nsder.py:NSDER._set_optimum"], bounds="3 solutions, symbolic violations")
def nsder(S):
    from pymoo.algorithms.moo.nsder import NSDER
    from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
    dirs = np.array([[1.0, 0.0], [0.0, 1.0], [0.5, 0.5]])
    algo = NSDER(dirs)
    S.require(algo.pop_size == 3 and isinstance(algo.survival, ReferenceDirectionSurvival) and np.array_equal(algo.survival.ref_dirs, dirs), "one individual for each direction")
    cv = [S.real("v%d" % i, lo=0, hi=1) for i in range(3)]
    pop = pop_of(S, F=np.zeros((3, 2)), CV=S.array([[c] for c in cv]))
    algo.pop, algo.survival.opt = pop, pop[[1]]
    algo._set_optimum()
    S.require(len(algo.opt) == 1, "one")
    if S.truth(S.all([S.xlt(0, c) for c in cv])):
        S.require(S.eq(algo.opt[0].CV[0], S.min(cv)), "the least infeasible one")
    else:
        S.require(algo.opt[0] is pop[1], "the optimum of the survival")
    try:
        algo.setup(problem(n_var=2, n_obj=3, xl=0.0, xu=1.0), seed=1, termination=("n_gen", 9))
        S.require(False, "directions and objectives have to match")
    except ValueError:
        pass


# ---------------------------------------------------------------------------------------------------- Omni-Optimizer

OM = MO + "omni.py:"


@harness("P43", "loose", quick=[dict(n=2, zero=False), dict(n=3, zero=False), dict(n=3, zero=True)], functions=[OM + "LooseDominator.calc_domination_matrix"], bounds="2-3 solutions, 2 objectives, all values symbolic (3 solutions: two of them)")
def loose(S, n, zero):
    from pymoo.algorithms.moo.omni import LooseDominator
    delta = 0.0 if zero else 0.25
    if n == 2:
        F = [[S.real("f%d%d" % (i, j), lo=0, hi=4) for j in range(2)] for i in range(2)]
    else:
        F = [[S.real("a", lo=0, hi=4), S.real("b", lo=0, hi=4)], [S.real("c", lo=0, hi=4), 1.0], [2.0, 3.0]]
    M = LooseDominator(delta=delta).calc_domination_matrix(S.array(F))
    S.require(M.shape == (n, n), "shape")
    eps = [delta * (S.max([f[j] for f in F]) - S.min([f[j] for f in F])) for j in range(2)]
    loosely = lambda a, b: S.all([dom(S, F[a], F[b]), S.any([S.xlt(F[a][j] + eps[j], F[b][j]) for j in range(2)])])
    for a in range(n):
        for b in range(n):
            v = int(M[a, b])
            S.require(S.iff(v == 1, loosely(a, b)) if a != b else v == 0, "dominates by a margin")
            S.require(v == -int(M[b, a]), "and conversely")


@harness("P43", "space", quick=[dict(space=s, k=k) for s in ("objective", "variable") for k in (0, 2)], functions=[OM + "calc_crowding_distance_in_space"], bounds="4 points, 2 dimensions, one symbolic coordinate that is not an extreme one, or is", resolve=True)
def space_(S, space, k):
    from pymoo.algorithms.moo.omni import calc_crowding_distance_in_space, BOUNDARY
    Y = [[0.0, 3.0], [1.0, 1.0], [2.5, 2.0], [4.0, 0.0]]
    x = S.real("x", lo=0, hi=4) if k == 2 else S.real("x", lo=-3, hi=2)
    for v in (0.0, 1.0, 2.5, 4.0):
        S.assume(S.ne(x, v))
    Y[k] = [x, Y[k][1]]
    got = calc_crowding_distance_in_space(S.array(Y), space=space)
    tot, low = [0.0] * 4, [False] * 4
    for j in range(2):
        order = sorted(range(4), key=lambda i: sum(S.truth(S.xlt(Y[o][j], Y[i][j])) for o in range(4)))
        span = Y[order[3]][j] - Y[order[0]][j]
        low[order[0]] = True
        for t, i in enumerate(order):
            a, b = (order[t - 1] if t > 0 else None), (order[t + 1] if t < 3 else None)
            if a is None or b is None:
                gap = 0.0 if space == "objective" else 2 * S.abs(Y[i][j] - Y[b if a is None else a][j])
            else:
                gap = Y[b][j] - Y[a][j]
            tot[i] = tot[i] + gap / span
    for i in range(4):
        want = BOUNDARY if space == "objective" and low[i] else tot[i] / 2
        S.require(S.all([S.le(want, got[i] + 1e-9), S.le(got[i], want + 1e-9)]), "mean normalised gap, the best of each objective apart")


@harness("P43", "flat", quick=[dict(space=s) for s in ("objective", "variable")], functions=[OM + "calc_crowding_distance_in_space"], bounds="3 points without a range in one dimension, or 2 points")
def flat(S, space):
    from pymoo.algorithms.moo.omni import calc_crowding_distance_in_space, BOUNDARY
    x, y = S.real("x", lo=1, hi=2), S.real("y", lo=-1, hi=1)
    S.assume(S.xlt(x, 2))
    got = calc_crowding_distance_in_space(S.array([[0.0, y], [x, y], [2.0, y]]), space=space)
    S.require(S.all([S.finite(v) for v in got]), "finite")
    S.require(S.eq(got[1], 0.5), "a dimension without a range counts nothing")
    two = calc_crowding_distance_in_space(S.array([[x, y], [y, x]]), space=space)
    S.require(S.all([S.eq(v, BOUNDARY) for v in two]), "two solutions are boundary solutions")


@harness("P43", "combined", quick=[dict(a=a, b=b) for a, b in ((True, True), (True, False), (False, True))], functions=[OM + "calc_omni_crowding_distance"], bounds="3 solutions, any crowding in both spaces")
def combined(S, a, b):
    import pymoo.algorithms.moo.omni as M
    F, X = np.arange(6.0).reshape(3, 2), np.arange(9.0).reshape(3, 3)
    o = [S.real("o%d" % i, lo=0, hi=2) for i in range(2)] + [M.BOUNDARY]
    v = [S.real("v%d" % i, lo=0, hi=2) for i in range(3)]

    def crowd(Y, space="objective"):
        S.require((space == "objective" and Y.shape == (3, 2)) or (space == "variable" and Y.shape == (3, 3)), "each space by its own values")
        return S.array(o if space == "objective" else v)
    old, M.calc_crowding_distance_in_space = M.calc_crowding_distance_in_space, crowd
    try:
        got = M.calc_omni_crowding_distance(F, X, obj_crowding=a, var_crowding=b)
    finally:
        M.calc_crowding_distance_in_space = old
    ao, av = (o[0] + o[1]) / 3, S.sum(v) / 3
    for i in range(3):
        if a and b:
            hi, lo = S.max([o[i], v[i]]), S.min([o[i], v[i]])
            S.require(S.any([S.eq(got[i], hi), S.eq(got[i], lo)]), "the crowding in one of the spaces")
            S.require(S.implies(S.any([S.xlt(ao, o[i]), S.xlt(av, v[i])]), S.eq(got[i], hi)), "the larger one if it is less crowded than the average in either space")
            S.require(S.implies(S.all([S.xle(o[i], ao / 3), S.xle(v[i], av / 3)]), S.eq(got[i], lo)), "the smaller one otherwise")
        else:
            S.require(S.eq(got[i], o[i] if a else v[i]), "one space only")


@harness("P43", "omni_survival", quick=[dict(k=k) for k in range(3)], functions=[OM + "OmniOptimizerSurvival._do", OM + "OmniOptimizer._set_optimum", "pymoo/util/nds/non_dominated_sorting.py:NonDominatedSorting.do"], bounds="4 solutions, 2 objectives, 2 survive, one symbolic solution, any crowding")
def omni_survival(S, k):
    import pymoo.algorithms.moo.omni as M
    F = [[0.0, 3.0], [1.0, 1.0], [3.0, 2.0], [2.0, 4.0]]
    F[k] = [S.real("f", lo=0, hi=4), S.real("g", lo=0, hi=4)]
    X = np.arange(8.0).reshape(4, 2)
    c = [S.real("c%d" % i, lo=0, hi=4) for i in range(4)]
    calls = []

    def crowd(f, x, obj_crowding=True, var_crowding=True):
        S.require(obj_crowding and not var_crowding, "as configured")
        idx = [int(r[0]) // 2 for r in x]
        S.require(S.all([veq(S, f[t], F[i]) for t, i in enumerate(idx)]), "objective values and variables of the front")
        calls.append(idx)
        return S.array([c[i] for i in idx])
    old, M.calc_omni_crowding_distance = M.calc_omni_crowding_distance, crowd
    try:
        pop = pop_of(S, X=X, F=S.array(F), CV=np.zeros((4, 1)))
        out = M.OmniOptimizerSurvival(delta=0.25, var_crowding=False).do(problem(n_var=2, n_obj=2), pop, n_survive=2, random_state=S.rng(open_=True))
    finally:
        M.calc_omni_crowding_distance = old
    eps = [0.25 * (S.max([f[j] for f in F]) - S.min([f[j] for f in F])) for j in range(2)]
    loosely = lambda a, b: S.truth(S.all([dom(S, F[a], F[b]), S.any([S.xlt(F[a][j] + eps[j], F[b][j]) for j in range(2)])]))
    D = [[a != b and loosely(a, b) for b in range(4)] for a in range(4)]
    rank, left, r = {}, set(range(4)), 0
    while left:
        fr = [i for i in left if not any(D[j][i] for j in left)]
        for i in fr:
            rank[i] = r
        left -= set(fr)
        r += 1
    got = uids(out)
    S.require(len(got) == 2 and len(set(got)) == 2, "two survive")
    for a in got:
        S.require(int(pop[a].get("rank")) == rank[a] and S.truth(S.eq(pop[a].get("crowding"), c[a])), "rank and crowding")
        for b in range(4):
            if b not in got:
                S.require(S.any([rank[a] < rank[b], S.all([rank[a] == rank[b], S.xle(c[b], c[a])])]), "better fronts, then the less crowded ones")
    algo = M.OmniOptimizer(pop_size=2)
    algo.pop = out
    algo._set_optimum()
    S.require(sorted(uids(algo.opt)) == sorted(i for i in got if rank[i] == 0) and len(algo.opt) >= 1, "the first front is the optimum")


@harness("P43", "neighbors", quick=[dict(n=3, k=0), dict(n=4, k=1), dict(n=5, k=2)], functions=[OM + "NeighborBasedTournamentSelection._do"], bounds="3-5 individuals with 2 variables, one symbolic, 2 permutations of each pass", resolve=True)
def neighbors(S, n, k):
    from pymoo.algorithms.moo.omni import NeighborBasedTournamentSelection
    X = [[0.0, 0.5], [8.0, 0.0], [4.0, 1.0], [2.0, 0.25], [6.0, 0.5]][:n]
    X[k] = [S.real("x", lo=0, hi=8), X[k][1]]
    if k == 1:
        X[2] = [8.0, 1.0]
    pop = pop_of(S, X=S.array(X), F=np.zeros((n, 1)))
    seen, perms = [], []

    class R:
        def permutation(self, m):
            S.require(m == n, "of all")
            perms.append(S.pick([list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]]))
            return np.array(perms[-1])

    def comp(pop_, P, random_state=None, **kw):
        seen.append(P.copy())
        return P[:, [1]]
    out = NeighborBasedTournamentSelection(func_comp=comp)._do(None, pop, 2, 2, random_state=R())
    P = [[int(v) for v in r] for r in seen[0]]
    S.require(len(seen) == 1 and len(P) == 4 and [[int(v) for v in r] for r in out] == [[P[0][1], P[1][1]], [P[2][1], P[3][1]]], "winners of the tournaments")
    per, t = n // 2, 0
    w = [S.max([r[j] for r in X]) - S.min([r[j] for r in X]) for j in range(2)]
    w0 = w[0]
    dist = lambda a, b: (X[a][0] - X[b][0]) * (X[a][0] - X[b][0]) + w0 * w0 / (w[1] * w[1]) * (X[a][1] - X[b][1]) * (X[a][1] - X[b][1])
    for perm in perms:
        left = list(perm)
        for _ in range(per):
            if t == 4:
                break
            a, b = P[t]
            S.require(a == left[0] and b in left[1:], "the next one and another that is left")
            S.require(S.all([S.le(dist(a, b), dist(a, o)) for o in left[1:]]), "its closest neighbour")
            left = [i for i in left if i not in (a, b)]
            t += 1
    S.require(t == 4, "as many as needed")


# ---------------------------------------------------------------------------------------------------- R-NSGA-III

RN = MO + "rnsga3.py:"
DIRS = {2: np.array([[1.0, 0.0], [0.5, 0.5], [0.0, 1.0]]), 3: np.array([[1.0, 0.0, 0.0], [0.25, 0.25, 0.5], [0.0, 0.75, 0.25], [0.0, 0.0, 1.0]])}


@harness("P43", "directions", quick=[dict(m=m, c=c) for m in (2, 3) for c in (0, 1)], functions=[RN + "get_ref_dirs_from_points", RN + "line_plane_intersection"], bounds="2 reference points (one symbolic coordinate), 3-4 directions, 2-3 objectives", resolve=True, timeout_ms=8000)
def directions(S, m, c):
    from pymoo.algorithms.moo.rnsga3 import get_ref_dirs_from_points
    mu = S.pick([0.125, 0.5])
    x = S.real("x", lo=0.125, hi=2)
    P = [[0.5, 0.75, 0.25][:m], [1.0, 0.25, 2.0][:m]]
    P[c][0] = x
    R = DIRS[m]
    got = get_ref_dirs_from_points(S.array(P), R.copy(), mu=mu)
    n = len(R)
    S.require(got.shape == (2 * n + m, m), "all directions for each point and the extreme ones")
    mean = R.mean(axis=0)
    near = lambda a, b: S.all([S.le(a, b + 1e-7), S.le(b, a + 1e-7)])
    for p in range(2):
        s = S.sum(P[p])
        want = [[mu * (R[i, j] - mean[j]) + P[p][j] / s for j in range(m)] for i in range(n)]
        for i in range(n):
            w = [S.max([0.0, v]) for v in want[i]]
            t = S.sum(w)
            for j in range(m):
                S.require(near(got[p * n + i, j] * t, w[j]), "shrunken directions around the projected point, cut at zero and back on the plane")
    S.require(np.array_equal(np.array(got[2 * n:], dtype=float), np.eye(m)), "extreme points")


@harness("P43", "intersection", quick=[dict()], functions=[RN + "line_plane_intersection"], bounds="lines through two points with one symbolic coordinate, a plane in two dimensions", resolve=True)
def intersection(S):
    from pymoo.algorithms.moo.rnsga3 import line_plane_intersection
    x = S.real("x", lo=-2, hi=2)
    a, b = np.array([0.25, 0.0]), S.array([x, 1.0])
    p0, nrm = np.array([1.0, 0.0]), np.array([0.5, 0.5])
    q = line_plane_intersection(a, b, p0, nrm)
    near = lambda u, v: S.all([S.le(u, v + 1e-7), S.le(v, u + 1e-7)])
    if S.truth(S.xlt(1e-6, S.abs(0.5 * (x - 0.25) + 0.5))):
        S.assume(S.xlt(0.01, S.abs(0.5 * (x - 0.25) + 0.5)))
        S.require(near(q[0] + q[1], 1.0), "on the plane")
        S.require(near((q[0] - 0.25) * 1.0, q[1] * (x - 0.25)), "on the line")
    else:
        d = 0.5 * (x - 1) + 0.5
        S.require(S.all([near(q[0], x - d * 0.5), near(q[1], 1 - d * 0.5)]), "parallel lines are projected")


SETS = [[[0.0, 3.0], [1.0, None], [3.0, 0.0], [4.0, 4.0]], [[0.0, 4.0], [2.0, None], [1.0, 2.0], [3.0, 3.0]], [[None, 1.0], [2.0, 2.0], [1.0, 5.0], [4.0, 0.5]]]


@harness("P43", "aspiration", quick=[dict(which=w, n_survive=m) for w in range(3) for m in (2, 3)], functions=[RN + "AspirationPointSurvival._do"], bounds="4 solutions, 2 objectives, one symbolic value, 2 generations' ideal points, seeded random numbers", resolve=True, timeout_ms=8000)
def aspiration(S, which, n_survive):
    import pymoo.algorithms.moo.rnsga3 as M
    refs = np.array(S.pick([[[1.0, 1.5], [3.0, 0.5]], [[1.0, 1.5], [12.0, 14.0]]]))
    t = S.real("t", lo=-1, hi=5)
    F = [[t if v is None else v for v in r] for r in SETS[which]]
    sv = M.AspirationPointSurvival(refs, DIRS[2], mu=0.25)
    before = S.pick([None, [-1.0, 0.25]])
    if before is not None:
        sv.ideal_point, sv.worst_point = np.array(before), np.array([2.0, 9.0])
    calls = []
    orig, gen = M.associate_to_niches, M.get_ref_dirs_from_points

    def dirs(pts, d, mu=None):
        S.require(mu == 0.25 and d is sv.aspiration_ref_dirs, "directions of the survival")
        calls.append(("dirs", pts))
        return S.array([[0.75, 0.25], [0.25, 0.75], [1.0, 0.0], [0.0, 1.0]])
    niche = np.array(S.pick([[0, 0, 1, 2], [1, 2, 1, 1], [3, 0, 2, 1]]))
    D = np.array([[0.5, 0.25, 1.0, 2.0], [0.25, 0.5, 0.75, 1.0], [1.0, 2.0, 0.25, 3.0], [0.5, 0.125, 0.25, 1.0]])
    for i in range(4):
        D[i, niche[i]] = 0.0625 * (1 + (i * 3) % 4)
    pop = pop_of(S, F=S.array(F), CV=np.zeros((4, 1)))

    def assoc(f, d, ideal, nadir, **kw):
        idx = [next(i for i in range(4) if S.truth(veq(S, r, F[i])) and S.truth(S.same(r[0], F[i][0])) and S.truth(S.same(r[1], F[i][1]))) for r in rows(f)]
        calls.append(("assoc", d, ideal, nadir, idx))
        return niche[idx], D[idx, niche[idx]], D[idx]
    for a in range(4):
        for b in range(a):
            S.assume(S.not_(veq(S, F[a], F[b])))
    M.associate_to_niches, M.get_ref_dirs_from_points = assoc, dirs
    try:
        out = sv.do(problem(n_var=1, n_obj=2), pop, n_survive=n_survive, random_state=np.random.default_rng(1))
    finally:
        M.associate_to_niches, M.get_ref_dirs_from_points = orig, gen
    S.require([c[0] for c in calls] == ["dirs", "assoc"], "associated once")
    S.require(np.array_equal(np.array(calls[1][1], dtype=float), [[0.75, 0.25], [0.25, 0.75], [1.0, 0.0], [0.0, 1.0]]), "associated to these directions")
    for j in range(2):
        pts = [f[j] for f in F] + [refs[0, j], refs[1, j]]
        S.require(S.eq(sv.ideal_point[j], S.min(pts + ([before[j]] if before else []))), "ideal point of all seen and the reference points")
        S.require(S.eq(sv.worst_point[j], S.max(pts + ([[2.0, 9.0][j]] if before else []))), "worst point of all seen and the reference points")
        S.require(S.xlt(sv.ideal_point[j], sv.nadir_point[j]), "nadir behind the ideal point")
        for p in range(2):
            S.require(S.eq(calls[0][1][p, j] * (sv.nadir_point[j] - sv.ideal_point[j]), refs[p, j] - sv.ideal_point[j]), "normalised reference points")
        S.require(S.all([S.eq(calls[1][2][j], sv.ideal_point[j]), S.eq(calls[1][3][j], sv.nadir_point[j])]), "normalised by the ideal and the nadir point")
    D_ = [[a != b and S.truth(dom(S, F[a], F[b])) for b in range(4)] for a in range(4)]
    rank, left, r = {}, set(range(4)), 0
    while left:
        fr = [i for i in left if not any(D_[j][i] for j in left)]
        for i in fr:
            rank[i] = r
        left -= set(fr)
        r += 1
    got = uids(out)
    S.require(len(got) == n_survive and len(set(got)) == n_survive, "number of survivors")
    last = max(rank[i] for i in got)
    S.require(all(i in got for i in range(4) if rank[i] < last), "front after front")
    count = lambda q: sum(1 for i in got if niche[i] == q)
    sel = [i for i in got if rank[i] == last]
    for i in sel:
        for o in range(4):
            if rank[o] == last and o not in got:
                S.require(count(niche[i]) <= count(niche[o]) + 1, "the niches with the fewest members come first")
    for q in range(4):
        cand = [i for i in range(4) if niche[i] == q and rank[i] == last]
        if any(i in got for i in cand) and not any(rank[i] < last for i in got if niche[i] == q):
            S.require(min(cand, key=lambda i: D[i, q]) in got, "the closest of an empty niche")
    opt = uids(sv.opt)
    S.require(len(opt) >= 1 and all(rank[i] == 0 for i in opt), "optimum of the first front")
    for i in got:
        S.require(int(pop[i].get("niche")) == niche[i] and int(pop[i].get("rank")) == rank[i] and float(pop[i].get("dist_to_niche")) == D[i, niche[i]], "niche, distance and rank of each solution")


# ---------------------------------------------------------------------------------------------------- dynamic problems

def dynamic(S, n_var=2):
    """f = (x0 + c, 1 - x0 + x1) where c changes"""
    p = problem(n_var=n_var, n_obj=2, xl=np.array([0.0, -2.0])[:n_var], xu=np.array([1.0, 4.0])[:n_var])
    p.c, p.n, p.sizes = 0.0, 0, []

    def evaluate(X, out, *a, **k):
        p.n += len(X)
        p.sizes.append(len(X))
        for x in X:
            S.require(S.all([S.all([S.le(p.xl[j], x[j]), S.le(x[j], p.xu[j])]) for j in range(n_var)]), "only solutions within the bounds are evaluated")
        out["F"] = S.array([[x[0] + p.c, 1 - x[0] + x[1]] for x in X])
    p._evaluate = evaluate
    return p


def current(S, p, i):
    return S.all([S.eq(i.F[0], i.X[0] + p.c), S.eq(i.F[1], 1 - i.X[0] + i.X[1])])


@harness("P43", "dnsga2", quick=[dict(version=v, seed=s) for v in "AB" for s in (1, 2, 3)], functions=[MO + "dnsga2.py:DNSGA2._advance", MO + "dnsga2.py:DNSGA2._infill"], bounds="4 individuals, a change of symbolic size, seeded random numbers", resolve=True)
def dnsga2(S, version, seed):
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    p = dynamic(S)
    eps = S.pick([0.0, 0.5])
    algo = DNSGA2(pop_size=4, eps=eps, version=version, perc_diversity=0.5, perc_detect_change=0.5)
    algo.setup(p, seed=seed, termination=("n_gen", 10), verbose=False)
    algo.next()
    S.require(p.n == 4, "initial population")
    old = list(algo.pop)
    oldX = [tuple(float(v) for v in i.X) for i in old]
    c = S.real("c", lo=-2, hi=2)
    p.c = c
    hit = S.truth(S.xlt(eps, c * c / 2))
    algo.next()
    S.require(len(algo.pop) == 4, "population size")
    for i in algo.pop:
        S.require(S.all([S.all([S.le(p.xl[j], i.X[j]), S.le(i.X[j], p.xu[j])]) for j in range(2)]), "within the bounds")
        if hit:
            S.require(current(S, p, i), "values of the problem as it is now")
            S.require(not any(i is o for o in old), "evaluated again")
        else:
            S.require(any(i is o for o in old) or S.truth(current(S, p, i)), "known individuals or new ones")
    S.require(p.n == algo.evaluator.n_eval and p.n == (4 + 2 + 4 + (4 if hit else 0)), "evaluated again exactly after a change")
    if not hit:
        S.require(S.all([S.any([S.all([S.eq(a, b) for a, b in zip(o.F, [x[0], 1 - x[0] + x[1]])]), False]) for o, x in zip(old, oldX)]), "values are kept without a change")


@harness("P43", "dnsga2_diversity", quick=[dict(version=v, seed=s) for v in "AB" for s in (1, 2)], functions=[MO + "dnsga2.py:DNSGA2._advance"], bounds="4 individuals; which of them are replaced given by symbolic random numbers")
def dnsga2_diversity(S, version, seed):
    """exactly the drawn individuals are replaced or mutated"""
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from pymoo.core.population import Population
    p = dynamic(S)
    algo = DNSGA2(pop_size=4, version=version, perc_diversity=0.25, perc_detect_change=0.5)
    algo.setup(p, seed=seed, termination=("n_gen", 10), verbose=False)
    algo.next()
    X = algo.pop.get("X").copy()
    p.c = 1.0
    u = [S.real("u%d" % i, lo=0, hi=1) for i in range(4)]
    real, asked, kept = algo.random_state, [], []

    class R:
        def random(self, size=None, **k):
            if size == 4:
                return S.array(u)
            return real.random(size, **k)

        def __getattr__(self, name):
            return getattr(real, name)
    algo.random_state = R()

    class Mut:
        def __call__(self, problem, pop, random_state=None, **kw):
            S.require(random_state is algo.random_state, "with the random state of the algorithm")
            asked.append(len(pop))
            for i in pop:
                i.X = np.array([0.375, -0.5])
            return pop

    def sampling(problem, n, random_state=None, **kw):
        S.require(random_state is algo.random_state, "with the random state of the algorithm")
        asked.append(n)
        return Population.new(X=np.tile([0.375, -0.5], (n, 1)))
    algo.initialization.sampling = sampling

    class Mating:
        mutation = Mut()

        def do(self, problem, pop, n, **kw):
            kept.append((pop, n))
            return Population.new(X=np.zeros((n, 2)))
    algo.mating = Mating()
    algo.survival = type("Sv", (), dict(do=lambda self, problem, pop, n_survive=None, **kw: pop[:n_survive]))()
    algo._advance()
    drawn = [S.truth(S.xlt(v, 0.25)) for v in u]
    pop, n = kept[0]
    S.require(n == algo.n_offsprings and len(pop) == 4, "offspring of the renewed population")
    S.require((asked or [0]) == [sum(drawn)], "as many as drawn")
    for i in range(4):
        new = [0.375, -0.5] if drawn[i] else X[i]
        S.require(all(float(a) == float(b) for a, b in zip(pop[i].X, new)), "exactly the drawn ones are renewed")
        S.require(current(S, p, pop[i]), "values of the problem as it is now")


# ---------------------------------------------------------------------------------------------------- KGB

KG = MO + "kgb.py:KGB."


def kgb(S, seed=1, **kw):
    sklearn_stub()
    from pymoo.algorithms.moo.kgb import KGB
    p = dynamic(S)
    algo = KGB(pop_size=4, c_size=2, **kw)
    algo.nr_rand_solutions = 3
    algo.setup(p, seed=seed, termination=("n_gen", 10), verbose=False)
    return p, algo


@harness("P43", "kgb_memory", quick=[dict()], functions=[KG + "__init__", KG + "add_to_ps"], bounds="2 instances, 2 optima, symbolic variables")
def kgb_memory(S):
    _, a = kgb(S)
    _, b = kgb(S)
    x = S.reals("x", (2, 2), lo=0, hi=1)
    a.opt = pop_of(S, X=x, F=np.zeros((2, 2)))
    a.add_to_ps()
    S.require(len(b.ps) == 0, "runs do not share their memory")
    _, c = kgb(S)
    S.require(len(c.ps) == 0, "nor do later ones")
    S.require(len(a.ps) == 2, "one set for each optimum")
    for i, v in enumerate(a.ps.values()):
        S.require(S.all([len(v["solutions"]) == 1, veq(S, v["solutions"][0], list(x[i])), veq(S, v["centroid"], list(x[i]))]), "solution and centroid")
    a.t = 1
    a.add_to_ps()
    S.require(len(a.ps) == 4, "kept over the changes of the problem")
    own = {}
    _, d = kgb(S, ps=own)
    S.require(d.ps is own, "a given memory is used")


@harness("P43", "kgb_clusters", quick=[dict(k=0), dict(k=2)], functions=[KG + "knowledge_reconstruction_examination", KG + "calculate_cluster_centroid"], bounds="4 historical solutions, 2 clusters left, one symbolic coordinate", resolve=True)
def kgb_clusters(S, k):
    p, a = kgb(S)
    X = [[0.0, 0.25], [0.25, 0.5], [0.75, 0.0], [1.0, 3.0]]
    X[k] = [S.real("x", lo=0, hi=1), X[k][1]]
    a.ps = {str(i): dict(solutions=[list(x)], centroid=list(x)) for i, x in enumerate(X)}
    good, bad, c = a.knowledge_reconstruction_examination()
    S.require(len(a.ps) == 2 and len(c) == 2, "as many clusters as requested")
    mem = []
    for v, cen in zip(a.ps.values(), c):
        ids = [next(i for i in range(4) if S.truth(S.same(s[0], X[i][0])) and s[1] == X[i][1]) for s in v["solutions"]]
        mem.append(ids)
        S.require(S.all([S.eq(cen[j] * len(ids), S.sum([X[i][j] for i in ids])) for j in range(2)]), "centroids are means")
    S.require(sorted(mem[0] + mem[1]) == [0, 1, 2, 3], "each solution in one cluster")
    f = [[cen[0] + p.c, 1 - cen[0] + cen[1]] for cen in c]
    for t in range(2):
        dominated = S.truth(dom(S, f[1 - t], f[t]))
        for i in mem[t]:
            where = bad if dominated else good
            S.require(any(S.truth(S.same(s[0], X[i][0])) and s[1] == X[i][1] for s in where), "useful exactly if the centroid is not dominated")
    S.require(len(good) + len(bad) == 4, "each solution is useful or not")
    d2 = lambda u, v: (u[0] - v[0]) * (u[0] - v[0]) + (u[1] - v[1]) * (u[1] - v[1])
    pairs = list(itertools.combinations(range(4), 2))
    S.require(S.any([S.all([S.le(d2(X[i], X[j]), d2(X[k], X[m])) for k, m in pairs]) for i, j in pairs if any(i in c and j in c for c in mem)]), "the closest are merged first")


@harness("P43", "kgb_bounds", quick=[dict()], functions=[KG + "check_boundaries", KG + "random_strategy", KG + "predicted_population", KG + "calculate_cluster_centroid"], bounds="2 solutions, symbolic variables, every random number")
def kgb_bounds(S):
    p, a = kgb(S)
    x = S.reals("x", (2, 2), lo=-9, hi=9)
    Y = a.check_boundaries(S.array([[x[i, j] for j in range(2)] for i in range(2)]))
    for i in range(2):
        for j in range(2):
            S.require(S.eq(Y[i][j], S.max([p.xl[j], S.min([p.xu[j], x[i, j]])])), "only what is outside is set to the bounds")
    a.random_state = S.rng(open_=True)
    Z = a.random_strategy(2)
    S.require(Z.shape == (2, 2) and S.truth(S.all([S.all([S.le(p.xl[j], Z[i, j]), S.le(Z[i, j], p.xu[j])]) for i in range(2) for j in range(2)])), "random solutions within the bounds")
    lab = S.pick([[1, -1], [-1, 1], [1, 1], [-1, -1]])
    q = a.predicted_population([x[0], x[1]], lab)
    S.require(len(q) == lab.count(1) and S.truth(S.all([veq(S, u, x[i]) for u, i in zip(q, [i for i in range(2) if lab[i] == 1])])), "exactly those labelled useful")


@harness("P43", "kgb_change", quick=[dict(seed=s, lab=l) for s in (1, 2) for l in ("all", "none", "some", "last")], functions=[KG + "_advance", KG + "naive_bayesian_classifier"], bounds="4 individuals, a change of symbolic size, an arbitrary classifier, seeded random numbers", resolve=True)
def kgb_change(S, seed, lab):
    p, a = kgb(S, seed=seed, perc_detect_change=0.5, perturb_dev=8.0)
    a.next()
    old = list(a.pop)
    c = S.real("c", lo=-2, hi=2)
    p.c = c
    hit = S.truth(S.ne(c, 0))
    if hit:
        S.assume(S.xlt(0.0625, c * c))
    trained = []

    class Model:
        def predict(self, X):
            return [1 if lab == "all" or (lab == "some" and i % 2 == 0) or (lab == "last" and i >= 3) else -1 for i in range(len(X))]

    def train(good, bad):
        trained.append((good, bad))
        return Model()
    a.naive_bayesian_classifier = train
    del p.sizes[:]
    a.next()
    S.require((p.sizes[:1] + p.sizes[-2:] == [2, 4, 4] and len(p.sizes) == 4) if hit else p.sizes == [2, 4], "a whole population is evaluated anew after a change, else only the sample")
    S.require(len(trained) == (1 if hit else 0), "reacts exactly to a change")
    S.require(len(a.pop) == 4, "population size")
    for i in a.pop:
        S.require(S.all([S.all([S.le(p.xl[j], i.X[j]), S.le(i.X[j], p.xu[j])]) for j in range(2)]), "within the bounds")
        if hit:
            S.require(current(S, p, i) and not any(i is o for o in old), "values of the problem as it is now")
    S.require(a.t == (1 if hit else 0) and p.n == a.evaluator.n_eval, "changes and evaluations are counted")


# ---------------------------------------------------------------------------------------------------- PINSGA-II

@harness("P43", "preferences", quick=[dict(n=3), dict(n=4)], functions=[MO + "pinsga2.py:PINSGA2._get_pairwise_ranks", MO + "pinsga2.py:AutomatedDM.makePairwiseDecision"], bounds="3-4 solutions, any values the decision maker gives them, including equal ones; maximised objectives")
def preferences(S, n):
    from pymoo.algorithms.moo.pinsga2 import PINSGA2
    v = [S.real("v%d" % i, lo=0, hi=1) for i in range(n)]
    F = np.array([[float(i), 10.0 - i] for i in range(n)])
    signs = S.pick([1, np.array([1.0, -1.0])])
    noise = S.pick(["", "junk"])
    said = []

    def dm(pair):
        idx = [int(abs(pair[r][0])) for r in range(2)]
        for r in range(2):
            S.require(all(float(a) == float(b) for a, b in zip(pair[r], F[idx[r]] * signs)), "shown with the signs of the user")
        if noise and not said:
            said.append(1)
            return "x"
        a, b = v[idx[0]], v[idx[1]]
        return " A " if S.truth(S.xlt(b, a)) else "b" if S.truth(S.xlt(a, b)) else "C"
    import io
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        R = [int(r) for r in PINSGA2._get_pairwise_ranks(F, signs, dm=dm)]
    finally:
        sys.stdout = out
    for i in range(n):
        for j in range(n):
            S.require(S.iff(R[i] < R[j], S.xlt(v[j], v[i])) if i != j else True, "ranked as preferred")
    S.require(sorted(set(R)) == list(range(1, len(set(R)) + 1)), "ranks from one without gaps")


@harness("P43", "absolute", quick=[dict()], functions=[MO + "pinsga2.py:PINSGA2._get_ranks", MO + "pinsga2.py:PINSGA2._prompt_for_ranks"], bounds="3 solutions, valid answers after invalid ones")
def absolute(S):
    import builtins
    from pymoo.algorithms.moo.pinsga2 import PINSGA2
    answers = S.pick([["2 1 3"], ["", "3 1 2"], ["0 1 2", "4 1 2", "1 2 3"]])
    todo = list(answers)
    old, builtins.input = builtins.input, lambda *a: todo.pop(0)
    import io
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        R = PINSGA2._get_ranks(np.arange(6.0).reshape(3, 2), np.ones(2))
    finally:
        builtins.input, sys.stdout = old, out
    S.require([int(r) for r in R] == [int(t) for t in answers[-1].split()] and not todo, "the first valid answer is taken")
