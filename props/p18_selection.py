"""P18: selection."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, rows, uids

S_ = "pymoo/operators/selection/"
META = meta(
    "Selection draws parents fairly and tournaments return the better contestant",
    "Random and tournament selection return n_select x n_parents valid members of the population, drawn from consecutive random permutations of the population; a tournament returns the winner its comparison "
    "function chose among exactly the `pressure` contestants drawn for it. The comparisons of GA, niching GA, NSGA-II, NSGA-III, U-NSGA-III, SMS-EMOA and SPEA2 return one of the two contestants: the smaller "
    "violation if one is infeasible, otherwise the better one by the algorithm's own criterion (objective; clearing round and rank; rank or dominance, then larger crowding; niche rank and distance; SPEA2 fitness), "
    "a random one only on ties. In differential-evolution selection every mating starts with its target and every randomly drawn parent differs from the other parents of the mating.",
    ["inputs"], "all objective/violation/rank/crowding values, all permutations and choices drawn",
    "a wrong preference only changes the search statistically",
    [S_ + x for x in ("tournament.py", "rnd.py", "des.py")] + ["pymoo/core/selection.py", "pymoo/algorithms/soo/nonconvex/ga.py", "pymoo/algorithms/moo/nsga2.py"],
    [("tournament", S_ + "tournament.py:TournamentSelection._do"), ("comparison", S_ + "tournament.py:compare"), ("random", S_ + "rnd.py:RandomSelection._do"), ("de", S_ + "des.py:DES._do"),
     ("single-objective comparison", "pymoo/algorithms/soo/nonconvex/ga.py:comp_by_cv_and_fitness"), ("nsga2 comparison", "pymoo/algorithms/moo/nsga2.py:binary_tournament")],
    "bounded: populations of 2-4, 1-3 selections")


def drawn(S, n):
    """a population of n evaluated individuals and a generator"""
    return pop_of(S, F=S.reals("F", (n, 1)), CV=np.zeros((n, 1))), S.rng()


def in_blocks(S, seq, n):
    """seq = a prefix of consecutive permutations of range(n)"""
    for k in range(0, len(seq), n):
        blk = [int(v) for v in seq[k:k + n]]
        S.require(all(0 <= v < n for v in blk) and len(set(blk)) == len(blk), "consecutive permutations of the population")


@harness("P18", "random", quick=[dict(n=3, ns=2, npar=2), dict(n=2, ns=1, npar=3), dict(n=3, ns=1, npar=1)], functions=[S_ + "rnd.py:RandomSelection._do", "pymoo/core/selection.py:Selection.do", "pymoo/util/misc.py:random_permutations"], bounds="2-3 individuals")
def random_(S, n, ns, npar):
    from pymoo.operators.selection.rnd import RandomSelection
    pop, r = drawn(S, n)
    as_pop = S.choose(2) == 1
    out = RandomSelection()(problem(), pop, ns, npar, to_pop=as_pop, random_state=r)
    S.require(out.shape == (ns, npar), "shape")
    flat = list(np.array(out).reshape(-1)) if not as_pop else [list(pop).index(o) for row in out for o in row]
    in_blocks(S, flat, n)
    S.require(S.unseeded() == 0 and r.n_draws >= 1, "draws from the given generator")


@harness("P18", "tournament", quick=[dict(n=3, ns=2, npar=1, q=2), dict(n=2, ns=1, npar=2, q=2), dict(n=4, ns=1, npar=1, q=3)], functions=[S_ + "tournament.py:TournamentSelection._do"], bounds="2-4 individuals, pressure 2-3")
def tournament(S, n, ns, npar, q):
    from pymoo.operators.selection.tournament import TournamentSelection
    pop, r = drawn(S, n)
    seen = []

    def comp(pop_, P, random_state=None, **kw):
        S.require(pop_ is pop and random_state is r and kw.get("extra") == 7, "the comparison gets population, generator and keyword arguments")
        S.require(P.shape == (ns * npar, q), "pressure contestants per tournament")
        w = [int(row[S.choose(q)]) for row in P]
        seen.append((P.copy(), w))
        return np.array(w)[:, None]
    out = TournamentSelection(func_comp=comp, pressure=q)(problem(), pop, ns, npar, to_pop=False, random_state=r, extra=7)
    S.require(len(seen) == 1, "one comparison call")
    P, w = seen[0]
    in_blocks(S, list(P.reshape(-1)), n)
    S.require(np.shape(out) == (ns, npar) and [int(v) for v in np.array(out).reshape(-1)] == w, "the winners, in order")
    S.require(S.unseeded() == 0, "draws from the given generator")


@harness("P18", "compare", quick=[dict()], functions=[S_ + "tournament.py:compare"], bounds="symbolic values")
def compare_(S):
    from pymoo.operators.selection.tournament import compare
    x, y = S.real("x"), S.real("y")
    larger = S.choose(2) == 1
    rnd = S.choose(2) == 1
    w = compare(5, x, 9, y, method="larger_is_better" if larger else "smaller_is_better", return_random_if_equal=rnd, random_state=S.rng())
    a, b = S.truth(S.xlt(x, y)), S.truth(S.xlt(y, x))
    if larger:
        a, b = b, a
    S.require(w == 5 if a else w == 9 if b else (w in (5, 9) if rnd else w is None), "better value wins, ties random or undecided")


class Algo:
    pass


def contest(S, fn, feasible, attrs, n_obj=1, algo=None):
    """two tournaments over two individuals"""
    n = 2
    F = S.reals("F", (n, n_obj))
    cv = S.reals("cv", (n, 1), lo=0)
    pop = pop_of(S, F=F, CV=cv)
    vals = {}
    for k, kind in attrs.items():
        vals[k] = S.reals(k, (n,)) if kind == "r" else S.ints(k, (n,), lo=0)
        for i in range(n):
            pop[i].set(k, vals[k][i])
    r = S.rng()
    kw = dict(random_state=r)
    if algo is not None:
        kw["algorithm"] = algo
        algo.random_state = r
    P = np.array([[0, 1]] if S.choose(2) == 0 else [[1, 0]])
    out = fn(pop, P, **kw)
    S.require(np.shape(out) == (1, 1), "one winner per tournament")
    w = int(out[0, 0] if np.ndim(out) == 2 else out[0])
    S.require(w in (0, 1), "one of the contestants")
    o = 1 - w
    inf = S.any([S.xlt(0, cv[0, 0]), S.xlt(0, cv[1, 0])])
    if S.truth(inf):
        S.require(S.xle(cv[w, 0], cv[o, 0]), "the smaller violation wins")
    else:
        feasible(w, o, F, vals)
    S.require(S.unseeded() == 0, "draws from the given generator")


@harness("P18", "ga", quick=[dict()], functions=["pymoo/algorithms/soo/nonconvex/ga.py:comp_by_cv_and_fitness"], bounds="2 contestants")
def ga(S):
    from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness

    def ok(w, o, F, v):
        S.require(S.xle(F[w, 0], F[o, 0]), "the better objective wins")
    contest(S, comp_by_cv_and_fitness, ok, {})


@harness("P18", "niching", quick=[dict()], functions=["pymoo/algorithms/soo/nonconvex/ga_niching.py:comp_by_cv_and_clearing_fitness"], bounds="2 contestants")
def niching(S):
    from pymoo.algorithms.soo.nonconvex.ga_niching import comp_by_cv_and_clearing_fitness

    def ok(w, o, F, v):
        S.require(S.any([S.lt(v["iter"][w], v["iter"][o]), S.all([S.eq(v["iter"][w], v["iter"][o]), S.le(v["rank"][w], v["rank"][o])])]), "earlier clearing round, then better rank")
    contest(S, comp_by_cv_and_clearing_fitness, ok, dict(iter="i", rank="i"))


@harness("P18", "nsga2", quick=[dict(kind="rank"), dict(kind="dom")], functions=["pymoo/algorithms/moo/nsga2.py:binary_tournament"], bounds="2 contestants, 2 objectives")
def nsga2(S, kind):
    from pymoo.algorithms.moo.nsga2 import binary_tournament
    from common import dom
    a = Algo()
    a.tournament_type = "comp_by_rank_and_crowding" if kind == "rank" else "comp_by_dom_and_crowding"

    def ok(w, o, F, v):
        if kind == "rank":
            S.require(S.any([S.lt(v["rank"][w], v["rank"][o]), S.all([S.eq(v["rank"][w], v["rank"][o]), S.xle(v["crowding"][o], v["crowding"][w])])]), "better rank, then larger crowding")
        else:
            wo, ow = dom(S, F[w], F[o]), dom(S, F[o], F[w])
            S.require(S.any([wo, S.all([S.not_(ow), S.xle(v["crowding"][o], v["crowding"][w])])]), "dominating solution, then larger crowding")
    contest(S, binary_tournament, ok, dict(rank="i", crowding="r"), n_obj=2, algo=a)


@harness("P18", "nsga3", quick=[dict()], functions=["pymoo/algorithms/moo/nsga3.py:comp_by_cv_then_random"], bounds="2 contestants")
def nsga3(S):
    from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random
    contest(S, comp_by_cv_then_random, lambda w, o, F, v: None, {})


@harness("P18", "unsga3", quick=[dict()], functions=["pymoo/algorithms/moo/unsga3.py:comp_by_rank_and_ref_line_dist"], bounds="2 contestants")
def unsga3(S):
    from pymoo.algorithms.moo.unsga3 import comp_by_rank_and_ref_line_dist

    def ok(w, o, F, v):
        same = S.eq(v["niche"][0], v["niche"][1])
        good = S.any([S.xlt(v["rank"][w], v["rank"][o]), S.all([S.same(v["rank"][w], v["rank"][o]), S.xle(v["dist_to_niche"][w], v["dist_to_niche"][o])])])
        S.require(S.implies(same, good), "within a niche: better rank, then closer to the reference line")
    contest(S, comp_by_rank_and_ref_line_dist, ok, dict(niche="i", rank="i", dist_to_niche="r"))


@harness("P18", "sms", quick=[dict()], functions=["pymoo/algorithms/moo/sms.py:cv_and_dom_tournament"], bounds="2 contestants, 2 objectives")
def sms(S):
    from pymoo.algorithms.moo.sms import cv_and_dom_tournament
    from common import dom
    contest(S, cv_and_dom_tournament, lambda w, o, F, v: S.require(S.not_(dom(S, F[o], F[w])), "a dominated contestant never wins"), {}, n_obj=2)


@harness("P18", "spea2", quick=[dict()], functions=["pymoo/algorithms/moo/spea2.py:spea_binary_tournament"], bounds="2 contestants")
def spea2(S):
    from pymoo.algorithms.moo.spea2 import spea_binary_tournament
    contest(S, spea_binary_tournament, lambda w, o, F, v: S.require(S.xle(v["SPEA_F"][w], v["SPEA_F"][o]), "the smaller SPEA2 fitness wins"), dict(SPEA_F="r"), algo=Algo())


class Bounded:
    """the generator with a bound on the number of draws (rejection loops)"""

    def __init__(self, S, k):
        self.S, self.r, self.k = S, S.rng(), k

    def choice(self, a, size=None, **kw):
        self.k -= 1
        if self.k < 0:
            self.S.skip()
        return self.r.choice(a, size, **kw)


@harness("P18", "de", quick=[dict(v="rand", npar=3, n=3, k=3), dict(v="best", npar=3, n=3, k=2), dict(v="current-to-best", npar=5, n=3, k=2), dict(v="current-to-rand", npar=4, n=3, k=2)],
         functions=[S_ + "des.py:DES._do"], bounds="3 individuals, 3-5 parents, at most 2-3 draws")
def de(S, v, npar, n, k):
    from pymoo.operators.selection.des import DES
    pop = pop_of(S, F=np.arange(n)[:, None] * 1.0, CV=np.zeros((n, 1)))
    P = DES(v)(problem(), pop, n, npar, to_pop=False, random_state=Bounded(S, k))
    S.require(P.shape == (n, npar), "shape")
    drawn_ = dict(rand=range(1, npar), best=range(2, npar)).get(v, [4] if v == "current-to-best" else [2])
    for i in range(n):
        row = [int(x) for x in P[i]]
        S.require(all(0 <= x < n for x in row), "valid indices")
        S.require(row[0] == i, "the target first")
        if v == "best":
            S.require(row[1] == 0, "the best individual is the base")
        if v.startswith("current"):
            S.require(row[1] == i and row[3] == i, "the current individual is base and first difference")
        if v == "current-to-best":
            S.require(row[2] == 0, "towards the best")
        for j in drawn_:
            S.require(all(row[j] != row[q] for q in range(npar) if q != j), "a random parent differs from the other parents")


@harness("P18", "de_ranked", quick=[dict(n=3, npar=4)], functions=[S_ + "des.py:_rank_sort"], bounds="1 row, 3-5 donors, symbolic ranks")
def de_ranked(S, n, npar):
    from pymoo.operators.selection.des import _rank_sort
    m = 3 if S.choose(2) == 0 else 5
    rk = S.ints("rk", (m,), lo=0)
    pop = pop_of(S, F=np.zeros((m, 1)), CV=np.zeros((m, 1)))
    for i in range(m):
        pop[i].set("rank", rk[i])
    out = [int(x) for x in _rank_sort(np.arange(m)[None, :], pop)[0]]
    S.require(sorted(out) == list(range(m)), "the same parents")
    S.require(S.all([S.le(rk[out[0]], rk[j]) for j in range(m)]), "the best ranked one is the base")
    for j in range(1, m, 2):
        S.require(S.le(rk[out[j]], rk[out[j + 1]]), "difference vectors point from worse to better")
