"""P04: survival with constraints: exact size, no duplicates, feasible first, then least violation."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, uids, cvs, vsame, dom, rows

META = meta(
    "Survival keeps feasible solutions first, then the least infeasible",
    "Survival selection on a constrained problem returns exactly min(n_survive, population size) distinct members of the given population; no infeasible "
    "individual survives while a feasible one is dropped, and with the standard constraint handling no infeasible survivor violates more than a dropped infeasible "
    "one. With return_indices the positions of exactly those individuals are returned, and splitting by feasibility partitions the "
    "population with the requested orders (infeasible by violation, feasible by objective).",
    ["inputs", "configurations"], "all violations and objective values (ties included), all n_survive, any ranking of the feasible solutions",
    "tests check a few fixed populations; the invariants must hold for every violation pattern and every n_survive",
    ["pymoo/core/survival.py", "pymoo/operators/survival/rank_and_crowding/classes.py", "pymoo/algorithms/soo/nonconvex/ga.py"],
    [("feasible-first shell", "pymoo/core/survival.py:Survival.do"), ("split", "pymoo/core/survival.py:split_by_feasibility"),
     ("GDE3 constraint handling", "pymoo/operators/survival/rank_and_crowding/classes.py:ConstrRankAndCrowding")],
    "bounded: populations of at most 4; ranking of feasible solutions is an arbitrary permutation (stub) in the shell harness")


@harness("P04", "shell", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5)], functions=["pymoo/core/survival.py:Survival.do", "pymoo/core/survival.py:split_by_feasibility"],
         bounds="n<=4 individuals", stubs=["_do of the concrete survival: arbitrary choice of n_survive members"])
def shell(S, n):
    from pymoo.core.survival import Survival
    CV = cvs(S, n)
    F = S.reals("F", (n, 1))
    pop = pop_of(S, F=F, CV=CV)
    seen = {}

    class Any(Survival):
        def _do(self, problem, pop, *args, n_survive=None, random_state=None, **kwargs):
            seen["n"], seen["k"], seen["rs"], seen["args"], seen["kw"] = len(pop), n_survive, random_state, args, kwargs
            off = S.choose(len(pop))
            I = [(off + i) % len(pop) for i in range(n_survive)]
            return pop[np.array(I, dtype=int)]
    k = S.choose(n + 2)
    rs = np.random.default_rng(1)
    mode = S.choose(4)
    kw = dict(n_survive=k) if k else {}
    want = min(k, n) if k else n
    if mode == 1:
        kw["return_indices"] = True
    constr = mode != 2
    surv = Any(filter_infeasible=mode != 3)
    res = surv.do(problem(n_ieq=1 if constr else 0), pop, "extra", random_state=rs, flag=7, **kw)
    if mode == 1:
        S.require(all(0 <= int(i) < n for i in res), "indices are valid")
        ids = [int(i) for i in res]
    else:
        ids = uids(res)
        S.require(all(res[j] is pop[i] for j, i in enumerate(ids)), "the survivors are the given individuals")
    S.require(len(ids) == want and len(set(ids)) == want, "exactly n_survive distinct survivors")
    if seen:
        S.require(seen["rs"] is rs and seen["args"] == ("extra",) and seen["kw"] == {"flag": 7}, "arguments are passed on")
    if not constr or mode == 3:
        S.require(seen["n"] == n and seen["k"] == want, "the ranking sees everybody")
        return
    out = [i for i in range(n) if i not in ids]
    for i in ids:
        for o in out:
            S.require(S.xle(CV[i, 0], S.max([CV[o, 0], 0])), "no survivor violates more than a dropped one")
    # feasible survivors come first
    for a, b in zip(ids, ids[1:]):
        S.require(S.any([S.xle(CV[a, 0], 0), S.xlt(0, CV[b, 0])]), "feasible survivors come first")
        S.require(S.implies(S.xlt(0, CV[a, 0]), S.xle(CV[a, 0], CV[b, 0])), "infeasible survivors sorted by violation")


@harness("P04", "empty", quick=[{}], functions=["pymoo/core/survival.py:Survival.do"], bounds="empty population")
def empty(S):
    from pymoo.core.survival import Survival
    from pymoo.core.population import Population

    class Any(Survival):
        def _do(self, problem, pop, *args, **kwargs):
            raise AssertionError()
    S.require(len(Any().do(problem(n_ieq=1), Population(), n_survive=3)) == 0, "empty in, empty out")


@harness("P04", "split", quick=[dict(n=3)], thorough=[dict(n=4)], functions=["pymoo/core/survival.py:split_by_feasibility"], bounds="n<=3")
def split(S, n):
    from pymoo.core.survival import split_by_feasibility
    CV, F = cvs(S, n), S.reals("F", (n, 1))
    pop = pop_of(S, F=F, CV=CV)
    a, b, ret = S.choose(2), S.choose(2), S.choose(2)
    res = split_by_feasibility(pop, sort_infeas_by_cv=bool(a), sort_feas_by_obj=bool(b), return_pop=bool(ret))
    feas, infeas = [int(i) for i in res[0]], [int(i) for i in res[1]]
    S.require(sorted(feas + infeas) == list(range(n)), "partition")
    for i in range(n):
        S.require(S.iff(i in feas, S.xle(CV[i, 0], 0)), "feasible iff no violation")
    if a:
        for i, j in zip(infeas, infeas[1:]):
            S.require(S.xle(CV[i, 0], CV[j, 0]), "infeasible ones sorted by violation")
    else:
        S.require(infeas == sorted(infeas), "order kept")
    if b:
        for i, j in zip(feas, feas[1:]):
            S.require(S.xle(F[i, 0], F[j, 0]), "feasible ones sorted by objective")
    else:
        S.require(feas == sorted(feas), "order kept")
    if ret:
        S.require(uids(res[2]) == feas and uids(res[3]) == infeas, "populations match the indices")


@harness("P04", "constr_rank_and_crowding", quick=[dict(n=3, c=1, e=0), dict(n=3, c=1, e=1), dict(n=2, c=2, e=0), dict(n=2, c=0, e=0)], thorough=[dict(n=4, c=1, e=0), dict(n=3, c=2, e=1)],
         functions=["pymoo/operators/survival/rank_and_crowding/classes.py:ConstrRankAndCrowding._do"], bounds="n<=3, up to 2 constraints",
         stubs=["ranking of the feasible solutions: RankAndCrowding._do replaced by an arbitrary rotation", "moocore.pareto_rank contract"])
def constr_rc(S, n, c, e):
    from pymoo.operators.survival.rank_and_crowding.classes import ConstrRankAndCrowding
    G = S.reals("G", (n, c)) if c else None
    H = S.reals("H", (n, e)) if e else None
    F = S.reals("F", (n, 2))
    pop = pop_of(S, F=F, G=G, H=H)
    for i in pop:
        i.config = dict(i.config, cv_eq=dict(i.config["cv_eq"], eps=0.0))
    rs = S.rng()
    surv = ConstrRankAndCrowding()
    seen = {}

    def rdo(problem, pop, *args, n_survive=None, random_state=None, **kwargs):
        seen["rs"] = random_state
        off = S.choose(len(pop))
        return pop[np.array([(off + i) % len(pop) for i in range(n_survive)], dtype=int)]
    surv.ranking._do = rdo
    k = 1 + S.choose(n)
    res = surv.do(problem(n_ieq=c, n_eq=e), pop, n_survive=k, random_state=rs)
    ids = uids(res)
    S.require(len(ids) == k and len(set(ids)) == k, "exactly n_survive distinct survivors")
    if seen:
        S.require(seen["rs"] is rs, "the random state is passed on")
    if not (c or e):
        return
    C = [[S.max([G[i, j], 0]) for j in range(c)] + [S.abs(H[i, j]) for j in range(e)] for i in range(n)]
    feas = [S.all([S.xle(v, 0) for v in C[i]]) for i in range(n)]
    CV = [S.sum(C[i]) for i in range(n)]
    D = [[dom(S, C[i], C[j]) for j in range(n)] for i in range(n)]
    out = [i for i in range(n) if i not in ids]
    for i in ids:
        for o in out:
            S.require(S.implies(feas[o], feas[i]), "no infeasible one survives while a feasible one is dropped")
            S.require(S.any([feas[i], S.not_(D[o][i])]), "a dropped one does not violate less in every constraint than a survivor")
            if len(C[0]) == 1:
                S.require(S.xle(CV[i], CV[o]), "least violation survives")
            else:
                both = S.all([S.not_(feas[i]), S.not_(feas[o])])
                nd = S.all([both] + [S.not_(S.all([D[q][w], S.not_(feas[q])])) for q in range(n) for w in (i, o)])
                S.require(S.implies(nd, S.xle(CV[i], CV[o])), "within the first infeasible front the least total violation survives")


@harness("P04", "fitness_survival", quick=[dict(n=3)], thorough=[dict(n=4)], functions=["pymoo/algorithms/soo/nonconvex/ga.py:FitnessSurvival._do"], bounds="n<=3")
def fitness_survival(S, n):
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    CV, F = cvs(S, n), S.reals("F", (n, 1))
    pop = pop_of(S, F=F, CV=CV)
    k = 1 + S.choose(n)
    ids = uids(FitnessSurvival().do(problem(n_obj=1, n_ieq=1), pop, n_survive=k))
    S.require(len(ids) == k and len(set(ids)) == k, "exactly n_survive distinct survivors")
    bad = lambda i, j: S.any([S.xlt(CV[j, 0], CV[i, 0]), S.all([S.same(CV[j, 0], CV[i, 0]), S.xlt(F[j, 0], F[i, 0])])])
    for a, i in enumerate(ids):
        for j in ids[a + 1:] + [o for o in range(n) if o not in ids]:
            S.require(S.not_(bad(i, j)), "survivors are the best by (violation, objective), best first")
