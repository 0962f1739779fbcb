"""P19: infill criterion, mating and initialization."""
import numpy as np
from symx.harness import harness
from common import meta, rows

I_, M_, N_ = "pymoo/core/infill.py", "pymoo/core/mating.py", "pymoo/core/initialization.py"
META = meta(
    "Mating returns the requested number of new, repaired, distinct offspring",
    "For every population and whatever the operators produce, the infill returns at most the requested number of offspring, with duplicate elimination pairwise distinct and different from every individual of the population, all of them repaired; "
    "it returns fewer only after the maximum number of matings, and each mating asks for exactly what is still missing. "
    "Mating passes the selected parents through crossover and then mutation, evaluates nothing and leaves the population unchanged; initialization repairs only individuals that were not evaluated, removes duplicates, and uses a given population or array as it is.",
    ["inputs", "histories"], "all decision values the operators can produce, every pattern of duplicates over up to 3 matings", "tests run whole algorithms where duplicates hardly occur", [I_, M_, N_],
    [("infill", I_ + ":InfillCriterion.do"), ("mating", M_ + ":Mating._do"), ("initialization", N_ + ":Initialization.do")],
    "bounded: population of 1-2, up to 3 requested offspring, up to 3 matings, 1 variable")


@harness("P19", "infill", quick=[dict(n=2, iters=2, batch=1), dict(n=2, iters=2, batch=2)], thorough=[dict(n=2, iters=3, batch=1), dict(n=3, iters=2, batch=2), dict(n=2, iters=2, batch=3)],
         functions=[I_ + ":InfillCriterion.do"], bounds="1 individual in the population, 2-3 requested offspring, 2-3 matings producing up to `batch` individuals more than requested")
def infill(S, n, iters, batch):
    from pymoo.core.duplicate import DefaultDuplicateElimination, NoDuplicateElimination
    from pymoo.core.infill import InfillCriterion
    from pymoo.core.population import Population
    from pymoo.core.repair import Repair
    P = S.reals("P", (1, 1))
    p0 = P[0, 0]
    pop = Population.new(X=P)
    asked, made = [], []
    dup = S.choose(2) == 0
    rep = S.choose(2) == 0
    how = S.choose(2) == 0
    rs = object()

    class Rep(Repair):
        def _do(self, problem, X, **kwargs):
            return X + 1

    class C(InfillCriterion):
        def _do(self, problem, pop, n_offsprings, random_state=None, **kwargs):
            assert random_state is rs
            k = batch if batch != 3 else n_offsprings
            asked.append(n_offsprings)
            X = S.reals("X%d" % len(asked), (k, 1))
            made.extend(X[i, 0] + 1 if rep else X[i, 0] for i in range(k))
            return Population.new(X=X)
    elim = DefaultDuplicateElimination(epsilon=1e-16)
    c = C(repair=Rep() if rep else None, eliminate_duplicates=elim if dup else S.pick([None, NoDuplicateElimination()]), n_max_iterations=iters if how else 100)
    kw = {} if how else dict(n_max_iterations=iters)
    out = c.do(None, pop, n, random_state=rs, **kw)
    S.require(len(out) <= n, "never more than requested")
    S.require(len(asked) <= iters and (len(out) == n or len(asked) == iters), "fewer only after the maximum number of matings")
    x = [i.X[0] for i in out]
    for a in range(len(x)):
        S.require(S.any([S.same(x[a], m) for m in made]), "comes from the operators (and is repaired)")
        if dup:
            S.require(S.all([S.ne(x[a], p0)] + [S.ne(x[a], x[b]) for b in range(a)]), "new and pairwise distinct")
    S.require(S.all([S.same(pop[0].X[0], p0)]) if len(pop) == 1 else False, "population untouched")
    S.require(asked[0] == n and all(0 < a <= n for a in asked) and asked == sorted(asked, reverse=True), "each mating asks for what is missing")
    if not dup:
        # nothing is dropped: the offspring are exactly the first ones produced
        S.require(len(out) == min(n, len(made)) and S.truth(S.all([S.same(u, v) for u, v in zip(x, made)])), "without elimination all are kept in order")


@harness("P19", "mating", quick=[dict()], functions=[M_ + ":Mating._do"], bounds="3 individuals, 1-4 offspring, 1-2 offspring per mating; parents given or selected")
def mating(S):
    from pymoo.core.crossover import Crossover
    from pymoo.core.mating import Mating
    from pymoo.core.mutation import Mutation
    from pymoo.core.population import Population
    from pymoo.core.selection import Selection
    from common import problem
    n_off = S.pick([1, 2])
    n = S.pick([1, 2, 3])
    X = S.reals("X", (3, 1))
    x0 = [X[i, 0] for i in range(3)]
    pop = Population.new(X=X)
    log = []
    rs = S.rng("mating")

    class Sel(Selection):
        def _do(self, problem, pop, n_select, n_parents, random_state=None, **kwargs):
            log.append(("sel", n_select, n_parents, random_state is rs))
            return np.array([[(k + 1) % 3, k % 3] for k in range(n_select)])

    class Cx(Crossover):
        def _do(self, problem, X, random_state=None, **kwargs):
            log.append(("cx", X.shape, random_state is rs))
            Y = X[0] + 2 * X[1]
            return np.stack([Y + 10 * k for k in range(self.n_offsprings)])

    class Mut(Mutation):
        def _do(self, problem, X, random_state=None, **kwargs):
            log.append(("mut", X.shape, random_state is rs))
            return X * 4
    m = Mating(Sel(), Cx(2, n_off, prob=2.0), Mut(prob=2.0))
    given = S.choose(2) == 1
    n_mat = -(-n // n_off)
    par = None
    if given:
        par = [[pop[2], pop[1]] for _ in range(n_mat)]
    off = m._do(problem(n_var=1, n_obj=1), pop, n, parents=par, random_state=rs)
    S.require(len(off) == n_mat * n_off, "as many matings as needed")
    S.require([e[0] for e in log] == ([] if given else ["sel"]) + ["cx", "mut"], "selection, crossover, mutation - once each")
    S.require(all(e[-1] for e in log), "the random state is passed on")
    if not given:
        S.require(log[0][1:3] == (n_mat, 2), "parents requested")
    for k in range(n_mat):
        a, b = (2, 1) if given else ((k + 1) % 3, k % 3)
        for j in range(n_off):
            S.require(S.eq(off[j * n_mat + k].X[0], 4 * (x0[a] + 2 * x0[b] + 10 * j)), "mutated crossover of the parents")
    S.require(S.all([S.same(pop[i].X[0], x0[i]) for i in range(3)]), "parents untouched")


@harness("P19", "initialization", quick=[dict()], functions=[N_ + ":Initialization.do"], bounds="2-3 initial individuals from an operator, an array or a population (partly evaluated)")
def initialization(S):
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.core.initialization import Initialization
    from pymoo.core.population import Population
    from pymoo.core.repair import Repair
    from pymoo.core.sampling import Sampling
    n = 2
    X = S.reals("X", (n, 1))
    x0 = [X[i, 0] for i in range(n)]
    k = S.choose(4)
    ev = [False] * n

    class Rep(Repair):
        def _do(self, problem, X, **kwargs):
            return X + 1

    class Smp(Sampling):
        def _do(self, problem, n_samples, random_state=None, **kwargs):
            return X[:n_samples]
    if k == 0:
        src = Smp()
    elif k == 1:
        src = X
    elif k == 2:
        src = X[0]
        n = 1
    else:
        src = Population.new(X=X)
        for i in range(n):
            if S.choose(2) == 1:
                src[i].evaluated = {"F"}
                ev[i] = True
    dup = S.choose(2) == 0
    rep = S.choose(2) == 0
    out = Initialization(src, repair=Rep() if rep else None, eliminate_duplicates=DefaultDuplicateElimination(epsilon=0.0) if dup else None).do(None, n, random_state=S.rng("i"))
    want = [x0[i] + 1 if rep and not ev[i] else x0[i] for i in range(n)]
    same = S.same(want[0], want[1]) if n == 2 and dup else False
    S.require(S.iff(len(out) == n, S.not_(same)), "duplicates removed")
    S.require(S.eq(out[0].X[0], want[0]), "repaired unless evaluated")
    if len(out) == 2:
        S.require(S.eq(out[1].X[0], want[1]), "repaired unless evaluated")
