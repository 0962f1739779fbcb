"""P21: Evaluator."""
import numpy as np
from symx.harness import harness
from common import meta, rows

EV = "pymoo/core/evaluator.py"
META = meta(
    "The evaluator evaluates exactly the pending individuals, once, and counts them",
    "For every population and history, Evaluator.eval calls the problem exactly for the individuals that still lack a requested value (for all of them with skip_already_evaluated=False), stores each individual's own results in that individual, "
    "leaves the others and every X untouched, and increases n_eval by exactly the number evaluated (or not at all with count_evals=False). "
    "A single individual is handled as a population of one and returned; the callback is called once per call with the population.",
    ["inputs", "histories"], "all decision values, every subset of already evaluated individuals, up to two consecutive calls",
    "tests evaluate fresh populations", [EV, "pymoo/core/population.py"], [("eval", EV + ":Evaluator.eval"), ("store", EV + ":Evaluator._eval")],
    "bounded: up to 3 individuals, 2 variables, 2 objectives, 1+1 constraints, up to 2 calls")


def prob(log):
    from pymoo.core.problem import Problem

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            log.append([[x[i, 0], x[i, 1]] for i in range(len(x))])
            out["F"] = np.column_stack([x[:, 0] + 2 * x[:, 1], x[:, 0] - x[:, 1]])
            out["G"] = 3 * x[:, 0]
            out["H"] = 5 * x[:, 1] + 1
            out["note"] = x[:, 0] + 7
    return P(n_var=2, n_obj=2, n_ieq_constr=1, n_eq_constr=1)


def want(x):
    return [x[0] + 2 * x[1], x[0] - x[1], 3 * x[0], 5 * x[1] + 1, x[0] + 7]


def got(ind):
    return [ind.F[0], ind.F[1], ind.G[0], ind.H[0], ind.get("note")]


@harness("P21", "subset", quick=[dict(n=3)], thorough=[dict(n=3), dict(n=4)], functions=[EV + ":Evaluator.eval", EV + ":Evaluator._eval"], bounds="3-4 individuals, every subset already (or partly) evaluated, two calls")
def subset(S, n):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    X, F0 = S.reals("X", (n, 2)), S.reals("F0", (n, 2))
    r, f0 = rows(X), rows(F0)
    log, cb = [], []
    p = prob(log)
    pop = Population.new(X=X)
    state = []
    for i in range(n):
        k = S.choose(3)
        state.append(k)
        if k > 0:
            pop[i].F = F0[i].copy()
            pop[i].G, pop[i].H = S.array([0.0]), S.array([0.0])
            pop[i].evaluated = {"F", "G", "H"} if k == 2 else {"F", "G"}
    skip = S.choose(2) == 1
    via = S.choose(2) == 0
    count = S.choose(2) == 0
    ev = Evaluator(skip_already_evaluated=skip if via else not skip, callback=cb.append)
    kw = {} if via else dict(skip_already_evaluated=skip)
    inds = list(pop)
    todo = [i for i in range(n) if not (skip and state[i] == 2)]
    out = ev.eval(p, pop, count_evals=count, **kw)
    S.require(len(out) == n and all(a is b for a, b in zip(out, inds)), "the same individuals in the same order")
    S.require(ev.n_eval == (len(todo) if count else 0), "number of evaluations")
    seen = [x for c in log for x in c]
    S.require(len(seen) == len(todo), "every pending individual evaluated once")
    S.require(S.all([S.all([S.same(seen[k][0], r[i][0]), S.same(seen[k][1], r[i][1])]) for k, i in enumerate(todo)]) if len(seen) == len(todo) else False, "evaluated at its own X")
    S.require(len(cb) == 1, "callback once")
    for i in range(n):
        S.require(S.all([S.same(pop[i].X[j], r[i][j]) for j in range(2)]), "X untouched")
        if i in todo:
            S.require(S.all([S.eq(a, b) for a, b in zip(got(pop[i]), want(r[i]))]), "own results stored")
            S.require({"F", "G", "H"} <= set(pop[i].evaluated), "marked as evaluated")
        else:
            S.require(S.all([S.same(pop[i].F[j], f0[i][j]) for j in range(2)] + [S.same(pop[i].G[0], 0.0)]), "skipped individual untouched")
    before = len(log)
    ev.eval(p, pop, skip_already_evaluated=True)
    S.require(len(log) == before and ev.n_eval == (len(todo) if count else 0), "nothing left to evaluate")
    ev.eval(p, pop, skip_already_evaluated=False)
    S.require(ev.n_eval == (len(todo) if count else 0) + n, "re-evaluation is counted")


@harness("P21", "single", quick=[dict()], functions=[EV + ":Evaluator.eval"], bounds="one individual, empty population, restricted values")
def single(S):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    x = S.reals("x", (2,))
    r = [x[0], x[1]]
    log = []
    p = prob(log)
    ev = Evaluator()
    k = S.choose(3)
    if k == 0:
        ind = Individual(X=x)
        out = ev.eval(p, ind)
        S.require(out is ind, "the individual is returned")
        S.require(S.all([S.eq(a, b) for a, b in zip(got(ind), want(r))]) if len(log) == 1 and len(log[0]) == 1 else False, "evaluated once")
        S.require(ev.n_eval == 1, "counted once")
        ev.eval(p, ind)
        S.require(ev.n_eval == 1 and len(log) == 1, "not evaluated again")
    elif k == 1:
        ev.eval(p, Population.new())
        S.require(ev.n_eval == 0 and not log, "nothing to do for an empty population")
    else:
        pop = Population.new(X=S.array([[0.0, 0.0]]))
        pop[0].X = x
        Evaluator(evaluate_values_of=["F"]).eval(p, pop)
        S.require("F" in pop[0].evaluated and S.truth(S.eq(pop[0].F[0], want(r)[0])), "requested value")
        ev.eval(p, pop)
        S.require({"F", "G", "H"} <= set(pop[0].evaluated) and S.truth(S.eq(pop[0].H[0], want(r)[3])), "missing values are completed")
