"""P31: the optimization loop."""
import numpy as np
from symx.harness import harness
from common import meta, pop_of, rows, uids

A, G = "pymoo/core/algorithm.py", "pymoo/algorithms/base/genetic.py"
META = meta(
    "The optimization loop advances, evaluates, reports and stops consistently",
    "For every run, each iteration evaluates the requested infills exactly once before advancing, tags them with the iteration number, updates the optimum and the termination, calls the callback (all callbacks of a collection) and history exactly once and in order, and the run ends right after the iteration that fulfils the termination; ask/tell gives the same run as next. "
    "A genetic algorithm starts from the given population, array or sampling (repairing only what is not evaluated, without duplicates), keeps pop_size survivors of parents and offspring, never loses its best solution, and ends when mating yields nothing. "
    "minimize leaves the given algorithm and termination untouched unless told not to copy them.",
    ["inputs", "histories", "configurations"], "all objective values and violations of the stated sizes, runs of up to 3 iterations, all stopping points", "tests run fixed seeds and only look at final results",
    [A, G, "pymoo/optimize.py", "pymoo/core/callback.py", "pymoo/core/initialization.py"],
    [("iteration", A + ":Algorithm.next"), ("ask and tell", A + ":Algorithm.infill"), ("bookkeeping", A + ":Algorithm._post_advance"), ("genetic", G + ":GeneticAlgorithm._advance"), ("start", "pymoo/core/initialization.py:Initialization.do"), ("minimize", "pymoo/optimize.py:minimize"), ("callbacks", "pymoo/core/callback.py:CallbackCollection")],
    "bounded: populations of 2-3, 1-2 offspring per iteration, up to 3 iterations; mating and sampling are stand-ins with symbolic results")


def table_problem(log, F, CV=None):
    """evaluates row number x[0] of a table of symbolic values"""
    from pymoo.core.problem import Problem

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            I = [int(x[i, 0]) for i in range(len(x))]
            log.append(I)
            out["F"] = F[I]
            if CV is not None:
                out["G"] = CV[I]
    return P(n_var=1, n_obj=F.shape[1], n_ieq_constr=0 if CV is None else 1, xl=0, xu=100)


@harness("P31", "loop", quick=[dict(n=3)], functions=[A + ":Algorithm.run", A + ":Algorithm.next", A + ":Algorithm.infill", A + ":Algorithm.advance", A + ":Algorithm._post_advance"], bounds="runs of 1-3 iterations with 2 infills each, by run, next or ask/tell; with or without history")
def loop(S, n):
    from pymoo.core.algorithm import Algorithm
    from pymoo.core.callback import Callback
    from pymoo.core.population import Population
    from pymoo.termination import get_termination
    log, ev, cb = [], [], []
    F = S.reals("F", (2 * n, 1))
    problem = table_problem(log, F)
    limit = S.int("limit", 1, n)
    hist = S.choose(2) == 0
    how = S.choose(3)

    class Alg(Algorithm):
        def _initialize_infill(self):
            ev.append(("ask0", self.n_iter))
            return Population.new(X=np.array([[0.0], [1.0]]))

        def _initialize_advance(self, infills=None, **kw):
            ev.append(("tell0", self.n_iter, [len(i.F) for i in infills]))

        def _infill(self):
            ev.append(("ask", self.n_iter))
            k = 2 * (self.n_iter - 1)
            return Population.new(X=np.array([[k + 0.0], [k + 1.0]]))

        def _advance(self, infills=None, **kw):
            ev.append(("tell", self.n_iter, [len(i.F) for i in infills]))
            self.pop = Population.merge(self.pop, infills)

    class CB(Callback):
        def initialize(self, algorithm):
            cb.append("init")

        def notify(self, algorithm):
            cb.append((algorithm.n_iter, len(algorithm.pop), len(algorithm.off), algorithm.evaluator.n_eval, algorithm.opt is not None))
    alg = Alg(termination=get_termination("n_gen", limit), callback=CB(), save_history=hist)
    S.require(alg.setup(problem, seed=1) is alg and alg.problem is problem, "setup")
    if how == 0:
        res = alg.run()
    elif how == 1:
        while alg.has_next():
            alg.next()
        res = alg.result()
    else:
        while alg.has_next():
            inf = alg.ask()
            alg.evaluator.eval(problem, inf)
            res = alg.tell(infills=inf)
    done = len(log)
    S.require(S.same(limit, done), "ends right after the iteration that fulfils the termination")
    S.require(log == [[2 * i, 2 * i + 1] for i in range(done)], "every infill is evaluated exactly once, in order")
    S.require(ev == [x for i in range(1, done + 1) for x in ([("ask0", 1), ("tell0", 1, [1, 1])] if i == 1 else [("ask", i), ("tell", i, [1, 1])])], "asked, evaluated, told")
    S.require(cb == ["init"] + [(i, 2 * i, 2, 2 * i, True) for i in range(1, done + 1)], "the callback sees every iteration once")
    S.require(int(alg.evaluator.n_eval) == 2 * done and len(res.pop) == 2 * done, "evaluations and population")
    S.require([int(v) for v in res.pop.get("n_gen")] == [i for i in range(1, done + 1) for _ in range(2)], "infills know their iteration")
    S.require(S.same(res.F[0], S.min([F[i, 0] for i in range(2 * done)])), "the best solution is reported")
    S.require(not alg.has_next(), "ended")
    S.require(len(alg.history) == (done if hist else 0) and res.history is alg.history, "history")
    if hist:
        S.require([len(h.pop) for h in alg.history] == [2 * i for i in range(1, done + 1)] and [h.n_gen for h in alg.history] == list(range(1, done + 1)), "every iteration as it was")
        S.require(S.all([S.same(h.opt[0].F[0], S.min([F[i, 0] for i in range(2 * k + 2)])) for k, h in enumerate(alg.history)]), "optimum of the iteration")


class Mate:
    """stand-in for mating: returns the next individuals of a list"""

    def __init__(self, sizes, first):
        self.sizes, self.k, self.next, self.calls = list(sizes), 0, first, []

    def do(self, problem, pop, n_offsprings, **kw):
        from pymoo.core.population import Population
        self.calls.append((len(pop), n_offsprings, kw.get("random_state") is not None, kw.get("algorithm") is not None))
        m = self.sizes[self.k]
        self.k += 1
        I = list(range(self.next, self.next + m))
        self.next += m
        if m == 0:
            return Population()
        return Population.new(X=np.array([[float(i)] for i in I]))


@harness("P31", "genetic", quick=[dict(n=2, off=1, gens=2, con=True), dict(n=2, off=2, gens=2, con=False)], thorough=[dict(n=2, off=1, gens=3, con=True), dict(n=2, off=2, gens=2, con=False), dict(n=3, off=2, gens=2, con=False)],
         functions=[G + ":GeneticAlgorithm._advance", G + ":GeneticAlgorithm._infill", G + ":GeneticAlgorithm._initialize_advance", A + ":Algorithm._set_optimum"], bounds="pop_size 2-3, 1-2 offspring, 2-3 iterations, single objective, with and without constraint")
def genetic(S, n, off, gens, con):
    from pymoo.algorithms.base.genetic import GeneticAlgorithm
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    from pymoo.termination import get_termination
    N = n + off * (gens - 1)
    F = S.reals("F", (N, 1))
    G_ = S.reals("G", (N, 1)) if con else None
    log = []
    problem = table_problem(log, F, G_)
    mate = Mate([off] * gens, n)
    alg = GeneticAlgorithm(pop_size=n, n_offsprings=off if off != n else None, sampling=np.array([[float(i)] for i in range(n)]), mating=mate, survival=FitnessSurvival(), return_least_infeasible=True)
    alg.setup(problem, termination=get_termination("n_gen", gens), seed=1)
    seen = []
    while alg.has_next():
        alg.next()
        seen += log[-1]
        I = [int(v[0]) for v in alg.pop.get("X")]
        S.require(len(I) == n and len(set(I)) == n and set(I) <= set(seen), "pop_size distinct survivors of parents and offspring")
        cv = [S.max([0.0, G_[i, 0]]) if con else 0.0 for i in range(N)]
        o = int(alg.opt[0].X[0])
        for i in seen:
            feas_o, feas_i = S.xle(cv[o], 0.0), S.xle(cv[i], 0.0)
            S.require(S.ite(feas_i, S.all([feas_o, S.xle(F[o, 0], F[i, 0])]), S.any([feas_o, S.xle(cv[o], cv[i])])), "the best solution ever seen is not lost")
    S.require(log == [list(range(n))] + [list(range(n + g * off, n + (g + 1) * off)) for g in range(gens - 1)], "evaluated once")
    S.require(mate.calls == [(n, off, True, True)] * (gens - 1), "mating gets the population and the requested number")


@harness("P31", "no_offspring", quick=[dict()], functions=[G + ":GeneticAlgorithm._infill"], bounds="pop_size 2; mating yields 0, 1 or 2 offspring")
def no_offspring(S):
    from pymoo.algorithms.base.genetic import GeneticAlgorithm
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    from pymoo.termination import get_termination
    F = S.reals("F", (6, 1))
    log = []
    problem = table_problem(log, F)
    m = S.choose(3)
    mate = Mate([m, 0, 0], 2)
    alg = GeneticAlgorithm(pop_size=2, sampling=np.array([[0.0], [1.0]]), mating=mate, survival=FitnessSurvival())
    alg.setup(problem, termination=get_termination("n_gen", 50), seed=1)
    res = alg.run()
    want = [[0, 1]] + ([list(range(2, 2 + m))] if m else [])
    S.require(log == want and len(res.pop) == 2, "runs on with fewer offspring and ends without any")
    S.require(S.same(res.F[0], S.min([F[i, 0] for i in range(2 + m)])), "best")


@harness("P31", "start", quick=[dict()], functions=["pymoo/core/initialization.py:Initialization.do", G + ":GeneticAlgorithm._initialize_infill"], bounds="2-3 given individuals, any subset evaluated before, symbolic positions")
def start(S):
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.core.initialization import Initialization
    from pymoo.core.population import Population
    from common import problem
    n = 3
    X = S.ints("x", (n, 1), 0, 3).astype(float)
    x = [X[i, 0] for i in range(n)]
    kind = S.choose(3)
    asked = []

    def repair(problem, pop, **kw):
        asked.append(len(pop))
        return Population.new(X=pop.get("X") + 10)

    done = [False] * n
    if kind == 0:
        given = Population.new(X=X)
        for i in range(n):
            if S.choose(2) == 0:
                done[i] = True
                given[i].evaluated = {"F"}
    elif kind == 1:
        given = X
    else:
        def given(problem, n_samples, random_state=None, **kw):
            asked.append(("sampling", n_samples, random_state is not None))
            return Population.new(X=X)
    elim = S.choose(2) == 0
    ini = Initialization(given, repair=repair, eliminate_duplicates=DefaultDuplicateElimination() if elim else None)
    pop = ini.do(problem(n_var=1, n_obj=1), 5)
    if kind == 2:
        S.require(asked[0] == ("sampling", 5, True), "the sampling is asked for the requested number")
        asked.pop(0)
    k = n - sum(done)
    S.require(asked == ([k] if k else []), "only what is not evaluated is repaired")
    want = [x[i] + (0 if done[i] else 10) for i in range(n)]
    got = [i.X[0] for i in pop]
    keep = []
    for i in range(n):
        if not elim or not any(S.truth(S.same(want[i], want[j])) for j in range(i)):
            keep.append(want[i])
    S.require(len(got) == len(keep) and S.truth(S.all([S.same(a, b) for a, b in zip(got, keep)])), "given individuals in order, repaired, without duplicates")


@harness("P31", "minimize", quick=[dict()], functions=["pymoo/optimize.py:minimize", A + ":Algorithm.setup"], bounds="run of 2 iterations, copying on and off")
def minimize_(S):
    from pymoo.algorithms.base.genetic import GeneticAlgorithm
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    from pymoo.optimize import minimize
    from pymoo.termination.max_gen import MaximumGenerationTermination
    F = S.reals("F", (4, 1))
    log = []
    problem = table_problem(log, F)
    alg = GeneticAlgorithm(pop_size=2, sampling=np.array([[0.0], [1.0]]), mating=Mate([2, 2], 2), survival=FitnessSurvival())
    t = MaximumGenerationTermination(2)
    ca, ct = S.choose(2) == 0, S.choose(2) == 0
    as_tuple = S.choose(2) == 0
    seen = []
    res = minimize(problem, alg, ("n_gen", 2) if as_tuple else t, copy_algorithm=ca, copy_termination=ct, seed=3, callback=lambda a: seen.append((a.n_gen, a.seed)))
    S.require(log == [[0, 1], [2, 3]] and seen == [(1, 3), (2, 3)], "a run of two iterations with the given seed and callback")
    S.require(S.same(res.F[0], S.min([F[i, 0] for i in range(4)])), "best")
    S.require((res.algorithm is alg) == (not ca), "copied exactly when asked for")
    if ca:
        S.require(alg.problem is None and alg.pop is None and alg.termination is None and not alg.is_initialized and alg.evaluator.n_eval == 0, "the given algorithm is untouched")
    if not as_tuple:
        S.require(t.has_terminated() == (not ct), "the given termination is untouched exactly when copied")
    S.require(res.algorithm.random_state is not None and res.exec_time >= 0, "seeded and timed")


@harness("P31", "callbacks", quick=[dict()], functions=["pymoo/core/callback.py:CallbackCollection", "pymoo/core/callback.py:Callback.__call__"], bounds="collections of 1-2 callbacks, 2 iterations")
def callbacks(S):
    from pymoo.core.callback import Callback, CallbackCollection
    log = []

    class CB(Callback):
        def __init__(self, k):
            super().__init__()
            self.k = k

        def initialize(self, algorithm):
            log.append(("init", self.k))

        def notify(self, algorithm):
            log.append(("notify", self.k, algorithm))

    class CU(CB):
        notify = Callback.notify

        def _update(self, algorithm):
            log.append(("notify", self.k, algorithm))
    n = S.choose(2) + 1
    cls = [CB, CU][S.choose(2)]
    c = CallbackCollection(*[cls(k) for k in range(n)])
    c("a1")
    c("a2")
    for k in range(n):
        S.require([e for e in log if e[1] == k] == [("init", k), ("notify", k, "a1"), ("notify", k, "a2")], "every callback is initialized once and sees every iteration once")
