"""P28: optimum and result."""
import numpy as np
from symx.harness import harness
from common import meta, rows, pop_of, uids, dom

O_, A_ = "pymoo/util/optimum.py", "pymoo/core/algorithm.py"
META = meta(
    "The reported optimum is the best of the population and reported faithfully",
    "For every population, filter_optimum returns exactly the feasible individuals that no feasible individual dominates (one of minimal objective value if there is a single objective); without any feasible one it returns an individual of minimal violation if asked to and None otherwise. "
    "A result reports success exactly when its optimum contains a feasible solution, and then X, F, CV, G and H are the values of that optimum in order (one-dimensional for a single solution of a single-objective problem); "
    "without a feasible solution it reports none, or the least infeasible one if configured.",
    ["inputs", "configurations"], "all objective values and violations of the stated sizes", "tests only look at runs that end with feasible optima", [O_, A_],
    [("optimum", O_ + ":filter_optimum"), ("result", A_ + ":Algorithm.result")],
    "bounded: populations of up to 3 (thorough 4), 1-2 objectives")


def pop(S, n, m):
    F, CV = S.reals("F", (n, m)), S.reals("cv", (n, 1), lo=0)
    X, G, H = S.reals("X", (n, 2)), S.reals("G", (n, 1)), S.reals("H", (n, 1))
    p = pop_of(S, F=F, CV=None, X=X, G=G, H=H)
    p.set("CV", CV)
    return p, rows(F), [CV[i, 0] for i in range(n)], [S.truth(S.xle(CV[i, 0], 0.0)) for i in range(n)]


@harness("P28", "optimum", quick=[dict(n=3, m=1), dict(n=3, m=2)], thorough=[dict(n=4, m=1), dict(n=4, m=2), dict(n=3, m=3)], functions=[O_ + ":filter_optimum"], bounds="3-4 individuals, 1-3 objectives")
def optimum(S, n, m):
    from pymoo.core.population import Population
    from pymoo.util.optimum import filter_optimum
    p, F, cv, feas = pop(S, n, m)
    least = S.choose(2) == 1
    S.require(filter_optimum(None, least) is None and filter_optimum(Population(), least) is None, "nothing without a population")
    opt = filter_optimum(p, least_infeasible=least)
    if any(feas):
        I = uids(opt)
        ok = [i for i in range(n) if feas[i]]
        S.require(len(set(I)) == len(I) and set(I) <= set(ok), "feasible individuals")
        if m == 1:
            S.require(len(I) == 1 and S.truth(S.all([S.xle(F[I[0]][0], F[j][0]) for j in ok])), "one of minimal objective value")
        else:
            for i in ok:
                S.require(S.iff(S.any([dom(S, F[j], F[i]) for j in ok]), i not in I), "exactly the non-dominated feasible ones")
    elif least:
        I = uids(opt)
        S.require(len(I) == 1 and S.truth(S.all([S.xle(cv[I[0]], c) for c in cv])), "the least infeasible one")
    else:
        S.require(opt is None, "nothing")


@harness("P28", "result", quick=[dict(n=2, m=1), dict(n=2, m=2)], thorough=[dict(n=3, m=1), dict(n=3, m=2)], functions=[A_ + ":Algorithm.result", A_ + ":Algorithm._set_optimum"], bounds="2-3 individuals in the final population, 1-2 objectives")
def result(S, n, m):
    from pymoo.core.algorithm import Algorithm
    from common import problem
    p, F, cv, feas = pop(S, n, m)
    least = S.choose(2) == 1
    alg = Algorithm(return_least_infeasible=least)
    alg.problem = problem(n_var=2, n_obj=m, n_ieq=1, n_eq=1)
    alg.start_time = 0.0
    if S.choose(2) == 0:
        alg.pop = p
        alg._set_optimum()
    else:
        alg.pop = p[:0]
        alg.opt = None
    res = alg.result()
    S.require(res.pop is alg.pop and res.problem is alg.problem, "population and problem")
    if alg.opt is None:
        S.require(not res.success and all(v is None for v in (res.opt, res.X, res.F, res.CV, res.G, res.H)), "no solution, no success")
        return
    S.require(bool(res.success) == any(feas), "success exactly with a feasible solution")
    if not any(feas) and not least:
        S.require(all(v is None for v in (res.opt, res.X, res.F, res.CV, res.G, res.H)), "infeasible solutions are not reported")
        return
    I = uids(res.opt)
    one = m == 1
    S.require(len(I) == 1 or m == 2, "size")
    for k, i in enumerate(I):
        for name in ("X", "F", "CV", "G", "H"):
            v, w = getattr(res, name), p[i].get(name)
            v = v if one else v[k]
            S.require(np.shape(v) == np.shape(w) and S.truth(S.all([S.same(a, b) for a, b in zip(S.flat(v), S.flat(w))])), "values of the optimum")
    S.require(all(feas[i] for i in I) if any(feas) else S.truth(S.all([S.xle(cv[I[0]], c) for c in cv])), "feasible, or least infeasible")
