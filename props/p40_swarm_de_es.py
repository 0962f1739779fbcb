"""P40: differential evolution, particle swarms and evolution strategies."""
import itertools
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, uids, veq

A = "pymoo/algorithms/"
SO = A + "soo/nonconvex/"
META = meta(
    "DE, swarms and evolution strategies follow their equations, lose no improvement",
    "A differential donor is its base vector plus F (jittered by at most alpha/2 only where jitter is on) times the differences of distinct other individuals; a trial vector equals its own target except for the coordinates the "
    "crossover takes from the donor (at least one for binomial and exponential), or lies between target and donor; every proposal lies within the bounds. The offspring of individual i only ever replaces individual i, exactly if it is better. "
    "Velocities follow w V + c1 r1 (P - X) + c2 r2 (L - X), limited to the maximum velocity, positions are X + V; a personal best changes exactly if the particle improved on it, the global or neighbourhood best is the best known of its neighbourhood, "
    "and adapted coefficients stay in their ranges. Step sizes of evolution strategies never exceed the maximum, recombined ones are the mean of two of the same variable, the best individuals take differential steps, values outside the bounds are "
    "drawn again and finally set back to the parent's value; survivors are the best of the offspring (and of the parents if there are too few offspring).",
    ["inputs"], "all positions, velocities, coefficients, random numbers and objective values",
    "tests run whole algorithms with a seed and compare the final objective value",
    [SO + "de.py", SO + "pso.py", SO + "pso_ep.py", SO + "es.py", SO + "sres.py", SO + "isres.py", A + "moo/cmopso.py", A + "moo/mopso_cd.py"],
    [("differential", SO + "de.py:de_differential"), ("variant", SO + "de.py:Variant.do"), ("velocity", SO + "pso.py:pso_equation"), ("repair", SO + "es.py:es_mut_repair")],
    "bounded: 2-6 individuals, 2-3 variables; where equations multiply variables, one factor is concrete")


# ---------------------------------------------------------------------------------------------------- DE

@harness("P40", "differential", quick=[dict(n_parents=3, n=2), dict(n_parents=5, n=1)], functions=[SO + "de.py:de_differential"], bounds="1-2 matings, 3 or 5 parents, 2 variables, symbolic F")
def differential(S, n_parents, n):
    from pymoo.algorithms.soo.nonconvex.de import de_differential
    X = S.reals("X", (n_parents, n, 2), lo=-4, hi=4)
    F = S.reals("F", n, lo=0, hi=1)
    Xp = de_differential(X, F, np.zeros(n, dtype=bool), random_state=S.rng(open_=True))
    for k in range(n):
        for j in range(2):
            want = X[0, k, j]
            for i in range(1, n_parents, 2):
                want = want + F[k] * (X[i, k, j] - X[i + 1, k, j])
            S.require(S.eq(Xp[k, j], want), "base plus F times the differences")


@harness("P40", "jitter", quick=[dict(alpha=0.5), dict(alpha=None)], functions=[SO + "de.py:de_differential"], bounds="2 matings (one with jitter), 2 variables, concrete parents, symbolic F and random numbers")
def jitter(S, alpha):
    from pymoo.algorithms.soo.nonconvex.de import de_differential
    X = np.array([[[0.5, 0.25], [0.5, 0.75]], [[1.0, 3.0], [0.0, 1.0]], [[0.5, 1.0], [2.0, 0.75]]])
    F = S.reals("F", 2, lo=0, hi=1)
    kw = {} if alpha is None else dict(alpha=alpha)
    a = 0.001 if alpha is None else alpha
    r = S.rng(open_=True)
    Xp = de_differential(X, F, np.array([False, True]), random_state=r, **kw)
    for j in range(2):
        d = X[1, :, j] - X[2, :, j]
        S.require(S.eq(Xp[0, j], X[0, 0, j] + F[0] * d[0]), "no jitter where it is off")
        lo, hi = sorted([1 - a / 2, 1 + a / 2])
        moved = Xp[1, j] - X[0, 1, j]
        ends = [F[1] * lo * d[1], F[1] * hi * d[1]]
        S.require(S.all([S.le(S.min(ends), moved + 1e-9), S.le(moved, S.max(ends) + 1e-9)]), "jitter of at most alpha/2")
    S.require(r.n_draws >= 1, "jitter draws")


def the_pop(S, n, k):
    """n individuals with 2 variables, individual k has symbolic values"""
    X = [[0.0625 * i + 0.5 * (i % 2), 1.0 - 0.125 * i] for i in range(n)]
    x = S.reals("x", 2, lo=0, hi=1)
    X[k] = [x[0], x[1]]
    F = [[float((i + 2) % n)] for i in range(n)]
    pop = pop_of(S, X=S.array(X), F=S.array(F))
    pop.set("rank", [int(f[0]) for f in F])
    return pop, X


class Alg:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def donors(X, sel, n_diffs, n, k, best):
    """all parent tuples a variant may use for target k"""
    import itertools
    if sel == "rand":
        for t in itertools.permutations([i for i in range(n) if i != k], 1 + 2 * n_diffs):
            yield t
    elif sel == "best":
        for t in itertools.permutations([i for i in range(n) if i != k], 2 * n_diffs):
            yield (best,) + t
    else:
        for t in itertools.permutations([i for i in range(n) if i != k], 2 * n_diffs - 1):
            yield (k, best) + t


@harness("P40", "trial", quick=[dict(sel=s, cross=c, seed=d) for s in ("rand", "best", "target-to-best") for c in ("bin", "exp", "line", "hypercube") for d in (1, 2) if (s, c) != ("rand", "line")],
         thorough=[dict(sel=s, cross=c, seed=d, n=6, k=3) for s in ("rand", "best", "target-to-best") for c in ("bin", "exp", "line", "hypercube") for d in (3, 4)],
         functions=[SO + "de.py:Variant.do", SO + "de.py:de_differential", "pymoo/operators/crossover/binx.py:mut_binomial", "pymoo/operators/crossover/expx.py:mut_exp"],
         bounds="5-6 individuals with 2 variables, one of them symbolic, seeded random numbers, mutation switched off, wide variable bounds")
def trial(S, sel, cross, seed, n=5, k=1):
    from pymoo.algorithms.soo.nonconvex.de import Variant
    from pymoo.operators.control import NoParameterControl
    pop, X = the_pop(S, n, k)
    v = Variant(selection=sel, n_diffs=1, F=0.5, CR=0.5, crossover=cross, prob_mut=0.0, control=NoParameterControl)
    p = problem(n_var=2, n_obj=1, xl=-50.0, xu=50.0)
    off = v.do(p, pop, n, algorithm=Alg(random_state=np.random.default_rng(seed)))
    S.require(len(off) == n, "one trial for each target")
    best = [i for i in range(n) if pop[i].get("rank") == 0][0]
    Y = off.get("X")
    for t in range(n):
        cond = []
        for P in donors(X, sel, 1, n, t, best):
            d = [X[P[0]][j] + 0.5 * (X[P[1]][j] - X[P[2]][j]) for j in range(2)]
            if cross in ("bin", "exp"):
                ok = S.all([S.any([S.eq(Y[t, j], X[t][j]), S.eq(Y[t, j], d[j])]) for j in range(2)] + [S.any([S.eq(Y[t, j], d[j]) for j in range(2)])])
            else:
                def part(j):
                    lo, hi = S.min([X[t][j], X[t][j] + 0.5 * (d[j] - X[t][j])]), S.max([X[t][j], X[t][j] + 0.5 * (d[j] - X[t][j])])
                    return S.all([S.le(lo, Y[t, j]), S.le(Y[t, j], hi)])
                ok = S.all([part(j) for j in range(2)])
                if cross == "line":
                    ok = S.all([ok, line(S, Y[t], X[t], d)])
            cond.append(ok)
        S.require(S.any(cond), "target and donor of distinct other individuals recombined")


@harness("P40", "trial_mixed", quick=[dict(seed=d, sel=m) for d in (1, 2, 7, 8) for m in ("mixed", "target")], thorough=[dict(seed=d, sel=m) for d in (3, 4, 5, 6) for m in ("mixed", "target")], functions=[SO + "de.py:Variant.do"],
         bounds="5 individuals with 2 variables, one of them symbolic; the selection, F, CR and crossover differ for each individual; seeded random numbers")
def trial_mixed(S, seed, sel):
    """parameters that differ for each individual are applied to the individual they belong to"""
    from pymoo.algorithms.soo.nonconvex.de import Variant
    from pymoo.operators.control import NoParameterControl
    n = 5
    pop, X = the_pop(S, n, 1)
    v = Variant(prob_mut=0.0, control=NoParameterControl)
    sels = ["best", "rand", "target-to-best", "best", "rand"] if sel == "mixed" else ["target-to-best"] * 5
    F = [1.0, 0.25, 0.5, 2.0, 0.75]
    cross = ["hypercube", "bin", "bin", "bin", "line"] if sel == "mixed" else ["bin", "line", "bin", "line", "bin"]
    CR = [0.125, 0.0, 1.0, 1.0, 0.25] if sel == "mixed" else [1.0, 0.125, 0.0, 0.5, 1.0]
    v.selection.set(np.array(sels)), v.F.set(np.array(F)), v.crossover.set(np.array(cross)), v.CR.set(np.array(CR))
    off = v.do(problem(n_var=2, n_obj=1, xl=-50.0, xu=50.0), pop, n, algorithm=Alg(random_state=np.random.default_rng(seed)))
    best = [i for i in range(n) if pop[i].get("rank") == 0][0]
    Y = off.get("X")
    for t in range(n):
        cond = []
        for P in donors(X, sels[t], 1, n, t, best):
            d = [X[P[0]][j] + F[t] * (X[P[1]][j] - X[P[2]][j]) for j in range(2)]
            if cross[t] == "bin":
                one = S.any([S.all([S.eq(Y[t, j], d[j]), S.eq(Y[t, 1 - j], X[t][1 - j])]) for j in range(2)])
                cond.append(one if CR[t] == 0 else S.all([S.eq(Y[t, j], d[j]) for j in range(2)]))
            else:
                ends = [[X[t][j], X[t][j] + CR[t] * (d[j] - X[t][j])] for j in range(2)]
                cond.append(S.all([S.all([S.le(S.min(ends[j]), Y[t, j]), S.le(Y[t, j], S.max(ends[j]))]) for j in range(2)] + ([line(S, Y[t], X[t], d)] if cross[t] == "line" else [])))
        S.require(S.any(cond), "the trial follows the parameters of its own target")


def line(S, y, t, d):
    return S.eq((y[0] - t[0]) * (d[1] - t[1]), (y[1] - t[1]) * (d[0] - t[0]))


@harness("P40", "trial_bounds", quick=[dict(sel=s, cross=c, seed=d) for s in ("rand", "best", "target-to-best") for c, d in (("bin", 1), ("hypercube", 2), ("exp", 3)) if (s, c) != ("rand", "hypercube")],
         thorough=[dict(sel=s, cross=c, seed=d) for s in ("rand", "best", "target-to-best") for c, d in (("bin", 4), ("line", 1), ("hypercube", 2), ("exp", 5))], functions=[SO + "de.py:Variant.do"],
         bounds="5 individuals with 2 variables in [0, 1], one of them symbolic, F=0.9, two differences, seeded random numbers")
def trial_bounds(S, sel, cross, seed, n=6, k=1):
    from pymoo.algorithms.soo.nonconvex.de import Variant
    from pymoo.operators.control import NoParameterControl
    pop, X = the_pop(S, n, k)
    v = Variant(selection=sel, n_diffs=1, F=0.9, CR=0.7, crossover=cross, jitter=True, prob_mut=0.0, control=NoParameterControl)
    off = v.do(problem(n_var=2, n_obj=1, xl=0.0, xu=1.0), pop, n, algorithm=Alg(random_state=np.random.default_rng(seed)))
    for x in S.flat(off.get("X")):
        S.require(S.all([S.le(0, x), S.le(x, 1)]), "trials lie within the bounds")
    for i in range(n):
        S.require(veq(S, pop[i].X, X[i]), "the population is not changed")


@harness("P40", "de_advance", quick=[dict(n_off=2), dict(n_off=4)], functions=[SO + "de.py:DE._infill", SO + "de.py:DE._advance", SO + "de.py:DE._set_optimum"], bounds="4 individuals, 2 or 4 offspring, symbolic objective values of two offspring and one individual; any choice of the varied individuals (seeded)")
def de_advance(S, n_off):
    from pymoo.algorithms.soo.nonconvex.de import DE
    n = 4
    algo = DE(pop_size=n, n_offsprings=n_off, variant="DE/rand/1/bin", CR=0.5)
    p = problem(n_var=2, n_obj=1, xl=0.0, xu=1.0)
    algo.setup(p, seed=S.pick([1, 5, 9]), termination=("n_gen", 100), verbose=False)
    pop = algo.ask()
    f = [S.real("f0", lo=0, hi=8), 2.0, 6.0, 4.0]
    X0 = [list(ind.X) for ind in pop]
    for ind, v in zip(pop, f):
        ind.F = S.array([v])
        ind.evaluated = {"F", "G", "H"}
    algo.tell(infills=pop)
    old = list(algo.pop)
    S.require(S.all([veq(S, old[i].X, X0[i]) for i in range(n)]), "individuals keep their place")
    off = algo.ask()
    S.require(len(off) == n_off, "as many offspring as configured")
    idx = [int(i) for i in off.get("index")]
    S.require(len(set(idx)) == n_off and all(0 <= i < n for i in idx), "each offspring belongs to another individual")
    g = [S.real("g0", lo=0, hi=8), S.real("g1", lo=0, hi=8), 3.0, 5.0][:n_off]
    new = list(off)
    for ind, v in zip(new, g):
        ind.F = S.array([v])
        ind.evaluated = {"F", "G", "H"}
    algo.tell(infills=off)
    F = list(f)
    for i in range(n):
        now = algo.pop[i]
        if i in idx:
            k = idx.index(i)
            better = S.truth(S.xlt(g[k], f[i]))
            S.require(now is (new[k] if better else old[i]), "an offspring replaces its own individual exactly if it is better")
            F[i] = g[k] if better else f[i]
        else:
            S.require(now is old[i], "other individuals stay")
    S.require(S.eq(algo.opt[0].F[0], S.min(F)), "the optimum is the best individual")


@harness("P40", "de_reach", quick=[dict(n=4, n_off=1), dict(n=5, n_off=2)], functions=[SO + "de.py:DE._infill"], bounds="4-5 individuals, 1-2 offspring, every permutation of the random state")
def de_reach(S, n, n_off):
    """the individuals varied by a steady state version are the ones the random permutation starts with: any individual can be varied"""
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.core.population import Population
    algo = DE(pop_size=n, n_offsprings=n_off)
    trials = Population.new(X=np.arange(n * 2).reshape(n, 2) * 1.0)

    class Mating:
        def do(self, problem, pop, n_offsprings, **kw):
            S.require(n_offsprings == n, "a trial for each individual")
            return trials
    algo.mating = Mating()
    perm = list(range(n))
    a, b = S.choose(n), S.choose(n)
    perm[0], perm[a] = perm[a], perm[0]
    perm[1], perm[b] = perm[b], perm[1]

    class R:
        def permutation(self, m):
            S.require(m == n, "all individuals can be chosen")
            return np.array(perm)

        def choice(self, m, size=None, replace=True, **kw):
            S.require(not replace, "distinct individuals")
            return np.array(perm[:size])
    algo.random_state = R()
    algo.pop, algo.problem = trials, None
    off = algo._infill()
    S.require([int(i) for i in off.get("index")] == perm[:n_off] and all(off[k] is trials[perm[k]] for k in range(n_off)), "the chosen individuals are varied and tagged with their own place")


# ---------------------------------------------------------------------------------------------------- PSO

@harness("P40", "velocity", quick=[dict(given=True), dict(given=False)], functions=[SO + "pso.py:pso_equation"], bounds="2 particles, 2 variables, symbolic position, velocity and coefficients of one coordinate, any random numbers")
def velocity(S, given):
    from pymoo.algorithms.soo.nonconvex.pso import pso_equation
    x, v = S.real("x", lo=0, hi=1), S.real("v", lo=-1, hi=1)
    X = S.array([[x, 0.5], [0.25, 0.75]])
    V = S.array([[v, 0.0], [0.125, -0.25]])
    P = np.array([[0.75, 0.5], [0.5, 0.75]])
    L = np.array([[0.25, 1.0], [0.25, 0.0]])
    V_max = np.array([0.25, 0.5])
    w, c1, c2 = 0.5, 2.0, 1.5
    if given:
        r1, r2 = np.array([[0.5, 0.25], [1.0, 0.0]]), np.array([[0.75, 0.5], [0.25, 0.5]])
        Xp, Vp = pso_equation(X, P, L, V, V_max, w, c1, c2, r1=r1, r2=r2)
        for i in range(2):
            for j in range(2):
                u = w * V[i, j] + c1 * r1[i, j] * (P[i, j] - X[i, j]) + c2 * r2[i, j] * (L[i, j] - X[i, j])
                S.require(S.eq(Vp[i, j], S.max([-V_max[j], S.min([V_max[j], u])])), "inertia, cognitive and social part limited to the maximum velocity")
    else:
        r = S.rng(open_=True)
        Xp, Vp = pso_equation(S.array([[0.5, 0.5], [0.25, 0.75]]), P, L, V, V_max, w, c1, c2, random_state=r)
        X = S.array([[0.5, 0.5], [0.25, 0.75]])
        for i in range(2):
            for j in range(2):
                ends = [w * V[i, j] + c1 * a * (P[i, j] - X[i, j]) + c2 * b * (L[i, j] - X[i, j]) for a in (0, 1) for b in (0, 1)]
                S.require(S.all([S.le(S.max([-V_max[j], S.min(ends + [V_max[j]])]), Vp[i, j]), S.le(Vp[i, j], S.min([V_max[j], S.max(ends + [-V_max[j]])]))]), "random parts between nothing and all of the attraction")
        S.require(r.n_draws >= 2, "cognitive and social numbers are drawn")
    for i in range(2):
        for j in range(2):
            S.require(S.eq(Xp[i, j], X[i, j] + Vp[i, j]), "positions move by the velocity")


def swarm(S, n=3, cls=None, seed=1, **kw):
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    algo = (cls or PSO)(pop_size=n, **kw)
    p = problem(n_var=2, n_obj=1, xl=0.0, xu=1.0)
    algo.setup(p, seed=seed, termination=("n_gen", 100), verbose=False)
    pop = algo.ask()
    return algo, pop


def tell(S, algo, pop, F):
    for ind, v in zip(pop, F):
        ind.F = S.array([v])
        ind.evaluated = {"F", "G", "H"}
    algo.tell(infills=pop)


@harness("P40", "pso_step", quick=[dict(adaptive=False), dict(adaptive=True)], functions=[SO + "pso.py:PSO._infill", SO + "pso.py:PSO._advance", SO + "pso.py:PSO._adapt"], bounds="3 particles, 3 iterations, symbolic objective values of two particles per iteration")
def pso_step(S, adaptive):
    algo, pop = swarm(S, adaptive=adaptive, pertube_best=False)
    f = [S.real("f0", lo=0, hi=8), 2.0, 6.0]
    tell(S, algo, pop, f)
    best, where = list(f), list(algo.pop)
    for it in range(2):
        off = algo.ask()
        S.require(len(off) == 3, "one proposal per particle")
        S.require(all(0 <= x <= 1 for x in S.flat(off.get("X"))), "within the bounds")
        g = [S.real("g%d" % it, lo=0, hi=8), 3.0 - it, 5.0]
        tell(S, algo, off, g)
        for i in range(3):
            better = S.truth(S.xlt(g[i], best[i]))
            S.require(algo.pop[i] is (off[i] if better else where[i]), "a personal best changes exactly if the particle improved on it")
            if better:
                best[i], where[i] = g[i], off[i]
            S.require(algo.particles[i] is off[i], "particles move on from where they are")
        S.require(S.eq(algo.opt[0].F[0], S.min(best)), "the global best is the best of the personal bests")


@harness("P40", "pso_moves", quick=[dict(seed=1), dict(seed=2)], functions=[SO + "pso.py:PSO._infill", SO + "pso.py:PSO._social_best"], bounds="3 particles, symbolic best values; the pulls towards personal and global best compared with the recorded states")
def pso_moves(S, seed):
    """an iteration applies the equation to the position, velocity and personal best of each particle and to the best of all"""
    import pymoo.algorithms.soo.nonconvex.pso as M
    algo, pop = swarm(S, adaptive=False, pertube_best=False, seed=seed)
    f = [S.real("f0", lo=0, hi=8), 2.0, 6.0]
    tell(S, algo, pop, f)
    off = algo.ask()
    g = [S.real("g0", lo=0, hi=8), 1.0, 7.0]
    tell(S, algo, off, g)
    calls, eq = [], M.pso_equation

    def spy(X, P_X, S_X, V, V_max, w, c1, c2, **kw):
        r = eq(X, P_X, S_X, V, V_max, w, c1, c2, **kw)
        calls.append((X, P_X, S_X, V, V_max, w, c1, c2))
        return r
    M.pso_equation = spy
    try:
        new = algo.ask()
    finally:
        M.pso_equation = eq
    X, P, L, V, V_max, w, c1, c2 = calls[0]
    b = [min([0.0]) for _ in range(3)]
    all_f = [(f[i], pop[i]) for i in range(3)] + [(g[i], off[i]) for i in range(3)]
    for i in range(3):
        own = off[i] if S.truth(S.xlt(g[i], f[i])) else pop[i]
        S.require(veq(S, X[i], off[i].X) and veq(S, V[i], off[i].get("V")), "current position and velocity")
        S.require(veq(S, P[i], own.X), "pulled towards the personal best")
        S.require(S.any([S.all([veq(S, L[i], o.X)] + [S.xle(v, u) for u, _ in all_f]) for v, o in all_f]), "pulled towards the best of all")
    S.require(veq(S, V_max, [0.2, 0.2]) and (w, c1, c2) == (0.9, 2.0, 2.0), "with the given coefficients")


@harness("P40", "pso_best", quick=[dict(k=0), dict(k=2)], functions=[SO + "pso.py:PSO._infill"], bounds="3 particles, any one the best")
def pso_best(S, k):
    """perturbing the best changes the proposal of the best particle only"""
    import pymoo.algorithms.soo.nonconvex.pso as M
    F = [S.real("f%d" % i, lo=0, hi=8) for i in range(3)]
    for i in range(3):
        if i != k:
            S.assume(S.xlt(F[k], F[i]))
    out = []
    for pertube in (False, True):
        algo, pop = swarm(S, adaptive=False, pertube_best=pertube)
        tell(S, algo, pop, F)
        out.append(algo.ask().get("X"))
    for i in range(3):
        S.require(i == k or veq(S, out[0][i], out[1][i]), "only the best particle is perturbed")
        S.require(S.all([S.all([S.le(0, x), S.le(x, 1)]) for x in out[1][i]]), "within the bounds")


@harness("P40", "pso_mutant", quick=[dict()], functions=[SO + "pso.py:PSO._infill"], bounds="3 particles, 2 iterations, symbolic objective values; the mutation replaced by one that records")
def pso_mutant(S):
    """it is the best personal best that is perturbed"""
    import pymoo.algorithms.soo.nonconvex.pso as M
    algo, pop = swarm(S, adaptive=False, pertube_best=True)
    f = [S.real("f0", lo=0, hi=8), 2.0, 6.0]
    tell(S, algo, pop, f)
    seen = []

    class Mut:
        def __init__(self, *a, **k):
            pass

        def __call__(self, problem, pop, **kw):
            seen.append([v for v in pop[0].X])
            from pymoo.core.population import Population
            return Population.new(X=np.array([[0.125, 0.875]]))
    old, M.PM = M.PM, Mut
    try:
        off = algo.ask()
        g = [S.real("g0", lo=0, hi=8), 1.0, 7.0]
        tell(S, algo, off, g)
        new = algo.ask()
    finally:
        M.PM = old
    best = [S.min([f[i], g[i]]) for i in range(3)]
    S.require(len(seen) == 2, "one perturbation per iteration")
    S.require(S.any([S.all([veq(S, seen[1], algo.pop[i].X)] + [S.xle(best[i], best[j]) for j in range(3)]) for i in range(3)]), "the best solution found so far is perturbed")
    S.require(sum(bool(x[0] == 0.125 and x[1] == 0.875) for x in new.get("X")) == 1, "and is proposed for one particle")


@harness("P40", "pso_again", quick=[dict()], functions=[SO + "pso.py:PSO._infill"], bounds="3 particles, 2 variables, every set of particles that leave the bounds once or twice, symbolic proposals", resolve=True)
def pso_again(S):
    """particles that leave the bounds are moved again, each with its own position, velocity and personal best"""
    import pymoo.algorithms.soo.nonconvex.pso as M
    algo, pop = swarm(S, adaptive=False, pertube_best=False)
    tell(S, algo, pop, [4.0, 2.0, 6.0])
    off = algo.ask()
    tell(S, algo, off, [3.0, 5.0, 1.0])
    known = [(list(algo.particles[i].X), list(algo.pop[i].X), list(algo.particles[i].get("V"))) for i in range(3)]
    best = list(algo.opt[0].X)
    first = [S.choose(2) for _ in range(3)]
    again = [S.choose(2) if first[i] else 0 for i in range(3)]
    y = S.real("y", lo=0, hi=1)
    calls = []

    def fake(X, P_X, S_X, V, V_max, w, c1, c2, **kw):
        who = []
        for r in range(len(X)):
            m = [i for i in range(3) if list(X[r]) == known[i][0] and list(P_X[r]) == known[i][1] and list(V[r]) == known[i][2] and list(S_X[r]) == best]
            S.require(len(m) == 1, "position, personal best and velocity of the same particle and the global best")
            who += m
        k = len(calls)
        calls.append(who)
        bad = [first, again, [0, 0, 0]][min(k, 2)]
        return S.array([[1.5 if bad[i] else y, 0.25 * (k + 1)] for i in who]), S.array([[float(k), float(i)] for i in who])
    old, M.pso_equation = M.pso_equation, fake
    try:
        new = algo.ask()
    finally:
        M.pso_equation = old
    want = [[0, 1, 2]] + [w for w in ([i for i in range(3) if first[i]], [i for i in range(3) if again[i]]) if w]
    S.require(calls == want, "exactly the particles that are out of the bounds are moved again")
    for i in range(3):
        k = 2 if again[i] else 1 if first[i] else 0
        S.require(S.all([S.eq(new[i].X[0], y), S.eq(new[i].X[1], 0.25 * (k + 1))]), "the proposal is the last movement of the particle")
        S.require(list(new[i].get("V")) == [float(k), float(i)], "with its velocity")


def adapted(S):
    """the coefficients after one adaption: positions from a set of distance profiles, symbolic coefficients before"""
    import pymoo.algorithms.soo.nonconvex.pso as M
    algo = M.PSO(pop_size=3)
    algo.random_state = S.rng(open_=True)
    algo.problem = problem(n_var=2, n_obj=1, xl=0.0, xu=1.0)
    algo.c1, algo.c2 = S.real("c1", lo=1.5, hi=2.5), S.real("c2", lo=1.5, hi=2.5)
    algo.w = 0.9
    mean = S.pick([0.05, 0.2, 0.25, 0.35, 0.45, 0.55, 0.65, 0.75, 0.85, 0.95])
    algo.pop = pop_of(S, X=np.array([[0.0, 0.0], [0.5, 0.5], [1.0, 1.0]]), F=S.array([[1.0], [2.0], [3.0]]))
    algo.sbest = algo.pop
    n = [0]

    def dist(problem, P, Q):
        n[0] += 1
        if n[0] == 1:
            return np.array([[0.0, 0.0, 0.0], [0.5, 0.0, 0.5], [1.0, 1.0, 0.0]])
        return np.full((3, 3), mean)
    old, M.norm_eucl_dist = M.norm_eucl_dist, dist
    try:
        algo._adapt()
    finally:
        M.norm_eucl_dist = old
    return algo, mean


@harness("P40", "pso_adapt", quick=[dict()], functions=[SO + "pso.py:PSO._adapt", SO + "pso.py:S1_exploration"], bounds="ten evolutionary factors, symbolic coefficients, any random number", resolve=True)
def pso_adapt(S):
    c = dict(c1=S.real("c1", lo=1.5, hi=2.5), c2=S.real("c2", lo=1.5, hi=2.5))
    algo, f = adapted(S)
    S.require(S.all([S.le(1.2, algo.c1), S.le(algo.c1, 2.5), S.le(1.2, algo.c2), S.le(algo.c2, 2.5)]), "coefficients stay in their range")
    S.require(abs(algo.f - f) < 1e-9, "the factor relates the distance of the best to the smallest and largest mean distance")
    S.require(abs(float(algo.w) - 1 / (1 + 1.5 * np.exp(-2.6 * f))) < 1e-9, "inertia follows the factor")
    want = 3 if f < 0.23 else 2 if f < 0.5 else 1 if f < 0.77 else 4
    S.require(int(algo.strategy) == want, "exploration, exploitation, convergence and jumping out by the factor")


@harness("P40", "pso_adapt_sum", quick=[dict()], functions=[SO + "pso.py:PSO._adapt"], bounds="as pso_adapt", finding=True, resolve=True)
def pso_adapt_sum(S):
    algo, f = adapted(S)
    S.require(S.le(algo.c1 + algo.c2, 4.0), "the coefficients sum up to at most 4")


@harness("P40", "memberships", quick=[dict()], functions=[SO + "pso.py:S1_exploration", SO + "pso.py:S2_exploitation", SO + "pso.py:S3_convergence", SO + "pso.py:S4_jumping_out"], bounds="any evolutionary factor in [0, 1]")
def memberships(S):
    from pymoo.algorithms.soo.nonconvex.pso import S1_exploration, S2_exploitation, S3_convergence, S4_jumping_out
    f = S.real("f", lo=0, hi=1)
    S.require(S.xle(S.abs(S1_exploration(f) - S.max([0.0, S.min([1.0, 5 * f - 2, 8 - 10 * f])])), 1e-9), "exploration")
    S.require(S.xle(S.abs(S2_exploitation(f) - S.max([0.0, S.min([1.0, 10 * f - 2, 3 - 5 * f])])), 1e-9), "exploitation")
    S.require(S.xle(S.abs(S3_convergence(f) - S.max([0.0, S.min([1.0, 1.5 - 5 * f])])), 1e-9), "convergence")
    S.require(S.xle(S.abs(S4_jumping_out(f) - S.max([0.0, S.min([1.0, 5 * f - 3.5])])), 1e-9), "jumping out")


# ---------------------------------------------------------------------------------------------------- EPPSO

@harness("P40", "canonical", quick=[dict(lo=0.0), dict(lo=-2.0), dict(lo=3.0)], functions=[SO + "pso_ep.py:Swarm.do", SO + "pso_ep.py:pso_canonical"], bounds="2 particles, 2 variables, symbolic position and velocity of one coordinate, seeded random numbers")
def canonical(S, lo):
    from pymoo.algorithms.soo.nonconvex.pso_ep import Swarm
    from pymoo.operators.control import NoParameterControl
    x, v = S.real("x", lo=lo, hi=lo + 1), S.real("v", lo=-1, hi=1)
    X = S.array([[x, lo + 0.5], [lo + 0.25, lo + 0.75]])
    V = S.array([[v, 0.125], [0.125, -0.25]])
    P = lo + np.array([[0.75, 0.5], [0.5, 0.75]])
    L = lo + np.array([[0.25, 1.0], [0.25, 0.0]])
    sw = pop_of(S, X=X, V=V)
    seed = 3
    algo = Alg(swarm=sw, pbest=pop_of(S, X=P), lbest=pop_of(S, X=L))
    off = Swarm(control=NoParameterControl).do(problem(n_var=2, n_obj=1, xl=lo, xu=lo + 1.0), sw, 2, algorithm=algo, random_state=np.random.default_rng(seed))
    r = np.random.default_rng(seed)
    r1, r2 = r.random((2, 2)), r.random((2, 2))
    Y, W = off.get("X"), off.get("V")
    for i in range(2):
        for j in range(2):
            u = 0.7 * V[i, j] + 1.4 * r1[i, j] * (P[i, j] - X[i, j]) + 1.4 * r2[i, j] * (L[i, j] - X[i, j])
            u = S.max([-0.2, S.min([0.2, u])])
            y = X[i, j] + u
            inside = S.all([S.xle(lo, y), S.xle(y, lo + 1)])
            S.require(S.implies(inside, S.eq(Y[i, j], y)), "position plus limited velocity where that is within the bounds")
            S.require(S.all([S.le(lo, Y[i, j]), S.le(Y[i, j], lo + 1)]), "within the bounds")
            S.require(S.implies(S.not_(inside), S.any([S.all([S.le(Y[i, j], X[i, j]), S.xlt(y, lo)]), S.all([S.le(X[i, j], Y[i, j]), S.xlt(lo + 1, y)])])), "repaired between the old position and the bound")
            S.require(S.eq(W[i, j], Y[i, j] - X[i, j]), "the velocity is the movement")


@harness("P40", "neighbors", quick=[dict(name="star", n=4), dict(name="ring", n=5), dict(name="random", n=3)], functions=[SO + "pso_ep.py:get_neighbors"], bounds="3-5 particles, any permutation")
def neighbors(S, name, n):
    from pymoo.algorithms.soo.nonconvex.pso_ep import get_neighbors
    N = get_neighbors(name, n, random_state=S.rng(open_=True))
    S.require(len(N) == n, "neighbours of each particle")
    for i in range(n):
        m = [int(k) for k in N[i]]
        if name == "star":
            S.require(sorted(m) == list(range(n)), "everybody")
        elif name == "ring":
            S.require(sorted(m) == sorted([(i - 1) % n, i, (i + 1) % n]), "the particles next to it")
        else:
            S.require(m[0] == i and len(m) == 4 and len(set(m[1:])) == 3 and all(0 <= k < n for k in m), "itself and three others")


@harness("P40", "lbest", quick=[dict(topology="star"), dict(topology="ring"), dict(topology="cycle"), dict(topology="changing")], functions=[SO + "pso_ep.py:EPPSO._advance", SO + "pso_ep.py:EPPSO._initialize_advance"], bounds="4 particles, 3 iterations, symbolic objective values of one particle per iteration")
def lbest(S, topology):
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO
    algo, pop = swarm(S, n=4, cls=EPPSO, topology="star" if topology in ("cycle", "changing") else topology)
    if topology == "cycle":  # particle k informs itself and the next one
        algo.neighbors = [[k, (k + 1) % 4] for k in range(4)]
    f = [S.real("f0", lo=0, hi=8), 2.0, 6.0, 4.0]
    tell(S, algo, pop, f)
    best, known = list(f), list(f)
    value = {tuple(float(e) for e in pop[i].X): f[i] for i in range(4)}
    S.require(all(algo.lbest[i] is algo.pop[i] for i in range(4)), "the first local best is the particle itself")
    for it in range(2):
        off = algo.ask()
        S.require(all(0 <= x <= 1 for x in S.flat(off.get("X"))), "within the bounds")
        g = [S.real("g%d" % it, lo=0, hi=8), 3.0 - it, 5.0, 7.0 - 5 * it]
        g = [value.setdefault(tuple(float(e) for e in off[i].X), g[i]) for i in range(4)]
        old = list(algo.pbest)
        if topology == "changing" and it == 1:  # from now on nobody is informed by others
            algo.neighbors = [[k] for k in range(4)]
        tell(S, algo, off, g)
        for i in range(4):
            better = S.truth(S.xlt(g[i], best[i]))
            S.require(algo.pbest[i] is (off[i] if better else old[i]), "a personal best changes exactly if the particle improved on it")
            best[i] = g[i] if better else best[i]
        for i in range(4):
            nb = {"star": range(4), "ring": [(i - 1) % 4, i, (i + 1) % 4], "cycle": [(i - 1) % 4, i], "changing": range(4) if it == 0 else [i]}[topology]
            known[i] = S.min([known[i]] + [best[k] for k in nb])
            S.require(S.eq(algo.lbest[i].F[0], known[i]), "the local best is the best known of the neighbourhood")
        S.require(S.eq(algo.opt[0].F[0], S.min(best)), "the optimum is the best personal best")


# ---------------------------------------------------------------------------------------------------- ES

@harness("P40", "recombination", quick=[dict(n=2, m=1), dict(n=3, m=1)], functions=[SO + "es.py:es_intermediate_recomb"], bounds="2-3 rows, 1 column, any random numbers")
def recombination(S, n, m):
    from pymoo.algorithms.soo.nonconvex.es import es_intermediate_recomb
    s = S.reals("s", (n, m), lo=0, hi=4)
    h = es_intermediate_recomb(s, random_state=S.rng(open_=True))
    for i in range(n):
        for j in range(m):
            S.require(S.any([S.eq(h[i, j], (s[i, j] + s[k, j]) / 2) for k in range(n)]), "the mean of its own and another step size of the same variable")


@harness("P40", "recombination_reach", quick=[dict(k=0), dict(k=1), dict(k=2)], functions=[SO + "es.py:es_intermediate_recomb"], bounds="3 rows, 2 columns; each partner drawn")
def recombination_reach(S, k):
    from pymoo.algorithms.soo.nonconvex.es import es_intermediate_recomb

    class R:
        def integers(self, low, high=None, size=None, **kw):
            n = low if high is None else high - low
            S.require(n == 3 and size is None, "any row can be drawn")
            return (0 if high is None else low) + k
    s = S.reals("s", (3, 2), lo=0, hi=4)
    h = es_intermediate_recomb(s, random_state=R())
    for i in range(3):
        for j in range(2):
            S.require(S.eq(h[i, j], (s[i, j] + s[k, j]) / 2), "recombined with the drawn row")


@harness("P40", "es_repair", quick=[dict(n=1, m=2, trials=1), dict(n=2, m=1, trials=2)], thorough=[dict(n=2, m=2, trials=2)], functions=[SO + "es.py:es_mut_repair"], bounds="1-2 rows, 1-2 columns, 1-2 trials, any normal numbers, concrete step sizes")
def es_repair(S, n, m, trials):
    from pymoo.algorithms.soo.nonconvex.es import es_mut_repair
    xl, xu = np.array([0.0, -1.0])[:m], np.array([1.0, 3.0])[:m]
    X = S.reals("X", (n, m))
    for i in range(n):
        for j in range(m):
            S.assume(S.all([S.xle(xl[j], X[i, j]), S.xle(X[i, j], xu[j])]))
    Y = S.reals("Y", (n, m), lo=-4, hi=4)
    Y0 = [[Y[i, j] for j in range(m)] for i in range(n)]
    sigma = np.full((n, m), 0.5)
    r = S.rng(open_=True)
    Z = es_mut_repair(Y, X, sigma, xl, xu, trials, random_state=r)
    for i in range(n):
        for j in range(m):
            S.require(S.all([S.le(xl[j], Z[i, j]), S.le(Z[i, j], xu[j])]), "within the bounds")
            inside = S.all([S.xle(xl[j], Y0[i][j]), S.xle(Y0[i][j], xu[j])])
            S.require(S.implies(inside, S.eq(Z[i, j], Y0[i][j])), "values inside stay")


@harness("P40", "es_repair_parent", quick=[dict()], functions=[SO + "es.py:es_mut_repair"], bounds="2 rows and columns, zero, one or two hopeless trials")
def es_repair_parent(S):
    """a value that stays out of the bounds is set back to the parent's; the draws use the parent and the step size of the value itself"""
    from pymoo.algorithms.soo.nonconvex.es import es_mut_repair
    draws = S.pick([[100.0, 100.0], [100.0, 1.0], [1.0, 100.0]])
    n_trials = 2
    it = iter(draws)

    class R:
        def normal(self, loc=0.0, scale=1.0, size=None):
            return np.full(size, next(it))
    X = S.reals("X", (2, 2), lo=0, hi=2)
    sigma = S.array([[0.25, 0.5], [0.75, 1.0]])
    Y = S.array([[0.5, 7.0], [-3.0, 0.75]])
    Z = es_mut_repair(Y, X, sigma, np.array([0.0, 0.0]), np.array([4.0, 4.0]), n_trials, random_state=R())
    ok = 1.0 in draws
    S.require(S.all([S.eq(Z[0, 0], 0.5), S.eq(Z[1, 1], 0.75)]), "values inside stay")
    S.require(S.eq(Z[0, 1], X[0, 1] + 0.5 if ok else X[0, 1]) , "drawn again around the parent, finally the parent's value")
    S.require(S.eq(Z[1, 0], X[1, 0] + 0.75 if ok else X[1, 0]), "drawn again around the parent, finally the parent's value")


def strategy(S, cls, mu, lam, **kw):
    algo = cls(n_offsprings=lam, pop_size=mu, **kw)
    p = problem(n_var=2, n_obj=1, xl=np.array([0.0, -1.0]), xu=np.array([1.0, 3.0]))
    algo.setup(p, seed=1, termination=("n_gen", 100), verbose=False)
    x = S.reals("x", 2, lo=0, hi=1)
    X = S.array([[x[0], x[1]], [0.25, 0.75], [0.5, -0.5]][:mu])
    s = S.real("s", lo=0, hi=0.7)
    sigma = S.array([[s, 0.5], [0.25, 1.0], [0.5, 0.125]][:mu])
    algo.pop = pop_of(S, X=X, F=S.array([[1.0], [2.0], [3.0]][:mu]), sigma=sigma)
    return algo, p, X, sigma


@harness("P40", "es_infill", quick=[dict(name="ES"), dict(name="ES_nogamma"), dict(name="ISRES")], functions=[SO + "es.py:ES._infill", SO + "isres.py:ISRES._infill", SO + "es.py:ES._setup"], bounds="3 parents, 7 offspring, 2 variables, symbolic first parent and one of its step sizes, seeded random numbers")
def es_infill(S, name):
    from pymoo.algorithms.soo.nonconvex.es import ES
    from pymoo.algorithms.soo.nonconvex.isres import ISRES
    mu, lam = 3, 7
    algo, p, X, sigma = strategy(S, ISRES if name == "ISRES" else ES, mu, lam, **(dict(gamma=None) if name == "ES_nogamma" else {}))
    smax = [1 / 2 ** 0.5, 4 / 2 ** 0.5]
    S.require(veq(S, algo.sigma_max, smax), "the largest step size is the range divided by the square root of the number of variables")
    off = algo._infill()
    S.require(len(off) == lam, "as many offspring as configured")
    Y, s = off.get("X"), off.get("sigma")
    for i in range(lam):
        for j in range(2):
            S.require(S.all([S.le(p.xl[j], Y[i, j]), S.le(Y[i, j], p.xu[j])]), "within the bounds")
            S.require(S.all([S.le(0, s[i, j]), S.le(s[i, j], smax[j])]), "step sizes are positive and at most the largest one")
    if name != "ES_nogamma":
        for i in range(mu - 1):
            for j in range(2):
                want = X[i, j] + 0.85 * (X[0, j] - X[i + 1, j])
                inside = S.all([S.xle(p.xl[j], want), S.xle(want, p.xu[j])])
                S.require(S.implies(inside, S.eq(Y[i, j], want)), "the best take a differential step along the line from the next to the best")
                S.require(S.eq(s[i, j], sigma[i, j]), "and keep their step size")


@harness("P40", "es_steps", quick=[dict(name="ES"), dict(name="ISRES")], functions=[SO + "es.py:ES._infill", SO + "isres.py:ISRES._infill"], bounds="3 parents, 7 offspring, 2 variables; symbolic step size, the variation of the step sizes replaced by one that multiplies by a constant, all normal numbers 1/16 or -1/16")
def es_steps(S, name):
    """all but the best are moved by the varied step size of their own parent; ISRES smoothes the step sizes afterwards"""
    import pymoo.algorithms.soo.nonconvex.es as E
    import pymoo.algorithms.soo.nonconvex.isres as I
    mu, lam = 3, 7
    algo, p, X, sigma = strategy(S, I.ISRES if name == "ISRES" else E.ES, mu, lam)
    z = S.pick([0.0625, -0.0625])

    class R:
        def normal(self, loc=0.0, scale=1.0, size=None):
            return np.full(size, z)

        def __getattr__(self, k):
            raise AssertionError("no other numbers are drawn")
    algo.random_state = R()
    olds = E.es_sigma, E.es_intermediate_recomb, I.es_sigma
    E.es_sigma = I.es_sigma = lambda s, *a, **k: 1.25 * s
    E.es_intermediate_recomb = lambda s, *a, **k: s
    try:
        off = algo._infill()
    finally:
        E.es_sigma, E.es_intermediate_recomb, I.es_sigma = olds
    smax = [1 / 2 ** 0.5, 4 / 2 ** 0.5]
    Y, s = off.get("X"), off.get("sigma")
    for i in range(mu - 1, lam):
        for j in range(2):
            new = S.min([smax[j], 1.25 * sigma[i % mu, j]])
            x = X[i % mu, j] + z * new
            inside = S.all([S.xle(p.xl[j] + 1e-9, x), S.xle(x, p.xu[j] - 1e-9)])
            S.require(S.implies(inside, S.eq(Y[i, j], x)), "moved by its varied step size")
            want = sigma[i % mu, j] + 0.2 * (new - sigma[i % mu, j]) if name == "ISRES" and i >= mu else new
            S.require(S.eq(s[i, j], want), "the step size of its own parent is varied (and smoothed by ISRES)")


@harness("P40", "es_sigma", quick=[dict()], functions=[SO + "es.py:es_sigma"], bounds="2 rows, 2 columns, symbolic step size, zero or given normal numbers")
def es_sigma_(S):
    from pymoo.algorithms.soo.nonconvex.es import es_sigma
    a = [S.pick([0.0, 0.5]), S.pick([-1.0, 0.0])]
    b = [[0.0, 1.0], [0.5, -0.5]]

    class R:
        def normal(self, loc=0.0, scale=1.0, size=None):
            return np.array(a).reshape(2, 1) if tuple(size) == (2, 1) else np.array(b)
    s = S.reals("s", (2, 2), lo=0, hi=4)
    t = es_sigma(s, 0.25, 0.5, random_state=R())
    for i in range(2):
        for j in range(2):
            S.require(S.eq(t[i, j], s[i, j] * float(np.exp(0.5 * a[i] + 0.25 * b[i][j]))), "one factor for the row and one for each value")


@harness("P40", "es_loop", quick=[dict()], functions=[SO + "es.py:es_mut_loop"], bounds="1 row, 2 columns, 2 trials, any normal numbers")
def es_loop(S):
    from pymoo.algorithms.soo.nonconvex.es import es_mut_loop
    X = S.reals("X", (1, 2), lo=0, hi=1)
    Y = es_mut_loop(X, np.array([[0.5, 2.0]]), np.zeros(2), np.ones(2), n_trials=2, random_state=S.rng(open_=True))
    for j in range(2):
        S.require(S.all([S.le(0, Y[0, j]), S.le(Y[0, j], 1)]), "within the bounds")


@harness("P40", "es_advance", quick=[dict(lam=4), dict(lam=1), dict(lam=3)], functions=[SO + "es.py:ES._advance", SO + "es.py:ES._set_optimum"], bounds="2 parents, 4 offspring or one that is evaluated; symbolic objective values of two solutions")
def es_advance(S, lam):
    from pymoo.algorithms.soo.nonconvex.es import ES
    algo = ES(n_offsprings=4, pop_size=2)
    p = problem(n_var=2, n_obj=1, xl=0.0, xu=1.0)
    algo.setup(p, seed=1, termination=("n_gen", 100), verbose=False)
    par = [S.real("f", lo=0, hi=8), 3.0]
    off = [S.real("g", lo=0, hi=8), 2.0, 5.0, 6.0][:lam]
    P = pop_of(S, X=np.array([[0.1, 0.2], [0.3, 0.4]]), F=S.array([[v] for v in par]))
    O = pop_of(S, X=np.array([[0.5, 0.2], [0.6, 0.4], [0.7, 0.3], [0.8, 0.1]][:lam]), F=S.array([[v] for v in off]))
    algo.pop, algo.opt = P, P[[0]]
    algo._advance(infills=O)
    algo._set_optimum()
    cand = list(zip(off, O)) if lam >= 2 else list(zip(off, O)) + list(zip(par, P))
    S.require(len(algo.pop) == 2 and len({id(i) for i in algo.pop}) == 2 and all(any(i is c for _, c in cand) for i in algo.pop), "survivors are offspring (and parents only if there are too few offspring)")
    kept = {id(i) for i in algo.pop}
    for v, c in cand:
        for w, d in cand:
            if id(c) in kept and id(d) not in kept:
                S.require(S.xle(v, w), "the best survive")
    S.require(S.xle(algo.pop[0].F[0], algo.pop[1].F[0]), "the best comes first")
    S.require(S.eq(algo.opt[0].F[0], S.min([par[0]] + [v for v, c in cand if id(c) in kept])), "the best solution found so far is not forgotten")


# ---------------------------------------------------------------------------------------------------- multi-objective swarms

@harness("P40", "cmopso", quick=[dict(seed=s) for s in (1, 2, 3)], functions=[A + "moo/cmopso.py:cmopso_equation"], bounds="2 particles, 3 elites, 2 variables, symbolic position and velocity of one coordinate, seeded random numbers")
def cmopso(S, seed):
    from pymoo.algorithms.moo.cmopso import cmopso_equation
    v = S.real("v", lo=-1, hi=1)
    X = S.array([[0.75, 0.5], [0.25, 0.75]])
    V = S.array([[v, 0.125], [0.125, v]])
    L = np.array([[0.25, 1.0], [0.25, 0.0], [1.0, 0.75]])
    V_max = np.array([0.25, 0.5])
    r = np.random.default_rng(seed)
    Xp, Vp = cmopso_equation(X, L, V, V_max, random_state=r)
    ang = [[float(np.arccos(np.clip(np.dot(x, e) / np.linalg.norm(x) / np.linalg.norm(e), -1, 1))) for e in L] for x in [[0.75, 0.5], [0.25, 0.75]]]
    r = np.random.default_rng(seed)
    win = []
    for i in range(2):
        a, b = r.choice(3), r.choice(3)
        win.append(a if ang[i][a] <= ang[i][b] else b)
    r1, r2 = r.random((2, 2)), r.random((2, 2))
    for i in range(2):
        for j in range(2):
            u = r1[i, j] * V[i, j] + r2[i, j] * (L[win[i], j] - X[i, j])
            S.require(S.eq(Vp[i, j], S.max([-V_max[j], S.min([V_max[j], u])])), "pulled towards the elite with the smaller angle")
            S.require(S.eq(Xp[i, j], X[i, j] + Vp[i, j]), "positions move by the velocity")


@harness("P40", "cmopso_tournament", quick=[dict(n=3, k=1), dict(n=4, k=2)], functions=[A + "moo/cmopso.py:CrowdingDistanceTournamentSurvival._do"], bounds="3-4 solutions, symbolic crowding, any draws")
def cmopso_tournament(S, n, k):
    from pymoo.algorithms.moo.cmopso import CrowdingDistanceTournamentSurvival
    s = CrowdingDistanceTournamentSurvival(tournament_size=n)
    cd = S.reals("cd", n, lo=0, hi=4)

    class C:
        def do(self, F, **kw):
            return cd
    s._cd = C()
    pop = pop_of(S, F=S.array([[float(i), float(n - i)] for i in range(n)]))
    got = uids(s._do(None, pop, k, random_state=np.random.default_rng(S.pick([1, 2]))))
    S.require(len(got) == k and len(set(got)) == k, "as many distinct solutions as requested")
    for i in got:
        for j in range(n):
            if j not in got:
                S.require(S.xle(cd[j], cd[i]), "a tournament of all keeps the least crowded")


def mopso(S, n=2, con=False, archive=3):
    from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
    algo = MOPSO_CD(pop_size=n, archive_size=archive)
    p = problem(n_var=2, n_obj=2, n_ieq=1 if con else 0, xl=0.0, xu=1.0)

    def evaluate(X, out, *a, **k):
        out["F"] = np.column_stack([X[:, 0], 1 - X[:, 0]])
        if con:
            out["G"] = np.zeros((len(X), 1)) - 1
    p._evaluate = evaluate
    algo.setup(p, seed=1, termination=("n_gen", 100), verbose=False)
    return algo


@harness("P40", "mopso_archive", quick=[dict(n=3, m=1), dict(n=2, m=2)], functions=[A + "moo/mopso_cd.py:MOPSO_CD._update_archive", A + "moo/mopso_cd.py:MOPSO_CD._set_optimum"], bounds="1-2 archived and 2-3 new solutions, symbolic objective values of two")
def mopso_archive(S, n, m):
    algo = mopso(S, archive=8)
    F = S.array([[1.0, 4.0], [S.real("a", lo=0, hi=5), 2.0], [3.0, S.real("b", lo=0, hi=5)], [2.5, 2.5]][:n + m])
    pop = pop_of(S, X=np.arange(2 * (n + m)).reshape(n + m, 2) / 16.0, F=F)
    from pymoo.util.archive import MultiObjectiveArchive
    S.assume(S.all([S.not_(S.all([S.xle(F[i, 0], F[j, 0]), S.xle(F[i, 1], F[j, 1])])) for i in range(m) for j in range(m) if i != j]))
    algo.archive = MultiObjectiveArchive(individuals=pop[:m], max_size=8)
    algo.archive = algo._update_archive(pop[m:])
    algo._set_optimum()
    got = uids(algo.opt)
    for i in range(n + m):
        dominated = S.any([S.all([S.xle(F[j, 0], F[i, 0]), S.xle(F[j, 1], F[i, 1]), S.any([S.xlt(F[j, 0], F[i, 0]), S.xlt(F[j, 1], F[i, 1])])]) for j in range(n + m) if j != i])
        S.require(S.iff(i in got, S.not_(dominated)), "the archive holds exactly the solutions nothing dominates")


@harness("P40", "mopso_constraints", quick=[dict(n=3, m=1), dict(n=2, m=2)], functions=[A + "moo/mopso_cd.py:MOPSO_CD._update_archive", A + "moo/mopso_cd.py:MOPSO_CD._set_optimum"], bounds="1-2 archived and 2-3 new solutions, symbolic constraint violations")
def mopso_constraints(S, n, m):
    algo = mopso(S, con=True, archive=8)
    F = np.array([[1.0, 4.0], [2.0, 2.0], [3.0, 3.0], [0.5, 0.5]])
    G = S.reals("G", n + m, lo=-1, hi=2)
    pop = pop_of(S, X=np.arange(2 * (n + m)).reshape(n + m, 2) / 16.0, F=F[:n + m], G=G[:, None], H=np.zeros((n + m, 0)))
    from pymoo.util.archive import MultiObjectiveArchive
    S.assume(S.all([S.any([S.xle(g, 0.0) for g in G[:m]]), S.all([S.xle(g, 0.0) for g in G[:m]])]))
    algo.archive = MultiObjectiveArchive(individuals=pop[:1], max_size=8)
    algo.archive = algo._update_archive(pop[m:])
    algo._set_optimum()
    for i in uids(algo.opt):
        S.require(S.xle(G[i], 0.0), "an archive that has feasible solutions holds no infeasible ones")
    algo = mopso(S, con=True, archive=8)
    algo.archive = algo._update_archive(pop[m:])
    got = list(uids(algo.archive))
    S.require(len(got) >= 1, "the archive is not empty")
    cv = [S.max([0.0, g]) for g in G]
    for i in got:
        for j in range(m, n + m):
            S.require(S.le(cv[i], cv[j]), "only the least infeasible solutions are kept")


@harness("P40", "mopso_twice", quick=[dict()], functions=[A + "moo/mopso_cd.py:MOPSO_CD._advance"], bounds="2 particles, 2 iterations, symbolic objective values", finding=True)
def mopso_twice(S):
    algo = mopso(S, archive=8)
    pop = algo.ask()
    F = S.array([[S.real("a", lo=0, hi=1), 2.0], [3.0, 1.0]])
    for it, X in enumerate((F, S.array([[4.0, 4.0], [5.0, 5.0]]))):
        for ind, f in zip(pop, X):
            ind.F = f
            ind.evaluated = {"F", "G", "H"}
        algo.tell(infills=pop)
        S.require(len({id(i) for i in algo.opt}) == len(algo.opt), "no solution is reported twice")
        pop = algo.ask()


@harness("P40", "mopso_pbest", quick=[dict()], functions=[A + "moo/mopso_cd.py:MOPSO_CD._update_pbest", A + "moo/mopso_cd.py:MOPSO_CD._dominates"], bounds="2 particles, 2 objectives, symbolic objective values")
def mopso_pbest(S):
    algo = mopso(S)
    F = S.reals("F", (2, 2), lo=0, hi=4)
    G = S.reals("G", (2, 2), lo=0, hi=4)
    old = pop_of(S, X=np.array([[0.1, 0.2], [0.3, 0.4]]), F=F)
    new = pop_of(S, X=np.array([[0.5, 0.2], [0.6, 0.4]]), F=G)
    algo.pbest, algo.pbest_f = old.copy(), F.copy()

    class C:
        def do(self, F, **kw):
            return np.array([1.0, 1.0])
    algo.cd = C()
    algo._update_pbest(new)
    for i in range(2):
        dom = S.all([S.xle(G[i, 0], F[i, 0]), S.xle(G[i, 1], F[i, 1]), S.any([S.xlt(G[i, 0], F[i, 0]), S.xlt(G[i, 1], F[i, 1])])])
        took = bool(np.array_equal(algo.pbest[i].X, new[i].X))
        S.require(took or bool(np.array_equal(algo.pbest[i].X, old[i].X)), "the old or the new position")
        S.require(S.iff(took, dom), "a personal best is replaced by a dominating position (or a less crowded incomparable one)")
        S.require(veq(S, algo.pbest_f[i], G[i] if took else F[i]), "objectives of the personal best")


@harness("P40", "mopso_infill", quick=[dict()], functions=[A + "moo/mopso_cd.py:MOPSO_CD._infill"], bounds="2 particles, symbolic velocity, one archived leader, seeded random numbers")
def mopso_infill(S):
    algo = mopso(S)
    pop = algo.ask()
    X0 = [[0.25, 0.75], [1.0, 0.5]]
    pop = pop_of(S, X=np.array(X0), F=S.array([[1.0, 2.0], [2.0, 1.0]]))
    best = pop_of(S, X=np.array([[0.5, 0.5], [0.75, 0.25]]), F=S.array([[1.0, 2.0], [2.0, 1.0]]))
    lead = pop_of(S, X=np.array([[0.125, 1.0]]), F=S.array([[0.0, 0.0]]))
    from pymoo.util.archive import MultiObjectiveArchive
    v = S.real("v", lo=-1, hi=1)
    algo.pop, algo.pbest, algo.archive = pop, best, MultiObjectiveArchive(individuals=lead, max_size=3)
    algo.velocities = S.array([[v, 0.0], [0.25, v]])
    algo.random_state = np.random.default_rng(7)
    Y = algo._infill().get("X")
    r = np.random.default_rng(7)
    V = [[v, 0.0], [0.25, v]]
    for i in range(2):
        r1, r2 = r.random(2), r.random(2)
        for j in range(2):
            u = 0.6 * V[i][j] + 2.0 * r1[j] * (best[i].X[j] - X0[i][j]) + 2.0 * r2[j] * (lead[0].X[j] - X0[i][j])
            u = S.max([-0.5, S.min([0.5, u])])
            S.require(S.eq(Y[i, j], S.max([0.0, S.min([1.0, X0[i][j] + u])])), "moved by the limited velocity and kept within the bounds")
            S.require(S.eq(algo.velocities[i, j], u), "the velocity is remembered")


@harness("P40", "fast_fill", quick=[dict(rows=1), dict(rows=2)], functions=["pymoo/operators/selection/rnd.py:fast_fill_random"], bounds="1-2 rows, 3 columns of which 2 are filled, 3-4 candidates, every draw, 2 attempts")
def fast_fill(S, rows):
    from pymoo.operators.selection.rnd import fast_fill_random
    N = 3
    base = [S.choose(N) for _ in range(rows)]
    draws = []

    class R:
        def permutation(self, n):
            k = S.choose(6)
            p = list(itertools.permutations(range(n)))[k]
            draws.append(p)
            return np.array(p)

        def choice(self, *a, **k):
            S.require(False, "small sets are drawn without replacement")
    X = np.full((rows, 2), -1)
    X[:, 0] = base
    out = fast_fill_random(X, N, columns=[1], Xp=np.array(base)[:, None], n_max_attempts=2, random_state=R())
    S.require(out is X and [int(v) for v in X[:, 0]] == base, "other columns are not changed")
    first = draws[0][:rows]
    bad = [i for i in range(rows) if first[i] == base[i]]
    want = list(first)
    if bad:
        S.require(len(draws) == 2, "a second attempt if there are duplicates")
        for k, i in enumerate(bad):
            want[i] = draws[1][k]
    else:
        S.require(len(draws) == 1, "no draws without duplicates")
    S.require([int(v) for v in X[:, 1]] == want, "exactly the rows with duplicates are drawn again")
