"""P41: local and line searches: Nelder-Mead, pattern search, DIRECT, G3PCX, NRBO, random search, bracketing searches."""
import itertools
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, uids, veq

A = "pymoo/algorithms/"
SO = A + "soo/nonconvex/"
U = A + "soo/univariate/"
META = meta(
    "Local searches propose by their rules, stay within bounds and keep the best",
    "Nelder-Mead reflects the worst vertex at the centroid of the others as far as the bounds allow, expands, contracts or shrinks exactly when the values call for it, replaces only the worst vertex (all but the best when shrinking) and never loses the best; "
    "its initial simplex has one vertex per variable that differs from the start in that variable only. Pattern search tries each variable by plus or minus the step, moves on exactly to better points, follows the direction of the last improvement and shrinks its step when nothing improves. "
    "DIRECT divides potentially optimal rectangles into thirds along their longest side, so that the rectangles always tile the domain with the evaluated points in their centres. Golden section and quadratic interpolation keep a minimum in their bracket, interpolate parabolas exactly, "
    "line searches return points of sufficient decrease. G3PCX, NRBO and random search replace solutions only by better ones and keep the best. No search proposes a point outside the bounds.",
    ["inputs"],
    "every order of the objective values met during the iterations (all symbolic) and symbolic vertices, steps, start points and optima of the given shapes",
    "which of the branches is taken depends on the order of values met during the search; deterministic tests follow a single trajectory on a benchmark function, and check the final value only",
    [SO + "nelder.py", SO + "pattern.py", SO + "direct.py", SO + "g3pcx.py", SO + "nrbo.py", SO + "random_search.py", A + "base/local.py", A + "base/bracket.py", U + "golden.py", U + "quadr_interp.py", U + "wolfe.py", "pymoo/util/vectors.py"],
    [("simplex", SO + "nelder.py:NelderMead._step"), ("exploration", SO + "pattern.py:exploration_move"), ("division", SO + "direct.py:DIRECT._infill"), ("bracket", U + "quadr_interp.py:quadr_interp_equ")],
    "bounded: 1-3 variables, up to 5 iterations; where points are multiplied the simplex is concrete up to one coordinate; WolfeSearch and ExponentialSearch (which do not run as algorithms on the unchanged tree) are not covered, the function wolfe_line_search is")


def ind(S, x, f=None, cv=None):
    from pymoo.core.individual import Individual
    i = Individual(X=S.array(list(x)))
    if f is not None:
        evaluated(S, i, f, cv)
    return i


def evaluated(S, i, f, cv=None):
    i.F = S.array([f])
    if cv is not None:
        i.set("CV", S.array([cv]))
    i.evaluated = {"F", "G", "H"}
    return i


def inside(S, x, lo, hi):
    return S.all([S.all([S.le(lo, v), S.le(v, hi)]) for v in x])


# ---------------------------------------------------------------------------------------------------- Nelder-Mead

SIMPLEX = {
    "wide": ([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], -50.0, 50.0),
    "bound": ([[0.25, 0.25], [0.125, 0.5], [0.75, 0.75]], 0.0, 1.0),
    "corner": ([[0.875, 0.75], [0.75, 1.0], [0.25, 0.25]], 0.0, 1.0),
    "at": ([[1.0, 0.5], [1.0, 0.75], [0.5, 0.25]], 0.0, 1.0),
}


def limit(S, c, d, t, lo, hi):
    """the factor min(t, largest that keeps c + factor d within the bounds) for concrete c and d"""
    for cj, dj in zip(c, d):
        if dj > 0:
            t = min(t, (hi - cj) / dj)
        elif dj < 0:
            t = min(t, (lo - cj) / dj)
    return max(t, 0.0)


def order(S, f, cv, g, cg):
    """g is better than f"""
    if cv is None:
        return S.xlt(g, f)
    return S.any([S.all([S.xlt(0, cv), S.xlt(cg, cv)]), S.all([S.xle(cv, 0), S.xle(cg, 0), S.xlt(g, f)])])


@harness("P41", "nelder", quick=[dict(kind=k) for k in SIMPLEX] + [dict(kind="bound", con=True)], functions=[SO + "nelder.py:NelderMead._step", SO + "nelder.py:adaptive_params", "pymoo/util/vectors.py:max_alpha"],
         bounds="2 variables, 4 concrete simplices, all vertex values and values of the trial points symbolic (with constraint violations in one configuration)")
def nelder(S, kind, con=False):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead, adaptive_params
    X, lo, hi = SIMPLEX[kind]
    p = problem(n_var=2, n_obj=1, xl=lo, xu=hi)
    algo = NelderMead()
    algo.problem = p
    algo.alpha, algo.beta, algo.gamma, algo.delta = adaptive_params(p)
    S.require((algo.alpha, algo.beta, algo.gamma, algo.delta) == (1, 2.0, 0.5, 0.5), "parameters adapted to the number of variables")
    f = [S.real("f%d" % i, lo=0, hi=9) for i in range(3)]
    cv = [S.real("cv%d" % i, lo=0, hi=2) if i else 0.0 for i in range(3)] if con else [None] * 3
    g = [S.real("g%d" % i, lo=0, hi=9) for i in range(4)]
    cg = [S.real("cg", lo=0, hi=2), 0.0, 0.0, 0.0] if con else [None] * 4
    for i in range(2):
        S.assume(S.not_(order(S, f[i], cv[i], f[i + 1], cv[i + 1])))
    verts = [ind(S, X[i], f[i], cv[i]) for i in range(3)]
    from pymoo.core.population import Population
    algo.pop = Population.create(*verts)
    better = lambda a, b: S.truth(order(S, b[0], b[1], a[0], a[1]))
    V = list(zip(f, cv))
    G = list(zip(g, cg))
    c = [(X[0][j] + X[1][j]) / 2 for j in range(2)]
    d = [c[j] - X[2][j] for j in range(2)]
    t = limit(S, c, d, 1.0, lo, hi)
    refl = [c[j] + t * d[j] for j in range(2)]
    gen = algo._step()
    asked = gen.send(None)
    S.require(veq(S, asked.X, refl), "the worst vertex reflected at the centroid of the others")
    r = evaluated(S, asked, *G[0])

    def ask(want, why):
        try:
            nxt = gen.send(r)
        except StopIteration:
            S.require(False, why)
        S.require(veq(S, nxt.X, want), why)
        return evaluated(S, nxt, *G[1])

    def end(last):
        try:
            gen.send(last)
            S.require(False, "the step ends")
        except StopIteration:
            pass
    b0, b1, b2 = better(G[0], V[0]), better(G[0], V[1]), better(G[0], V[2])
    new, val = None, None
    if b0:
        e = [refl[j] - c[j] for j in range(2)]
        u = limit(S, c, e, 2.0, lo, hi)
        x = ask([c[j] + u * e[j] for j in range(2)], "the best reflection is expanded")
        end(x)
        new, val = (x, G[1]) if better(G[1], G[0]) else (r, G[0])
    elif b1:
        end(r)
        new, val = r, G[0]
    else:
        s = 0.5 if b2 else -0.5
        x = ask([c[j] + s * (refl[j] - c[j]) for j in range(2)], "contracted to the side of the better of reflection and worst vertex")
        if better(G[1], G[0] if b2 else V[2]):
            end(x)
            new, val = x, G[1]
        else:
            pop = gen.send(x)
            S.require(len(pop) == 2, "all but the best vertex are moved")
            for i in range(2):
                S.require(veq(S, pop[i].X, [X[0][j] + 0.5 * (X[i + 1][j] - X[0][j]) for j in range(2)]), "towards the best vertex")
                evaluated(S, pop[i], *G[2 + i])
            shr = list(pop)
            end(pop)
            want = [(verts[0], V[0]), (shr[0], G[2]), (shr[1], G[3])]
    if new is not None:
        want = [(verts[0], V[0]), (verts[1], V[1]), (new, val)]
    got = list(algo.pop)
    S.require(len(got) == 3 and all(any(w is q for q in got) for w, _ in want), "only the worst vertex (all but the best one if shrinking) is replaced")
    vals = [next(v for w, v in want if w is q) for q in got]
    for i in range(2):
        S.require(S.not_(order(S, vals[i][0], vals[i][1], vals[i + 1][0], vals[i + 1][1])), "vertices are sorted")
    S.require(S.not_(order(S, vals[0][0], vals[0][1], V[0][0], V[0][1])), "the best vertex is never lost")
    S.require(S.all([inside(S, q.X, lo, hi) for q in got]), "within the bounds")


@harness("P41", "nelder_symbolic", quick=[dict(k=k) for k in range(3)], functions=[SO + "nelder.py:NelderMead._step"], bounds="2 variables, one coordinate of any vertex symbolic, bounds far away; symbolic parameters; each branch", resolve=True)
def nelder_symbolic(S, k):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
    from pymoo.core.population import Population
    X = [[0.0, 0.25], [1.0, 0.0], [0.5, 1.0]]
    X[k] = [S.real("x", lo=-2, hi=2), X[k][1]]
    algo = NelderMead()
    algo.problem = problem(n_var=2, n_obj=1, xl=-1000.0, xu=1000.0)
    algo.alpha, algo.beta, algo.gamma, algo.delta = 1.25, 1.5, 0.25, 0.75
    algo.pop = Population.create(*[ind(S, X[i], float(i + 1)) for i in range(3)])
    gen = algo._step()
    r = gen.send(None)
    c = [(X[0][j] + X[1][j]) / 2 for j in range(2)]
    d = [c[j] - X[2][j] for j in range(2)]
    S.require(veq(S, r.X, [c[j] + 1.25 * d[j] for j in range(2)]), "reflected by alpha")
    case = S.choose(3)
    evaluated(S, r, [0.5, 2.5, 3.5][case])
    e = gen.send(r)
    s = [1.5, 0.25, -0.25][case]
    S.require(veq(S, e.X, [c[j] + s * 1.25 * d[j] for j in range(2)]), "expanded by beta, contracted by gamma")
    if case:
        evaluated(S, e, 9.0)
        pop = gen.send(e)
        S.require(S.all([veq(S, pop[i].X, [X[0][j] + 0.75 * (X[i + 1][j] - X[0][j]) for j in range(2)]) for i in range(2)]), "shrunk by delta")


@harness("P41", "adaptive", quick=[dict(n=n) for n in (1, 2, 3, 5, 10)], functions=[SO + "nelder.py:adaptive_params"], bounds="1-10 variables, scaled by a symbolic factor")
def adaptive(S, n):
    from pymoo.algorithms.soo.nonconvex.nelder import adaptive_params, default_params
    k = S.real("k", lo=1, hi=2)
    a, b, g, d = adaptive_params(problem(n_var=n, n_obj=1))
    S.require(S.all([S.eq(k * a, k), S.eq(k * n * b, k * (n + 2)), S.eq(k * 4 * n * g, k * (3 * n - 2)), S.eq(k * n * d, k * (n - 1))]), "Gao and Han's parameters")
    S.require(default_params(None) == (1, 2.0, 0.5, 0.05), "standard parameters")


@harness("P41", "simplex", quick=[dict(bounded=True), dict(bounded=False), dict(bounded=True, big=True)], functions=[SO + "nelder.py:initialize_simplex", SO + "nelder.py:NelderMead._initialize_simplex"], bounds="3 variables, symbolic start point, scales up to one half or 0.9")
def simplex(S, bounded, big=False):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
    xl, xu = np.array([0.0, -1.0, 2.0]), np.array([1.0, 3.0, 10.0])
    scale = S.pick([0.6, 0.9] if big else [0.05, 0.25, 0.5])
    x = [S.real("x%d" % j, lo=xl[j] if bounded else -3, hi=xu[j] if bounded else 3) for j in range(3)]
    algo = NelderMead(init_simplex_scale=scale)
    algo.problem = problem(n_var=3, n_obj=1, xl=xl, xu=xu) if bounded else problem(n_var=3, n_obj=1)
    algo.x0 = ind(S, x, 1.0)
    pop = algo._initialize_simplex()
    S.require(len(pop) == 4 and pop[0] is algo.x0, "the start point and one vertex for each variable")
    for k in range(3):
        for j in range(3):
            v = pop[k + 1].X[j]
            if j != k:
                S.require(S.eq(v, x[j]), "differs from the start in one variable")
            elif bounded:
                step = scale * (xu[j] - xl[j])
                S.require(S.all([S.le(xl[j], v), S.le(v, xu[j])]), "within the bounds")
                if not big:
                    S.require(S.any([S.eq(v, x[j] + step), S.all([S.eq(v, x[j] - step), S.le(xu[j], x[j] + step)])]), "by the scale of the range, upwards if the upper bound allows it")
            else:
                S.require(S.any([S.eq(v, x[j] + scale * x[j]), S.all([S.same(x[j], 0.0), S.eq(v, 0.00025)])]), "by the scale of the value")


@harness("P41", "nelder_end", quick=[dict()], functions=[SO + "nelder.py:NelderAndMeadTermination._update"], bounds="3 vertices with 2 variables, symbolic values and a symbolic coordinate", resolve=True)
def nelder_end(S):
    """the search ends exactly if the values or the vertices are within the tolerances of the best one, or a limit is reached"""
    from pymoo.algorithms.soo.nonconvex.nelder import NelderAndMeadTermination

    class Alg:
        pass
    f = [S.real("f0", lo=0, hi=9), S.real("f1", lo=0, hi=9), 4.0]
    x = S.real("x", lo=0.125, hi=3)
    wide = S.pick([0.5, 0.03])
    a, a.evaluator = Alg(), Alg()
    a.problem = problem(n_var=2, n_obj=1, xl=np.array([0.0, 0.0]), xu=np.array([4.0, 10.0]))
    a.pop = pop_of(S, X=S.array([[0.0, 0.0], [x, 0.0], [0.0, wide]]), F=S.array([[v] for v in f]))
    a.n_iter, a.evaluator.n_eval = S.pick([1, 20]), S.pick([1, 30])
    t = NelderAndMeadTermination(x_tol=0.05, f_tol=0.25, n_max_iter=20, n_max_evals=30)
    done = S.xle(1.0, t._update(a))
    df = S.max([S.abs(f[1] - f[0]), S.abs(f[2] - f[0])])
    dx = S.max([x / 4.0, wide / 10.0])
    limit_hit = a.n_iter == 20 or a.evaluator.n_eval == 30
    S.require(S.implies(S.any([S.le(df, 0.25 - 1e-6), S.le(dx, 0.05 - 1e-6), limit_hit]), done), "ends within the tolerances")
    S.require(S.implies(S.all([S.xlt(0.25 + 1e-6, df), S.xlt(0.05 + 1e-6, dx), not limit_hit]), S.not_(done)), "goes on otherwise")


@harness("P41", "factor", quick=[dict(bounds=b) for b in ("both", "lower", "upper", "none")], functions=["pymoo/util/vectors.py:max_alpha"], bounds="2 variables, symbolic point, directions of all signs (concrete lengths)")
def factor(S, bounds):
    from pymoo.util.vectors import max_alpha
    xl = np.array([0.0, -1.0]) if bounds in ("both", "lower") else None
    xu = np.array([1.0, 3.0]) if bounds in ("both", "upper") else None
    x = [S.real("x", lo=0, hi=1), S.real("y", lo=-1, hi=3)]
    d = S.pick([[1.0, 0.5], [-2.0, 0.25], [0.5, -0.5], [0.0, 1.0], [-1.0, 0.0], [-0.25, -4.0], [0.0, 0.0]])
    a = max_alpha(S.array(x), np.array(d), xl, xu)
    lim = [(hi - v) / e for v, e, hi in zip(x, d, [1.0, 3.0]) if e > 0 and xu is not None] + [(lo - v) / e for v, e, lo in zip(x, d, [0.0, -1.0]) if e < 0 and xl is not None]
    if not lim:
        S.require(bool(a == np.inf), "no bound limits the factor")
    else:
        S.require(S.eq(a, S.min(lim)), "as far as the first bound")


# ---------------------------------------------------------------------------------------------------- pattern search

@harness("P41", "exploration", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], functions=[SO + "pattern.py:exploration_move", SO + "pattern.py:step_along_axis"], bounds="1-2 (thorough 3) variables, symbolic start, values and signs, any order of the variables")
def exploration(S, n):
    from pymoo.algorithms.soo.nonconvex.pattern import exploration_move
    p = problem(n_var=n, n_obj=1, xl=0.0, xu=1.0)
    x = [S.real("x%d" % j, lo=0, hi=1) for j in range(n)]
    sign = np.array([S.pick([1.0, -1.0]) for _ in range(n)])
    delta = np.array([0.25, 0.5, 0.125])[:n]
    perm = S.pick(list(itertools.permutations(range(n))))

    class R:
        def permutation(self, m):
            S.require(m == n, "all variables")
            return np.array(perm)
    start = ind(S, x, S.real("f", lo=0, hi=9))
    cur, val = start, start.F[0]
    gen = exploration_move(p, start, sign, delta, 0.5, random_state=R())
    step = None
    clip = lambda v: S.max([0.0, S.min([1.0, v])])
    try:
        t = gen.send(None)
        for q, k in enumerate(perm):
            for side in (1, -1):
                want = [cur.X[j] if j != k else clip(cur.X[j] + side * sign[k] * 0.5 * delta[k]) for j in range(n)]
                S.require(veq(S, t.X, want), "a step along one variable, first to the side of the sign")
                g = S.real("g%d%d" % (q, side), lo=0, hi=9)
                evaluated(S, t, g)
                trial = t
                took = S.truth(S.xlt(g, val))
                if took:
                    cur, val = trial, g
                if took or side == -1:
                    last = q == n - 1
                t = gen.send(trial)
                if took:
                    break
        S.require(False, "each variable is tried once")
    except StopIteration as e:
        S.require(q == n - 1, "all variables are tried")
        S.require(e.value is cur, "the point moves exactly to better points")


@harness("P41", "pattern_move", quick=[dict(step=1.0), dict(step=2.5)], functions=[SO + "pattern.py:pattern_move", SO + "pattern.py:calc_sign"], bounds="2 variables, symbolic point and direction")
def pattern_move_(S, step):
    from pymoo.algorithms.soo.nonconvex.pattern import pattern_move, calc_sign
    x, d = S.reals("x", 2, lo=0, hi=1), S.reals("d", 2, lo=-1, hi=1)
    c = ind(S, x, 1.0)
    t = pattern_move(problem(n_var=2, n_obj=1, xl=0.0, xu=1.0), c, d, step)
    S.require(veq(S, t.X, [S.max([0.0, S.min([1.0, x[j] + step * d[j]])]) for j in range(2)]), "a step along the direction within the bounds")
    S.require(veq(S, c.X, x) and t is not c, "the point itself stays")
    s = calc_sign(d)
    for j in range(2):
        S.require(S.all([S.implies(S.xlt(0, d[j]), S.eq(s[j], 1)), S.implies(S.xlt(d[j], 0), S.eq(s[j], -1))]), "the sign of the direction")


@harness("P41", "pattern", quick=[dict(k=k) for k in range(4)], thorough=[dict(k=k, iters=4) for k in range(4)], functions=[SO + "pattern.py:PatternSearch._next", SO + "pattern.py:PatternSearch._set_optimum", SO + "pattern.py:PatternSearch._initialize_advance", A + "base/local.py:LocalSearch._initialize_advance"],
         bounds="1 variable, 3 (thorough 4) iterations, all values of the trial points symbolic or fixed (one per configuration)", max_decisions=20000)
def pattern(S, k, iters=3):
    from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
    algo = PatternSearch(n_sample_points=2, init_rho=0.5)
    p = problem(n_var=1, n_obj=1, xl=0.0, xu=16.0)
    algo.setup(p, seed=1, termination=("n_gen", 100), verbose=False)
    pop = algo.ask()
    pop.set("X", np.array([[6.0], [9.0]]))
    f = [S.real("f0", lo=0, hi=9), 5.0]
    known = {6.0: f[0], 9.0: f[1]}
    for i in range(2):
        evaluated(S, pop[i], f[i])
    algo.tell(infills=pop)
    cx, cf = (6.0, f[0]) if S.truth(S.xle(f[0], 5.0)) else (9.0, 5.0)
    S.require(algo.x0.X[0] == cx, "the best sample is the start")
    n = [0]

    def value(x):
        if x not in known:
            n[0] += 1
            known[x] = S.real("g%d" % n[0], lo=0, hi=9) if n[0] % 4 == k or n[0] < 3 else float((3 * n[0] + k) % 7)
        return known[x]
    fresh = lambda x: max(0.0, min(16.0, x))
    ex, ef, rho, nfail, sign = cx, cf, 0.5, 0, 1.0
    asked = [None]

    def expect(x, why):
        q = algo.ask()
        S.require(len(q) == 1 if hasattr(q, "__len__") else True, why)
        i = q[0] if hasattr(q, "__len__") else q
        S.require(float(i.X[0]) == x, why)
        evaluated(S, i, value(x))
        algo.tell(infills=q)
        return value(x)

    def explore(x, fx):
        for side in (1, -1):
            y = fresh(x + side * sign * rho * 4.0)
            fy = expect(y, "a step to both sides until one is better")
            if S.truth(S.xlt(fy, fx)):
                return y, fy
        return x, fx
    for it in range(iters):
        if not S.truth(S.xlt(ef, cf)):
            nfail += 1
            rho = 0.5 ** nfail
            ex, ef = explore(cx, cf)
        else:
            d = ex - cx
            cx, cf = ex, ef
            tx = fresh(cx + d)
            tf = expect(tx, "the pattern move along the successful direction")
            sign = 1.0 if d > 0 else -1.0
            ex, ef = explore(tx, tf)
        vals = list(known.values())
        S.require(S.eq(algo.opt[0].F[0], S.min(vals)), "the optimum is the best point evaluated so far")
        S.require(sorted(float(i.X[0]) for i in algo.pop) == sorted([cx, ex]), "the centre and the explored point are kept")


@harness("P41", "nelder_run", quick=[dict(k=k) for k in range(3)], thorough=[dict(k=k, iters=8) for k in range(3)], functions=[SO + "nelder.py:NelderMead._next", SO + "nelder.py:NelderMead._step", "pymoo/core/algorithm.py:LoopwiseAlgorithm._advance"], bounds="2 variables, 5 (thorough 8) evaluated batches, values symbolic (every third) or fixed")
def nelder_run(S, k, iters=5):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
    algo = NelderMead(n_sample_points=2)
    algo.setup(problem(n_var=2, n_obj=1, xl=0.0, xu=1.0), seed=1, termination=("n_gen", 100), verbose=False)
    best, n = [], 0
    seen = {}
    for it in range(iters):
        q = algo.ask()
        for i in (q if hasattr(q, "__len__") else [q]):
            S.require(inside(S, i.X, 0.0, 1.0), "within the bounds")
            key = tuple(float(v) for v in i.X)
            if key not in seen:
                n += 1
                seen[key] = S.real("f%d" % n, lo=0, hi=9) if n % 3 == k else float((5 * n) % 8)
            evaluated(S, i, seen[key])
        algo.tell(infills=q)
        if it > 1 and algo.state is None:
            S.require(len(algo.pop) == 3, "as many vertices as variables and one more")
        if it > 0:
            S.require(S.le(S.min(list(seen.values())), algo.opt[0].F[0]), "an evaluated value")
            S.require(S.le(algo.opt[0].F[0], last), "the optimum never gets worse")
        last = algo.opt[0].F[0]


# ---------------------------------------------------------------------------------------------------- DIRECT

@harness("P41", "direct", quick=[dict(n=1, k=0), dict(n=2, k=0), dict(n=2, k=1), dict(n=2, k=2)], thorough=[dict(n=n, k=k, iters=4) for n in (2, 3) for k in range(3)], functions=[SO + "direct.py:DIRECT._infill", SO + "direct.py:DIRECT._potential_optimal", SO + "direct.py:update_bounds", SO + "direct.py:DIRECT._setup"],
         bounds="1-2 (thorough 3) variables, 3 (thorough 4) iterations, values symbolic (every third) or fixed")
def direct(S, n, k, iters=3):
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    lo, hi = np.array([0.0, -9.0, 1.0])[:n], np.array([27.0, 18.0, 10.0])[:n]
    algo = DIRECT()
    algo.setup(problem(n_var=n, n_obj=1, xl=lo, xu=hi), seed=1, termination=("n_gen", 100), verbose=False)
    N = 0
    vals = []
    boxes = None
    for it in range(iters):
        q = algo.ask()
        before = boxes
        for i in q:
            N += 1
            v = S.real("f%d" % N, lo=0, hi=9) if N % 3 == k else float((5 * N) % 8)
            evaluated(S, i, v, 0.0)
            vals.append(v)
        algo.tell(infills=q)
        boxes = [(np.asarray(i.get("xl"), dtype=float), np.asarray(i.get("xu"), dtype=float), np.asarray(i.X, dtype=float), i) for i in algo.pop]
        S.require(len(boxes) == N, "no rectangle gets lost")
        vol = 0.0
        for a, b, x, _ in boxes:
            S.require(bool(np.all(np.abs((a + b) / 2 - x) < 1e-9)), "points are the centres of their rectangles")
            S.require(bool(np.all(a >= lo - 1e-9) and np.all(b <= hi + 1e-9)), "within the domain")
            vol += float(np.prod(b - a))
        S.require(abs(vol - float(np.prod(hi - lo))) < 1e-6 * vol, "the rectangles cover the domain")
        for (a, b, _, _), (c, d, _, _) in itertools.combinations(boxes, 2):
            S.require(bool(np.any((b <= c + 1e-9) | (d <= a + 1e-9))), "rectangles do not overlap")
        S.require(S.eq(algo.opt[0].F[0], S.min(vals)), "the optimum is the best point evaluated so far")


@harness("P41", "direct_choice", quick=[dict(n=3, cap=10), dict(n=4, cap=10), dict(n=4, cap=2), dict(n=6, cap=2)], functions=[SO + "direct.py:DIRECT._potential_optimal"], bounds="3-6 rectangles of different sizes, symbolic values of two", resolve=True)
def direct_choice(S, n, cap):
    """the rectangles that are divided are the ones no other is both as large and as good as"""
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    algo = DIRECT(n_max_candidates=cap)
    algo.problem = problem(n_var=1, n_obj=1, xl=0.0, xu=9.0)
    algo.random_state = np.random.default_rng(1)
    f = [S.real("f0", lo=0, hi=4), S.real("f1", lo=0, hi=4), 1.0, 2.0][:n]
    S.assume(S.xlt(S.min(f[2:]), 4.0))
    length = [1.0, 2.0, 3.0, 2.0][:n]
    if n == 6:
        f, length = f[:2] + [0.5, 0.75, 2.0, 3.0], [1.0, 2.0, 3.0, 0.5, 4.0, 5.0]
    pop = pop_of(S, X=np.arange(n)[:, None] * 1.0, F=S.array([[v] for v in f]), CV=np.zeros((n, 1)))
    for i in range(n):
        pop[i].set("xl", np.array([0.0]))
        pop[i].set("xu", np.array([length[i]]))
    algo.pop = pop
    got = uids(algo._potential_optimal())
    S.require(len(got) == len(set(got)) >= 1, "chosen once")
    opt = [S.not_(S.any([S.all([length[j] >= length[i], S.xle(f[j], f[i]), S.any([length[j] > length[i], S.xlt(f[j], f[i])])]) for j in range(n) if j != i])) for i in range(n)]
    for i in range(n):
        if cap > n:
            S.require(S.iff(i in got, opt[i]), "exactly the non-dominated ones")
        elif i in got:
            S.require(opt[i], "only non-dominated ones, also if they are limited")
    S.require(len(got) <= cap, "no more than allowed")


@harness("P41", "direct_divide", quick=[dict(k=0), dict(k=1)], functions=[SO + "direct.py:DIRECT._infill", SO + "direct.py:norm_bounds"], bounds="1 rectangle with 2 variables, symbolic position and length of its longest side; domain with ranges 30 and 60")
def direct_divide(S, k):
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    algo = DIRECT()
    algo.problem = problem(n_var=2, n_obj=1, xl=np.array([0.0, 0.0]), xu=np.array([30.0, 60.0]))
    lo = [S.real("a", lo=0, hi=3), 3.0] if k == 0 else [3.0, S.real("a", lo=0, hi=3)]
    length = [6.0, 9.0] if k == 0 else [2.0, 6.0]
    xl, xu = S.array(lo), S.array([lo[j] + length[j] for j in range(2)])
    cur = ind(S, [lo[j] + length[j] / 2 for j in range(2)], 1.0, 0.0)
    cur.set("xl", xl), cur.set("xu", xu), cur.set("depth", 3)
    from pymoo.core.population import Population
    algo.pop = Population.create(cur)
    off = algo._infill()
    S.require(len(off) == 2 and all(i.get("depth") == 4 for i in off), "two new rectangles")
    third = length[k] / 3
    for i, s in zip([off[0], cur, off[1]], range(3)):
        for j in range(2):
            a = lo[j] + s * third if j == k else lo[j]
            b = a + third if j == k else lo[j] + length[j]
            S.require(S.all([S.eq(i.get("xl")[j], a), S.eq(i.get("xu")[j], b), S.eq(i.X[j], (a + b) / 2)]), "thirds along the side that is longest compared to the domain")


# ---------------------------------------------------------------------------------------------------- population-based local searches

@harness("P41", "g3pcx", quick=[dict(seed=s, k=k) for s in (1, 2, 3) for k in (0, 1)], functions=[SO + "g3pcx.py:G3PCX._next", SO + "g3pcx.py:G3PCX._set_optimum", SO + "g3pcx.py:G3PCX._initialize_advance"], bounds="5 individuals, 2 loops of 2 offspring, symbolic values of one initial solution and one offspring per loop")
def g3pcx(S, seed, k):
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    algo = G3PCX(pop_size=5)
    algo.setup(problem(n_var=2, n_obj=1, xl=-50.0, xu=50.0), seed=seed, termination=("n_gen", 100), verbose=False)
    q = algo.ask()
    f = [S.real("f", lo=0, hi=9), 2.0, 6.0, 4.0, 8.0]
    for i, v in zip(q, f):
        evaluated(S, i, v)
    first = list(q)
    algo.tell(infills=q)
    val = {id(i): v for i, v in zip(first, f)}
    keep = list(first)
    for it in range(2):
        q = algo.ask()
        S.require(len(q) == 2, "two offspring")
        old = list(algo.pop)
        S.require(S.eq(old[0].F[0], S.min([val[id(i)] for i in old])), "the best comes first")
        g = [S.real("g%d" % it, lo=0, hi=9) if it == 0 else 3.0, [1.0, 5.0, 7.0][(it + k) % 3] if it == 0 else S.real("g1", lo=0, hi=9)]
        off = list(q)
        keep += off
        for i, v in zip(off, g):
            evaluated(S, i, v)
            val[id(i)] = v
        algo.tell(infills=q)
        new = list(algo.pop)
        S.require(len(new) == 5 and len({id(i) for i in new}) == 5, "the size of the population stays")
        gone = [i for i in old if not any(i is j for j in new)]
        came = [i for i in new if not any(i is j for j in old)]
        S.require(all(any(i is j for j in off) for i in came), "only offspring enter")
        S.require(len(gone) == len(came) <= 2, "and replace at most a family")
        for i in came:
            S.require(S.any([S.xlt(val[id(i)], val[id(j)]) for j in gone] + [S.same(val[id(i)], val[id(j)]) for j in gone]), "a solution is not replaced by a worse one")
        S.require(S.le(S.min([val[id(i)] for i in new]), S.min([val[id(i)] for i in old])), "the best is not lost")
        S.require(S.implies(S.any([S.xlt(v, S.min([val[id(i)] for i in old])) for v in g]), S.eq(S.min([val[id(i)] for i in new]), S.min(g))), "a new best solution is kept")
        S.require(algo.opt[0] is new[0] and len(algo.opt) == 1 if algo.state is None else True, "the optimum is the first")


@harness("P41", "nrbo", quick=[dict(seed=1), dict(seed=2)], functions=[SO + "nrbo.py:NRBO._advance", SO + "nrbo.py:NRBO._infill", SO + "nrbo.py:NRBO._set_optimum", SO + "nrbo.py:FitnessSurvival._do"], bounds="4 individuals, 2 iterations, symbolic values of one individual and two offspring")
def nrbo(S, seed):
    from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
    algo = NRBO(pop_size=4)
    algo.setup(problem(n_var=2, n_obj=1, xl=0.0, xu=1.0), seed=seed, termination=("n_gen", 100), verbose=False)
    q = algo.ask()
    f = [S.real("f", lo=0, hi=9), 2.0, 6.0, 4.0]
    for i, v in zip(q, f):
        evaluated(S, i, v)
    algo.tell(infills=q)
    cur = [(i, float(0), None) for i in algo.pop]
    val = {id(i): v for i, v in zip(q, f)}
    keep = list(q)
    for it in range(2):
        old = list(algo.pop)
        off = algo.ask()
        S.require(len(off) == 4 and S.truth(S.all([inside(S, i.X, 0.0, 1.0) for i in off])), "one proposal each within the bounds")
        g = [3.0 - it, S.real("g%d" % it, lo=0, hi=9), 5.0, 1.5] if it == 0 else [1.0, 7.0, S.real("g1", lo=0, hi=9), 5.0]
        keep += list(off)
        for i, v in zip(off, g):
            evaluated(S, i, v)
            val[id(i)] = v
        algo.tell(infills=off)
        for i in range(4):
            better = S.truth(S.xlt(g[i], val[id(old[i])]))
            S.require(algo.pop[i] is (off[i] if better else old[i]), "an individual is replaced exactly by a better proposal of its own")
        S.require(sorted(int(i.get("rank")) for i in algo.pop) == [0, 1, 2, 3], "ranked")
        for a in algo.pop:
            for b in algo.pop:
                if a.get("rank") < b.get("rank"):
                    S.require(S.le(val[id(a)], val[id(b)]), "by their values")
        S.require(S.eq(algo.opt[0].F[0], S.min([val[id(i)] for i in algo.pop])), "the optimum is the best")


@harness("P41", "random_search", quick=[dict()], functions=[SO + "random_search.py:RandomSearch._advance"], bounds="3 points per iteration, 3 iterations, symbolic values of one each")
def random_search(S):
    from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
    algo = RandomSearch(n_points_per_iteration=3)
    algo.setup(problem(n_var=2, n_obj=1, xl=0.0, xu=1.0), seed=1, termination=("n_gen", 100), verbose=False)
    vals = []
    for it in range(3):
        q = algo.ask()
        S.require(len(q) == 3 and S.truth(S.all([inside(S, i.X, 0.0, 1.0) for i in q])), "points within the bounds")
        g = [S.real("g%d" % it, lo=0, hi=9), 4.0 - it, 5.0]
        for i, v in zip(q, g):
            evaluated(S, i, v)
        vals += g
        algo.tell(infills=q)
        S.require(S.eq(algo.opt[0].F[0], S.min(vals)), "the best point evaluated so far is kept")


# ---------------------------------------------------------------------------------------------------- univariate searches

def univariate(S, cls, f, lo, hi, iters, check, **kw):
    algo = cls(**kw)
    p = problem(n_var=1, n_obj=1, xl=lo, xu=hi)
    asked = []

    def evaluate(X, out, *a, **k):
        out["F"] = S.array([[f(x)] for x in X[:, 0]])
        asked.extend(list(X[:, 0]))
    p._evaluate = evaluate
    algo.setup(p, seed=1, termination=("n_gen", 1000), verbose=False)
    for it in range(iters):
        q = algo.ask()
        if q is not None:
            algo.evaluator.eval(p, q)
        algo.tell(infills=q)
        check(algo, it, asked)
    return algo


@harness("P41", "golden", quick=[dict(lo=0.0, hi=1.0), dict(lo=-5.0, hi=3.0)], thorough=[dict(lo=-5.0, hi=3.0, iters=9)], functions=[U + "golden.py:GoldenSectionSearch._advance", U + "golden.py:GoldenSectionSearch._initialize_infill"], bounds="5 (thorough 9) iterations on piecewise linear functions with a symbolic optimum")
def golden(S, lo, hi, iters=5):
    from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
    o = S.real("o", lo=lo, hi=hi)
    R = (5 ** 0.5 - 1) / 2
    slope = S.pick([1.0, 4.0])
    f = lambda x: S.ite(S.xlt(x, o), slope * (o - x), x - o)

    def check(algo, it, asked):
        a, c, d, b = [i.X[0] for i in algo.pop]
        S.require(S.all([S.le(lo, a), S.le(b, hi), S.xlt(a, c), S.xlt(c, d), S.xlt(d, b)]), "points ordered within the bounds")
        S.require(S.all([S.le(a, o + 1e-9), S.le(o - 1e-9, b)]), "the minimum stays in the bracket")
        w = (hi - lo) * R ** it
        S.require(abs(float(b - a) - w) < 1e-6, "the bracket shrinks by the golden ratio")
        S.require(abs(float(c - a) - (1 - R) * w) < 1e-6 and abs(float(b - d) - (1 - R) * w) < 1e-6, "points divide the bracket by the golden ratio")
        S.require(len(asked) == 4 + it, "one evaluation for each iteration")
        S.require(S.eq(algo.opt[0].F[0], S.min([f(x) for x in asked])), "the optimum is the best point evaluated so far")
    univariate(S, GoldenSectionSearch, f, lo, hi, iters, check)


@harness("P41", "parabola", quick=[dict(pts=p) for p in ((0.0, 2.0, 1.0), (-5.0, 5.0, 1.0), (2.0, 4.0, 2.5), (-1.0, 6.0, 4.0))], functions=[U + "quadr_interp.py:quadr_interp_equ"], bounds="four triples of points, any parabola with symbolic optimum, curvature one to four, any offset", resolve=True)
def parabola(S, pts):
    from pymoo.algorithms.soo.univariate.quadr_interp import quadr_interp_equ
    o, h = S.real("o", lo=-8, hi=8), S.real("h", lo=-3, hi=3)
    k = S.pick([1.0, 2.0, 4.0])
    f = [k * (x - o) * (x - o) + h for x in pts]
    x = quadr_interp_equ(pts[0], f[0], pts[1], f[1], pts[2], f[2])
    S.require(S.all([S.le(x, o + 1e-6), S.le(o - 1e-6, x)]), "the minimum of a parabola is found at once")


@harness("P41", "quadratic", quick=[dict(lo=0.0, hi=1.0), dict(lo=-5.0, hi=3.0), dict(lo=2.0, hi=6.0)], functions=[U + "quadr_interp.py:QuadraticInterpolationSearch._advance", U + "quadr_interp.py:QuadraticInterpolationSearch._initialize_infill"], bounds="4 iterations, two piecewise linear unimodal functions with symbolic minimum; the interpolated point differs from the third one")
def quadratic(S, lo, hi, iters=4):
    """for a unimodal function the minimum stays in the bracket whatever point is interpolated"""
    import pymoo.algorithms.soo.univariate.quadr_interp as Q
    from pymoo.core.individual import Individual
    o = S.real("o", lo=lo, hi=hi)
    slope = S.pick([1.0, 3.0])
    f = lambda x: S.ite(S.xlt(x, o), slope * (o - x), x - o)

    def interp(a, b, c):
        S.require(S.all([S.xlt(c.F[0], a.F[0]), S.xlt(c.F[0], b.F[0])]), "interpolated if the middle is below both ends only")
        w = S.pick([0.28125, 0.71875])
        S.assume(S.ne((1 - w) * a.X[0] + w * b.X[0], c.X[0]))
        return Individual(X=S.array([(1 - w) * a.X[0] + w * b.X[0]]))
    old, Q.quadr_interp = Q.quadr_interp, interp

    def check(algo, it, asked):
        a, b, c = [i.X[0] for i in algo.pop]
        S.require(S.all([S.le(lo, a), S.le(a, c), S.le(c, b), S.le(b, hi)]), "the third point lies in the bracket")
        S.require(S.all([S.le(a, o + 1e-9), S.le(o - 1e-9, b)]), "the minimum stays in the bracket")
        if it == 0:
            S.require(S.all([S.eq(a, lo), S.eq(b, hi), S.eq(c, (lo + hi) / 2)]), "starts with the bounds and their middle")
        S.require(S.eq(algo.opt[0].F[0], S.min([f(x) for x in asked])), "the optimum is the best point evaluated so far")
    try:
        univariate(S, Q.QuadraticInterpolationSearch, f, lo, hi, iters, check)
    finally:
        Q.quadr_interp = old


@harness("P41", "bracket", quick=[dict(name="golden"), dict(name="quadratic")], functions=[A + "base/bracket.py:BracketSearch._setup", A + "base/bracket.py:BracketSearch._initialize_infill"], bounds="bounds given to the constructor, the setup or by the problem, symbolic values")
def bracket(S, name):
    from pymoo.algorithms.soo.univariate import GoldenSectionSearch, QuadraticInterpolationSearch
    from pymoo.core.individual import Individual
    how = S.pick(["constructor", "setup", "problem"])
    cls = dict(golden=GoldenSectionSearch, quadratic=QuadraticInterpolationSearch)[name]
    a, b = S.real("a", lo=-3, hi=-1), S.real("b", lo=1, hi=3)
    given = dict(a=Individual(X=S.array([a])), b=Individual(X=S.array([b])))
    algo = cls(**(given if how == "constructor" else {}))
    p = problem(n_var=1, n_obj=1, xl=-5.0, xu=5.0)

    def evaluate(X, out, *args, **k):
        out["F"] = S.array([[x * x] for x in X[:, 0]])
    p._evaluate = evaluate
    algo.setup(p, seed=1, termination=("n_gen", 100), verbose=False, **(given if how == "setup" else {}))
    pop = algo.ask()
    xs = [i.X[0] for i in pop]
    ends = (xs[0], xs[-1]) if name == "golden" else (xs[0], xs[1])
    want = (-5.0, 5.0) if how == "problem" else (a, b)
    S.require(S.all([S.eq(ends[0], want[0]), S.eq(ends[1], want[1])]), "the bracket is the one that is given, the bounds of the problem otherwise")


@harness("P41", "wolfe", quick=[dict(o=o) for o in (0.75, 3.0, 6.0, 12.0)], functions=[U + "wolfe.py:wolfe_line_search"], bounds="one variable, parabolas of symbolic curvature with three optima, start 0, unit direction", resolve=True)
def wolfe(S, o):
    from pymoo.algorithms.soo.univariate.wolfe import wolfe_line_search
    from pymoo.core.evaluator import Evaluator
    k = S.real("k", lo=0.25, hi=2)
    calls = []
    p = problem(n_var=1, n_obj=1, xl=-100.0, xu=100.0)

    def evaluate(X, out, *args, **kw):
        calls.append(1)
        S.require(len(calls) < 30, "the search ends")
        out["F"] = S.array([[k * (x - o) * (x - o)] for x in X[:, 0]])
        out["dF"] = S.array([[[2 * k * (x - o)]] for x in X[:, 0]])
    p._evaluate = evaluate
    sol = ind(S, [0.0])
    ev = Evaluator()
    ev.eval(p, sol, evaluate_values_of=["F", "dF"])
    c1, c2 = 0.4, 0.5
    r = wolfe_line_search(p, sol, np.array([1.0]), c1=c1, c2=c2, evaluator=ev)
    x = r.X[0]
    S.require(S.eq(x, r.get("alpha")), "the point at the step length")
    S.require(S.le(k * (x - o) * (x - o), k * o * o - c1 * x * 2 * k * o + 1e-9), "sufficient decrease")
    S.require(S.le(S.abs(2 * k * (x - o)), c2 * 2 * k * o + 1e-9), "and a flatter slope")


@harness("P41", "wolfe_decrease", quick=[dict()], functions=[U + "wolfe.py:wolfe_line_search"], bounds="one variable, 5 step lengths with symbolic values and slopes that do not end the search early", max_decisions=4000)
def wolfe_decrease(S):
    """the accepted step length satisfies the conditions for that step length, whatever the values are"""
    from pymoo.algorithms.soo.univariate.wolfe import wolfe_line_search
    from pymoo.core.evaluator import Evaluator
    p = problem(n_var=1, n_obj=1, xl=-100.0, xu=100.0)
    vals = {0.0: (0.0, -1.0)}

    class Enough(Exception):
        pass

    def evaluate(X, out, *args, **kw):
        F, D = [], []
        for x in X[:, 0]:
            x = float(x)
            if x not in vals:
                if len(vals) > 4:
                    raise Enough()
                vals[x] = (S.real("f%d" % len(vals), lo=-9, hi=9), S.real("d%d" % len(vals), lo=-3, hi=3))
            F.append([vals[x][0]])
            D.append([[vals[x][1]]])
        out["F"], out["dF"] = S.array(F), S.array(D)
    p._evaluate = evaluate
    sol = ind(S, [0.0])
    ev = Evaluator()
    ev.eval(p, sol, evaluate_values_of=["F", "dF"])
    try:
        r = wolfe_line_search(p, sol, np.array([1.0]), c1=0.25, c2=0.5, evaluator=ev, max_iter=6)
    except Enough:
        return
    x = float(r.X[0])
    f, d = vals[x]
    S.require(S.le(f, -0.25 * x), "sufficient decrease")
    S.require(S.le(S.abs(d), 0.5), "and a flatter slope")
