"""P34: reported Pareto fronts, Pareto sets and optima of the test problems."""
import numpy as np
from symx.harness import harness
from common import meta

PR = "pymoo/problems/"
META = meta(
    "Reported Pareto fronts and optima of test problems are optimal",
    "The Pareto fronts, Pareto sets and optima a test problem reports are right: no admissible feasible solution is better than a reported optimum or dominates a point of the reported front; "
    "the Pareto set lies within the bounds, is feasible and has the reported values; a front made from reference directions has one point per direction, on that direction (in the scale of the problem) and on the front, feasible if the problem has constraints, and leaves the directions as they are; ideal and nadir point are its componentwise minimum and maximum.",
    ["inputs"], "solutions symbolic over the whole domain in 2-3 dimensions or along each coordinate axis through the optimum, reference directions symbolic on the unit simplex",
    "tests compare stored fronts, most of which are downloaded, and cannot search the domain for a better solution",
    [PR + "multi/", PR + "many/dtlz.py", PR + "many/cdtlz.py", PR + "single/", "pymoo/core/problem.py"],
    [("front", PR + "many/cdtlz.py:C3DTLZ4._calc_pareto_front"), ("front", PR + "multi/zdt.py:ZDT1._calc_pareto_front"), ("set", PR + "single/g.py:G1._calc_pareto_set"), ("front", "pymoo/core/problem.py:Problem.pareto_front")],
    "bounded: 2-3 free variables or one coordinate at a time, 4-9 front points; fronts of WFG, ZCAT, DF and fronts read from files are not covered; elementary functions are uninterpreted (ZDT3, Schwefel and other optima that depend on the values of sine are not covered)")


def ev(S, p, x):
    o = p.evaluate(S.array([x]), return_values_of=["F", "G", "H"], return_as_dictionary=True)
    return [[o[k][0, j] for j in range(o[k].shape[1])] for k in ("F", "G", "H")]


def feas(S, G, H, tol=1e-9):
    return S.all([S.xle(g, 0.0) for g in G] + [S.all([S.xle(h, tol), S.xle(-tol, h)]) for h in H])


def box(p):
    return np.broadcast_to(p.xl, p.n_var).astype(float), np.broadcast_to(p.xu, p.n_var).astype(float)


def reported(S, p, tol=1e-4):
    """the Pareto set is admissible, feasible and has the reported value"""
    xl, xu = box(p)
    ps, pf = p.pareto_set(), p.pareto_front()
    S.require(ps.shape[1] == p.n_var and pf.shape == (1, 1), "Pareto set and optimum have the dimensions of the problem")
    best = float(pf[0][0])
    for x in np.asarray(ps, dtype=float):
        S.require(bool(np.all(x >= xl - 1e-9) and np.all(x <= xu + 1e-9)), "the Pareto set lies within the bounds")
        F, G, H = ev(S, p, [float(v) for v in x])
        S.require(S.lt(S.abs(F[0] - best), tol * (1 + abs(best))), "the Pareto set has the reported value")
        S.require(S.all([S.le(g, 1e-5) for g in G] + [S.le(S.abs(h), 1.01e-4) for h in H]), "the Pareto set is feasible")
    return np.asarray(ps, dtype=float), best


WHOLE = [("sphere", 3), ("zakharov", 2), ("rosenbrock", 2), ("rosenbrock", 3), ("rastrigin", 3), ("griewank", 2), ("himmelblau", 2), ("g11", 2), ("g6", 2), ("g24", 2)]
FIXED = {"himmelblau", "g11", "g6", "g24"}


def single(name, n=None):
    from pymoo.problems import get_problem
    return get_problem(name) if n is None or name in FIXED else get_problem(name, n_var=n)


@harness("P34", "optimum", quick=[dict(name=a, n=n) for a, n in WHOLE], functions=[PR + "single/%s.py:%s._calc_pareto_set" % (a, a.capitalize()) for a in ("sphere", "zakharov", "rosenbrock", "rastrigin", "griewank", "himmelblau")]
         + [PR + "single/g.py:G%d._calc_pareto_set" % i for i in (6, 11, 24)], bounds="every solution in 2-3 dimensions")
def optimum(S, name, n):
    p = single(name, n)
    _, best = reported(S, p)
    xl, xu = box(p)
    x = [S.real("x%d" % j, lo=float(xl[j]), hi=float(xu[j])) for j in range(p.n_var)]
    F, G, H = ev(S, p, x)
    S.require(S.implies(feas(S, G, H), S.le(best - 1e-4 * (1 + abs(best)), F[0])), "no feasible solution is better than the reported optimum")


LINES = ["g5", "g17", "g21", "g22", "g1", "g3", "g4", "g6", "g7", "g9", "g10", "g11", "g12", "g15", "g18", "g19", "g23", "g24", "pressure_vessel", "cantilevered_beam", "sphere"]


@harness("P34", "axes", quick=[dict(name=a) for a in LINES], functions=[PR + "single/g.py:G%s._calc_pareto_set" % a[1:] for a in LINES if a[0] == "g"] + [PR + "single/pressure_vessel.py:PressureVessel._calc_pareto_set"],
         bounds="every solution that differs from the reported optimum in one variable")
def axes(S, name):
    p = single(name)
    ps, best = reported(S, p)
    xl, xu = box(p)
    H = ev(S, p, [float(v) for v in ps[0]])[2]
    tol = max([1e-9] + [1.01 * abs(float(h)) for h in H])
    for j in range(p.n_var):
        x = [float(v) for v in ps[0]]
        x[j] = S.real("x%d" % j, lo=float(xl[j]), hi=float(xu[j]))
        F, G, H = ev(S, p, x)
        S.require(S.implies(feas(S, G, H, tol), S.le(best - 2e-4 * (1 + abs(best)), F[0])), "changing one variable of the optimum does not improve it")


def not_dominated(S, F, q, ok, label, tol=1e-6):
    """a feasible solution F does not dominate the point q of the front"""
    for k in range(len(F)):
        S.require(S.not_(S.all([ok] + [S.xle(F[i], q[i] - (tol if i == k else 0)) for i in range(len(F))])), label)


def ideal_nadir(S, p, pf):
    if p.n_obj > 1:
        S.require(bool(np.all(p.ideal_point(use_cache=False) == p.pareto_front().min(axis=0)) and np.all(p.nadir_point(use_cache=False) == p.pareto_front().max(axis=0))), "ideal and nadir point bound the front")


def mutual(S, pf, label="points of the front do not dominate each other"):
    for a in pf:
        for b in pf:
            if a is not b:
                S.require(not (all(u <= v for u, v in zip(a, b)) and any(u < v - 1e-9 for u, v in zip(a, b))), label)


ZDT = {"zdt1": lambda a: a, "zdt2": lambda a: a, "zdt4": lambda a: a}


@harness("P34", "zdt", quick=[dict(name=a, n=n, k=k) for a in ("zdt1", "zdt2", "zdt4", "zdt6") for n, k in ((2, 4), (3, 3))], functions=[PR + "multi/zdt.py:ZDT%d._calc_pareto_front" % i for i in (1, 2, 4, 6)],
         bounds="fronts of 3-4 points, every solution of 2-3 variables")
def zdt(S, name, n, k):
    from pymoo.problems import get_problem
    p = get_problem(name, n_var=n)
    pf = p.pareto_front(n_pareto_points=k)
    S.require(pf.shape == (k, 2), "the front has the number of points asked for")
    mutual(S, pf)
    ideal_nadir(S, p, pf)
    if name in ZDT:
        for a, b in pf:
            F, _, _ = ev(S, p, [float(a)] + [0.0] * (n - 1))
            S.require(S.all([S.eq(F[0], a), S.lt(S.abs(F[1] - b), 1e-9)]), "the points of the front are attained")
    else:
        for a, b in pf:
            S.require(S.lt(S.abs(1 - a * a - b), 1e-9), "the points lie on the curve of the front")
        for q, u in ((pf[0], 0.0814574), (pf[-1], 0.0)):
            F, _, _ = ev(S, p, [u] + [0.0] * (n - 1))
            S.require(S.all([S.lt(S.abs(F[i] - q[i]), 1e-3) for i in range(2)]), "the ends of the front are attained")
    xl, xu = box(p)
    x = [S.real("x%d" % j, lo=float(xl[j]), hi=float(xu[j])) for j in range(n)]
    F, _, _ = ev(S, p, x)
    for q in pf:
        not_dominated(S, F, q, True, "no solution dominates the front")


@harness("P34", "planar", quick=[dict(name=a, k=k) for a, k in (("sympart", 27), ("srn", 5), ("bnh", 6))], functions=[PR + "multi/sympart.py:SYMPARTRotated._calc_pareto_set", PR + "multi/srn.py:SRN._calc_pareto_set", PR + "multi/bnh.py:BNH._calc_pareto_front"],
         bounds="fronts of 5-27 points, every solution")
def planar(S, name, k):
    from pymoo.problems import get_problem
    if name == "sympart":
        from pymoo.problems.multi.sympart import SYMPART
        p = SYMPART()
        pf = p.pareto_front(n_pareto_points=k)
    else:
        p = get_problem(name)
        pf = p.pareto_front(n_points=k)
    S.require(pf.shape == (k, 2), "the front has the number of points asked for")
    mutual(S, pf)
    ideal_nadir(S, p, pf)
    xl, xu = box(p)
    if name != "bnh":
        ps = p.pareto_set(use_cache=False, **{"n_pareto_points" if name == "sympart" else "n_points": k})
        for x in ps:
            F, G, H = ev(S, p, [float(v) for v in x])
            S.require(bool(np.all(x >= xl - 1e-9) and np.all(x <= xu + 1e-9)), "the Pareto set lies within the bounds")
            S.require(S.all([S.le(g, 1e-4) for g in G]), "the Pareto set is feasible")
            S.require(S.any([S.all([S.eq(F[i], q[i]) for i in range(2)]) for q in pf]), "the Pareto set has the values of the front")
    x = [S.real("x%d" % j, lo=float(xl[j]), hi=float(xu[j])) for j in range(2)]
    F, G, H = ev(S, p, x)
    seen = []
    for q in pf:
        if not any(abs(q - r).max() < 1e-9 for r in seen):
            seen.append(q)
            not_dominated(S, F, q, feas(S, G, H), "no feasible solution dominates the front", 1e-3 if name == "srn" else 1e-5)


def close(S, a, b, tol=1e-9):
    return S.le(S.abs(a - b), tol)


DIR = ["dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz1^-1", "sdtlz1", "convex", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4"]


@harness("P34", "directions", quick=[dict(name=a, m=m) for a in DIR for m in (2, 3)], functions=[PR + "many/dtlz.py:%s._calc_pareto_front" % a for a in ("DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "InvertedDTLZ1", "ScaledProblem", "ConvexProblem")]
         + [PR + "many/cdtlz.py:%s._calc_pareto_front" % a for a in ("C1DTLZ1", "C1DTLZ3", "C2DTLZ2", "C3DTLZ1", "C3DTLZ4")],
         bounds="two reference directions of 2-3 objectives, both symbolic for plane fronts, one for spherical fronts")
def directions(S, name, m):
    from pymoo.problems import get_problem
    if name == "convex":
        from pymoo.problems.many.dtlz import ConvexProblem
        p = ConvexProblem(get_problem("dtlz1", n_var=m + 4, n_obj=m))
    else:
        p = get_problem(name, n_var=m + 4, n_obj=m)
    rows = []
    for i in range(2):
        if i == 1 and name not in ("dtlz1", "dtlz1^-1", "sdtlz1", "convex", "c1dtlz1"):
            r = [0.25] * (m - 1)
        elif i == 1 and m == 3:
            r = [0.25, S.real("r1", lo=0, hi=0.75)]
        else:
            r = [S.real("r%d%d" % (i, j), lo=0, hi=1) for j in range(m - 1)]
        last = 1 - S.sum(r)
        S.assume(S.xle(0, last))
        rows.append(r + [last])
    A = S.array(rows)
    pf = p.pareto_front(A, use_cache=False)
    S.require(S.all([S.same(A[i, j], rows[i][j]) for i in range(2) for j in range(m)]), "the reference directions are left as they are")
    q = [[pf[i, j] for j in range(m)] for i in range(pf.shape[0])]
    sq = [S.sum([v * v for v in r]) for r in rows]
    if name == "c2dtlz2":
        r2 = p.r * p.r

        def inside(r, s):  # the unit vector lies in one of the balls around the axes or around the diagonal
            n = S.sqrt(s)
            f = [v / n for v in r]
            a = S.min([(f[i] - 1) * (f[i] - 1) + S.sum([f[j] * f[j] for j in range(m) if j != i]) - r2 for i in range(m)])
            b = S.sum([(v - 1 / np.sqrt(m)) * (v - 1 / np.sqrt(m)) for v in f]) - r2
            return S.min([a, b])
        g = [inside(r, s) for r, s in zip(rows, sq)]
        for v in g:
            S.assume(S.any([S.xlt(v, -1e-6), S.xlt(1e-6, v)]))
        keep = [i for i in range(2) if S.truth(S.xlt(g[i], 0))]
        rows, sq = [rows[i] for i in keep], [sq[i] for i in keep]
    S.require(len(q) == len(rows), "one point per (feasible) direction")
    if m == 2 and len(rows) == 2 and S.truth(S.xlt(q[0][0], q[1][0])) != S.truth(S.xlt(rows[0][0], rows[1][0])) and name != "dtlz1^-1":
        rows, sq = rows[::-1], sq[::-1]  # fronts of two objectives are sorted by the first
    if m == 2 and name == "dtlz1^-1" and S.truth(S.xlt(rows[0][0], rows[1][0])):
        rows, sq = rows[::-1], sq[::-1]
    for f, r, s in zip(q, rows, sq):
        if name == "dtlz1^-1":
            f = [0.5 - v for v in f]
        elif name == "sdtlz1":
            f = [f[j] / 10.0 ** j for j in range(m)]
        elif name == "convex":
            S.require(S.all([close(S, f[j] * 16, r[j] * r[j] * r[j] * r[j]) for j in range(m - 1)] + [close(S, f[-1] * 4, r[-1] * r[-1])]), "the convex front is the transformed front")
            continue
        S.require(S.all([close(S, f[i] * r[j], f[j] * r[i]) for i in range(m) for j in range(i)]), "each point lies on its direction")
        S.require(S.all([S.le(-1e-12, v) for v in f]), "the points are not negative")
        if name in ("dtlz1", "dtlz1^-1", "sdtlz1", "c1dtlz1"):
            S.require(close(S, S.sum(f), 0.5), "the points lie on the plane of the front")
        elif name == "c3dtlz1":
            S.require(close(S, S.min([S.sum(f) + v for v in f]), 1), "the points lie where the first constraint becomes active")
        elif name == "c3dtlz4":
            S.require(close(S, S.min([S.sum([v * v for v in f]) - 0.75 * w * w for w in f]), 1), "the points lie where the first constraint becomes active")
        else:
            S.require(close(S, S.sum([v * v for v in f]), 1), "the points lie on the sphere of the front")
        if name == "c1dtlz1":
            S.require(S.le(f[-1] / 0.6 + S.sum(f[:-1]) / 0.5, 1), "the points are feasible")


@harness("P34", "mw_directions", quick=[dict(name="mw%d" % i) for i in (1, 2, 3, 4, 6, 8, 12)], functions=[PR + "multi/mw.py:MW%d._calc_pareto_front" % i for i in (1, 2, 3, 4, 6, 8, 12)], bounds="three given directions (symbolic for MW1 and MW2)")
def mw_directions(S, name):
    from pymoo.problems import get_problem
    p = get_problem(name)
    m = p.n_obj
    a = S.real("a", lo=0.05, hi=0.45) if name in ("mw1", "mw2") else 0.3
    rows = [[a, 1 - a], [0.5, 0.5], [0.8, 0.2]] if m == 2 else [[0.2, 0.3, 0.5], [0.5, 0.25, 0.25], [0.1, 0.1, 0.8]]
    A = S.array(rows)
    pf = p.pareto_front(A, use_cache=False)
    S.require(pf.shape[0] <= 3 and pf.shape[1] == m, "at most one point per direction")
    S.require(S.all([S.same(A[i, j], rows[i][j]) for i in range(3) for j in range(m)]), "the reference directions are left as they are")
    if name == "mw2":
        S.require(S.all([S.eq(pf[i, 0] + pf[i, 1], 1) for i in range(pf.shape[0])]), "the points lie on the line of the front")


@harness("P34", "undominated", quick=[dict(name=a, m=m) for a in ("dtlz1", "dtlz1^-1", "sdtlz1", "c1dtlz1", "c3dtlz1", "dtlz2", "c3dtlz4") for m in (2, 3) if m == 2 or a not in ("dtlz2", "c3dtlz4")], functions=[PR + "many/dtlz.py:DTLZ1._calc_pareto_front", PR + "many/dtlz.py:InvertedDTLZ1._calc_pareto_front", PR + "many/cdtlz.py:C3DTLZ1._calc_pareto_front"],
         bounds="a symbolic reference direction, every solution with two distance variables of one value")
def undominated(S, name, m):
    from pymoo.problems import get_problem
    p = get_problem(name, n_var=m + 1, n_obj=m)
    r = [S.real("r%d" % j, lo=0, hi=1) for j in range(m - 1)]
    last = 1 - S.sum(r)
    S.assume(S.xle(0, last))
    pf = p.pareto_front(S.array([r + [last]]), use_cache=False)
    x = [S.real("x%d" % j, lo=0, hi=1) for j in range(m - 1)]
    d = S.real("d", lo=0, hi=1)
    F, G, H = ev(S, p, x + [d, 0.5])
    not_dominated(S, F, [pf[0, j] for j in range(m)], feas(S, G, H), "no feasible solution dominates the front", 1e-5)


@harness("P34", "dtlz7", quick=[dict(m=2)], functions=[PR + "many/dtlz.py:DTLZ7._calc_pareto_front"], bounds="a front made from 60 candidates, one solution with a symbolic distance variable")
def dtlz7(S, m):
    from pymoo.problems import get_problem
    p = get_problem("dtlz7", n_var=m + 1, n_obj=m)
    pf = p.pareto_front(n_points=3, use_cache=False)
    S.require(len(pf) > 0, "there is a front")
    mutual(S, pf)
    for q in pf[:3]:
        F, _, _ = ev(S, p, [float(v) for v in q[:-1]] + [0.0, 0.0])
        S.require(S.all([S.lt(S.abs(a - b), 1e-9) for a, b in zip(F, q)]), "the points of the front are attained")
        d = S.real("d", lo=0, hi=1)
        F, _, _ = ev(S, p, [float(v) for v in q[:-1]] + [d, 0.0])
        not_dominated(S, F, q, True, "no solution with the same position dominates the front")


@harness("P34", "wfg_front", quick=[dict(n=n) for n in (3, 4)], functions=[PR + "many/wfg.py:WFG._calc_pareto_front"], bounds="two extreme points, one symbolic point and up to one further point found, 3-4 directions",
         stubs=["the objective values of the Pareto set are a symbolic table (WFG2 has dominated points in its Pareto set)"], resolve=True)
def wfg_front(S, n):
    from pymoo.problems import get_problem
    p = get_problem("wfg2", n_var=6, n_obj=2, k=4)
    extremes, interior = S.array([[0.0, 1.0], [1.0, 0.0]]), S.array([[S.real("a", lo=0, hi=1), S.real("b", lo=0, hi=1)]] + [[0.5, 0.25]] * (n - 3))
    p.evaluate = lambda X, *args, **kwargs: (extremes if len(X) == 16 else interior).copy()
    D = S.array([[1.0, 0.0], [0.0, 1.0], [0.5, 0.5], [0.25, 0.75]][:n])
    pf = p.pareto_front(D, n_iterations=1, points_each_iteration=1, use_cache=False)
    q = [[pf[i, j] for j in range(2)] for i in range(pf.shape[0])]
    S.require(S.all([S.not_(S.all([S.xle(a[0], b[0]), S.xle(a[1], b[1]), S.any([S.xlt(a[0], b[0]), S.xlt(a[1], b[1])])])) for a in q for b in q if a is not b]), "points of the front do not dominate each other")
    S.require(S.all([S.le(a[0], b[0]) for a, b in zip(q, q[1:])]), "the front is sorted")
