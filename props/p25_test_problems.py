"""P25: test problems evaluate each solution on its own, without memory, at the time they are set to."""
import numpy as np
from symx.harness import harness
from common import meta

PR = "pymoo/problems/"
META = meta(
    "Test problems evaluate each solution on its own, without memory",
    "What a test problem returns for a solution depends on that solution, the parameters of the problem and (dynamic problems) its current time only: not on the other solutions evaluated with it or their order, not on earlier evaluations, and evaluating changes neither the solutions nor the bounds; one row per solution and one column per declared objective, inequality and equality constraint. "
    "The time of a dynamic problem is floor(tau / taut) / nt, tic advances tau by the number given, a time that is set takes precedence, and what is evaluated, and the Pareto front reported, belong to the current time only, whatever was evaluated or reported before.",
    ["inputs", "histories"], "two coordinates of a solution symbolic over their whole range, the other coordinates and the second solution fixed, both orders; dynamic problems: all symbolic tau, tau_t and steps of the given sizes",
    "tests evaluate one recorded data set per problem in one batch, most of them only where data can be downloaded",
    [PR + "many/", PR + "multi/", PR + "single/", PR + "dynamic/", PR + "dyn.py"],
    [("vectorised evaluation", PR + "many/wfg.py:WFG4._evaluate"), ("vectorised constraints", PR + "many/cdtlz.py:constraint_c2"), ("batches", PR + "multi/sympart.py:SYMPARTRotated._evaluate"), ("time", PR + "dyn.py:DynamicTestProblem.time"), ("time", PR + "dyn.py:DynamicTestProblem.tic")],
    "bounded: two solutions, 2-30 variables; terms that differ by rounding of their constants only are identified; elementary functions are uninterpreted; MODAct and problems that need external programs or data are not covered")

DF = ["df%d" % i for i in range(1, 15)]
NAMES = ["ackley", "bnh", "carside"] + ["ctp%d" % i for i in range(1, 9)] + ["dascmop%d" % i for i in range(1, 10)] + DF + ["mw%d" % i for i in range(1, 15)] + ["dtlz1^-1"] \
    + ["dtlz%d" % i for i in range(1, 8)] + ["convex_dtlz2", "convex_dtlz4", "sdtlz1", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3",
       "dc3dtlz1", "dc3dtlz3", "cantilevered_beam", "griewank", "himmelblau", "kursawe", "osy", "pressure_vessel", "rastrigin", "rosenbrock", "schwefel", "sphere", "srn", "tnk", "truss2d",
       "welded_beam", "zakharov", "zdt1", "zdt2", "zdt3", "zdt4", "zdt6", "sympart", "sympart_rotated", "omnitest", "multimodal1", "multimodal2"] \
    + ["g%d" % i for i in range(1, 25)] + ["wfg%d" % i for i in range(1, 10)] + ["zcat%d" % i for i in range(1, 21)]
DYN = ["FDA2DEB", "FDA4", "FDA5", "DIMP2", "dMOP2", "HE2", "HE7", "HE9"]


def make(name):
    from pymoo.problems import get_problem
    if name in DYN:
        import pymoo.vendor.gta as gta
        from pymoo.problems.dynamic import cec2015
        for f in ("sin", "cos", "sqrt", "fabs", "floor", "exp", "log", "ceil"):  # the scalar functions of the standard library only take numbers
            if hasattr(gta, f):
                setattr(gta, f, getattr(np, f))
        p = getattr(cec2015, name)()
        p.time = 0.25
        return p
    if name.startswith("sympart"):
        from pymoo.problems.multi import sympart
        return sympart.SYMPART() if name == "sympart" else sympart.SYMPARTRotated()
    if name.startswith("multimodal"):
        from pymoo.problems.single import multimodal
        return getattr(multimodal, "MultiModalSimple%s" % name[-1])()
    if name == "omnitest":
        from pymoo.problems.multi.omnitest import OmniTest
        return OmniTest(2)
    if name.startswith("dascmop"):
        return get_problem(name, (0.25, 0.5, 0.125))
    if name.startswith("wfg"):
        return get_problem(name, n_var=6, n_obj=3, k=4)
    if name.startswith("zcat"):
        return get_problem(name, n_obj=3, n_var=5)
    if name.startswith("df"):
        p = get_problem(name, n_var=4)
        p.time = 0.25
        return p
    if name.startswith("mw"):
        return get_problem(name, n_var=4)
    return get_problem(name)


def box(p):
    n = p.n_var
    return np.broadcast_to(p.xl, n).astype(float), np.broadcast_to(p.xu, n).astype(float)


def fixed(p, k):
    """some solution"""
    xl, xu = box(p)
    u = [[0.25 + 0.5 * ((3 * i) % 7) / 7 for i in range(p.n_var)], [0.75 - 0.5 * ((2 * i) % 5) / 5 for i in range(p.n_var)]][k]
    return [float(v) for v in xl + (xu - xl) * np.array(u)]


VALS = ["F", "G", "H"]


def values(S, p, X):
    """evaluate; the solutions are not changed"""
    A = S.array(X)
    out = p.evaluate(A, return_values_of=VALS, return_as_dictionary=True)
    for i, x in enumerate(X):
        S.require(S.all([S.same(A[i, j], v) for j, v in enumerate(x)]), "evaluating does not change the solutions")
    for v, m in zip(VALS, (p.n_obj, p.n_ieq_constr, p.n_eq_constr)):
        S.require(out[v].shape == (len(X), m), "one row per solution, one column per value")
    return out


def agree(S, out, i, ref, label):
    c = []
    for v in VALS:
        for a, b in zip(out[v][i], ref[v][0]):
            if isinstance(a, float) and a != a:
                c.append(isinstance(b, float) and b != b)
            else:
                c.append(S.eq(a, b))
    S.require(S.all(c), label)


SYM = {"wfg9": (4,), "wfg7": (5,), "wfg8": (5,), "g12": (0,), "g14": (0,), "g2": (0,), "g16": (0,), "g20": (0,), "welded_beam": (0,), "mw9": (0,), "HE7": (9,), "HE9": (0,), "df12": (0, 1)}
MARGIN = {"g20": 1e-3, "truss2d": 1e-3, "ctp2": 1e-3, "ctp3": 1e-3, "ctp4": 1e-3, "ctp5": 1e-3}


@harness("P25", "rows", quick=[dict(name=n) for n in NAMES + DYN], functions=[PR + "many/wfg.py:WFG%d._evaluate" % i for i in range(1, 10)] + [PR + "many/dtlz.py:DTLZ%d._evaluate" % i for i in range(1, 8)]
         + [PR + "single/g.py:G%d._evaluate" % i for i in range(1, 25)] + [PR + "many/zcat.py:ZCAT%d._evaluate" % i for i in (1, 20)] + [PR + "dynamic/df.py:DF%d._evaluate" % i for i in range(1, 15)],
         bounds="two solutions, the first and the last (some problems: one) coordinate of one of them symbolic", resolve=True, approx=True)
def rows_(S, name):
    p = make(name)
    n = p.n_var
    xl, xu = box(p)
    m = MARGIN.get(name, 0)
    x, other = fixed(p, 1), fixed(p, 0)
    for j in SYM.get(name, (0, n - 1)):
        x[j] = S.real("x%d" % j, lo=float(xl[j]) + m, hi=float(xu[j]))
    one = values(S, p, [x])
    oth = values(S, p, [other])
    both = values(S, p, [x, other])
    agree(S, both, 0, one, "values do not depend on the other solutions")
    agree(S, both, 1, oth, "values do not depend on the other solutions")
    both = values(S, p, [other, x])
    agree(S, both, 1, one, "values do not depend on the order of the solutions")
    agree(S, both, 0, oth, "values do not depend on the order of the solutions")
    agree(S, values(S, p, [x]), 0, one, "values do not depend on earlier evaluations")
    l2, u2 = box(p)
    S.require(bool(np.all(l2 == xl) and np.all(u2 == xu)), "evaluating does not change the bounds")


def samples(p, k):
    """solutions all over the search space, the first one a fixed one, the last ones on bounds and half way"""
    xl, xu = box(p)
    rng = np.random.default_rng(7)
    U = [rng.random(p.n_var) for _ in range(k - 3)] + [np.round(rng.random(p.n_var)) * 0.998 + 0.001, np.round(2 * rng.random(p.n_var)) * 0.499 + 0.001, 0.2 + 0.1 * rng.random(p.n_var)]
    return [[float(v) for v in xl + (xu - xl) * u] for u in U]


@harness("P25", "pairs", quick=[dict(names=(NAMES + DYN)[i::6]) for i in range(6)], functions=[PR + "dynamic/df.py:DF%d._evaluate" % i for i in range(1, 15)] + [PR + "many/wfg.py:WFG%d._evaluate" % i for i in range(1, 10)],
         bounds="every pair, alone and with a third one, among five solutions per problem (symbolic choice)", approx=True)
def pairs(S, names):
    name = names[S.choose(len(names))]
    p = make(name)
    X = samples(p, 5)
    i, j, extra = S.choose(5), S.choose(5), S.choose(2)
    batch = [X[i], X[j]] + [X[(i + 1 + k) % 5] for k in range(extra)]
    both = values(S, p, batch)
    for k, x in enumerate(batch):
        agree(S, both, k, values(S, p, [x]), "values do not depend on the other solutions")


@harness("P25", "clock", quick=[dict(nt=nt, k=k) for nt in (5, 10) for k in (1, 3)], functions=[PR + "dyn.py:DynamicTestProblem.time", PR + "dyn.py:DynamicTestProblem.tic"],
         bounds="every initial tau up to 60; every tau_t up to 20 and one step of up to 9, or tau_t 7 and three steps, also through the callback")
def clock(S, nt, k):
    from types import SimpleNamespace
    from pymoo.problems.dyn import DynamicTestProblem, TimeSimulation
    tau, taut = S.int("tau", lo=0, hi=60), (S.int("taut", lo=1, hi=20) if k == 1 else 7)
    p = DynamicTestProblem(nt, taut, tau=tau, n_var=2, n_obj=2, xl=0, xu=1)

    def check(t, label):
        q = S.int("q%d" % check.n, lo=0, hi=1000)
        check.n += 1
        S.assume(S.all([S.xle(q * taut, t), S.xlt(t, (q + 1) * taut)]))
        S.require(S.eq(p.time, q / (nt + 0.0)), label)
    check.n = 0
    check(tau, "the time is floor(tau / taut) / nt")
    total = tau
    for i in range(k):
        if i == 1:
            TimeSimulation().update(SimpleNamespace(problem=p))
            total = total + 1
        else:
            step = S.int("step%d" % i, lo=1, hi=9)
            p.tic(step)
            total = total + step
        S.require(S.same(p.tau, total), "tic advances tau by the number given")
        check(total, "the time is floor(tau / taut) / nt after a change")
    t = S.real("time", lo=0, hi=3)
    p.time = t
    S.require(S.same(p.time, t), "a time that is set takes precedence")
    p.tic(7)
    S.require(S.same(p.time, t), "a time that is set takes precedence, also after a tic")


@harness("P25", "moments", quick=[dict(name=n) for n in DF + DYN], functions=[PR + "dynamic/df.py:DF%d._evaluate" % i for i in range(1, 15)] + [PR + "dyn.py:DynamicTestProblem.tic", "pymoo/core/problem.py:Problem.pareto_front"],
         bounds="one solution with its last coordinate symbolic, three moments", resolve=True, approx=True)
def moments(S, name):
    x = fixed(make(name), 1)
    xl, xu = box(make(name))
    x[-1] = S.real("x", lo=float(xl[-1]), hi=float(xu[-1]))
    p = make(name)
    p._time = None
    has_front = name in DF
    for tau, how in ((5, "tic"), (47, "tic"), (23, "set")):
        q = make(name)
        if how == "tic":
            p.tic(tau - p.tau)
            q._time, q.tau = None, tau
        else:
            p.time = q.time = 0.125
        agree(S, values(S, p, [x]), 0, values(S, q, [x]), "values belong to the current time")
        if has_front:
            a, b = p.pareto_front(), q.pareto_front()
            S.require(a.shape == b.shape and bool(np.allclose(a.astype(float), b.astype(float), equal_nan=True)), "the Pareto front belongs to the current time")


@harness("P25", "dmop3", quick=[{}], finding=True, functions=[PR + "dynamic/cec2015.py:dMOP3._evaluate"], bounds="first coordinate symbolic")
def dmop3(S):
    from pymoo.problems.dynamic.cec2015 import dMOP3
    p = dMOP3()
    x = fixed(p, 0)
    x[0] = S.real("x0", lo=0, hi=1)
    try:
        out = p.evaluate(S.array([x]), return_values_of=["F"])
    except TypeError:
        S.require(False, "dMOP3 can be evaluated")
    S.require(out.shape == (1, 2), "dMOP3 can be evaluated")
