"""P45: what is shown and recorded during a run."""
import numpy as np
from symx.harness import harness
from common import meta, pop_of

D = "pymoo/util/display/"
META = meta(
    "Displays, recorders and the running metric report the true state of a run",
    "After every update the display shows the current generation, the number of evaluations, the smallest violation of the optima and the average one of the population; for one objective the average and the best objective value of the feasible solutions and the gap to the known optimum; for many objectives the number of optima and their distances and hypervolume in terms of the Pareto front (the current one of a dynamic problem), or, where the front is not known, the largest movement of ideal point, nadir point and set. "
    "What cannot be computed is shown as missing, never as an old value, and an output is initialized once. A recorder stores the current optimum at the first notification and whenever another multiple of its period has been reached; the running metric gives the movements between consecutive optima of its window, scaled by the current ranges, and the distance of every one to the current one; the progress bar never goes back.",
    ["inputs", "histories"], "all objective values and violations of the solutions of the stated sizes; histories of 2-4 updates", "tests run algorithms with the display switched on and look at nothing",
    [D + x for x in ("column.py", "multi.py", "single.py", "output.py", "progress.py")] + ["pymoo/core/recorder.py", "pymoo/util/running_metric.py", "pymoo/core/callback.py"],
    [("single", D + "single.py:SingleObjectiveOutput.update"), ("multi", D + "multi.py:MultiObjectiveOutput.update"), ("violations", D + "single.py:AverageConstraintViolation.update"), ("recorder", "pymoo/core/recorder.py:Recorder.notify"),
     ("running metric", "pymoo/util/running_metric.py:RunningMetric.update"), ("progress", D + "progress.py:ProgressBar.set")],
    "bounded: 1-3 solutions, 1-2 objectives; moocore's compiled indicators are replaced by their mathematical contracts; text layout and plots are not covered")


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Prob:
    def __init__(self, n_obj, constr, front=None):
        self.n_obj, self.constr, self.front = n_obj, constr, front

    def has_constraints(self):
        return self.constr

    def pareto_front(self, *args, **kwargs):
        if self.front is None:
            raise Exception("not known")
        return self.front


def algorithm(S, problem, pop, opt, n_gen=1, n_eval=10):
    return Obj(problem=problem, pop=pop, opt=opt, n_gen=n_gen, evaluator=Obj(n_eval=n_eval), n_iter=n_gen)


def shown(out):
    return {c.name: c.value for c in out.columns}


def none_or(S, v, want):
    if want is None:
        return v is None
    return v is not None and S.eq(v, want)


def individuals(S, k, n):
    f = [S.real("f%d_%d" % (k, i), lo=-9, hi=9) for i in range(n)]
    cv = [S.real("v%d_%d" % (k, i), lo=0.5, hi=9) if S.choose(2) else 0.0 for i in range(n)]
    return f, cv


def violated(cv):
    return not (isinstance(cv, float) and cv == 0.0)


@harness("P45", "single", quick=[dict(n=2, k=2), dict(n=3, k=1)], thorough=[dict(n=3, k=2)], functions=[D + "single.py:SingleObjectiveOutput.update", D + "single.py:SingleObjectiveOutput.initialize", D + "single.py:MinimumConstraintViolation.update", D + "single.py:AverageConstraintViolation.update", D + "output.py:Output.update", "pymoo/core/recorder.py:DefaultSingleObjectiveRecorder.save"],
         bounds="2-3 solutions, any objective values, each feasible or not, 1-2 updates, with and without a known optimum")
def single(S, n, k):
    from pymoo.util.display.single import SingleObjectiveOutput
    from pymoo.util.optimum import filter_optimum
    from pymoo.core.recorder import DefaultSingleObjectiveRecorder
    best = -10.0 if S.choose(2) else None
    out, rec = SingleObjectiveOutput(), DefaultSingleObjectiveRecorder()
    problem = Prob(1, True, None if best is None else S.array([[best]]))
    for t in range(k):
        f, cv = individuals(S, t, n)
        pop = pop_of(S, F=S.array([[v] for v in f]), CV=S.array([[v] for v in cv]))
        g, e = S.int("g%d" % t, lo=1, hi=99), S.int("e%d" % t, lo=1, hi=9999)
        a = algorithm(S, problem, pop, filter_optimum(pop, least_infeasible=True), g, e)
        out(a)
        rec(a)
        c = shown(out)
        S.require(len(c) == len(out.columns) and set(c) == {"n_gen", "n_eval", "cv_min", "cv_avg", "f_avg", "f_min"} | ({"f_gap"} if best is not None else set()), "every column once")
        feas = [f[i] for i in range(n) if not violated(cv[i])]
        S.require(S.all([S.same(c["n_gen"], g), S.same(c["n_eval"], e)]), "generation and evaluations")
        low = S.min(list(cv))
        S.require(S.all([S.eq(c["cv_min"], low), S.eq(c["cv_avg"] * n, S.sum(cv))]), "violations")
        fmin = S.min(feas) if feas else None
        S.require(none_or(S, None if c["f_avg"] is None else c["f_avg"] * max(1, len(feas)), S.sum(feas) if feas else None), "average objective value of the feasible solutions")
        S.require(none_or(S, c["f_min"], fmin), "best objective value of the feasible solutions")
        if best is not None:
            S.require(none_or(S, c["f_gap"], None if fmin is None else fmin - best), "gap to the known optimum")
        d = rec.data[-1]
        S.require(len(rec.data) == t + 1 and S.truth(S.all([S.same(d["n_evals"], e), S.eq(d["cv"], low)])), "recorded evaluations and violation")
        if feas:
            S.require(S.eq(d["f"], fmin), "recorded objective value")
            S.require(S.eq(d["fgap"], fmin - best) if best is not None else d["fgap"] == np.inf, "recorded gap")
        else:
            S.require(d["f"] == np.inf and d["fgap"] == np.inf, "no objective value without a feasible solution")


PF = [[0.0, 4.0], [2.0, 0.0]]
PF2 = [[1.0, 6.0], [3.0, 2.0]]


def norm(pf, v):
    lo, hi = [min(p[j] for p in pf) for j in range(2)], [max(p[j] for p in pf) for j in range(2)]
    return [(v[j] - lo[j]) / (hi[j] - lo[j]) for j in range(2)]


def dist(S, a, b):
    return S.sqrt(S.sum([(x - y) * (x - y) for x, y in zip(a, b)]))


def mean(S, v):
    return S.sum(v) / len(v)


SETS = [[["x", 1.0]], [["x", 1.0], [1.0, 3.0]], [[2.0, "x"]]]


@harness("P45", "front", quick=[dict(which=w) for w in range(3)], functions=[D + "multi.py:MultiObjectiveOutput.update", D + "multi.py:MultiObjectiveOutput.initialize", "pymoo/core/recorder.py:DefaultMultiObjectiveRecorder.save"],
         bounds="1-2 optima with one symbolic objective value, feasible or not; the known front changes with the time of a dynamic problem", resolve=True, timeout_ms=8000)
def front(S, which):
    from pymoo.util.display.multi import MultiObjectiveOutput
    from pymoo.core.recorder import DefaultMultiObjectiveRecorder
    out, rec = MultiObjectiveOutput(), DefaultMultiObjectiveRecorder()
    constr, dynamic = S.choose(2) == 1, S.choose(2) == 1
    problem = Prob(2, constr, S.array(PF))
    if dynamic:
        problem.time = 0.0
    x = S.real("x", lo=0, hi=3)
    P = [[x if v == "x" else v for v in r] for r in SETS[which]]
    for t in range(2):
        bad = constr and S.choose(2) == 1
        pf = PF
        if t == 1 and dynamic:
            problem.time, problem.front, pf = 1.0, S.array(PF2), PF2
        cv = [0.0 if not bad else 1.5] * len(P)
        opt = pop_of(S, F=S.array(P), CV=S.array([[v] for v in cv]))
        pop = pop_of(S, F=S.array(P + [[9.0, 9.0]]), CV=S.array([[v] for v in cv] + [[3.0]]))
        a = algorithm(S, problem, pop, opt, t + 1, 10 * (t + 1))
        out(a)
        rec(a)
        c = shown(out)
        S.require(len(c) == len(out.columns) and set(c) == {"n_gen", "n_eval", "n_nds", "igd", "gd", "hv"} | ({"cv_min", "cv_avg"} if constr else set()), "every column once")
        S.require(c["n_gen"] == t + 1 and c["n_eval"] == 10 * (t + 1) and c["n_nds"] == len(P), "generation, evaluations and number of optima")
        if constr:
            S.require(S.all([S.eq(c["cv_min"], min(cv)), S.eq(c["cv_avg"], (sum(cv) + 3.0) / (len(P) + 1))]), "violations")
        d = rec.data[-1]
        S.require(d["n_evals"] == 10 * (t + 1) and S.truth(S.eq(d["cv"], min(cv))), "recorded evaluations and violation")
        if bad:
            S.require(c["igd"] is None and c["gd"] is None and c["hv"] is None, "nothing to show without a feasible solution")
            S.require(d["igd"] == np.inf and d["igd+"] == np.inf, "nothing to record without a feasible solution")
            continue
        N, R = [norm(pf, v) for v in P], [norm(pf, v) for v in pf]
        igd = mean(S, [S.min([dist(S, a, r) for a in N]) for r in R])
        S.require(S.eq(c["igd"], igd), "distance from the front to the optima")
        S.require(S.eq(c["gd"], mean(S, [S.min([dist(S, a, r) for r in R]) for a in N])), "distance from the optima to the front")
        S.require(S.eq(d["igd"], igd), "recorded distance")
        if len(P) == 1:
            w = [S.max([0.0, 1.0 - v]) for v in N[0]]
            S.require(S.eq(c["hv"], w[0] * w[1]), "hypervolume")


def moves(S, A, B, scale):
    """largest movement of ideal and nadir point between two sets, in units of the given ranges"""
    col = lambda P, j, f: f([r[j] for r in P])
    return [S.max([S.abs(col(A, j, f) - col(B, j, f)) / scale[j] for j in range(2)]) for f in (S.min, S.max)]


def ranges(S, P):
    r = []
    for j in range(2):
        w = S.max([v[j] for v in P]) - S.min([v[j] for v in P])
        if S.truth(S.same(w, 0.0)):
            w = 1.0
        else:
            S.assume(S.xle(0.01, w))
        r.append(w)
    return r


def igd_to(S, cur, old, scale):
    lo = [S.min([v[j] for v in cur]) for j in range(2)]
    n = lambda v: [(v[j] - lo[j]) / scale[j] for j in range(2)]
    return mean(S, [S.min([dist(S, n(a), n(b)) for b in old]) for a in cur])


HIST = [[[[0.0, 2.0], [2.0, 0.0]], [[0.0, "x"], [1.5, 0.0]]], [[[0.5, 0.25]], [[0.5, "x"]]], [[[1.0, 1.0]], [["x", 0.5], [2.0, 0.25]]],
        [[[0.0, 2.0], [1.0, 1.0], [2.0, 0.0]], [[0.0, 2.0], ["x", 0.5], [2.0, 0.0]]]]


@harness("P45", "no_front", quick=[dict(h=h) for h in range(4)], functions=[D + "multi.py:MultiObjectiveOutput.update"], bounds="2-3 updates, sets of 1-2 optima with one symbolic objective value; feasible or not", resolve=True, timeout_ms=8000)
def no_front(S, h):
    from pymoo.util.display.multi import MultiObjectiveOutput
    out = MultiObjectiveOutput()
    x = S.real("x", lo=0, hi=1)
    A, B = [[[x if v == "x" else v for v in r] for r in P] for P in HIST[h]]
    problem = Prob(2, True)
    first = S.choose(2) == 1
    if first:
        out(algorithm(S, problem, pop_of(S, F=S.array(A), CV=S.array([[1.0]] * len(A))), pop_of(S, F=S.array(A[:1]), CV=S.array([[1.0]]))))
        c = shown(out)
        S.require(c["eps"] is None and c["indicator"] is None and c["n_nds"] == 1, "nothing to show without a feasible solution")
    feas = lambda P: pop_of(S, F=S.array(P), CV=S.array([[0.0]] * len(P)))
    out(algorithm(S, problem, feas(A), feas(A)))
    c = shown(out)
    S.require(len(c) == len(out.columns) and set(c) == {"n_gen", "n_eval", "n_nds", "cv_min", "cv_avg", "eps", "indicator"}, "every column once")
    S.require(c["eps"] is None and c["indicator"] is None, "nothing to compare with at first")
    out(algorithm(S, problem, feas(B), feas(B)))
    c = shown(out)
    w = ranges(S, B)
    ideal, nadir = moves(S, A, B, w)
    if S.truth(S.xlt(0.0025, ideal)):
        S.require(c["indicator"] == "ideal" and S.truth(S.eq(c["eps"], ideal)), "the movement of the ideal point comes first")
    elif S.truth(S.xlt(0.0025, nadir)):
        S.require(c["indicator"] == "nadir" and S.truth(S.eq(c["eps"], nadir)), "then the movement of the nadir point")
    else:
        S.require(c["indicator"] == "f" and S.truth(S.eq(c["eps"], igd_to(S, B, A, w))), "then the movement of the set")
    out(algorithm(S, problem, feas(B), pop_of(S, F=S.array(B[:1]), CV=S.array([[1.0]]))))
    c = shown(out)
    S.require(c["eps"] is None and c["indicator"] is None, "values of an earlier generation are not shown again")


RUN = [[[[0.0, 2.0], [2.0, 0.0]], [["x", 2.0], [2.0, 0.5]], [[0.0, 1.0], [1.0, 0.0]]], [[[0.5, 0.25]], [[0.5, "x"]], [[0.5, 0.125]]], [[[1.0, 1.0]], [[0.75, 1.0]], [["x", 0.5], [2.0, 0.25]]]]


@harness("P45", "running", quick=[dict(h=h, period=p) for h in range(3) for p in (None, 2)], functions=["pymoo/util/running_metric.py:RunningMetric.update", "pymoo/util/sliding_window.py:SlidingWindow.append"], bounds="3 updates, sets of 1-2 optima with one symbolic objective value, window of 2 or unlimited", resolve=True, timeout_ms=8000)
def running(S, h, period):
    from pymoo.util.running_metric import RunningMetric
    x = S.real("x", lo=0, hi=1)
    sets = [[[x if v == "x" else v for v in r] for r in P] for P in RUN[h]]
    m = RunningMetric(period=period)
    seen = []
    for P in sets:
        opt = pop_of(S, F=S.array(P), CV=S.array([[0.0]] * len(P)))
        m(algorithm(S, Prob(2, False), opt, opt))
        seen.append(P)
        if period is not None:
            seen = seen[-period:]
        w = ranges(S, P)
        S.require(len(m.delta_f) == len(m.delta_ideal) == len(m.delta_nadir) == len(seen), "one value for every generation of the window")
        for k, Q in enumerate(seen):
            ideal, nadir = moves(S, Q, seen[k + 1], w) if k + 1 < len(seen) else (0.0, 0.0)
            S.require(S.all([S.eq(m.delta_ideal[k], ideal), S.eq(m.delta_nadir[k], nadir)]), "movement of ideal and nadir point to the next one, in units of the current ranges")
            S.require(S.eq(m.delta_f[k], igd_to(S, P, Q, w)), "distance to the current set, in units of the current ranges")
        F = opt.get("F")
        S.require(S.all([S.same(F[i, j], P[i][j]) for i in range(len(P)) for j in range(2)]), "the optima are not changed")


@harness("P45", "recorder", quick=[dict(k=3)], thorough=[dict(k=4)], functions=["pymoo/core/recorder.py:Recorder.notify", "pymoo/core/recorder.py:Recorder.get"], bounds="3-4 notifications after any numbers of evaluations, every period from 1 to 20 or none")
def recorder(S, k):
    from pymoo.core.recorder import Recorder

    class R(Recorder):
        def save(self, algorithm):
            return dict(e=algorithm.evaluator.n_eval, g=algorithm.n_gen)
    always = S.choose(2) == 1
    nth = None if always else S.int("nth", lo=1, hi=20)
    r = R(nth_evals=nth)
    n, want, last = 0, [], None
    for t in range(k):
        n = n + S.int("e%d" % t, lo=0, hi=30)
        r(algorithm(S, None, None, None, t + 1, n))
        if always or last is None:
            due = True
        else:
            q = S.int("q%d" % t, lo=0, hi=200)
            S.assume(S.all([S.xle(q * nth, n), S.xlt(n, (q + 1) * nth)]))
            due = S.truth(S.xlt(last, q * nth))
        if due:
            want.append((n, t + 1))
            last = n
    S.require(len(r.data) == len(want), "recorded at the first notification and whenever another multiple of the period has been reached")
    S.require(S.all([S.same(d["e"], e) for d, (e, g) in zip(r.data, want)]) if want else True, "the values of the notification")
    S.require([d["g"] for d in r.data] == [g for e, g in want], "the values of the notification")
    e, g = r.get("e", "g", as_array=False)
    S.require(g == [v for _, v in want] and S.truth(S.all([S.same(a, b) for a, (b, _) in zip(e, want)])), "what was recorded is returned in order")


@harness("P45", "callbacks", quick=[dict()], functions=["pymoo/core/callback.py:Callback.__call__", "pymoo/core/callback.py:CallbackCollection.update"], bounds="1-3 calls of a collection of two callbacks")
def callbacks(S):
    from pymoo.core.callback import Callback, CallbackCollection
    log = []

    class C(Callback):
        def __init__(self, name):
            super().__init__()
            self.name = name

        def initialize(self, a):
            log.append((self.name, "initialize", a))

        def notify(self, a):
            log.append((self.name, "notify", a))

        def _update(self, a):
            log.append((self.name, "update", a))
    c = CallbackCollection(C("a"), C("b"))
    n = 1 + S.choose(3)
    for t in range(n):
        c(t)
    want = []
    for t in range(n):
        for name in "ab":
            want += ([(name, "initialize", 0)] if t == 0 else []) + [(name, "notify", t), (name, "update", t)]
    S.require(log == want, "initialized once, then notified and updated at every call, in order")


@harness("P45", "bar", quick=[dict(k=3)], functions=[D + "progress.py:ProgressBar.set"], bounds="3 symbolic progress values between 0 and 1", stubs=["the bar of alive_progress records what it is set to"])
def bar(S, k):
    import sys
    from types import SimpleNamespace
    log = []

    def gen():
        yield lambda v, *a, **kw: log.append(v)
    old = sys.modules.get("alive_progress")
    sys.modules["alive_progress"] = SimpleNamespace(alive_bar=lambda *a, **kw: SimpleNamespace(gen=gen()))
    try:
        from pymoo.util.display import progress
        progress.alive_bar = sys.modules["alive_progress"].alive_bar
    finally:
        if old is None:
            sys.modules.pop("alive_progress")
        else:
            sys.modules["alive_progress"] = old
    up = S.choose(2) == 1
    p = progress.ProgressBar(non_decreasing=up)
    v = [S.real("p%d" % t, lo=0, hi=1) for t in range(k)]
    for t in range(k):
        p.set(v[t])
        want = S.max(v[:t + 1]) if up else v[t]
        S.require(len(log) == t + 1 and S.truth(S.all([S.le(log[t], want), S.lt(want, log[t] + 0.0100001)])), "the progress made so far, rounded down to percent")
        if up and t:
            S.require(S.le(log[t - 1], log[t]), "the bar does not go back")
