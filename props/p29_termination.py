"""P29: termination by budgets, targets and combinations."""
import time
import numpy as np
from symx.harness import harness
from common import meta, pop_of

T = "pymoo/termination/"
META = meta(
    "Runs stop exactly when the budget is used up or the target is reached",
    "For every generation, evaluation or time count and limit, the progress is non-negative, never decreases with the count and reaches 1 exactly when the count reaches the limit (no limit: never). "
    "A target value ends the run exactly when the best feasible objective value is at or below it, whatever the signs; an indicator target exactly when it is reached in the requested direction. "
    "Any/all combinations end when some/every criterion has ended, every criterion sees every update, and terminate() ends the run at the next update.",
    ["inputs", "histories"], "all counts, limits and values; histories of 2-3 updates", "tests stop runs at a few fixed limits",
    [T + x for x in ("max_gen.py", "max_eval.py", "max_time.py", "fmin.py", "indicator.py", "collection.py", "__init__.py")] + ["pymoo/core/termination.py", "pymoo/util/misc.py"],
    [("contract", "pymoo/core/termination.py:Termination.update"), ("generations", T + "max_gen.py:MaximumGenerationTermination"), ("evaluations", T + "max_eval.py:MaximumFunctionCallTermination"), ("time", T + "max_time.py:TimeBasedTermination"),
     ("target", T + "fmin.py:MinimumFunctionValueTermination"), ("indicator", T + "indicator.py:IndicatorTermination"), ("combinations", "pymoo/core/termination.py:TerminateIfAny"), ("names", T + "__init__.py:get_termination")],
    "bounded: up to 3 individuals and 3 updates; the clock is a symbolic value; limits symbolic for single counts")


class Alg:
    """what a criterion may look at"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def limits(S, make, alg):
    lim = S.int("limit", 1, 1000)
    t = make(lim)
    S.require(t.do_continue() and not t.has_terminated(), "fresh criterion continues")
    c1 = S.int("c1", 0, 2000)
    c2 = S.int("c2", 0, 2000)
    S.assume(S.xle(c1, c2))
    p1 = t.update(alg(c1))
    S.require(S.xle(0.0, p1), "non-negative")
    S.require(S.iff(t.has_terminated(), S.xle(lim, c1)), "ended exactly when the limit is reached")
    p2 = t.update(alg(c2))
    S.require(S.iff(t.has_terminated(), S.xle(lim, c2)), "ended exactly when the limit is reached (2)")
    S.require(S.xle(p1, p2), "progress never decreases")
    S.require(S.iff(t.do_continue(), S.not_(S.xle(lim, c2))), "do_continue is the opposite")


@harness("P29", "counts", quick=[dict()], functions=[T + "max_gen.py:MaximumGenerationTermination._update", T + "max_eval.py:MaximumFunctionCallTermination._update", "pymoo/core/termination.py:Termination.update"], bounds="limit 1-1000, counts 0-2000")
def counts(S):
    from pymoo.termination import get_termination
    from pymoo.termination.max_eval import MaximumFunctionCallTermination
    from pymoo.termination.max_gen import MaximumGenerationTermination
    k = S.choose(3)
    name = ["n_gen", "n_iter", "n_eval", "n_evals"][S.choose(4)]
    gen = name in ("n_gen", "n_iter")
    cls = MaximumGenerationTermination if gen else MaximumFunctionCallTermination

    def alg(c):
        return Alg(n_gen=c, n_iter=c, evaluator=Alg(n_eval=7)) if gen else Alg(n_gen=7, n_iter=7, evaluator=Alg(n_eval=c))
    if k == 0:
        limits(S, lambda n: get_termination(name, n), alg)
        S.require(isinstance(get_termination(name, 3), cls), "names")
    else:
        t = cls(None) if k == 1 else cls()
        t.update(alg(S.int("c", 0, 10 ** 9)))
        S.require(not t.has_terminated(), "no limit: never")


@harness("P29", "clock", quick=[dict()], functions=[T + "max_time.py:TimeBasedTermination._update", "pymoo/util/misc.py:time_to_int"], bounds="symbolic clock readings; limits as seconds or as text", stubs=["time.time returns a symbolic value"])
def clock(S):
    from pymoo.termination import get_termination
    spec, sec = [(7, 7), (0.5, 0.5), ("90", 90), ("01:30", 90), ("2:00:05", 7205), ("30:00:00", 108000), ("00:00:01", 1)][S.choose(7)]
    start = S.real("start", lo=0)
    e1, e2 = S.real("e1", lo=0), S.real("e2", lo=0)
    S.assume(S.xle(e1, e2))
    real = time.time
    try:
        t = get_termination("time", spec)
        now = start + e1
        time.time = lambda: now
        p1 = t.update(Alg(start_time=start))
        S.require(S.iff(t.has_terminated(), S.xle(sec, e1)), "ended exactly when the time is used up")
        now = start + e2
        p2 = t.update(Alg(start_time=start))
        S.require(S.iff(t.has_terminated(), S.xle(sec, e2)), "ended exactly when the time is used up (2)")
        S.require(S.all([S.xle(0.0, p1), S.xle(p1, p2)]), "progress")
    finally:
        time.time = real


@harness("P29", "target", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], functions=[T + "fmin.py:MinimumFunctionValueTermination._update"], bounds="2-3 individuals, symbolic F, CV and target")
def target(S, n):
    from pymoo.termination import get_termination
    F, CV = S.reals("F", (n, 1)), S.reals("cv", (n, 1), lo=0)
    f, feas = [F[i, 0] for i in range(n)], [S.xle(CV[i, 0], 0.0) for i in range(n)]
    goal = S.real("goal")
    t = get_termination("fmin", goal)
    p = t.update(Alg(opt=pop_of(S, F=F, CV=CV), problem=None))
    S.require(S.xle(0.0, p), "non-negative")
    S.require(S.iff(t.has_terminated(), S.any([S.all([feas[i], S.xle(f[i], goal)]) for i in range(n)])), "ended exactly when a feasible value reaches the target")


class Ind:
    def __init__(self, vals):
        self.vals, self.k, self.seen = vals, 0, []

    def do(self, F, **kw):
        self.seen.append(F)
        self.k += 1
        return self.vals[self.k - 1]

    def __call__(self, F, **kw):
        return self.do(F, **kw)


@harness("P29", "indicator", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], functions=[T + "indicator.py:IndicatorTermination._update"], bounds="2-3 updates with symbolic indicator values, symbolic threshold")
def indicator(S, n):
    from pymoo.termination.indicator import IndicatorTermination
    v = [S.real("v%d" % i) for i in range(n)]
    goal = ["minimize", "maximize"][S.choose(2)]
    th = S.real("threshold")
    ind = Ind(v)
    t = IndicatorTermination(ind, th, goal)
    F = S.reals("F", (1, 2))
    for i in range(n):
        p = t.update(Alg(opt=pop_of(S, F=F, CV=S.array([[0.0]]))))
        S.require(S.xle(0.0, p), "non-negative")
        S.require(S.iff(t.has_terminated(), S.xle(v[i], th) if goal == "minimize" else S.xle(th, v[i])), "ended exactly when the threshold is reached")
    S.require(len(ind.seen) == n and all(g.shape == (1, 2) for g in ind.seen), "indicator of the optimum's objectives")


def stub(vals):
    from pymoo.core.termination import Termination

    class T0(Termination):
        def __init__(self):
            super().__init__()
            self.n = 0

        def _update(self, algorithm):
            self.n += 1
            return vals[self.n - 1]
    return T0()


@harness("P29", "combined", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], functions=["pymoo/core/termination.py:TerminateIfAny._update", "pymoo/core/termination.py:TerminateIfAll._update", T + "collection.py:TerminationCollection._update"], bounds="2-3 criteria with symbolic progress, 2 updates")
def combined(S, n):
    from pymoo.core.termination import TerminateIfAll, TerminateIfAny, NoTermination
    from pymoo.termination.collection import TerminationCollection
    P = S.reals("p", (2, n), lo=0)
    ts = [stub([P[0, i], P[1, i]]) for i in range(n)]
    k = S.choose(3)
    c = [TerminateIfAny, TerminateIfAll, TerminationCollection][k](*ts)
    q = S.all if k == 1 else S.any
    for g in range(2):
        c.update(None)
        S.require(S.iff(c.has_terminated(), q([S.xle(1.0, P[g, i]) for i in range(n)])), "any / all of the criteria")
        S.require([t.n for t in ts] == [g + 1] * n, "every criterion sees every update once")
        S.require(S.all([S.same(t.perc, P[g, i]) for i, t in enumerate(ts)]), "the parts keep their own progress")
    z = NoTermination()
    z.update(None)
    S.require(not z.has_terminated(), "no termination never ends")


@harness("P29", "forced", quick=[dict()], functions=["pymoo/core/termination.py:Termination.terminate", "pymoo/core/termination.py:Termination.update"], bounds="terminate() on a criterion or on one part of a combination")
def forced(S):
    from pymoo.core.termination import TerminateIfAny, NoTermination
    p = S.real("p", lo=0)
    a, b = stub([p] * 4), stub([p] * 4)
    c = TerminateIfAny(a, b)
    c.update(None)
    S.require(S.iff(c.has_terminated(), S.xle(1.0, p)), "not yet forced")
    who = [a, b, c, None][S.choose(4)]
    if who is not None:
        who.terminate()
        c.update(None)
        S.require(c.has_terminated() and not c.do_continue(), "forced")
        z = NoTermination()
        z.terminate()
        z.update(None)
        S.require(z.has_terminated(), "forced")
    else:
        # a negative progress is refused
        t = stub([S.real("neg", hi=-0.5)])
        try:
            t.update(None)
            S.require(False, "negative progress refused")
        except AssertionError:
            pass


@harness("P29", "tuples", quick=[dict()], functions=["pymoo/util/misc.py:termination_from_tuple", T + "__init__.py:get_termination"], bounds="every registered name with symbolic limits")
def tuples(S):
    from pymoo.util.misc import termination_from_tuple
    from pymoo.core.termination import NoTermination
    lim, c = S.int("limit", 1, 50), S.int("c", 0, 60)
    name = ["n_gen", "n_iter", "n_eval", "n_evals"][S.choose(4)]
    t = termination_from_tuple((name, lim))
    t.update(Alg(n_gen=c if name in ("n_gen", "n_iter") else 0, evaluator=Alg(n_eval=c if name in ("n_eval", "n_evals") else 0)))
    S.require(S.iff(t.has_terminated(), S.xle(lim, c)), "tuple")
    z = NoTermination()
    S.require(termination_from_tuple(z) is z, "an object is taken as it is")
