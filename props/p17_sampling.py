"""P17: sampling."""
import numpy as np
from symx.harness import harness
from common import meta, problem, rows

S_ = "pymoo/operators/sampling/"
META = meta(
    "Sampling yields the requested number of samples within the bounds",
    "Random, Latin hypercube, integer and binary sampling return exactly n_samples individuals with n_var values each, within [xl, xu] (in the unit box for random sampling without bounds); integer "
    "samples are integers and can take both bounds, binary samples are booleans. In a Latin hypercube sample every variable has exactly one value in each of the n_samples equal slices of its range "
    "(at the slice centres with smooth=False), and the candidate with the best criterion is returned; all draws come from the given random state.",
    ["inputs"], "all random draws, all (finite) bounds, all criterion values",
    "tests look at one seed",
    [S_ + "rnd.py", S_ + "lhs.py", "pymoo/core/sampling.py"],
    [("random sampling", S_ + "rnd.py:FloatRandomSampling._do"), ("latin hypercube", S_ + "lhs.py:sampling_lhs"), ("integer sampling", S_ + "rnd.py:IntegerRandomSampling._do")],
    "bounded: 2-4 samples, 1-3 variables; exact reals (the last-ulp overshoot of xl + u*(xu - xl) is outside)")


def bounds(S, nv):
    lo, w = S.reals("lo", (nv,)), S.reals("w", (nv,), lo=0)
    return lo, lo + w, w


def check(S, pop, n, nv, lo, hi):
    S.require(len(pop) == n, "number of samples")
    out = []
    for ind in pop:
        x = ind.get("X")
        S.require(len(x) == nv, "number of variables")
        for j in range(nv):
            S.require(S.finite(x[j]), "finite")
            S.require(S.all([S.xle(lo[j], x[j]), S.xle(x[j], hi[j])]), "within the bounds")
        out.append(x)
    return out


@harness("P17", "float", quick=[dict(n=2, nv=2, b=1), dict(n=2, nv=2, b=0), dict(n=1, nv=1, b=1)], functions=[S_ + "rnd.py:FloatRandomSampling._do", S_ + "rnd.py:random", "pymoo/core/sampling.py:Sampling.do"], bounds="1-2 samples, symbolic bounds")
def float_(S, n, nv, b):
    from pymoo.operators.sampling.rnd import FloatRandomSampling
    from pymoo.operators.sampling import rnd
    r = S.rng()
    if b:
        lo, hi, _ = bounds(S, nv)
        p = problem(n_var=nv, xl=lo, xu=hi)
    else:
        lo, hi = [0] * nv, [1] * nv
        p = problem(n_var=nv)
    if S.choose(2) == 0:
        check(S, FloatRandomSampling()(p, n, random_state=r), n, nv, lo, hi)
    else:
        X = rnd.random(p, n_samples=n, random_state=r)
        S.require(X.shape == (n, nv), "shape")
        for row in rows(X):
            for j in range(nv):
                S.require(S.all([S.xle(lo[j], row[j]), S.xle(row[j], hi[j])]), "within the bounds")
    S.require(r.n_draws >= 1 and S.unseeded() == 0, "draws from the given generator")


@harness("P17", "spread", quick=[dict()], functions=[S_ + "rnd.py:FloatRandomSampling._do"], bounds="1 sample, 2 variables: every point of the box has a draw that yields it")
def spread(S):
    from pymoo.operators.sampling.rnd import FloatRandomSampling
    t = S.reals("t", (2,), lo=0, hi=1)
    for v in t:
        S.assume(S.xlt(v, 1))
    lo, hi = np.array([-2.0, 1.0]), np.array([3.0, 1.5])

    class R:
        def random(self, size=None):
            return t.reshape(size)

        def uniform(self, low=0.0, high=1.0, size=None):
            u = t.reshape(size if size is not None else np.shape(low))
            return low + (high - low) * u
    x = FloatRandomSampling()(problem(n_var=2, xl=lo, xu=hi), 1, random_state=R())[0].get("X")
    for j in range(2):
        S.require(S.eq(x[j], lo[j] + t[j] * (hi[j] - lo[j])), "the uniform draw scaled to the range of its variable")


@harness("P17", "integer", quick=[dict(n=2)], functions=[S_ + "rnd.py:IntegerRandomSampling._do"], bounds="2 samples, 2 variables; bounds from a list")
def integer(S, n):
    from pymoo.operators.sampling.rnd import IntegerRandomSampling
    lo, hi = S.pick([(np.array([0, -3]), np.array([1, 2])), (np.array([5, 2]), np.array([5, 9]))])
    seen = []

    class R:
        def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
            a, b = (0, low) if high is None else (low, high)
            seen.append((a, b if not endpoint else b + 1))
            return inner.integers(low, high, size=size, endpoint=endpoint)
    inner = S.rng()
    r = R() if S.choose(2) == 0 else inner
    out = check(S, IntegerRandomSampling()(problem(n_var=2, xl=lo, xu=hi, vtype=int), n, random_state=r), n, 2, lo, hi)
    for x in out:
        S.require(x.dtype == int or x.dtype == np.int64, "integers")
    if seen:
        S.require(sorted((int(a), int(b)) for a, b in seen) == sorted((int(lo[j]), int(hi[j]) + 1) for j in range(2)), "both bounds can be drawn")
    S.require(S.unseeded() == 0, "draws from the given generator")


@harness("P17", "binary", quick=[dict(n=2)], functions=[S_ + "rnd.py:BinaryRandomSampling._do"], bounds="2 samples, 2 variables")
def binary(S, n):
    from pymoo.operators.sampling.rnd import BinaryRandomSampling
    r = S.rng()
    pop = BinaryRandomSampling()(problem(n_var=2, xl=0, xu=1, vtype=bool), n, random_state=r)
    S.require(len(pop) == n, "number of samples")
    for ind in pop:
        x = ind.get("X")
        S.require(len(x) == 2 and x.dtype == bool, "booleans")
    S.require(r.n_draws >= 1 and S.unseeded() == 0, "draws from the given generator")


@harness("P17", "lhs", quick=[dict(n=2, nv=2), dict(n=3, nv=1), dict(n=3, nv=2)], thorough=[dict(n=3, nv=2), dict(n=4, nv=1), dict(n=2, nv=3)], functions=[S_ + "lhs.py:sampling_lhs_unit", S_ + "lhs.py:sampling_lhs", S_ + "lhs.py:LatinHypercubeSampling._do"], bounds="2-3 samples, 1-2 variables")
def lhs(S, n, nv):
    from pymoo.operators.sampling.lhs import LHS
    r = S.rng()
    lo, hi = np.array([-1.0, 2.0, 0.0])[:nv], np.array([2.0, 3.5, 1.0])[:nv]
    smooth = S.choose(2) == 0
    out = check(S, LHS(smooth=smooth, criterion=None)(problem(n_var=nv, xl=lo, xu=hi), n, random_state=r), n, nv, lo, hi)
    for j in range(nv):
        w = (hi[j] - lo[j]) / n
        for k in range(n):
            if smooth:
                hit = [S.all([S.xlt(lo[j] + k * w, x[j]), S.xle(x[j], lo[j] + (k + 1) * w)]) for x in out]
            else:
                hit = [S.eq(x[j], lo[j] + (k + 0.5) * w) for x in out]
            S.require(S.any(hit), "one value in every slice")
    S.require(S.unseeded() == 0 and r.n_draws >= 1, "draws from the given generator")


@harness("P17", "criterion", quick=[dict(k=3)], functions=[S_ + "lhs.py:sampling_lhs"], bounds="3 candidates of 2x1 values, symbolic criterion values")
def criterion(S, k):
    from pymoo.operators.sampling.lhs import sampling_lhs
    cand = []

    def crit(X):
        cand.append((rows(X), S.real("c%d" % len(cand))))
        return cand[-1][1]
    X = sampling_lhs(2, 1, xl=0.0, xu=1.0, smooth=True, criterion=crit, n_iter=k, random_state=S.rng())
    S.require(len(cand) == k, "number of candidates")
    best = S.max([c for _, c in cand])
    S.require(S.any([S.all([S.eq(c, best), S.all([S.eq(X[i, 0], R[i][0]) for i in range(2)])]) for R, c in cand]), "the candidate with the largest criterion")
    S.require(S.unseeded() == 0, "draws from the given generator")
