"""P12: real-valued mutations."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, rows, vsame

M = "pymoo/operators/mutation/"
META = meta(
    "Real-valued mutations respect the bounds and their probabilities",
    "For individuals within the bounds, polynomial and Gaussian mutation return the same number of individuals with finite values within [xl, xu]; a variable with xl = xu never changes, "
    "a variable not drawn for mutation keeps its value, at_least_once draws at least one, and an individual not drawn (prob) is returned unchanged. Polynomial mutation moves down for draws "
    "below one half, up above, by exactly the bounded polynomial distribution; with inplace=False the given population is not modified.",
    ["inputs"], "all variable values within the bounds, all random draws, all probabilities",
    "tests draw a few random populations on the unit box",
    ["pymoo/operators/mutation/pm.py", "pymoo/operators/mutation/gauss.py", "pymoo/core/mutation.py", "pymoo/operators/crossover/binx.py"],
    [("polynomial mutation", M + "pm.py:mut_pm"), ("gaussian mutation", M + "gauss.py:mut_gauss"), ("shell", "pymoo/core/mutation.py:Mutation.do")],
    "bounded: 1-2 individuals, 2-3 variables; bounds concrete; x**p uninterpreted with sign/monotonicity facts, eta=1 interpreted exactly; normal draws arbitrary reals")

XL, XU = np.array([-1.0, 2.0]), np.array([2.0, 2.0])


class Draws:
    def __init__(self, *vals):
        self.vals = list(vals)

    def random(self, size=None):
        return self.vals.pop(0)

    def integers(self, n):
        return n - 1


def individuals(S, n, xl, xu):
    X = S.reals("X", (n, len(xl)))
    for i in range(n):
        for j in range(len(xl)):
            S.assume(S.all([S.xle(xl[j], X[i, j]), S.xle(X[i, j], xu[j])]))
    return X, rows(X)


def in_bounds(S, off, xl, xu):
    for ind in off:
        x = ind.get("X")
        for j in range(len(xl)):
            S.require(S.finite(x[j]), "finite")
            S.require(S.all([S.xle(xl[j], x[j]), S.xle(x[j], xu[j])]), "within the bounds")


@harness("P12", "pm", quick=[dict(n=1, once=0), dict(n=1, once=1)], functions=[M + "pm.py:mut_pm", M + "pm.py:PolynomialMutation._do", "pymoo/core/mutation.py:Mutation.do", "pymoo/operators/crossover/binx.py:mut_binomial"],
         bounds="1 individual, 2 variables (one with xl = xu), value from four representatives, symbolic draws", timeout_ms=8000)
def pm(S, n, once):
    from pymoo.operators.mutation.pm import PM
    p = problem(n_var=2, xl=XL, xu=XU)
    R = [[S.pick([-1.0, 2.0, 0.5, 1.75]), 2.0]]
    pop = pop_of(S, X=np.array(R))
    inpl = S.choose(2) == 1
    out = PM(prob=S.pick([0.0, 0.5, 1.0]), prob_var=0.5, at_least_once=bool(once), eta=3.5)(p, pop, inplace=inpl, random_state=S.rng())
    S.require(len(out) == 1, "same number of individuals")
    in_bounds(S, out, XL, XU)
    S.require(S.same(out[0].get("X")[1], 2.0), "fixed variable")
    if not inpl:
        S.require(vsame(S, pop[0].get("X"), R[0]), "inplace=False leaves the population alone")


@harness("P12", "pm_formula", quick=[dict()], functions=[M + "pm.py:mut_pm"], bounds="2 individuals, 1-2 variables, four values, eta=1, symbolic draws", timeout_ms=10000)
def pm_formula(S):
    from pymoo.operators.mutation.pm import mut_pm
    x = S.pick([0.0, 0.25, 0.5, 1.0])
    u = S.real("u", lo=0, hi=1)
    m = S.pick([0.25, 0.75])
    X = np.array([[2 * x, 3.0]])
    Y = mut_pm(X, np.array([0.0, 2.0]), np.array([2.0, 4.0]), np.array([1.0]), np.array([0.5]), False, random_state=Draws(np.array([[m, 0.75]]), S.array([u])) if m < 0.5 else Draws(np.array([[m, 0.75]]), S.array([])))
    S.require(S.same(Y[0, 1], 3.0), "a variable not drawn keeps its value")
    y = Y[0, 0] / 2
    if m > 0.5:
        S.require(S.same(Y[0, 0], 2 * x), "a variable not drawn keeps its value")
        return
    # y = x + delta; delta = (2u + (1-2u)(1-x)^2)^(1/2) - 1 for u <= 1/2, mirrored above
    dn = S.sqrt(2 * u + (1 - 2 * u) * (1 - x) * (1 - x)) - 1
    v = 2 * (1 - u) + (2 * u - 1) * x * x
    up = 1 - S.sqrt(S.max([v, 0]))
    ref = S.ite(S.xle(u, 0.5), x + dn, x + up)
    S.require(S.eq(y, ref), "polynomial distribution")
    S.require(S.implies(S.xle(u, 0.5), S.xle(y, x)), "down below one half")
    S.require(S.implies(S.xlt(0.5, u), S.xle(x, y)), "up above one half")


@harness("P12", "pm_each", quick=[dict()], functions=[M + "pm.py:mut_pm"], bounds="2 individuals with different variables and distribution indices, 2 variables, concrete masks, symbolic draws", timeout_ms=8000)
def pm_each(S):
    """the parameters and draws of each individual/variable are used for it"""
    from pymoo.operators.mutation.pm import mut_pm
    u = S.reals("u", (2,), lo=0, hi=1)
    S.assume(S.all([S.xlt(u[0], 0.5), S.xlt(0.5, u[1])]))
    X = np.array([[0.5, 5.0], [1.0, 4.5]])
    Y = mut_pm(X, np.array([0.0, 4.0]), np.array([1.0, 5.0]), np.array([1.0, 0.0]), np.array([0.25, 0.5]), False,
               random_state=Draws(np.array([[0.0, 0.3], [0.6, 0.4]]), u))
    S.require(S.all([S.same(Y[0, 1], 5.0), S.same(Y[1, 0], 1.0)]), "entries not drawn are kept")
    S.require(S.eq(Y[0, 0] + 0.5, S.sqrt(2 * u[0] + (1 - 2 * u[0]) * 0.25)), "first individual: its own index and draw")
    # eta = 0: linear; x at the middle of [4, 5]
    S.require(S.eq(Y[1, 1], 4.5 + 1 - (2 * (1 - u[1]) + (2 * u[1] - 1) * 0.5)), "second individual: its own index and draw")


@harness("P12", "gauss", quick=[dict(n=1), dict(n=2)], functions=[M + "gauss.py:mut_gauss", M + "gauss.py:GaussianMutation._do", "pymoo/operators/repair/bounds_repair.py:repair_random_init"], bounds="1-2 individuals, 2 variables", timeout_ms=6000)
def gauss(S, n):
    from pymoo.operators.mutation.gauss import GaussianMutation
    xl, xu = np.array([-1.0, 2.0]), np.array([2.0, 2.0])
    X, R = individuals(S, n, xl, xu)
    if n == 2:
        S.assume(S.same(X[0, 0], 0.5))
    pop = pop_of(S, X=X)
    out = GaussianMutation(prob_var=S.pick([0.0, 0.5]) if n == 1 else 0.5, sigma=0.25)(problem(n_var=2, xl=xl, xu=xu), pop, random_state=S.rng())
    S.require(len(out) == n, "same number")
    in_bounds(S, out, xl, xu)
    S.require(S.unseeded() == 0, "draws only from the given generator")


@harness("P12", "gauss_formula", quick=[dict()], functions=[M + "gauss.py:mut_gauss"], bounds="2 individuals, 2 variables, concrete masks, arbitrary normal draws small enough to stay inside")
def gauss_formula(S):
    from pymoo.operators.mutation.gauss import mut_gauss
    z = S.reals("z", (2,), lo=-1, hi=1)

    class R:
        def random(self, size=None):
            return np.array([[0.0, 0.9], [0.9, 0.2]])

        def normal(self, loc, scale):
            return loc + scale * z
    X = np.array([[0.5, 5.0], [1.0, 6.0]])
    Y = mut_gauss(X, np.array([0.0, 4.0]), np.array([1.0, 8.0]), np.array([0.125, 0.25]), np.array([0.5, 0.25]), random_state=R())
    S.require(S.all([S.same(Y[0, 1], 5.0), S.same(Y[1, 0], 1.0)]), "entries not drawn are kept")
    S.require(S.all([S.eq(Y[0, 0], 0.5 + 0.125 * z[0]), S.eq(Y[1, 1], 6.0 + 0.25 * 4 * z[1])]), "sigma scales with the range")


@harness("P12", "shell", quick=[dict(n=2)], functions=["pymoo/core/mutation.py:Mutation.do", "pymoo/core/mutation.py:Mutation.get_prob_var"], bounds="2 individuals", stubs=["the operator's own _do returns fresh values"])
def shell(S, n):
    from pymoo.core.mutation import Mutation
    X = S.reals("X", (n, 1))
    R = rows(X)
    Y = S.reals("Y", (n, 1))

    class Op(Mutation):
        def _do(self, problem, X, *a, random_state=None, **k):
            return Y + 0
    prob = S.pick([0.0, 0.5, 1.0])
    inpl = S.choose(2) == 1
    pop = pop_of(S, X=X)
    out = Op(prob=prob)(problem(n_var=1), pop, inplace=inpl, random_state=S.rng(open_=True))
    S.require(len(out) == n, "same number")
    if inpl:
        S.require(all(a is b for a, b in zip(out, pop)), "the same individuals")
    else:
        S.require(all(a is not b for a, b in zip(out, pop)) and S.all([S.same(pop[i].get("X")[0], R[i][0]) for i in range(n)]), "copies")
    for i in range(n):
        v = out[i].get("X")[0]
        mutated, kept = S.same(v, Y[i, 0]), S.same(v, R[i][0])
        S.require(S.any([S.all([mutated, prob > 0]), S.all([kept, prob < 1])]), "an individual is mutated or kept, as drawn")


@harness("P12", "prob_var", quick=[dict()], functions=["pymoo/core/mutation.py:Mutation.get_prob_var", "pymoo/core/variable.py:get"], bounds="n_var 1..5")
def prob_var(S):
    from pymoo.core.mutation import Mutation
    nv = 1 + S.choose(5)
    d = Mutation().get_prob_var(problem(n_var=nv), size=(3, 1))
    S.require(d.shape == (3, 1) and all(abs(float(v) - min(0.5, 1 / nv)) < 1e-15 for v in d[:, 0]), "default: one expected mutation, at most one half")
    v = S.real("v", lo=0, hi=1)
    d = Mutation(prob_var=v).get_prob_var(problem(n_var=nv), size=2)
    S.require(len(d) == 2 and S.all([S.same(q, v) for q in d]), "user value")


@harness("P12", "at_least_once", quick=[dict(n=2, m=2)], functions=["pymoo/operators/crossover/binx.py:mut_binomial", "pymoo/util/misc.py:row_at_least_once_true"], bounds="2x2 masks")
def at_least_once(S, n, m):
    from pymoo.operators.crossover.binx import mut_binomial
    p = S.reals("p", (n,), lo=0, hi=1)
    once = S.choose(2) == 1
    draws = S.reals("d", (n, m), lo=0, hi=1)

    class R:
        used = 0

        def random(self, size=None):
            S.require(tuple(size) == (n, m), "one draw per entry")
            return draws

        def integers(self, k):
            R.used += 1
            return S.choose(k)
    M_ = mut_binomial(n, m, p, at_least_once=once, random_state=R())
    S.require(M_.shape == (n, m), "shape")
    for i in range(n):
        base = [S.xlt(draws[i, j], p[i]) for j in range(m)]
        got = [S.truth(M_[i, j]) for j in range(m)]
        none = S.truth(S.not_(S.any(base)))
        if once and none:
            S.require(sum(got) == 1, "exactly one is forced when none was drawn")
        else:
            S.require(S.all([S.iff(g, b) for g, b in zip(got, base)]), "entry is drawn exactly when its draw is below the probability")
