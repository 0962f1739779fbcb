"""P11: real-valued crossovers."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, rows, vsame

C = "pymoo/operators/crossover/"
META = meta(
    "Real-valued crossovers respect the bounds and their definitions",
    "For parents within the problem's bounds, SBX, the differential-evolution crossovers (DEX; DEM with each of its bound repairs) and PCX return exactly n_offsprings per mating, every "
    "value finite and within [xl, xu], and leave the parents' X unchanged. SBX leaves a variable of both children at the parents' values unless it is crossed "
    "(never when the parents agree in it or xl = xu), computes crossed values with the bounded simulated-binary formula, and without exchange (prob_exch = 0) each child keeps the side of its own parent. "
    "DE donors are base + F * (difference of the pairs), and DEX offspring take donor genes where the CR mask says so (at least one) and the target's elsewhere.",
    ["inputs"], "all parent values within the bounds, all random draws",
    "tests draw a few random populations; the faulty region (a parent on a bound, a rare draw, n_offsprings=1) is a corner",
    ["pymoo/operators/crossover/sbx.py", "pymoo/operators/crossover/dex.py", "pymoo/operators/crossover/pcx.py", "pymoo/core/crossover.py", "pymoo/operators/repair/bounds_repair.py"],
    [("SBX", C + "sbx.py:cross_sbx"), ("DE", C + "dex.py:DEX.do"), ("DE repair", C + "dex.py:DEM.do"), ("PCX", C + "pcx.py:pcx"), ("shell", "pymoo/core/crossover.py:Crossover.do")],
    "bounded: 1-2 matings, 2 variables, concrete bounds, symbolic parents and draws; x**p uninterpreted except for sign, monotonicity facts the engine adds; reals instead of floats")

XL, XU = np.array([-1.0, 2.0]), np.array([2.0, 2.0])


def setup(S, npar, nmat, same=True, nv=2, fixed=True):
    xl = (XL if fixed else np.array([-1.0, 0.0]))[:nv]
    xu = (XU if fixed else np.array([2.0, 0.5]))[:nv]
    X = S.reals("X", (npar * nmat, nv))
    for i in range(npar * nmat):
        for j in range(nv):
            S.assume(S.all([S.xle(xl[j], X[i, j]), S.xle(X[i, j], xu[j])]))
    return problem(n_var=nv, xl=xl, xu=xu), X, rows(X), xl, xu


def in_bounds(S, off, xl, xu, what=""):
    for ind in off:
        x = ind.get("X")
        for j in range(len(xl)):
            S.require(S.finite(x[j]), what + "finite")
            S.require(S.all([S.xle(xl[j], x[j]), S.xle(x[j], xu[j])]), what + "within the bounds")


def unchanged(S, pop, R):
    for ind, r in zip(pop, R):
        S.require(vsame(S, ind.get("X"), r), "parents unchanged")


def parents_of(npar, nmat):
    return np.arange(npar * nmat).reshape(nmat, npar)


@harness("P11", "sbx", quick=[dict(noff=2, exch=1.0), dict(noff=2, exch=0.0), dict(noff=1, exch=1.0)], functions=[C + "sbx.py:cross_sbx", C + "sbx.py:SimulatedBinaryCrossover._do", "pymoo/core/crossover.py:Crossover.do"],
         bounds="1 mating, 2 variables (one with xl=xu), parents from five representative pairs (on the bounds, ordered both ways, equal), symbolic draws", timeout_ms=8000)
def sbx(S, noff, exch):
    from pymoo.operators.crossover.sbx import SBX
    R = [[v, 2.0] for v in S.pick([(-1.0, 2.0), (2.0, -0.5), (0.5, 0.5), (0.25, 0.5), (1.0, 0.0)])]
    xl, xu = XL, XU
    p = problem(n_var=2, xl=xl, xu=xu)
    pop = pop_of(S, X=np.array(R))
    op = SBX(prob=S.pick([0.0, 0.5, 1.0]), prob_var=S.pick([0.5, 1.0]), n_offsprings=noff, prob_exch=exch, eta=3.5)
    off = op(p, pop, parents=parents_of(2, 1), random_state=S.rng(open_=exch == 0.0))
    S.require(len(off) == noff, "number of offspring")
    in_bounds(S, off, xl, xu)
    unchanged(S, pop, R)
    S.require(S.same(off[0].get("X")[1], 2.0), "fixed variable")
    if noff == 2:
        a, b = R[0][0], R[1][0]
        c, d = [o.get("X")[0] for o in off]
        S.require(S.implies(S.same(a, b), S.all([S.same(c, a), S.same(d, b)])), "agreeing parents are not crossed")
        if exch == 0.0:
            S.require(S.implies(S.xlt(a, b), S.xle(c, d)), "without exchange the child keeps the side of its parent (lower first)")


class Draws:
    """hands out given arrays in turn"""

    def __init__(self, *vals):
        self.vals = list(vals)

    def random(self, size=None):
        v = self.vals.pop(0)
        return v


@harness("P11", "sbx_formula", quick=[dict(k=0), dict(k=1)], functions=[C + "sbx.py:cross_sbx"], bounds="1 mating, 1 variable, five pairs of parents, eta=1, symbolic spread draw", timeout_ms=10000)
def sbx_formula(S, k):
    from pymoo.operators.crossover.sbx import cross_sbx
    y1, y2 = S.pick([(0.25, 0.75), (0.0, 0.5), (0.5, 1.0), (0.125, 0.25), (0.0, 1.0)])
    u = S.real("u", lo=0)
    S.assume(S.xlt(u, 1))
    X = S.array([[[y1]], [[y2]]] if k == 0 else [[[y2]], [[y1]]])
    rs = Draws(S.array([[0.0]]), S.array([u]), S.array([0.9]))
    Q = cross_sbx(X, np.array([0.0]), np.array([1.0]), np.array([[1.0]]), np.array([[1.0]]), np.array([[0.0]]), random_state=rs)

    def betaq(beta):
        alpha = 2 - 1 / (beta * beta)
        return S.ite(S.xle(u * alpha, 1), S.sqrt(u * alpha), S.sqrt(1 / (2 - u * alpha)))
    d = y2 - y1
    c1 = (y1 + y2 - betaq(1 + 2 * y1 / d) * d) / 2
    c2 = (y1 + y2 + betaq(1 + 2 * (1 - y2) / d) * d) / 2
    a, b = Q[0, 0, 0], Q[1, 0, 0]
    ok = S.all([S.eq(a, S.max([0, c1])), S.eq(b, S.min([1, c2]))])
    if k:
        # which child gets which value when the first parent is the larger one: see the known finding
        ok = S.any([ok, S.all([S.eq(b, S.max([0, c1])), S.eq(a, S.min([1, c2]))])])
    S.require(ok, "children of the bounded simulated binary distribution")


@harness("P11", "sbx_noexchange", quick=[dict()], finding=True, functions=[C + "sbx.py:cross_sbx"], bounds="parents 0.75 and 0.25, no exchange")
def sbx_noexchange(S):
    from pymoo.operators.crossover.sbx import SBX
    p = problem(n_var=1, xl=np.array([0.0]), xu=np.array([1.0]))
    pop = pop_of(S, X=np.array([[0.75], [0.25]]))
    c, d = [o.get("X")[0] for o in SBX(prob=1.0, prob_var=1.0, prob_exch=0.0, eta=3.5)(p, pop, parents=parents_of(2, 1), random_state=S.rng(open_=True))]
    S.require(S.xle(d, c), "without exchange the child of the larger parent keeps the upper side")


@harness("P11", "dex_jitter_ignored", quick=[dict()], finding=True, functions=[C + "dex.py:DEX.do"], bounds="parents 0, 1, 0; jitter off")
def dex_jitter(S):
    from pymoo.operators.crossover.dex import DEX
    pop = pop_of(S, X=np.array([[0.0], [1.0], [0.0]]))
    off = DEX(CR=1.0, F=0.5, jitter=False)(problem(n_var=1), pop, parents=parents_of(3, 1), random_state=S.rng())
    S.require(S.same(off[0].get("X")[0], 0.5), "jitter=False means no jitter")


@harness("P11", "de_differential", quick=[dict(nd=1, opt=0), dict(nd=2, opt=0), dict(nd=1, opt=1), dict(nd=1, opt=2), dict(nd=1, opt=3)], functions=[C + "dex.py:de_differential"], bounds="2 matings, 2 variables, 1-2 differences")
def de_diff(S, nd, opt):
    from pymoo.operators.crossover.dex import de_differential
    X = S.reals("X", (1 + 2 * nd, 2, 2))
    R = [[[X[i, k, j] for j in range(2)] for k in range(2)] for i in range(1 + 2 * nd)]
    F = S.real("F", lo=0, hi=2)
    u = S.reals("u", (2,), lo=0, hi=1)
    kw = [dict(jitter=False), dict(jitter=True, gamma=0.5), dict(dither="vector", jitter=False), dict(dither="scalar", jitter=False)][opt]
    rs = Draws(u[0] if opt == 3 else u)
    V = de_differential(X, F, random_state=rs, **kw)
    for k in range(2):
        f = [F, F * (1 + 0.5 * (u[k] - 0.5)), F + u[k] * (1 - F), F + u[0] * (1 - F)][opt]
        for j in range(2):
            ref = R[0][k][j] + sum(f * (R[1 + 2 * q][k][j] - R[2 + 2 * q][k][j]) for q in range(nd))
            S.require(S.eq(V[k, j], ref), "base plus scaled differences")


@harness("P11", "dex", quick=[dict(variant="bin", nmat=1), dict(variant="exp", nmat=1), dict(variant="bin", nmat=2)], functions=[C + "dex.py:DEX.do", C + "dex.py:rnd_F", C + "binx.py:mut_binomial", C + "expx.py:mut_exp",
                                                                                     "pymoo/operators/repair/bounds_repair.py:repair_random_init"],
         bounds="1-2 matings, 2 variables")
def dex(S, variant, nmat):
    from pymoo.operators.crossover.dex import DEX
    p, X, R, xl, xu = setup(S, 3, nmat, fixed=False, nv=2)
    if nmat == 2:
        # the first mating is fixed: only rows must not mix
        for q in range(3):
            for j in range(2):
                S.assume(S.same(X[q, j], [[0.0, 0.25], [1.0, 0.5], [0.5, 0.25]][q][j]))
            S.assume(S.same(X[3 + q, 1], 0.125))
    pop = pop_of(S, X=X)
    off = DEX(variant=variant, CR=0.5, F=S.pick([None, 1.0]) if nmat == 1 else 1.0)(p, pop, parents=parents_of(3, nmat), random_state=S.rng())
    S.require(len(off) == nmat, "one trial vector per target")
    in_bounds(S, off, xl, xu)
    unchanged(S, pop, R)


@harness("P11", "dex_mask", quick=[dict(variant="bin"), dict(variant="exp")], functions=[C + "dex.py:DEX.do"], bounds="1 mating, 3 variables, unbounded problem, F=1/2")
def dex_mask(S, variant):
    from pymoo.operators.crossover.dex import DEX
    X = S.reals("X", (3, 3))
    R = rows(X)
    pop = pop_of(S, X=X)
    off = DEX(variant=variant, CR=S.pick([0.0, 0.5, 1.0]), F=0.5)(problem(n_var=3), pop, parents=parents_of(3, 1), random_state=S.rng())
    x = off[0].get("X")
    # the weight is F up to the relative jitter of 1e-4 / 2 (applied even when switched off: known finding)
    def donor(j):
        a, b = 0.5 * (R[1][j] - R[2][j]), x[j] - R[0][j]
        return S.any([S.all([S.xle(a * 0.9999, b), S.xle(b, a * 1.0001)]), S.all([S.xle(a * 1.0001, b), S.xle(b, a * 0.9999)])])
    don = [donor(j) for j in range(3)]
    tgt = [S.same(x[j], R[0][j]) for j in range(3)]
    S.require(S.all([S.any([a, b]) for a, b in zip(don, tgt)]), "donor or target gene")
    S.require(S.any(don), "at least one donor gene")
    unchanged(S, pop, R)


@harness("P11", "dem", quick=[dict(rep="bounce-back"), dict(rep="midway"), dict(rep="rand-init"), dict(rep="to-bounds")], functions=[C + "dex.py:DEM.do", C + "dex.py:bounce_back", C + "dex.py:midway", C + "dex.py:rand_init", C + "dex.py:to_bounds"],
         bounds="1 mating, 1 variable in [-1, 2], gamma off and on")
def dem(S, rep):
    from pymoo.operators.crossover.dex import DEM
    from pymoo.core.population import Population
    p, X, R, xl, xu = setup(S, 3, 1, nv=1)
    pop = pop_of(S, X=X)
    F = S.pick([None, 0.5])
    off = DEM(F=F, gamma=S.pick([None, 0.5]) if F else None, de_repair=rep).do(p, pop, parents=parents_of(3, 1), random_state=S.rng())
    S.require(len(off) == 1, "one donor")
    in_bounds(S, off, xl, xu)
    unchanged(S, pop, R)


@harness("P11", "de_repairs", quick=[dict(rep="bounce-back"), dict(rep="midway"), dict(rep="rand-init"), dict(rep="to-bounds"), dict(rep="random-init")],
         functions=[C + "dex.py:bounce_back", C + "dex.py:midway", C + "dex.py:rand_init", C + "dex.py:to_bounds", "pymoo/operators/repair/bounds_repair.py:repair_random_init"], bounds="2 points, 2 variables")
def de_repairs(S, rep):
    from pymoo.operators.crossover.dex import DE_REPAIRS
    from pymoo.operators.repair.bounds_repair import repair_random_init
    fun = DE_REPAIRS[rep] if rep != "random-init" else repair_random_init
    xl = S.reals("xl", (2,))
    xu = S.reals("xu", (2,))
    V = S.reals("V", (2, 2))
    B = S.reals("B", (2, 2))
    R, P = rows(V), rows(B)
    for j in range(2):
        S.assume(S.xle(xl[j], xu[j]))
        for i in range(2):
            S.assume(S.all([S.xle(xl[j], B[i, j]), S.xle(B[i, j], xu[j])]))
    out = fun(V, B, xl, xu, random_state=S.rng())
    for i in range(2):
        for j in range(2):
            inside = S.all([S.xle(xl[j], R[i][j]), S.xle(R[i][j], xu[j])])
            S.require(S.implies(inside, S.same(out[i, j], R[i][j])), "values within the bounds are kept")
            S.require(S.all([S.xle(xl[j], out[i, j]), S.xle(out[i, j], xu[j])]), "repaired into the bounds")
            if rep == "midway":
                S.require(S.implies(S.xlt(R[i][j], xl[j]), S.eq(2 * out[i, j], xl[j] + P[i][j])), "half way between the bound and the base")
                S.require(S.implies(S.xlt(xu[j], R[i][j]), S.eq(2 * out[i, j], xu[j] + P[i][j])), "half way between the bound and the base")
            if rep in ("bounce-back", "random-init"):
                S.require(S.implies(S.xlt(R[i][j], xl[j]), S.xle(out[i, j], P[i][j])), "between the violated bound and the base")
                S.require(S.implies(S.xlt(xu[j], R[i][j]), S.xle(P[i][j], out[i, j])), "between the violated bound and the base")
            S.require(S.same(B[i, j], P[i][j]), "base unchanged")


@harness("P11", "pcx", quick=[dict(nmat=1)], functions=[C + "pcx.py:pcx", C + "pcx.py:ParentCentricCrossover._do"], bounds="1 mating, 2 variables, fixed parents on an integer grid, symbolic draws", timeout_ms=8000)
def pcx(S, nmat):
    from pymoo.operators.crossover.pcx import PCX
    Xc = S.pick([[[0.0, 0.25], [1.0, 0.5], [2.0, 0.0]], [[0.0, 0.25], [0.0, 0.25], [0.0, 0.25]], [[-1.0, 0.0], [2.0, 0.5], [2.0, 0.5]]])
    xl, xu = np.array([-1.0, 0.0]), np.array([2.0, 0.5])
    p = problem(n_var=2, xl=xl, xu=xu)
    pop = pop_of(S, X=np.array(Xc))
    off = PCX(prob=1.0)(p, pop, parents=parents_of(3, 1), random_state=S.rng())
    S.require(len(off) == 1, "one offspring")
    in_bounds(S, off, xl, xu)
    unchanged(S, pop, Xc)


@harness("P11", "shell", quick=[dict(npar=2, noff=2), dict(npar=2, noff=1), dict(npar=2, noff=3), dict(npar=3, noff=1), dict(npar=1, noff=2)], functions=["pymoo/core/crossover.py:Crossover.do"], bounds="2 matings, 1 variable",
         stubs=["the operator's own _do returns fresh values"])
def shell(S, npar, noff):
    from pymoo.core.crossover import Crossover
    X = S.reals("X", (npar * 2, 1))
    R = rows(X)
    Qs = S.reals("Q", (noff, 2, 1))

    class Op(Crossover):
        def _do(self, problem, X, *a, random_state=None, **k):
            for i in range(npar):
                for q in range(2):
                    S.require(S.same(X[i, q, 0], R[q * npar + i][0]), "parents handed over per mating")
            return Qs + 0
    op = Op(npar, noff, prob=S.pick([0.0, 0.5, 1.0]))
    pop = pop_of(S, X=X)
    off = op(problem(n_var=1), pop, parents=parents_of(npar, 2), random_state=S.rng())
    S.require(len(off) == 2 * noff, "n_offsprings per mating")
    for q in range(2):
        cs = [off[i * 2 + q].get("X")[0] for i in range(noff)]
        P = [R[q * npar + i][0] for i in range(npar)]
        crossed = S.all([S.same(cs[i], Qs[i, q, 0]) for i in range(noff)])
        if noff == npar:
            copied = S.all([S.same(cs[i], P[i]) for i in range(noff)])
        else:
            copied = S.all([S.any([S.same(c, x) for x in P]) for c in cs] + ([S.any([S.same(c, x) for c in cs]) for x in P] if noff > npar else []))
        S.require(S.any([S.all([crossed, op.prob.value > 0]), S.all([copied, op.prob.value < 1])]), "a mating is crossed as a whole or copies its parents")
    unchanged(S, pop, R)
