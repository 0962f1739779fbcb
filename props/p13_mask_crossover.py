"""P13: gene-exchanging crossovers."""
import math
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, rows, vsame

C = "pymoo/operators/crossover/"
META = meta(
    "Gene-exchanging crossovers only redistribute parental genes",
    "For uniform, half-uniform, k-point, exponential and binomial crossover the two children of a mating carry, in every position, exactly the two parental genes of that position (possibly "
    "exchanged). Half-uniform exchanges exactly half (rounded up) of the differing positions, k-point exchanges alternating contiguous segments between k distinct cut points, exponential one "
    "cyclically contiguous run of at least one position, binomial keeps at least one own gene; no crossover returns the parents themselves. The parents are not modified.",
    ["inputs"], "all parental genes, all random draws and permutations",
    "tests look at shapes; a lost or duplicated gene only shows for particular masks",
    [C + x for x in ("ux.py", "hux.py", "pntx.py", "expx.py", "binx.py", "nox.py")] + ["pymoo/util/misc.py"],
    [("exchange by mask", "pymoo/util/misc.py:crossover_mask"), ("cut points", C + "pntx.py:PointCrossover._do"), ("half-uniform", C + "hux.py:HalfUniformCrossover._do"),
     ("exponential run", C + "expx.py:mut_exp")],
    "bounded: 1-2 matings, 3-5 variables")


def run(S, op, nv, nmat=1, distinct=True):
    X = S.reals("X", (2 * nmat, nv))
    R = rows(X)
    if distinct:
        for q in range(nmat):
            for j in range(nv):
                S.assume(S.ne(X[2 * q, j], X[2 * q + 1, j]))
    pop = pop_of(S, X=X)
    off = op(problem(n_var=nv), pop, parents=np.arange(2 * nmat).reshape(nmat, 2), random_state=S.rng())
    for ind, r in zip(pop, R):
        S.require(vsame(S, ind.get("X"), r), "parents unchanged")
    S.require(S.unseeded() == 0, "draws only from the given generator")
    return R, off


def exchange(S, R, off, nv, nmat=1):
    """the exchange mask of every mating (requires that children only redistribute)"""
    S.require(len(off) == 2 * nmat, "two children per mating")
    masks = []
    for q in range(nmat):
        a, b = R[2 * q], R[2 * q + 1]
        c, d = off[q].get("X"), off[nmat + q].get("X")
        mask = []
        for j in range(nv):
            straight = S.all([S.same(c[j], a[j]), S.same(d[j], b[j])])
            crossed = S.all([S.same(c[j], b[j]), S.same(d[j], a[j])])
            S.require(S.any([straight, crossed]), "children redistribute the two parental genes of a position")
            mask.append(S.truth(crossed))
        masks.append(mask)
    return masks


@harness("P13", "ux", quick=[dict(nv=3, nmat=1), dict(nv=2, nmat=2)], functions=[C + "ux.py:UniformCrossover._do", "pymoo/util/misc.py:crossover_mask"], bounds="2-3 variables")
def ux(S, nv, nmat):
    from pymoo.operators.crossover.ux import UX
    R, off = run(S, UX(prob=1.0), nv, nmat, distinct=nmat == 2)
    exchange(S, R, off, nv, nmat)


@harness("P13", "hux", quick=[dict(nv=3), dict(nv=4)], thorough=[dict(nv=5)], functions=[C + "hux.py:HalfUniformCrossover._do"], bounds="3-4 variables, equal genes included")
def hux(S, nv):
    from pymoo.operators.crossover.hux import HUX
    eq = [S.choose(2) for _ in range(nv)]
    X = S.reals("X", (2, nv))
    for j in range(nv):
        S.assume(S.same(X[0, j], X[1, j]) if eq[j] else S.ne(X[0, j], X[1, j]))
    R = rows(X)
    pop = pop_of(S, X=X)
    off = HUX(prob=1.0)(problem(n_var=nv), pop, parents=np.array([[0, 1]]), random_state=S.rng())
    for ind, r in zip(pop, R):
        S.require(vsame(S, ind.get("X"), r), "parents unchanged")
    mask = exchange(S, R, off, nv)[0]
    n = nv - sum(eq)
    S.require(sum(m for m, e in zip(mask, eq) if not e) == math.ceil(n / 2), "half of the differing positions is exchanged")


@harness("P13", "points", quick=[dict(k=1, nv=3), dict(k=2, nv=4), dict(k=3, nv=4), dict(k=1, nv=1), dict(k=2, nv=2)], thorough=[dict(k=2, nv=5), dict(k=3, nv=5), dict(k=4, nv=5)],
         functions=[C + "pntx.py:PointCrossover._do"], bounds="up to 4 variables, up to 3 points")
def points(S, k, nv):
    from pymoo.operators.crossover.pntx import PointCrossover, SinglePointCrossover, TwoPointCrossover
    op = {1: SinglePointCrossover, 2: TwoPointCrossover}.get(k, lambda **kw: PointCrossover(n_points=k, **kw))(prob=1.0)
    R, off = run(S, op, nv)
    mask = exchange(S, R, off, nv)[0]
    flips = sum(mask[j] != mask[j - 1] for j in range(1, nv))
    S.require(mask[0] is False, "the first segment stays")
    S.require(flips == min(k, nv - 1), "exactly k cut points, segments alternate")


@harness("P13", "points_two", quick=[dict()], functions=[C + "pntx.py:PointCrossover._do"], bounds="2 matings, 3 variables, 1 point")
def points_two(S):
    from pymoo.operators.crossover.pntx import SinglePointCrossover
    R, off = run(S, SinglePointCrossover(prob=1.0), 3, 2)
    for mask in exchange(S, R, off, 3, 2):
        S.require(mask[0] is False and mask[2] is True, "one cut point per mating")


@harness("P13", "exponential", quick=[dict(nv=3, nmat=1), dict(nv=2, nmat=2)], thorough=[dict(nv=4, nmat=1)], functions=[C + "expx.py:ExponentialCrossover._do", C + "expx.py:mut_exp"], bounds="2-3 variables, 1-2 matings")
def exponential(S, nv, nmat):
    from pymoo.operators.crossover.expx import ExponentialCrossover
    R, off = run(S, ExponentialCrossover(prob=1.0, prob_exp=S.pick([0.0, 0.5, 1.0]) if nmat == 1 else 0.5), nv, nmat)
    for mask in exchange(S, R, off, nv, nmat):
        S.require(any(mask), "at least one position")
        S.require(sum(mask[j] != mask[j - 1] for j in range(nv)) <= 2, "one cyclic run")


@harness("P13", "exp_run", quick=[dict(nv=3)], functions=[C + "expx.py:mut_exp"], bounds="3 variables, symbolic probability")
def exp_run(S, nv):
    from pymoo.operators.crossover.expx import mut_exp
    p = S.real("p", lo=0, hi=1)
    d = S.reals("d", (nv,), lo=0, hi=1)
    start = S.choose(nv)

    class Rnd:
        k = 0

        def integers(self, lo, hi=None, size=None):
            S.require(size is None or tuple(np.atleast_1d(size)) == (1,), "one start per mating")
            return np.array([start])

        def random(self, size=None):
            Rnd.k += 1
            return d[Rnd.k - 1]
    mask = mut_exp(1, nv, S.array([p]), at_least_once=False, random_state=Rnd())
    run_ = 0
    while run_ < nv and S.truth(S.xle(d[run_], p)):
        run_ += 1
    want = {(start + j) % nv for j in range(run_)}
    S.require(all(S.truth(mask[0, j]) == (j in want) for j in range(nv)), "cyclic run starting at the drawn position while the draws stay below the probability")


@harness("P13", "binomial", quick=[dict(noff=2, nv=3), dict(noff=1, nv=3)], functions=[C + "binx.py:BinomialCrossover._do", C + "binx.py:mut_binomial"], bounds="3 variables")
def binomial(S, noff, nv):
    from pymoo.operators.crossover.binx import BX
    bias = S.pick([0.0, 0.5, 1.0])
    R, off = run(S, BX(prob=1.0, bias=bias, n_offsprings=noff), nv)
    if noff == 2:
        mask = exchange(S, R, off, nv)[0]
    else:
        S.require(len(off) == 1, "one child")
        c = off[0].get("X")
        for j in range(nv):
            S.require(S.any([S.same(c[j], R[0][j]), S.same(c[j], R[1][j])]), "parental gene of the position")
        mask = [S.truth(S.same(c[j], R[1][j])) for j in range(nv)]
    S.require(not all(mask), "at least one own gene")
    if bias == 1.0:
        S.require(not any(mask), "bias one keeps everything")
    if bias == 0.0:
        S.require(sum(mask) == nv - 1, "bias zero keeps exactly one")


@harness("P13", "no_crossover", quick=[dict(npar=1, noff=None), dict(npar=2, noff=2), dict(npar=2, noff=1), dict(npar=2, noff=3)], functions=[C + "nox.py:NoCrossover.do"], bounds="2 matings")
def no_crossover(S, npar, noff):
    from pymoo.operators.crossover.nox import NoCrossover
    X = S.reals("X", (2 * npar, 2))
    pop = pop_of(S, X=X)
    par = [[pop[q * npar + i] for i in range(npar)] for q in range(2)]
    off = NoCrossover(n_parents=npar, n_offsprings=noff)(problem(n_var=2), par, random_state=S.rng())
    k = noff or npar
    S.require(len(off) == 2 * k, "number of children")
    for q in range(2):
        cs = [off[q * k + i] for i in range(k)]
        S.require(all(any(c is p for p in par[q]) for c in cs), "children are the parents of their mating")
        if k >= npar:
            S.require(all(any(c is p for c in cs) for p in par[q]), "every parent is returned")
        else:
            S.require(len({id(c) for c in cs}) == k, "without replacement")
