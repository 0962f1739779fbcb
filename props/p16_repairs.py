"""P16: repair operators."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, rows, vsame

R_ = "pymoo/operators/repair/"
META = meta(
    "Repairs bring every value into the bounds and leave values inside untouched",
    "For every X and finite bounds xl <= xu, to-bound, clamp, bounce-back, periodic, random-init and inverse-penalty repair return values within [xl, xu] and leave in-bounds values exactly as they are "
    "(a variable with xl = xu ends on its bound). To-bound and clamp choose the nearest bound, bounce-back reflects at the violated bound (modulo the range), periodic shifts by multiples of the range, "
    "random-init draws between the violated bound and the original value. Repairing a population stores the repaired rows in the given individuals, in order; rounding repair yields the nearest integers as int.",
    ["inputs"], "all values (any distance outside the bounds), all draws, bounds including xl = xu",
    "tests use a few random matrices on one box",
    [R_ + x for x in ("bounds_repair.py", "to_bound.py", "bounce_back.py", "inverse_penalty.py", "rounding.py", "vtype.py")] + ["pymoo/core/repair.py"],
    [("clamp/periodic/random init", R_ + "bounds_repair.py"), ("to bound", R_ + "to_bound.py:set_to_bounds_if_outside"), ("bounce back", R_ + "bounce_back.py:bounce_back"),
     ("inverse penalty", R_ + "inverse_penalty.py:inverse_penality"), ("shell", "pymoo/core/repair.py:Repair.do")],
    "bounded: 1-2 rows, 2 variables; symbolic values, bounds symbolic where the arithmetic stays linear, otherwise from a list (with xl = xu)")

BOUNDS = [([-1.0, 2.0], [2.0, 2.0]), ([0.0, -3.0], [1.0, -0.5])]


def inside(S, y, lo, hi):
    S.require(S.finite(y), "finite")
    S.require(S.all([S.xle(lo, y), S.xle(y, hi)]), "within the bounds")


def sym_bounds(S, nv):
    lo, hi = S.reals("lo", (nv,)), S.reals("hi", (nv,))
    for j in range(nv):
        S.assume(S.xle(lo[j], hi[j]))
    return lo, hi


@harness("P16", "nearest", quick=[dict(n=2, nv=2)], functions=[R_ + "to_bound.py:set_to_bounds_if_outside", R_ + "bounds_repair.py:repair_clamp", R_ + "bounds_repair.py:is_out_of_bounds", R_ + "bounds_repair.py:is_in_bounds"], bounds="2 rows, 2 variables, symbolic bounds")
def nearest(S, n, nv):
    from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
    from pymoo.operators.repair.bounds_repair import repair_clamp, is_in_bounds, is_out_of_bounds
    lo, hi = sym_bounds(S, nv)
    X = S.reals("X", (n, nv))
    r = rows(X)
    which = S.choose(3)
    if which == 2:
        ins, out = [int(i) for i in is_in_bounds(X, lo, hi)], [int(i) for i in is_out_of_bounds(X, lo, hi)]
        for i in range(n):
            ok = S.truth(S.all([S.all([S.xle(lo[j], r[i][j]), S.xle(r[i][j], hi[j])]) for j in range(nv)]))
            S.require((i in ins) == ok and (i in out) == (not ok), "rows within the bounds")
        return
    Y = set_to_bounds_if_outside(X, lo, hi) if which == 0 else repair_clamp(X, lo, hi)
    S.require(Y.shape == (n, nv), "shape")
    for i in range(n):
        for j in range(nv):
            S.require(S.same(Y[i, j], S.max([lo[j], S.min([hi[j], r[i][j]])])), "nearest value in the bounds")


@harness("P16", "one_sided", quick=[dict()], functions=[R_ + "to_bound.py:set_to_bounds_if_outside"], bounds="one row, lower or upper bounds missing")
def one_sided(S):
    from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
    b = S.reals("b", (2,))
    x = S.reals("x", (2,))
    r = [x[0], x[1]]
    low = S.choose(2) == 0
    y = set_to_bounds_if_outside(x, b if low else None, None if low else b)
    S.require(y.shape == (2,), "one-dimensional in, one-dimensional out")
    for j in range(2):
        S.require(S.same(y[j], S.max([b[j], r[j]]) if low else S.min([b[j], r[j]])), "nearest value in the bounds")


@harness("P16", "bounce", quick=[dict(b=0), dict(b=1)], functions=[R_ + "bounce_back.py:bounce_back"], bounds="1 row, 2 variables, concrete bounds")
def bounce(S, b):
    from pymoo.operators.repair.bounce_back import bounce_back
    lo, hi = (S.array(v) for v in BOUNDS[b])
    X = S.reals("X", (1, 2))
    r = rows(X)[0]
    one = S.choose(2) == 1
    Y = bounce_back(X[0] if one else X, lo, hi)
    S.require(Y.shape == ((2,) if one else (1, 2)), "shape")
    Y = Y if one else Y[0]
    for j in range(2):
        inside(S, Y[j], lo[j], hi[j])
        rg = hi[j] - lo[j]
        ok = S.all([S.xle(lo[j], r[j]), S.xle(r[j], hi[j])])
        S.require(S.implies(ok, S.same(Y[j], r[j])), "an in-bounds value is unchanged")
        if rg > 0:
            S.require(S.implies(S.all([S.xlt(r[j], lo[j]), S.xlt(lo[j] - rg, r[j])]), S.eq(Y[j], lo[j] + (lo[j] - r[j]))), "reflection at the lower bound")
            S.require(S.implies(S.all([S.xlt(hi[j], r[j]), S.xlt(r[j], hi[j] + rg)]), S.eq(Y[j], hi[j] - (r[j] - hi[j]))), "reflection at the upper bound")


@harness("P16", "periodic", quick=[dict(b=0), dict(b=1)], functions=[R_ + "bounds_repair.py:repair_periodic"], bounds="1 row, 2 variables, concrete bounds")
def periodic(S, b):
    from pymoo.operators.repair.bounds_repair import repair_periodic
    lo, hi = (S.array(v) for v in BOUNDS[b])
    X = S.reals("X", (1, 2))
    r = rows(X)[0]
    Y = repair_periodic(X, lo, hi)[0]
    for j in range(2):
        inside(S, Y[j], lo[j], hi[j])
        rg = hi[j] - lo[j]
        ok = S.all([S.xle(lo[j], r[j]), S.xle(r[j], hi[j])])
        S.require(S.implies(ok, S.same(Y[j], r[j])), "an in-bounds value is unchanged")
        if rg > 0:
            S.require(S.implies(S.all([S.xlt(r[j], lo[j]), S.xlt(lo[j] - rg, r[j])]), S.eq(Y[j], r[j] + rg)), "shift up by the range")
            S.require(S.implies(S.all([S.xlt(hi[j], r[j]), S.xlt(r[j], hi[j] + rg)]), S.eq(Y[j], r[j] - rg)), "shift down by the range")


@harness("P16", "random_init", quick=[dict(n=2, nv=2)], functions=[R_ + "bounds_repair.py:repair_random_init"], bounds="2 rows, 2 variables, concrete bounds")
def random_init(S, n, nv):
    from pymoo.operators.repair.bounds_repair import repair_random_init
    lo, hi = (S.array(v) for v in BOUNDS[0])
    X, O = S.reals("X", (n, nv)), S.reals("O", (n, nv))
    for i in range(n):
        for j in range(nv):
            S.assume(S.all([S.xle(lo[j], O[i, j]), S.xle(O[i, j], hi[j])]))
    r = rows(X)
    Y = repair_random_init(X, O, lo, hi, random_state=S.rng())
    for i in range(n):
        for j in range(nv):
            inside(S, Y[i, j], lo[j], hi[j])
            below, above = S.xlt(r[i][j], lo[j]), S.xlt(hi[j], r[i][j])
            S.require(S.any([below, above, S.same(Y[i, j], r[i][j])]), "an in-bounds value is unchanged")
            S.require(S.implies(below, S.xle(Y[i, j], O[i, j])), "between the violated bound and the original value")
            S.require(S.implies(above, S.xle(O[i, j], Y[i, j])), "between the violated bound and the original value")
    S.require(S.unseeded() == 0, "draws only from the given generator")


@harness("P16", "population", quick=[dict(which=0), dict(which=1)], functions=["pymoo/core/repair.py:Repair.do", R_ + "bounds_repair.py:BoundsRepair._do", R_ + "to_bound.py:ToBoundOutOfBoundsRepair.repair_out_of_bounds", R_ + "bounce_back.py:BounceBackOutOfBoundsRepair.repair_out_of_bounds"],
         bounds="2 individuals, 2 variables")
def population(S, which):
    from pymoo.operators.repair.to_bound import ToBoundOutOfBoundsRepair
    from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair
    lo, hi = (S.array(v) for v in BOUNDS[which])
    X = S.reals("X", (2, 2))
    r = rows(X)
    pop = pop_of(S, X=X)
    inds = list(pop)
    out = (BounceBackOutOfBoundsRepair() if which else ToBoundOutOfBoundsRepair())(problem(n_var=2, xl=lo, xu=hi), pop, random_state=S.rng())
    S.require(len(out) == 2 and all(a is b for a, b in zip(out, inds)), "the given individuals in their order")
    for i in range(2):
        x = out[i].get("X")
        for j in range(2):
            inside(S, x[j], lo[j], hi[j])
            ok = S.all([S.xle(lo[j], r[i][j]), S.xle(r[i][j], hi[j])])
            S.require(S.implies(ok, S.same(x[j], r[i][j])), "an in-bounds value is unchanged")
            if not which:
                S.require(S.same(x[j], S.max([lo[j], S.min([hi[j], r[i][j]])])), "nearest value in the bounds")


@harness("P16", "rounding", quick=[dict()], functions=[R_ + "rounding.py:RoundingRepair._do", R_ + "vtype.py:TypeRepair._do"], bounds="2 individuals, 2 variables")
def rounding(S):
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.repair.vtype import TypeRepair
    X = S.reals("X", (2, 2))
    r = rows(X)
    pop = pop_of(S, X=X)
    if S.choose(2) == 0:
        out = RoundingRepair()(problem(n_var=2, xl=-9, xu=9, vtype=int), pop, random_state=S.rng())
    else:
        for i in range(2):
            for j in range(2):
                S.assume(S.xle(0, X[i, j]))
        out = TypeRepair(int)(problem(n_var=2, xl=0, xu=9, vtype=int), pop, random_state=S.rng())
        for i in range(2):
            x = out[i].get("X")
            S.require(x.dtype == int, "integers")
            for j in range(2):
                S.require(S.all([S.xle(x[j], r[i][j]), S.xlt(r[i][j], x[j] + 1)]), "integer part")
        return
    for i in range(2):
        x = out[i].get("X")
        S.require(x.dtype == int, "integers")
        for j in range(2):
            S.require(S.xle(S.abs(x[j] - r[i][j]), 0.5), "nearest integer")


@harness("P16", "inverse", quick=[dict(k=0), dict(k=1)], functions=[R_ + "inverse_penalty.py:inverse_penality", R_ + "inverse_penalty.py:InversePenaltyOutOfBoundsRepair.repair_out_of_bounds"],
         bounds="2 rows (one inside); concrete parents, outside points from a list, symbolic draw; tan/arctan uninterpreted")
def inverse(S, k):
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    lo, hi = S.array([0.0, 0.0]), S.array([1.0, 2.0])
    out = S.pick([[-0.5, 0.25], [1.5, 2.5], [-1.0, 3.0], [0.5, -0.25]])
    par = S.pick([[0.5, 0.5], [0.25, 1.5]])
    q = S.reals("q", (2,))
    for j in range(2):
        S.assume(S.all([S.xle(lo[j], q[j]), S.xle(q[j], hi[j])]))
    X = S.array([out, [q[0], q[1]]] if k == 0 else [[q[0], q[1]], out])
    P = S.array([par, [0.75, 0.75]] if k == 0 else [[0.75, 0.75], par])
    Y = InversePenaltyOutOfBoundsRepair().repair_out_of_bounds(problem(n_var=2, xl=lo, xu=hi), X, P=P, random_state=S.rng())
    for i in range(2):
        for j in range(2):
            S.require(S.all([S.xle(lo[j], Y[i, j]), S.xle(Y[i, j], hi[j])]), "within the bounds")
    S.require(vsame(S, Y[1 - k], [q[0], q[1]]), "an in-bounds point is unchanged")
    S.require(S.unseeded() == 0, "draws only from the given generator")
