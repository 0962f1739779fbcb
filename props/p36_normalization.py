"""P36: normalization."""
import numpy as np
from symx.harness import harness
from common import meta, rows

N = "pymoo/util/normalization.py"
META = meta(
    "Normalization maps the bounds to 0 and 1 and is undone exactly",
    "For every X and bounds xl <= xu, normalizing maps each column affinely with xl to 0 and xu to 1 (a column with only one known bound, or with xl = xu, is only shifted), and denormalizing returns the original values; without bounds nothing changes. "
    "Bounds that are not given are estimated as the column minimum and maximum, standardized columns have mean 0 and are undone by destandardize, and inputs are never modified or truncated. "
    "The ideal point of a population is the component-wise minimum of all (feasible) objective vectors seen so far.",
    ["inputs", "configurations"], "all values and bounds of the stated sizes, including missing and coinciding bounds", "tests use a handful of fixed arrays", [N],
    [("forward/backward", N + ":ZeroToOneNormalization"), ("simple", N + ":SimpleZeroToOneNormalization"), ("functions", N + ":normalize"), ("ideal", N + ":find_ideal"), ("objective space", N + ":ObjectiveSpaceNormalization")],
    "bounded: 1-3 rows, 2 columns; products and quotients of symbolic values are avoided by concrete bounds where needed")


@harness("P36", "linear", quick=[dict(n=2)], functions=[N + ":ZeroToOneNormalization.forward", N + ":ZeroToOneNormalization.backward", N + ":normalize", N + ":denormalize"],
         bounds="2 rows, 2 columns: one symbolic bound per column or concrete bounds (also coinciding)")
def linear(S, n):
    from pymoo.util.normalization import ZeroToOneNormalization, normalize, denormalize
    integer = S.choose(2) == 1
    X = S.ints("X", (n, 2)) if integer else S.reals("X", (n, 2))
    r = rows(X)
    b = S.reals("b", (2,))
    nan = float("nan")
    k = S.choose(6)
    # expected: (offset, scale) per column
    if k == 0:
        xl, xu, exp = S.array([nan, 1.0]), S.array([3.0, nan]), [(2.0, 1.0), (1.0, 1.0)]
    elif k == 1:
        xl, xu, exp = b, None, [(b[0], 1.0), (b[1], 1.0)]
    elif k == 2:
        xl, xu, exp = None, b, [(b[0] - 1, 1.0), (b[1] - 1, 1.0)]
    elif k == 3:
        xl, xu, exp = S.array([-1.0, 0.5]), S.array([1.0, 0.5]), [(-1.0, 2.0), (0.5, 1.0)]
    elif k == 4:
        xl, xu, exp = S.array([nan, -4.0]), S.array([nan, 4.0]), [(0.0, 1.0), (-4.0, 8.0)]
    else:
        xl, xu, exp = None, None, [(0.0, 1.0)] * 2
    one = S.choose(2) == 1
    arg = X[0] if one else X
    if S.choose(2) == 0:
        z = ZeroToOneNormalization(xl, xu)
        Y = z.forward(arg)
        Z = z.backward(Y)
    else:
        Y = normalize(arg, xl, xu, estimate_bounds_if_none=False)
        Z = denormalize(Y, xl, xu)
    S.require(Y.shape == arg.shape and Z.shape == arg.shape, "shape")
    for i in range(1 if one else n):
        for j in range(2):
            y, z = (Y[j], Z[j]) if one else (Y[i, j], Z[i, j])
            S.require(S.eq(y, (r[i][j] - exp[j][0]) / exp[j][1]), "affine map of the bounds to 0 and 1")
            S.require(S.eq(z, r[i][j]), "undone exactly")
    S.require(S.all([S.same(X[i, j], r[i][j]) for i in range(n) for j in range(2)]), "input untouched")


@harness("P36", "symbolic_bounds", quick=[dict()], functions=[N + ":ZeroToOneNormalization.forward", N + ":ZeroToOneNormalization.backward"], bounds="1 value, symbolic lower and upper bound")
def symbolic_bounds(S):
    from pymoo.util.normalization import ZeroToOneNormalization
    lo, hi, x = S.real("lo"), S.real("hi"), S.real("x")
    S.assume(S.xle(lo, hi))
    z = ZeroToOneNormalization(S.array([lo]), S.array([hi]))
    y = z.forward(S.array([[x]]))[0, 0]
    S.require(S.eq(y * S.ite(S.xlt(lo, hi), hi - lo, 1.0), x - lo), "affine")
    if S.choose(2) == 0:
        S.assume(S.same(x, lo))
        S.require(S.eq(y, 0.0), "lower bound to 0")
    else:
        S.assume(S.all([S.same(x, hi), S.xlt(lo, hi)]))
        S.require(S.eq(y, 1.0), "upper bound to 1")


@harness("P36", "estimated", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], functions=[N + ":normalize", N + ":SimpleZeroToOneNormalization.forward", N + ":SimpleZeroToOneNormalization.backward"], bounds="2-3 rows, 1 column, estimated bounds", timeout_ms=8000)
def estimated(S, n):
    from pymoo.util.normalization import normalize, SimpleZeroToOneNormalization
    X = S.reals("X", (n, 1))
    r = [X[i, 0] for i in range(n)]
    lo, hi = S.min(r), S.max(r)
    if S.choose(2) == 0:
        Y, xl, xu = normalize(X, return_bounds=True)
        S.require(S.same(xl[0], lo) and S.truth(S.implies(S.xlt(lo, hi), S.same(xu[0], hi))), "estimated bounds")
    else:
        z = SimpleZeroToOneNormalization()
        Y = z.forward(X)
        S.require(S.all([S.same(z.xl[0], lo), S.same(z.xu[0], hi)]), "estimated bounds")
    for i in range(n):
        S.require(S.implies(S.same(r[i], lo), S.same(Y[i, 0], 0.0)), "minimum to 0")
        S.require(S.implies(S.all([S.same(r[i], hi), S.xlt(lo, hi)]), S.eq(Y[i, 0], 1.0)), "maximum to 1")
        S.require(S.all([S.xle(0.0, Y[i, 0]), S.le(Y[i, 0], 1.0)]), "within 0 and 1")


@harness("P36", "simple", quick=[dict()], functions=[N + ":SimpleZeroToOneNormalization.forward", N + ":SimpleZeroToOneNormalization.backward"], bounds="2 rows, 2 columns, concrete bounds (one column with coinciding bounds)")
def simple(S):
    from pymoo.util.normalization import SimpleZeroToOneNormalization, destandardize, NoNormalization, PreNormalization
    X = S.reals("X", (2, 2))
    r = rows(X)
    z = SimpleZeroToOneNormalization(S.array([-1.0, 2.0]), S.array([3.0, 10.0]), estimate_bounds=S.choose(2) == 1)
    Y = z.forward(X)
    Z = z.backward(Y)
    for i in range(2):
        S.require(S.all([S.eq(Y[i, 0], (r[i][0] + 1) / 4), S.eq(Y[i, 1], (r[i][1] - 2) / 8)]), "affine")
        S.require(S.all([S.eq(Z[i, j], r[i][j]) for j in range(2)]), "undone exactly")
    z = NoNormalization()
    S.require(z.forward(X) is X and z.backward(X) is X, "no normalization")
    p = PreNormalization(zero_to_one=True, ideal=S.array([-1.0, 2.0]), nadir=S.array([3.0, 10.0]))
    P = p.normalization.forward(X)
    S.require(S.all([S.eq(P[i, j], Y[i, j]) for i in range(2) for j in range(2)]), "pre-normalization")
    S.require([float(v) for v in p.ideal] == [0.0, 0.0] and [float(v) for v in p.nadir] == [1.0, 1.0], "normalized ideal and nadir")


@harness("P36", "standard", quick=[dict()], functions=[N + ":standardize", N + ":destandardize"], bounds="2 rows, 1 column (distinct values)", timeout_ms=8000)
def standard(S):
    from pymoo.util.normalization import standardize, destandardize
    X = S.reals("X", (2, 1))
    a, b = X[0, 0], X[1, 0]
    S.assume(S.xlt(a, b))
    Y, mean, std = standardize(X, return_bounds=True)
    S.require(S.all([S.eq(mean[0], (a + b) / 2), S.eq(std[0], (b - a) / 2)]), "mean and standard deviation")
    S.require(S.all([S.eq(Y[0, 0], -1.0), S.eq(Y[1, 0], 1.0)]), "mean 0 and deviation 1")
    Z = destandardize(Y, mean, std)
    S.require(S.all([S.eq(Z[0, 0], a), S.eq(Z[1, 0], b)]), "undone")


@harness("P36", "ideal", quick=[dict()], functions=[N + ":find_ideal", N + ":ObjectiveSpaceNormalization.update"], bounds="two updates with 2 individuals each, 2 objectives, symbolic feasibility")
def ideal(S):
    from pymoo.util.normalization import ObjectiveSpaceNormalization, find_ideal
    from common import pop_of
    o = ObjectiveSpaceNormalization()
    allf, feas = [], []
    for t in range(2):
        F, CV = S.reals("F%d" % t, (2, 2)), S.reals("cv%d" % t, (2, 1), lo=0)
        f = rows(F)
        allf += f
        feas += [S.truth(S.xle(CV[i, 0], 0.0)) for i in range(2)]
        o.update(pop_of(S, F=F, CV=CV, X=S.array([[0.0], [1.0]])))
        a, b = o.ideal(only_feas=False), o.ideal()
        S.require(S.all([S.same(a[j], S.min([v[j] for v in allf])) for j in range(2)]), "minimum of everything seen")
        ok = [v for v, k in zip(allf, feas) if k]
        if ok:
            S.require(S.all([S.same(b[j], S.min([v[j] for v in ok])) for j in range(2)]), "minimum of the feasible vectors seen")
        else:
            S.require(b is None, "no feasible vector seen")
    p = find_ideal(F, S.array([0.0, 0.0]))
    S.require(S.all([S.same(p[j], S.min([0.0, f[0][j], f[1][j]])) for j in range(2)]), "updated ideal")
