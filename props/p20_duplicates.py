"""P20: duplicate elimination."""
import numpy as np
from symx.harness import harness
from common import meta, rows

D = "pymoo/core/duplicate.py"
META = meta(
    "Duplicate elimination removes duplicates only, and all of them",
    "For every population, DefaultDuplicateElimination removes exactly the individuals whose X lies within epsilon (Euclidean) of an earlier individual of the population or of any individual of the given reference populations; "
    "element-wise elimination (with any comparison, returning a distance or a truth value) and its mixed-variable variant leave pairwise different individuals, none equal to a reference, and remove nothing that has no equal. "
    "Survivors are the original objects in their original order, the reported indices partition the population accordingly, and NoDuplicateElimination removes nothing.",
    ["inputs"], "all decision values of the stated sizes, all patterns of coincidence", "tests use random or clearly equal points",
    [D, "pymoo/core/mixed.py", "pymoo/util/misc.py"], [("distance", D + ":DefaultDuplicateElimination._do"), ("elementwise", D + ":ElementwiseDuplicateElimination._do"), ("driver", D + ":DuplicateElimination.do"), ("mixed", "pymoo/core/mixed.py:MixedVariableDuplicateElimination.is_equal"),
     ("index groups", "pymoo/util/misc.py:get_duplicates")],
    "bounded: populations of up to 4 individuals, reference populations of up to 2, 1-2 variables")


def new(X):
    from pymoo.core.population import Population
    return Population.new(X=X)


def check_order(S, pop0, out):
    idx = [next((i for i, b in enumerate(pop0) if b is a), None) for a in out]
    S.require(None not in idx and idx == sorted(set(idx)), "survivors are original individuals in order")
    return idx


@harness("P20", "distance", quick=[dict(n=3, nv=1, m=1), dict(n=2, nv=2, m=0)], thorough=[dict(n=3, nv=1, m=2), dict(n=4, nv=1, m=0), dict(n=2, nv=2, m=1), dict(n=3, nv=2, m=0)],
         functions=[D + ":DuplicateElimination.do", D + ":DefaultDuplicateElimination._do", D + ":DefaultDuplicateElimination.calc_dist"], bounds="2-4 individuals, 0-2 references in one or two populations; one real or two (grid) variables")
def distance(S, n, nv, m):
    from pymoo.core.duplicate import DefaultDuplicateElimination
    def make(name, k):  # two variables: a bounded integer grid (the squared distance is then decided exactly)
        return S.reals(name, (k, nv)) if nv == 1 else S.ints(name, (k, nv), lo=0, hi=3).astype(float)
    X = make("X", n)
    r = rows(X)
    pop = new(X)
    eps = S.pick([1e-16, 0.5]) if nv == 1 else S.pick([1e-16, 1.0])
    refs, rr = [], []
    if m:
        R = make("R", m)
        rr = rows(R)
        refs = [new(R)] if S.choose(2) == 0 else [new(R[:1]), new(R[1:]) if m > 1 else new(R[:1])]
    itself = S.choose(2) == 0
    ind = S.choose(2) == 0
    out = DefaultDuplicateElimination(epsilon=eps).do(pop, *refs, to_itself=itself, return_indices=ind)

    def close(a, b):
        return S.xle(S.sum([(x - y) * (x - y) for x, y in zip(a, b)]), eps * eps) if nv > 1 else S.xle(S.abs(a[0] - b[0]), eps)
    if ind:
        out, keep, drop = out
        S.require(sorted([int(i) for i in keep] + [int(i) for i in drop]) == list(range(n)), "indices partition the population")
    idx = check_order(S, pop, out)
    if ind:
        S.require([int(i) for i in keep] == idx, "indices of the survivors")
    for i in range(n):
        dup = S.any(([close(r[i], r[k]) for k in range(i)] if itself else []) + [close(r[i], q) for q in rr])
        S.require(S.iff(dup, i not in idx), "removed exactly when a duplicate")
    S.require(S.all([S.same(pop[i].X[j], r[i][j]) for i in range(n) for j in range(nv)]), "population untouched")


@harness("P20", "elementwise", quick=[dict(n=3, m=1)], thorough=[dict(n=4, m=1), dict(n=3, m=2)], functions=[D + ":ElementwiseDuplicateElimination._do", D + ":to_float"], bounds="3-4 individuals, 1-2 references, comparison by truth value or distance")
def elementwise(S, n, m):
    from pymoo.core.duplicate import ElementwiseDuplicateElimination
    X, R = S.ints("X", (n, 1)), S.ints("R", (m, 1))
    r, q = rows(X), rows(R)
    pop, ref = new(X), new(R)
    k = S.choose(4)

    class Sub(ElementwiseDuplicateElimination):
        def is_equal(self, a, b):
            return bool(a.X[0] == b.X[0])
    if k == 0:
        e = ElementwiseDuplicateElimination(cmp_func=lambda a, b: bool(a.X[0] == b.X[0]))
    elif k == 1:
        e = ElementwiseDuplicateElimination(cmp_func=lambda a, b: abs(a.X[0] - b.X[0]))
    elif k == 2:
        e = Sub()
    else:
        e = ElementwiseDuplicateElimination(cmp_func=lambda a, b: np.bool_(bool(a.X[0] == b.X[0])))
    use = S.choose(2) == 1
    out = e.do(pop, ref) if use else e.do(pop)
    idx = check_order(S, pop, out)
    refs = q if use else []
    for a in idx:
        S.require(S.all([S.ne(r[a][0], r[b][0]) for b in idx if b != a] + [S.ne(r[a][0], x[0]) for x in refs]), "survivors are pairwise different and differ from the references")
    for a in range(n):
        if a not in idx:
            S.require(S.any([S.same(r[a][0], r[b][0]) for b in idx] + [S.same(r[a][0], x[0]) for x in refs]), "every value is kept once unless it is in the reference")


@harness("P20", "mixed", quick=[dict()], functions=["pymoo/core/mixed.py:MixedVariableDuplicateElimination.is_equal"], bounds="2-3 individuals with a real, an integer, a binary and a choice variable")
def mixed(S):
    from pymoo.core.mixed import MixedVariableDuplicateElimination
    from pymoo.core.population import Population
    n = 2
    xs = [dict(x=S.real("x%d" % i), y=S.int("y%d" % i), b=S.choose(2) == 1, c=S.pick(["red", "blue"])) for i in range(n)]
    pop = Population.new(X=[dict(x) for x in xs])
    same = S.all([S.same(xs[0]["x"], xs[1]["x"]), S.same(xs[0]["y"], xs[1]["y"]), xs[0]["b"] == xs[1]["b"], xs[0]["c"] == xs[1]["c"]])
    if S.choose(2) == 0:
        out = MixedVariableDuplicateElimination().do(pop)
        S.require(S.iff(len(out) == 1, same) and len(out) >= 1, "one survivor exactly when all variables agree")
    else:
        out = MixedVariableDuplicateElimination().do(pop[:1], pop[1:])
        S.require(S.iff(len(out) == 0, same), "removed exactly when all variables agree with a reference")


@harness("P20", "none", quick=[dict()], functions=[D + ":NoDuplicateElimination.do", D + ":DuplicateElimination.do"], bounds="2 individuals, empty population")
def none(S):
    from pymoo.core.duplicate import NoDuplicateElimination, DefaultDuplicateElimination, ElementwiseDuplicateElimination
    from pymoo.core.population import Population
    X = S.reals("X", (2, 1))
    pop = new(X)
    out = NoDuplicateElimination().do(pop, pop)
    S.require(check_order(S, pop, out) == [0, 1], "nothing removed")
    e = Population.new()
    for c in (DefaultDuplicateElimination(), ElementwiseDuplicateElimination(cmp_func=lambda a, b: True)):
        S.require(len(c.do(e)) == 0 and len(c.do(e, pop)) == 0, "empty population")
        S.require(len(c.do(pop[:1], e)) == 1, "empty reference")


@harness("P20", "groups", quick=[dict(n=3)], thorough=[dict(n=4)], functions=["pymoo/util/misc.py:get_duplicates", "pymoo/util/misc.py:find_duplicates"], bounds="3-4 rows, 1 column")
def groups(S, n):
    from pymoo.util.misc import get_duplicates, find_duplicates
    X = S.ints("X", (n, 1)).astype(float)
    r = rows(X)
    if S.choose(2) == 0:
        d = find_duplicates(X)
        for i in range(n):
            S.require(S.iff(d[i], S.any([S.same(r[i][0], r[k][0]) for k in range(i)])), "equal to an earlier row")
        return
    g = [sorted(int(i) for i in e) for e in get_duplicates(X)]
    flat = [i for e in g for i in e]
    S.require(len(flat) == len(set(flat)) and all(len(e) > 1 for e in g), "disjoint groups of at least two")
    for i in range(n):
        for k in range(i):
            S.require(S.iff(S.same(r[i][0], r[k][0]), any(i in e and k in e for e in g)), "rows share a group exactly when equal")
