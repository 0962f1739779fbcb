"""P44: reference directions."""
import itertools
from math import comb
import numpy as np
from symx.harness import harness
from common import meta

RD = "pymoo/util/reference_direction.py"
PR = "pymoo/util/ref_dirs/"
META = meta(
    "Reference directions lie on the unit simplex and are complete",
    "Every generator of reference directions returns points of the unit simplex. The uniform (Das-Dennis) method returns each point of the simplex lattice exactly once, in lexicographic order, and their number is the binomial coefficient; a number of points is accepted exactly if it is one of those numbers, and the number of partitions chosen is the largest that does not exceed it. "
    "Scaling contracts to the centre, layers are joined without duplicates, incremental generation returns the same points; sampled directions have the number asked for for all draws; the projections return the nearest point of the plane or a point of the simplex and leave points of it unchanged; a selection of maximum distance takes each time a remaining point whose distance to the selected ones is largest.",
    ["inputs"], "lattices up to 6 partitions and 4 objectives with symbolic lattice points, scalings, draws and points; numbers of points symbolic up to 150",
    "tests compare the number of points of few configurations",
    [RD, PR + "das_dennis.py", PR + "misc.py", PR + "incremental.py", PR + "sample_and_map.py"],
    [("lattice", RD + ":das_dennis_recursion"), ("number of points", RD + ":get_partition_closest_to_points"), ("sampling", RD + ":map_onto_unit_simplex"), ("iterator", PR + "das_dennis.py:DasDennis.traverse"), ("distance", RD + ":select_points_with_maximum_distance")],
    "bounded: 2-4 objectives, up to 6 partitions, 2-6 points; the energy and construction methods (gradient descent) and k-means are not covered")


def rows_of(A):
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


def on_simplex(S, rows, label="directions lie on the unit simplex"):
    S.require(S.all([S.all([S.le(0, v) for v in r] + [S.le(S.abs(S.sum(r) - 1), 1e-9)]) for r in rows]), label)


def complete(S, rows, n, p, label="every lattice point is a direction"):
    k = [S.int("k%d" % j, lo=0, hi=p) for j in range(n - 1)]
    last = p - S.sum(k)
    S.assume(S.xle(0, last))
    k = k + [last]
    S.require(S.any([S.all([S.lt(S.abs(r[j] * p - k[j]), 1e-6) for j in range(n)]) for r in rows]), label)


def distinct(rows):
    return all(max(abs(u - v) for u, v in zip(a, b)) > 1e-9 for a, b in itertools.combinations(rows, 2))


@harness("P44", "lattice", quick=[dict(n=n, p=p) for n in (2, 3, 4) for p in (1, 2, 3, 5)] + [dict(n=3, p=6)], functions=[RD + ":das_dennis", RD + ":UniformReferenceDirectionFactory._do", PR + "das_dennis.py:DasDennis.next", PR + "incremental.py:incremental_lattice"],
         bounds="2-4 objectives, 1-6 partitions, every lattice point")
def lattice(S, n, p):
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.util.ref_dirs.das_dennis import DasDennis
    A = get_reference_directions("das-dennis", n, n_partitions=p)
    rows = rows_of(A)
    S.require(len(rows) == comb(n + p - 1, p), "the number of directions is the binomial coefficient")
    on_simplex(S, rows)
    S.require(distinct(rows), "no direction twice")
    S.require(all(a < b for a, b in zip(rows, rows[1:])), "directions are in lexicographic order")
    complete(S, rows, n, p)
    d = DasDennis(p, n)
    got = []
    while d.has_next():
        got += [list(map(float, r)) for r in d.next(3)]
    S.require(d.number_of_points() == len(rows) == len(got) and distinct(got), "the iterator returns each direction once")
    complete(S, got, n, p, "the iterator returns every lattice point")
    if n < 4 and p < 4:
        from pymoo.util.ref_dirs import incremental
        inc = rows_of(get_reference_directions("incremental", n, n_partitions=p))
        on_simplex(S, inc)
        S.require(distinct(inc), "no incremental direction twice")
        S.require(all(any(max(abs(r[j] - float(i == j)) for j in range(n)) < 1e-9 for r in inc) for i in range(n)), "the corners are incremental directions")
        S.require(incremental.check_n_points(len(inc), n) == [p], "the number of incremental directions selects the number of partitions")
    same = get_reference_directions("uniform", n, n_points=len(rows))
    S.require(bool(np.array_equal(same, A)), "the number of points selects the number of partitions")


@harness("P44", "scaled", quick=[dict(n=n, p=p) for n, p in ((2, 3), (3, 2), (3, 3))], functions=[RD + ":scale_reference_directions", RD + ":MultiLayerReferenceDirectionFactory.do", PR + "das_dennis.py:DasDennis.traverse"], bounds="every scaling in (0, 1], layers of 2-3 objectives", resolve=True)
def scaled(S, n, p):
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.util.ref_dirs.das_dennis import DasDennis
    from pymoo.util.reference_direction import UniformReferenceDirectionFactory, MultiLayerReferenceDirectionFactory
    s = S.real("s", lo=0, hi=1)
    S.assume(S.xlt(1e-3, s))
    base = rows_of(get_reference_directions("das-dennis", n, n_partitions=p))
    A = UniformReferenceDirectionFactory(n, n_partitions=p, scaling=s).do()
    rows = rows_of(A)
    on_simplex(S, rows, "scaled directions lie on the unit simplex")
    want = [[v * s + (1 - s) / n for v in r] for r in base]
    S.require(len(rows) == len(want), "scaling keeps the number of directions")
    S.require(S.all([S.any([S.all([S.eq(a, b) for a, b in zip(r, w)]) for r in rows]) for w in want]), "scaled directions are contracted to the centre")
    it = rows_of(DasDennis(p, n, scaling=s).next())
    S.require(len(it) == len(want), "the iterator returns each direction")
    S.require(S.all([S.any([S.all([S.eq(a, b) for a, b in zip(r, w)]) for r in it]) for w in want]), "the iterator scales the directions")
    layers = MultiLayerReferenceDirectionFactory(S.array(base), A)
    L = rows_of(layers.do())
    on_simplex(S, L, "layers lie on the unit simplex")
    S.require(S.all([S.any([S.all([S.le(S.abs(a - b), 1e-9) for a, b in zip(r, w)]) for r in L]) for w in base + want]), "each layer is contained")
    dup = [w for w in want if S.truth(S.any([S.all([S.xle(S.abs(a - b), 1e-10) for a, b in zip(r, w)]) for r in base]))]
    S.require(len(L) >= len(base) + len(want) - len(dup) and len(L) <= len(base) + len(want), "only duplicates are removed")
    two = rows_of(MultiLayerReferenceDirectionFactory(UniformReferenceDirectionFactory(n, n_partitions=p), UniformReferenceDirectionFactory(n, n_partitions=p)).do())
    S.require(len(two) == len(base), "factories can be layers, and duplicates are removed")


@harness("P44", "number", quick=[dict(n=n) for n in (2, 3, 4, 5)], functions=[RD + ":get_partition_closest_to_points", RD + ":UniformReferenceDirectionFactory.__init__"], bounds="every number of points up to 150 (2 objectives: 30)")
def number(S, n):
    from pymoo.util.reference_direction import get_partition_closest_to_points, UniformReferenceDirectionFactory
    N = S.int("N", lo=1, hi=30 if n == 2 else 150)
    p = get_partition_closest_to_points(N, n)
    S.require(S.all([S.le(comb(n + p - 1, p), N), S.lt(N, comb(n + p, p + 1))]), "the largest number of partitions that does not exceed the number of points")
    try:
        f = UniformReferenceDirectionFactory(n, n_points=N)
        S.require(S.all([S.eq(f.n_partitions, p), S.eq(N, comb(n + p - 1, p))]), "a number of points that exists is accepted")
    except Exception as e:
        if "can not be created uniformly" not in str(e):
            raise
        S.require(S.ne(N, comb(n + p - 1, p)), "a number of points that does not exist is rejected")


@harness("P44", "sampled", quick=[dict(mapping=m, n=n, k=k) for m in ("kraemer", "sum") for n, k in ((2, 2), (3, 2))] + [dict(mapping="lhs", n=2, k=4), dict(mapping="lhs", n=3, k=5)],
         functions=[RD + ":sample_on_unit_simplex", RD + ":map_onto_unit_simplex", PR + "sample_and_map.py:RandomSamplingAndMap._do"], bounds="all draws of 1-2 points in 2-3 dimensions", stubs=["the Latin hypercube sample is an arbitrary sample"], resolve=True)
def sampled(S, mapping, n, k):
    from pymoo.util.reference_direction import sample_on_unit_simplex
    from pymoo.util.ref_dirs.sample_and_map import RandomSamplingAndMap
    rng = S.rng(open_=True)
    if mapping == "lhs":
        from pymoo.util.ref_dirs import sample_and_map
        sample_and_map.LatinHypercubeSampling = lambda: lambda problem, m, **kw: S.array([[S.real("l%d_%d" % (i, j), lo=0, hi=1) for j in range(n)] for i in range(m)])
        A = RandomSamplingAndMap(n, k, lexsort=False).do(random_state=rng)
    else:
        A = sample_on_unit_simplex(k, n, unit_simplex_mapping=mapping, random_state=rng)
    rows = rows_of(A)
    S.require(len(rows) == k, "the number of directions asked for")
    on_simplex(S, rows, "sampled directions lie on the unit simplex")
    S.require(S.unseeded() == 0, "only the given random state is used")


@harness("P44", "projection", quick=[dict(n=n) for n in (2, 3)], functions=[PR + "misc.py:project_onto_sum_equals_one_plane", PR + "misc.py:project_onto_sum_equals_zero_plane", PR + "misc.py:project_onto_unit_simplex_recursive", PR + "misc.py:matrix_project_onto_sum_equals_one_plane"],
         bounds="every point of [-2, 2]^2 and [-2, 2]^3", resolve=True)
def projection(S, n):
    from pymoo.util.ref_dirs import misc
    y = [S.real("y%d" % j, lo=-2, hi=2) for j in range(n)]
    for f, c in ((misc.project_onto_sum_equals_one_plane, 1), (misc.project_onto_sum_equals_zero_plane, 0), (misc.matrix_project_onto_sum_equals_one_plane, 1)):
        q = f(S.array(y))
        want = [v + (c - S.sum(y)) / n for v in y]
        S.require(S.all([S.le(S.abs(q[j] - want[j]), 1e-9) for j in range(n)]), "the projection is the nearest point of the plane")
    q2 = misc.project_onto_sum_equals_one_plane(S.array([y, [0.5] + [0.0] * (n - 1)]))
    S.require(S.all([S.le(S.abs(q2[0, j] - (y[j] + (1 - S.sum(y)) / n)), 1e-9) for j in range(n)]), "points are projected one by one")
    S.require(S.all([S.le(S.abs(q2[1, j] - (float(j == 0) * 0.5 + 0.5 / n)), 1e-9) for j in range(n)]), "points are projected one by one")


@harness("P44", "simplex", quick=[dict(n=n) for n in (2, 3)], functions=[PR + "misc.py:project_onto_unit_simplex_recursive"], bounds="every point of the plane of sum one with coordinates in [-2, 2]", resolve=True)
def simplex(S, n):
    from pymoo.util.ref_dirs import misc
    y = [S.real("y%d" % j, lo=-2, hi=2) for j in range(n - 1)]
    y = y + [1 - S.sum(y)]
    inside = S.all([S.xle(0, v) for v in y])
    A = misc.project_onto_unit_simplex_recursive(S.array([y, [1.0] + [0.0] * (n - 1)]))
    r = [A[0, j] for j in range(n)]
    on_simplex(S, [r], "the result lies on the unit simplex")
    S.require(S.implies(inside, S.all([S.eq(a, b) for a, b in zip(r, y)])), "points of the simplex are left unchanged")
    S.require(S.all([S.implies(S.xle(y[j], 0), S.eq(r[j], 0)) for j in range(n)]), "coordinates that are not positive become zero")
    S.require(S.all([S.eq(A[1, j], float(j == 0)) for j in range(n)]), "other points are left unchanged")


@harness("P44", "distance", quick=[dict(n=n, k=k, s=s) for n, k, s in ((4, 3, 1), (5, 3, 2), (5, 4, 1), (4, 4, 0))], functions=[RD + ":select_points_with_maximum_distance"], bounds="4-5 points on a line, one or two of them symbolic, 3-4 to be selected, given or random start", resolve=True)
def distance(S, n, k, s):
    from pymoo.util.reference_direction import select_points_with_maximum_distance
    x = [S.real("x%d" % i, lo=0, hi=10) for i in range(2)] + [3.0, 8.0, 5.5][: n - 2]
    if n == 5:
        x[0] = 1.0
    X = S.array([[v] for v in x])
    start = [[], [1], [0, n - 1]][s]
    rng = S.rng(open_=True)
    got = [int(i) for i in select_points_with_maximum_distance(X, k, selected=list(start), random_state=rng)]
    S.require(len(got) == k and len(set(got)) == k, "as many different points as asked for")
    S.require(got[: len(start)] == start, "the points given stay selected")
    for t in range(max(1, len(start)), k):
        def d(i):
            return S.min([S.abs(x[i] - x[j]) for j in got[:t]])
        S.require(S.all([S.le(d(i), d(got[t])) for i in range(n) if i not in got[:t]]), "the next point is one of those farthest from the selected points")
