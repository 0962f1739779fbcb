"""P06: crowding metrics against their definitions."""
import numpy as np
from symx.harness import harness
from common import meta, rows

M = "pymoo/operators/survival/rank_and_crowding/metrics.py:"
META = meta(
    "Crowding measures equal their definitions",
    "The crowding distance of a solution is the mean over the objectives of the gap between its two neighbours in that objective divided by the objective's range: infinite for the two "
    "boundary solutions of an objective, and an objective in which all values are equal contributes zero. The pruning variants (pcd, mnn, 2nn) give boundary solutions "
    "infinity and otherwise the (normalised) neighbour gap sum respectively the product of the M or 2 smallest squared normalised distances after removing one by one the least crowded-distance solutions "
    "(one fewer than the number to be dropped); crowding entropy weights gap sums with the entropy of the gaps; every exact duplicate gets zero where duplicates are filtered.",
    ["inputs"], "all real objective matrices of the bounded size (ties, duplicates and constant objectives included), all numbers of removals",
    "tests compare with stored values of single fronts", ["pymoo/operators/survival/rank_and_crowding/metrics.py", "pymoo/functions/standard/mnn.py",
                                                          "pymoo/functions/standard/pruning_cd.py"],
    [("crowding distance", M + "calc_crowding_distance"), ("dispatch and duplicates", M + "FunctionalDiversity._do")],
    "bounded: up to 4 points, 2-3 objectives; objective ranges symbolic except in the pruning variants (range fixed to 1 by boundary points); entropy: log2 uninterpreted")


def order(S, col):
    """indices in stable ascending order (forks where undecided)"""
    I = []
    for i in range(len(col)):
        k = len(I)
        while k > 0 and S.truth(S.xlt(col[i], col[I[k - 1]])):
            k -= 1
        I.insert(k, i)
    return I


def ref_cd(S, F):
    """list of (inf?, value) per point: mean of normalised neighbour gaps"""
    n, m = len(F), len(F[0])
    inf = [False] * n
    val = [0] * n
    for j in range(m):
        col = [F[i][j] for i in range(n)]
        I = order(S, col)
        lo, hi = col[I[0]], col[I[-1]]
        if S.truth(S.same(lo, hi)):
            continue
        inf[I[0]] = inf[I[-1]] = True
        for a, i, b in zip(I, I[1:], I[2:]):
            val[i] = val[i] + (col[b] - col[a]) / (hi - lo)
    return inf, [v / m for v in val]


def ordered(S, F, strict=False):
    """fix the order of the points in the first objective (an arbitrary, not monotone one; ties allowed)"""
    n = len(F)
    I = [2, 0, 3, 1, 4][:n] if n > 3 else [1, 2, 0][:n]
    for a, b in zip(I, I[1:]):
        S.assume(S.xlt(F[a, 0], F[b, 0]) if strict else S.xle(F[a, 0], F[b, 0]))


def is_dup(S, F, i):
    return S.any([S.all([S.same(x, y) for x, y in zip(F[i], F[j])]) for j in range(i)])


def req_eq(S, got, inf, val, what):
    import math
    for i in range(len(val)):
        if inf[i]:
            S.require(S.not_(S.finite(got[i])) and S.xlt(0, got[i]), what + ": boundary solutions are infinitely valuable")
        else:
            S.require(S.all([S.finite(got[i]), S.eq(got[i], val[i])]) if S.finite(got[i]) else False, what + ": value of the definition")


@harness("P06", "cd", resolve=True, quick=[dict(n=3, m=2), dict(n=4, m=2, fix=1), dict(n=3, m=3, fix=1), dict(n=2, m=2), dict(n=1, m=2)],
         thorough=[dict(n=3, m=3), dict(n=4, m=2), dict(n=4, m=3, fix=1), dict(n=5, m=2, fix=1)],
         functions=[M + "calc_crowding_distance", M + "FunctionalDiversity._do", M + "CrowdingDiversity.do"],
         bounds="n<=4, m<=3 (quick: for n=4 or m=3 the order of the points in the first objective is fixed)")
def cd(S, n, m, fix=0):
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    F = S.reals("F", (n, m))
    if fix:
        ordered(S, F)
    R = rows(F)
    d = get_crowding_function("cd").do(F, n_remove=S.choose(2))
    S.require(len(d) == n, "one value per point")
    if n <= 2:
        S.require(all(not S.finite(v) for v in d), "two points are always kept")
        return
    inf, val = ref_cd(S, R)
    req_eq(S, d, inf, val, "cd")
    S.require(S.all([S.same(F[i, j], R[i][j]) for i in range(n) for j in range(m)]), "input unchanged")


def normed(S, n, m):
    """n points spanning exactly the unit box: the extremes are attained, interior symbolic"""
    F = S.reals("F", (n, m), lo=0, hi=1)
    for j in range(m):
        S.assume(S.any([S.same(F[i, j], 0) for i in range(n)]))
        S.assume(S.any([S.same(F[i, j], 1) for i in range(n)]))
    return F


def ref_prune(S, F, n_remove, value):
    """greedy pruning: remove the smallest (first) one n_remove-1 times, recomputing `value` among the remaining ones"""
    n, m = len(F), len(F[0])
    lo = [order(S, [F[i][j] for i in range(n)])[0] for j in range(m)]
    hi = []
    for j in range(m):
        b = 0
        for i in range(1, n):
            if S.truth(S.xlt(F[b][j], F[i][j])):
                b = i
        hi.append(b)
    ext = set(lo + hi)
    H = list(range(n))
    d = {i: None for i in H}
    d.update({i: v for i, v in zip(H, value([F[i] for i in H]))})
    left = max(0, min(n_remove, n - m) - 1)
    while left > 0:
        left -= 1
        cand = [i for i in H if i not in ext and S.finite(d[i])]
        if not cand:
            break
        k = cand[0]
        for i in cand[1:]:
            if S.truth(S.xlt(d[i], d[k])):
                k = i
        H.remove(k)
        for i, v in zip(H, value([F[q] for q in H])):
            if i not in ext:
                d[i] = v
    return ext, d


def gaps(S):
    def value(P):
        n, m = len(P), len(P[0])
        val = [0] * n
        for j in range(m):
            col = [p[j] for p in P]
            I = order(S, col)
            val[I[0]] = val[I[-1]] = float("inf")
            for a, i, b in zip(I, I[1:], I[2:]):
                val[i] = val[i] + (col[b] - col[a])
        return val
    return value


@harness("P06", "pcd", resolve=True, quick=[dict(n=4, m=2, fix=1)], thorough=[dict(n=4, m=2), dict(n=5, m=2, fix=1), dict(n=4, m=3, fix=1)],
         functions=["pymoo/functions/standard/pruning_cd.py:calc_pcd"], bounds="n<=4, m=2, objective ranges normalised to 1, all n_remove")
def pcd(S, n, m, fix=0):
    from pymoo.functions.standard.pruning_cd import calc_pcd
    F = normed(S, n, m)
    if fix:
        ordered(S, F)
    R = rows(F)
    k = S.pick([0, 2, n])
    d = calc_pcd(F, n_remove=k)
    ext, ref = ref_prune(S, R, k, gaps(S))
    for i in range(n):
        if i in ext or not S.finite(ref[i]):
            S.require(not S.finite(d[i]), "boundary solutions are infinitely valuable")
        else:
            S.require(S.eq(d[i], ref[i]) if S.finite(d[i]) else False, "gap sum after pruning")


@harness("P06", "pcd_range", quick=[dict(n=3)], functions=["pymoo/functions/standard/pruning_cd.py:calc_pcd"], bounds="3 points, 1-2 objectives, arbitrary (also zero) ranges")
def pcd_range(S, n):
    from pymoo.functions.standard.pruning_cd import calc_pcd
    F = S.reals("F", (n, 2))
    I = order(S, [F[i, 0] for i in range(n)])
    S.assume(S.all([S.xlt(F[I[0], 0], F[I[1], 0]), S.xlt(F[I[1], 0], F[I[2], 0])]))
    mid = I[1]
    S.assume(S.all([S.same(F[i, 1], F[mid, 1]) for i in range(n)]) if S.choose(2) else S.all([S.xlt(F[I[0], 1], F[mid, 1]), S.xlt(F[mid, 1], F[I[2], 1])]))
    d = calc_pcd(F, n_remove=S.choose(2))
    J = [i for i in range(n) if i != mid]
    S.require(not S.finite(d[J[0]]) and not S.finite(d[J[1]]), "boundary solutions")


@harness("P06", "mnn", resolve=True, quick=[dict(n=5, m=2, two=0, var=0), dict(n=4, m=3, two=1, var=1), dict(n=4, m=3, two=0, var=0)],
         thorough=[dict(n=4, m=2, two=0, var=1), dict(n=5, m=3, two=1, var=1), dict(n=5, m=3, two=0, var=0)], timeout_ms=8000,
         functions=["pymoo/functions/standard/mnn.py:calc_mnn_base"], bounds="4-5 points, 2-3 objectives, one (var=0) or two (var=1) symbolic coordinates, the others fixed; up to 3 removals")
def mnn(S, n, m, two, var):
    from pymoo.functions.standard import mnn as mod
    base = [[0.5, 0.375, 0.625], [0, 1, 0.25], [0.25, 0.75, 0], [1, 0, 1], [0.75, 0.5, 0.5]][:n]
    t, u = S.reals("t", (2,), lo=0, hi=1)
    F = [r[:m] for r in base]
    F[0][0] = t
    if var:
        F[2 if n == 4 else 4][1] = u
    F = S.array(F)
    R = rows(F)
    k = S.pick([1, 3])
    d = (mod.calc_2nn if two else mod.calc_mnn)(F, n_remove=k)
    q = 2 if two else m

    def value(P):
        out = []
        for i, p in enumerate(P):
            ds = [sum((a - b) * (a - b) for a, b in zip(p, o)) for r, o in enumerate(P) if r != i]
            if len(ds) < q:
                out.append(float("inf"))
                continue
            I = order(S, ds)
            v = 1
            for r in I[:q]:
                v = v * ds[r]
            out.append(v)
        return out
    ext, ref = ref_prune(S, R, k, value)
    for i in range(n):
        if i in ext or not S.finite(ref[i]):
            S.require(not S.finite(d[i]), "boundary solutions are infinitely valuable")
        else:
            S.require(S.eq(d[i], ref[i]) if S.finite(d[i]) else False, "product of the nearest squared distances")


@harness("P06", "mnn_few", quick=[dict(n=2), dict(n=1)], functions=["pymoo/functions/standard/mnn.py:calc_mnn_base", M + "FuncionalDiversityMNN._do"], bounds="n<=m")
def mnn_few(S, n):
    from pymoo.functions.standard import mnn as mod
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    F = S.reals("F", (n, 2))
    for d in (mod.calc_mnn(F), mod.calc_2nn(F), get_crowding_function("mnn").do(F), get_crowding_function("2nn").do(F), get_crowding_function("pcd").do(F),
              get_crowding_function("ce").do(F)):
        S.require(len(d) == n and all(not S.finite(v) for v in d), "nothing to prune")


@harness("P06", "entropy", quick=[dict(n=3, m=2), dict(n=4, m=1)], thorough=[dict(n=4, m=2)], functions=[M + "calc_crowding_entropy"],
         bounds="n<=4, m<=2, distinct values in every objective")
def entropy(S, n, m):
    from pymoo.operators.survival.rank_and_crowding.metrics import calc_crowding_entropy
    F = S.reals("F", (n, m))
    R = rows(F)
    for j in range(m):
        for i in range(n):
            for k in range(i):
                S.assume(S.ne(F[i, j], F[k, j]))
    got = calc_crowding_entropy(F)
    inf, val = [False] * n, [0] * n
    for j in range(m):
        col = [R[i][j] for i in range(n)]
        I = order(S, col)
        inf[I[0]] = inf[I[-1]] = True
        for a, i, b in zip(I, I[1:], I[2:]):
            dl, du = col[i] - col[a], col[b] - col[i]
            pl, pu = dl / (dl + du), du / (dl + du)
            val[i] = val[i] + (dl + du) * -(pl * np.log2(pl) + pu * np.log2(pu)) / (col[I[-1]] - col[I[0]])
    req_eq(S, got, inf, val, "ce")


@harness("P06", "duplicates", quick=[dict(n=3, m=2)], thorough=[dict(n=4, m=2)], functions=[M + "FunctionalDiversity._do", "pymoo/util/misc.py:find_duplicates"], bounds="n=3",
         stubs=["crowding function: arbitrary values", "euclidean cdist"])
def duplicates(S, n, m):
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    F = S.array([[S.int("F", -1, 1) * 0.5 for _ in range(m)] for _ in range(n)])
    R = rows(F)
    c = S.reals("c", (n,), lo=1)
    seen = {}

    def fun(_F, n_remove=None, **kw):
        seen["F"] = _F
        return c[:len(_F)]
    got = get_crowding_function(fun).do(F, n_remove=0)
    k = 0
    for i in range(n):
        if S.truth(is_dup(S, R, i)):
            S.require(S.same(got[i], 0), "a duplicate gets zero")
        elif k < len(seen["F"]):
            S.require(S.all([S.same(x, y) for x, y in zip([seen["F"][k, j] for j in range(m)], R[i])]), "the first of equal ones is measured")
            S.require(S.same(got[i], c[k]), "value stored at its solution")
            k += 1
        else:
            S.require(S.same(got[i], 0), "numerically indistinguishable")
    S.require(k == len(seen["F"]), "exactly the unique ones are measured")
