"""P01: the fronts returned by non-dominated sorting are exactly the Pareto ranks."""
import numpy as np
from symx.harness import harness

META = dict(
    title="Non-dominated sorting returns exactly the Pareto ranks",
    statement="For every objective matrix, the fronts returned by NonDominatedSorting.do (with and without a custom dominator), by find_non_dominated "
              "and by the pure-Python sorters partition the indices so that no member of a front is dominated by a member of the same or a later front and every "
              "member of front k>0 is dominated by a member of front k-1; duplicates share a front. The rank array agrees with the fronts, and "
              "only_non_dominated_front, n_stop_if_ranked and n_fronts return exactly the corresponding prefix of the fronts.",
    quantifier=dict(over=["inputs"], text="every real objective matrix (ties and duplicates included), every option value"),
    why_tests_cant="tests compare sorters with each other on a few random matrices; the guarantee must hold for every tie/duplicate/dominance pattern",
    anchors=dict(files=["pymoo/util/nds/non_dominated_sorting.py", "pymoo/util/nds/fast_non_dominated_sort.py",
                        "pymoo/functions/standard/non_dominated_sorting.py"],
                 mechanism=[dict(name="front extraction", where="pymoo/util/nds/non_dominated_sorting.py:NonDominatedSorting.do"),
                            dict(name="python sorters", where="pymoo/functions/standard/non_dominated_sorting.py")]),
    level_note="bounded: n<=4 points, m<=3 objectives; moocore.pareto_rank/is_nondominated (C library) replaced by their exact contract")

NDS = "pymoo/util/nds/non_dominated_sorting.py:"
STD = "pymoo/functions/standard/non_dominated_sorting.py:"


def dom(S, a, b):
    return S.all([S.xle(x, y) for x, y in zip(a, b)] + [S.any([S.xlt(x, y) for x, y in zip(a, b)])])


def rows(F):
    return [[F[i, j] for j in range(F.shape[1])] for i in range(F.shape[0])]


def check_fronts(S, F, fronts, complete=True, domf=None, tag=""):
    n = len(F)
    R = rows(F)
    D = domf or (lambda i, j: dom(S, R[i], R[j]))
    fronts = [[int(i) for i in f] for f in fronts]
    flat = [i for f in fronts for i in f]
    S.require(len(flat) == len(set(flat)) and all(0 <= i < n for i in flat), tag + "no index twice")
    S.require(all(len(f) > 0 for f in fronts), tag + "no empty front")
    if complete:
        S.require(sorted(flat) == list(range(n)), tag + "every index ranked exactly once")
    rest = set(range(n))
    for k, f in enumerate(fronts):
        for i in f:
            for j in rest:
                if i != j:
                    S.require(S.not_(D(j, i)), tag + "front member not dominated by an equal or worse ranked one")
        if k:
            for i in f:
                S.require(S.any([D(j, i) for j in fronts[k - 1]]), tag + "member of front k dominated by front k-1")
        rest -= set(f)
    if fronts:
        for i in rest:
            S.require(S.any([D(j, i) for j in fronts[-1]]), tag + "unranked ones are dominated by the last returned front")
    return fronts


@harness("P01", "sorting_do", quick=[dict(n=3, m=2), dict(n=4, m=2), dict(n=3, m=3), dict(n=2, m=3), dict(n=1, m=2)],
         thorough=[dict(n=5, m=2), dict(n=4, m=3), dict(n=3, m=4)],
         functions=[NDS + "NonDominatedSorting.do", NDS + "rank_from_fronts"], bounds="n<=4 points, m<=3 objectives, all real F",
         stubs=["moocore.pareto_rank: exact Pareto ranks of its argument"])
def sorting_do(S, n, m):
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
    F = S.reals("F", (n, m))
    sel = S.choose(5)
    nds = NonDominatedSorting()
    if sel == 0:
        fronts, rank = nds.do(F, return_rank=True)
        fr = check_fronts(S, F, fronts)
        exp = {i: k for k, f in enumerate(fr) for i in f}
        S.require(len(rank) == n and S.all([S.same(rank[i], exp[i]) for i in range(n)]), "rank array agrees with the fronts")
    elif sel == 1:
        f = nds.do(F, only_non_dominated_front=True)
        check_fronts(S, F, [f], complete=False)
    elif sel == 2:
        k = 1 + S.choose(n)
        fronts, rank = nds.do(F, return_rank=True, n_stop_if_ranked=k)
        fr = check_fronts(S, F, fronts, complete=False)
        S.require(sum(map(len, fr)) >= k, "at least n_stop_if_ranked individuals are ranked")
        S.require(sum(map(len, fr[:-1])) < k, "stops as soon as enough are ranked")
        exp = {i: q for q, f in enumerate(fr) for i in f}
        big = max(len(fr), n)
        S.require(S.all([S.same(rank[i], exp[i]) if i in exp else rank[i] >= big for i in range(n)]), "rank array of a partial sort")
    elif sel == 3:
        k = 1 + S.choose(n)
        fr = check_fronts(S, F, nds.do(F, n_fronts=k), complete=False)
        S.require(len(fr) <= k, "at most n_fronts fronts")
        S.require(len(fr) == k or sum(map(len, fr)) == n, "exactly n_fronts fronts when there are that many")
    else:
        from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting as N2
        e = S.real("eps", 0, 10)
        check_fronts(S, F, N2(epsilon=e).do(F))


@harness("P01", "sorting_empty", quick=[{}], functions=[NDS + "NonDominatedSorting.do"], bounds="no points")
def sorting_empty(S):
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated
    F = np.zeros((0, 2))
    S.require(len(NonDominatedSorting().do(F)) == 0, "no fronts")
    S.require(len(NonDominatedSorting().do(F, only_non_dominated_front=True)) == 0, "empty front")
    S.require(len(find_non_dominated(F)) == 0, "empty")


@harness("P01", "find_nd", quick=[dict(n=3, m=2, k=0), dict(n=3, m=3, k=0), dict(n=2, m=2, k=2), dict(n=2, m=2, k=3)],
         thorough=[dict(n=4, m=2, k=0), dict(n=4, m=3, k=0), dict(n=3, m=2, k=3)],
         functions=[NDS + "find_non_dominated", "pymoo/util/dominator.py:Dominator.calc_domination_matrix"],
         bounds="n<=3 points, m<=3 objectives", stubs=["moocore.is_nondominated: exact"])
def find_nd(S, n, m, k):
    from pymoo.util.nds.non_dominated_sorting import find_non_dominated
    F = S.reals("F", (n, m))
    A = rows(F)
    if k:
        G = S.reals("G", (k, m))
        B = rows(G)
        I = set(int(i) for i in find_non_dominated(F, G))
    else:
        B = A
        I = set(int(i) for i in find_non_dominated(F))
    for i in range(n):
        nd = S.all([S.not_(dom(S, b, A[i])) for b in B])
        S.require(S.iff(i in I, nd), "returned exactly the non-dominated ones")


ALGOS = ["fast_non_dominated_sort", "efficient_sequential", "efficient_binary", "dominance_degree_fast", "dominance_degree_efficient",
         "find_non_dominated"]


@harness("P01", "python_sorters", quick=[dict(a=a, n=n, m=m) for a in ALGOS for n, m in ((3, 2), (2, 3), (4, 2), (3, 3))],
         thorough=[dict(a=a, n=n, m=m) for a in ALGOS for n, m in ((4, 2), (3, 3), (4, 3), (5, 2))],
         functions=[STD + f for f in ("fast_non_dominated_sort", "efficient_non_dominated_sort", "sequential_search", "binary_search",
                                      "dominance_degree_non_dominated_sort", "construct_comp_matrix", "construct_domination_matrix", "dda_ns", "dda_ens",
                                      "find_non_dominated")],
         bounds="n<=4 points, m<=3 objectives, all real F")
def python_sorters(S, a, n, m):
    from pymoo.functions.standard import non_dominated_sorting as M
    F = S.reals("F", (n, m))
    if a == "find_non_dominated":
        f = M.find_non_dominated(F)
        check_fronts(S, F, [f], complete=False)
        return
    if a == "fast_non_dominated_sort":
        fronts = M.fast_non_dominated_sort(F)
    elif a.startswith("efficient"):
        fronts = M.efficient_non_dominated_sort(F, strategy=a.split("_")[1])
    else:
        fronts = M.dominance_degree_non_dominated_sort(F, strategy=a.split("_")[2])
    check_fronts(S, F, fronts)


@harness("P01", "sorting_with_dominator", quick=[dict(n=3, m=2), dict(n=4, m=2)], thorough=[dict(n=4, m=3), dict(n=5, m=2)],
         functions=[NDS + "NonDominatedSorting.do", "pymoo/util/nds/fast_non_dominated_sort.py:fast_non_dominated_sort"],
         bounds="n<=4 points, an arbitrary symbolic antisymmetric, transitive relation as dominator")
def sorting_with_dominator(S, n, m):
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
    F = S.reals("F", (n, m))
    D = {}
    for i in range(n):
        for j in range(i + 1, n):
            r = S.int("rel", -1, 1)
            D[i, j], D[j, i] = r, -r
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if len({i, j, k}) == 3:
                    S.assume(S.implies(S.all([S.same(D[i, j], 1), S.same(D[j, k], 1)]), S.same(D[i, k], 1)))

    class Dom:
        def calc_domination_matrix(self, F_, *a, **kw):
            return S.array([[0 if i == j else D[i, j] for j in range(n)] for i in range(n)])
    domf = lambda i, j: S.same(D[i, j], 1)
    nds = NonDominatedSorting(dominator=Dom())
    sel = S.choose(4)
    if sel == 0:
        fronts, rank = nds.do(F, return_rank=True)
        fr = check_fronts(S, F, fronts, domf=domf)
        exp = {i: k for k, f in enumerate(fr) for i in f}
        S.require(S.all([S.same(rank[i], exp[i]) for i in range(n)]), "rank array agrees with the fronts")
    elif sel == 1:
        check_fronts(S, F, [nds.do(F, only_non_dominated_front=True)], complete=False, domf=domf)
    elif sel == 2:
        k = 1 + S.choose(n)
        fr = check_fronts(S, F, nds.do(F, n_stop_if_ranked=k), complete=False, domf=domf)
        S.require(sum(map(len, fr)) >= k and sum(map(len, fr[:-1])) < k, "stops exactly when enough are ranked")
    else:
        k = 1 + S.choose(n)
        fr = check_fronts(S, F, nds.do(F, n_fronts=k), complete=False, domf=domf)
        S.require(len(fr) <= k, "at most n_fronts fronts")
        S.require(len(fr) == k or sum(map(len, fr)) == n, "exactly n_fronts fronts when there are that many")


@harness("P01", "tree_sorter", quick=[dict(n=3, m=2), dict(n=3, m=3), dict(n=4, m=2)], thorough=[dict(n=4, m=3)],
         functions=[STD + "tree_based_non_dominated_sort", STD + "update_tree", STD + "check_tree"],
         bounds="n<=4 points, m<=3 objectives")
def tree_sorter(S, n, m):
    from pymoo.functions.standard import non_dominated_sorting as M
    F = S.reals("F", (n, m))
    check_fronts(S, F, M.tree_based_non_dominated_sort(F))


@harness("P01", "biobjective_sorter", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5)],
         functions=[STD + "_fast_biobjective_nondominated_sort", STD + "fast_non_dominated_sort"], bounds="n<=4 points, 2 objectives")
def biobjective_sorter(S, n):
    from pymoo.functions.standard import non_dominated_sorting as M
    F = S.reals("F", (n, 2))
    check_fronts(S, F, M.fast_non_dominated_sort(F, native_biobj_sorting=True))
