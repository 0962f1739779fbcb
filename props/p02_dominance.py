"""P02: the dominance relation."""
import numpy as np
from symx.harness import harness
from common import dom, rows, meta, problem, pop_of

D = "pymoo/util/dominator.py:"
META = meta(
    "Dominance is the constrained Pareto relation, in every implementation",
    "Dominator.get_relation (on vectors or on individuals) returns 1 or -1 for the solution with strictly smaller constraint violation when violations are given, and for equal or "
    "absent violations returns 1 exactly when a Pareto-dominates b, -1 exactly when b dominates a and 0 otherwise. The loop-based and the "
    "vectorised domination matrices (also against a second set, and with an epsilon tolerance: better by more than epsilon somewhere and worse by more than epsilon nowhere) agree entry by entry with that relation.",
    ["inputs"], "all real objective vectors and constraint violations, ties included", "tests use a handful of random vectors without ties",
    ["pymoo/util/dominator.py", "pymoo/util/vf_dominator.py"],
    [("relation", D + "Dominator.get_relation"), ("matrix", D + "Dominator.calc_domination_matrix")],
    "bounded: up to 3 objectives, 3 points, 2 constraints; value-function based splitting of VFDominator (vf_res set) is outside")


def rel(S, a, b):
    return S.ite(dom(S, a, b), 1, S.ite(dom(S, b, a), -1, 0))


@harness("P02", "relation", quick=[dict(m=m, cv=cv, w=w) for m in (1, 2, 3) for cv in (0, 1) for w in (0, 1)],
         thorough=[dict(m=m, cv=cv, w=w) for m in (1, 2, 3, 4, 5) for cv in (0, 1) for w in (0, 1)],
         functions=[D + "Dominator.get_relation", D + "get_relation", "pymoo/util/vf_dominator.py:VFDominator.get_relation"], bounds="m<=3 objectives")
def relation(S, m, cv, w):
    from pymoo.util import dominator, vf_dominator
    a, b = S.reals("a", (m,)), S.reals("b", (m,))
    cls = [dominator.Dominator, vf_dominator.VFDominator][w]
    mod = [dominator, vf_dominator][w]
    if cv:
        ca, cb = S.real("ca", 0), S.real("cb", 0)
        exp = S.ite(S.xlt(ca, cb), 1, S.ite(S.xlt(cb, ca), -1, rel(S, a, b)))
        S.require(S.same(cls.get_relation(a, b, ca, cb), exp), "relation with violations")
        from pymoo.core.individual import Individual
        i, j = Individual(F=a, CV=S.array([ca])), Individual(F=b, CV=S.array([cb]))
        S.require(S.same(mod.get_relation(i, j), exp), "relation of individuals")
    else:
        S.require(S.same(cls.get_relation(a, b), rel(S, a, b)), "relation without violations")


@harness("P02", "matrix", quick=[dict(n=3, m=2, k=0), dict(n=2, m=3, k=0), dict(n=2, m=2, k=3), dict(n=1, m=2, k=2)],
         thorough=[dict(n=4, m=3, k=0), dict(n=3, m=4, k=4)],
         functions=[D + "Dominator.calc_domination_matrix", "pymoo/util/vf_dominator.py:VFDominator.calc_domination_matrix"], bounds="n<=3, m<=3")
def matrix(S, n, m, k):
    from pymoo.util.dominator import Dominator
    from pymoo.util.vf_dominator import VFDominator
    F = S.reals("F", (n, m))
    G = S.reals("G", (k, m)) if k else None
    A, B = rows(F), rows(G) if k else rows(F)
    eps = S.real("eps", 0, 5) if S.choose(2) else 0.0

    class Alg:
        vf_res = None
    which = S.choose(2)
    d = VFDominator(Alg()) if which else Dominator
    M = d.calc_domination_matrix(F, G, epsilon=eps) if k else d.calc_domination_matrix(F, epsilon=eps)
    S.require(M.shape == (n, len(B)), "shape")
    for i in range(n):
        for j in range(len(B)):
            sm = S.any([S.xlt(x + eps, y) for x, y in zip(A[i], B[j])])
            la = S.any([S.xlt(y + eps, x) for x, y in zip(A[i], B[j])])
            e = S.ite(S.all([sm, S.not_(la)]), 1, S.ite(S.all([la, S.not_(sm)]), -1, 0))
            S.require(S.same(M[i, j], e), "entry of the domination matrix")


@harness("P02", "matrix_default", quick=[dict(n=3, m=2), dict(n=2, m=3)], thorough=[dict(n=4, m=3)],
         functions=[D + "Dominator.calc_domination_matrix"], bounds="n<=3, m<=3")
def matrix_default(S, n, m):
    from pymoo.util.dominator import Dominator
    F = S.reals("F", (n, m))
    A = rows(F)
    M = Dominator.calc_domination_matrix(F)
    for i in range(n):
        for j in range(n):
            S.require(S.same(M[i, j], rel(S, A[i], A[j])), "entry of the domination matrix")


@harness("P02", "loop", quick=[dict(n=2, m=2, c=1), dict(n=3, m=2, c=1), dict(n=2, m=1, c=2)], thorough=[dict(n=3, m=2, c=2), dict(n=3, m=3, c=1)],
         functions=[D + "Dominator.calc_domination_matrix_loop", "pymoo/util/vf_dominator.py:VFDominator.calc_domination_matrix_loop"],
         bounds="n<=3, m<=2, up to 2 inequality constraints")
def loop(S, n, m, c):
    from pymoo.util.dominator import Dominator
    from pymoo.util.vf_dominator import VFDominator
    F, G = S.reals("F", (n, m)), S.reals("G", (n, c))
    A = rows(F)
    M = (VFDominator if S.choose(2) else Dominator).calc_domination_matrix_loop(F, G)
    CV = [S.sum([S.ite(S.xlt(0, G[i, j]), G[i, j], 0) for j in range(c)]) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                e = S.ite(S.xlt(CV[i], CV[j]), 1, S.ite(S.xlt(CV[j], CV[i]), -1, rel(S, A[i], A[j])))
            else:
                e = 0
            S.require(S.same(M[i, j], e), "entry of the loop-based matrix")
