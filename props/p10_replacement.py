"""P10: replacement and single-objective survival order."""
import numpy as np
from symx.harness import harness
from common import meta, rows, pop_of, problem, uids

R = "pymoo/core/replacement.py"
META = meta(
    "Replacement takes an offspring only if strictly better and never a duplicate",
    "For every pair of individuals, is_better(new, old, eps) is true exactly when the new one is feasible and the old is not, or both are feasible and F improves by more than eps, or both are infeasible and CV improves by more than eps. "
    "ImprovementReplacement replaces a parent exactly when its own offspring is better in this sense (eps = 0) and does not coincide with a parent or an earlier offspring, so no slot ever gets worse; other slots keep their individual, and the parents' population object is changed only if in-place was asked for. "
    "hierarchical_sort orders by feasibility first, then by objective or violation.",
    ["inputs"], "all objective, violation and decision values of the stated sizes", "tests only look at final results of whole runs", [R, "pymoo/util/misc.py"],
    [("pair", R + ":is_better"), ("replacement", R + ":ImprovementReplacement._do"), ("driver", R + ":ReplacementSurvival.do"), ("order", R + ":hierarchical_sort")],
    "bounded: 2-3 parents with one offspring each, 1 variable, 1 objective")


def better(S, fn, cn, fo, co, eps=0.0):
    a, b = S.xle(cn, 0.0), S.xle(co, 0.0)
    return S.any([S.all([a, S.not_(b)]), S.all([a, b, S.xlt(eps, fo - fn)]), S.all([S.not_(a), S.not_(b), S.xlt(eps, co - cn)])])


@harness("P10", "pair", quick=[dict()], functions=[R + ":is_better"], bounds="two individuals, symbolic eps >= 0")
def pair(S):
    from pymoo.core.replacement import is_better
    F, CV, e = S.reals("F", (2, 1)), S.reals("cv", (2, 1), lo=0), S.real("eps", 0)
    pop = pop_of(S, F=F, CV=CV, X=S.array([[0.0], [1.0]]))
    if S.choose(2) == 0:
        S.require(S.iff(is_better(pop[0], pop[1], eps=e), better(S, F[0, 0], CV[0, 0], F[1, 0], CV[1, 0], e)), "better by more than eps")
    else:
        S.require(S.iff(is_better(pop[0], pop[1]), better(S, F[0, 0], CV[0, 0], F[1, 0], CV[1, 0])), "strictly better")


@harness("P10", "replace", quick=[dict(n=2, constr=True), dict(n=2, constr=False)], thorough=[dict(n=2, constr=True), dict(n=2, constr=False), dict(n=3, constr=False)],
         functions=[R + ":ImprovementReplacement._do", R + ":ReplacementSurvival.do"], bounds="2-3 parents and offspring; symbolic X, F and violations; offspring given separately, as tail, as single individual")
def replace(S, n, constr):
    from pymoo.core.population import Population
    from pymoo.core.replacement import ImprovementReplacement
    X, F = S.reals("X", (2 * n, 1)), S.reals("F", (2 * n, 1))
    CV = S.reals("cv", (2 * n, 1), lo=0) if constr else S.array(np.zeros((2 * n, 1)))
    x, f, cv = [X[i, 0] for i in range(2 * n)], [F[i, 0] for i in range(2 * n)], [CV[i, 0] for i in range(2 * n)]
    allp = pop_of(S, F=F, CV=CV, X=X)
    pop, off = allp[:n], allp[n:]
    before = list(pop)
    p = problem(n_var=1, n_obj=1, n_ieq=1 if constr else 0)
    inplace = False
    k = S.choose(4)
    if k == 0:
        out = ImprovementReplacement().do(p, pop, off)
    elif k == 1:
        out = ImprovementReplacement().do(p, allp, n)
    elif k == 2:
        inplace = True
        out = ImprovementReplacement().do(p, pop, off, inplace=True)
    else:
        I = ImprovementReplacement().do(p, pop, off, return_indices=True)
        S.require(len(I) == n, "one decision per slot")
        out = [off[i] if bool(I[i]) else pop[i] for i in range(n)]
    S.require(len(out) == n, "same size")
    dup = []
    for i in range(n):
        dup.append(S.any([S.same(x[n + i], x[j]) for j in range(n)] + [S.same(x[n + i], x[n + j]) for j in range(i)]))
        want = S.all([better(S, f[n + i], cv[n + i], f[i], cv[i]), S.not_(dup[i])])
        S.require(out[i] is before[i] or out[i] is off[i], "the slot holds its parent or its offspring")
        S.require(S.iff(out[i] is off[i], want), "replaced exactly when strictly better and not a duplicate")
    if not inplace:
        S.require(all(a is b for a, b in zip(pop, before)), "the given population is not changed")
    elif k == 2:
        S.require(out is pop, "in place")


@harness("P10", "order", quick=[dict(n=3)], thorough=[dict(n=4)], functions=[R + ":hierarchical_sort", R + ":parameter_less", "pymoo/util/misc.py:parameter_less"], bounds="3-4 individuals")
def order(S, n):
    from pymoo.core.replacement import hierarchical_sort
    from pymoo.util.misc import parameter_less
    f, cv = S.reals("f", (n,)), S.reals("cv", (n,), lo=0)
    fv, cvv = [f[i] for i in range(n)], [cv[i] for i in range(n)]
    if S.choose(2) == 0:
        use = S.choose(2) == 1
        I = [int(i) for i in (hierarchical_sort(f, cv) if use else hierarchical_sort(f))]
        S.require(sorted(I) == list(range(n)), "permutation")
        for a, b in zip(I, I[1:]):
            if not use:
                S.require(S.xle(fv[a], fv[b]), "ascending")
            else:
                fa, fb = S.xle(cvv[a], 0.0), S.xle(cvv[b], 0.0)
                S.require(S.any([S.all([fa, fb, S.xle(fv[a], fv[b])]), S.all([fa, S.not_(fb)]), S.all([S.not_(fa), S.not_(fb), S.xle(cvv[a], cvv[b])])]), "feasible first, then by objective or violation")
    else:
        P = parameter_less(f, cv)
        for a in range(n):
            S.require(S.implies(S.xle(cvv[a], 0.0), S.same(P[a], fv[a])), "feasible values unchanged")
            for b in range(n):
                S.require(S.implies(S.all([S.xlt(0.0, cvv[a]), S.xle(cvv[b], 0.0)]), S.xlt(P[b], P[a])), "infeasible is worse than feasible")
                S.require(S.implies(S.all([S.xlt(0.0, cvv[a]), S.xlt(cvv[a], cvv[b])]), S.xlt(P[a], P[b])), "more violation is worse")
    S.require(S.all([S.same(f[i], fv[i]) for i in range(n)]), "input untouched")
