"""P37: archives."""
import numpy as np
from symx.harness import harness
from common import dom, meta, pop_of, rows, uids

A = "pymoo/util/archive.py"
META = meta(
    "An archive keeps exactly the best distinct solutions it has been given",
    "For every sequence of added solutions, a multi-objective archive below its size limit holds exactly the non-dominated feasible solutions seen (the least infeasible ones while none is feasible) up to duplicates in X, and a single-objective archive those with the best feasible objective value; nothing else and nothing twice. "
    "When the limit max_size is exceeded it is truncated to truncate_size of those solutions. "
    "Adding returns a new archive with the same settings and leaves the old one as it was; a void archive never stores anything.",
    ["histories", "inputs"], "all objective values, violations and positions of the stated sizes, sequences of two additions", "tests add one or two fixed populations",
    [A], [("add", A + ":Archive.add"), ("multi-objective", A + ":MultiObjectiveArchive._find_opt"), ("single-objective", A + ":SingleObjectiveArchive._find_opt"), ("truncation", A + ":RandomTruncation"), ("truncation by survival", A + ":SurvivalTruncation")],
    "bounded: two additions of up to 2 solutions each (3 in one addition), 1-2 objectives, 1 variable; duplicates by symbolic positions")


def best(S, F, cv):
    """truth values: which of the solutions belong to the best"""
    n = len(F)
    feas = [S.truth(S.xle(cv[i], 0.0)) for i in range(n)]
    if any(feas):
        if len(F[0]) == 1:
            return [feas[i] and S.truth(S.all([S.xle(F[i][0], F[k][0]) for k in range(n) if feas[k]])) for i in range(n)]
        return [feas[i] and not any(feas[k] and k != i and S.truth(dom(S, F[k], F[i])) for k in range(n)) for i in range(n)]
    return [S.truth(S.all([S.xle(cv[i], c) for c in cv])) for i in range(n)]


def check(S, arch, pool, F, cv, X):
    """arch holds exactly the best of the pool (indices) up to duplicates in X"""
    got = uids(arch)
    b = best(S, [F[i] for i in pool], [cv[i] for i in pool])
    good = [i for i, k in zip(pool, b) if k]
    S.require(all(i in good for i in got), "only the best solutions")
    S.require(len(set(got)) == len(got), "nothing twice")
    for a in range(len(got)):
        for c in range(a):
            S.require(S.not_(S.same(X[got[a]], X[got[c]])), "no duplicates")
    for i in good:
        S.require(S.any([i in got] + [S.same(X[i], X[k]) for k in got]), "every best solution is kept")


def data(S, n, m):
    F = S.reals("F", (n, m))
    CV = S.reals("cv", (n, 1), lo=0)
    X = S.ints("x", (n, 1), 0, 2).astype(float)
    pop = pop_of(S, F=F, CV=CV, X=X)
    return pop, rows(F), [CV[i, 0] for i in range(n)], [X[i, 0] for i in range(n)]


@harness("P37", "history", quick=[dict(m=1, a=2, b=1), dict(m=2, a=1, b=1), dict(m=2, a=2, b=0), dict(m=1, a=3, b=0)], thorough=[dict(m=1, a=2, b=2), dict(m=2, a=2, b=1), dict(m=2, a=1, b=2), dict(m=2, a=3, b=0), dict(m=1, a=3, b=0)],
         functions=[A + ":Archive.add", A + ":MultiObjectiveArchive._find_opt", A + ":SingleObjectiveArchive._find_opt", A + ":Archive.__new__"], bounds="additions of a and b solutions, m objectives, positions 0-2")
def history(S, m, a, b):
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
    pop, F, cv, X = data(S, a + b, m)
    arch = (SingleObjectiveArchive if m == 1 else MultiObjectiveArchive)(max_size=7)
    S.require(len(arch) == 0, "empty at first")
    one = arch.add(pop[:a])
    S.require(type(one) is type(arch) and one.max_size == 7, "settings are kept")
    check(S, one, list(range(a)), F, cv, X)
    S.require(len(arch) == 0, "the old archive is unchanged")
    if b > 0:
        before = uids(one)
        two = one.add(pop[a:])
        check(S, two, before + list(range(a, a + b)), F, cv, X)
        S.require(uids(one) == before, "the old archive is unchanged")
        S.require(type(two) is type(arch) and two.max_size == 7, "settings are kept")


@harness("P37", "truncated", quick=[dict(n=3, size=2, cut=None), dict(n=3, size=2, cut=1)], functions=[A + ":Archive.add", A + ":RandomTruncation.__call__"], bounds="3 solutions, limits 1 and 2, random truncation",
         stubs=["random choices are symbolic"])
def truncated(S, n, size, cut):
    from pymoo.util.archive import MultiObjectiveArchive
    d = S.reals("d", (n,))
    # mutually non-dominated by construction or not: one symbolic coordinate
    F = [[float(i), d[i]] for i in range(n)]
    X = [float(i) for i in range(n)]
    pop = pop_of(S, F=S.array(F), CV=S.array([[0.0]] * n), X=S.array([[x] for x in X]))
    arch = MultiObjectiveArchive(max_size=size, truncate_size=cut).add(pop)
    got = uids(arch)
    b = best(S, F, [0.0] * n)
    good = [i for i in range(n) if b[i]]
    S.require(len(set(got)) == len(got) and all(i in good for i in got), "distinct best solutions")
    S.require(len(got) == (len(good) if len(good) <= size else (cut or size)), "truncated exactly when the limit is exceeded")
    S.require(arch.max_size == size and arch.truncate_size == (cut or size), "settings are kept")


@harness("P37", "survival", quick=[dict()], functions=[A + ":SurvivalTruncation.__call__", A + ":VoidArchive.add", A + ":default_archive"], bounds="3 solutions, survival by the best value of a given attribute")
def survival(S):
    from common import problem
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive, SurvivalTruncation, VoidArchive, default_archive
    n = 3
    pr = problem(n_obj=2)
    seen = []

    class Surv:
        def do(self, problem, pop, n_survive=None, **kw):
            seen.append((problem, uids(pop), n_survive))
            return pop[:n_survive]
    d = S.reals("d", (n,))
    F = [[float(i), d[i]] for i in range(n)]
    pop = pop_of(S, F=S.array(F), CV=S.array([[0.0]] * n), X=S.array([[float(i)] for i in range(n)]))
    arch = MultiObjectiveArchive(max_size=2, truncate_size=1, truncation=SurvivalTruncation(Surv(), problem=pr)).add(pop)
    good = [i for i, k in enumerate(best(S, F, [0.0] * n)) if k]
    if len(good) > 2:
        S.require(len(seen) == 1 and seen[0][0] is pr and sorted(seen[0][1]) == good and seen[0][2] == 1, "survival selects from the best solutions")
        S.require(len(arch) == 1, "truncated by survival")
    else:
        S.require(not seen and sorted(uids(arch)) == good, "no truncation needed")
    v = VoidArchive().add(pop)
    S.require(len(v) == 0, "void")
    S.require(isinstance(default_archive(problem(n_obj=1)), SingleObjectiveArchive) and isinstance(default_archive(pr), MultiObjectiveArchive), "default archives")
