"""P39: populations and individuals."""
import numpy as np
from symx.harness import harness
from common import meta, rows

P, I = "pymoo/core/population.py", "pymoo/core/individual.py"
META = meta(
    "Populations and individuals return exactly the data that was stored in them",
    "For every set of values, Population.new/set followed by get returns the same values in the same order for any attribute name, also when the arrays given are later modified, a scalar is given to every individual, and sizes that do not match are refused. "
    "merge concatenates without copying, losing or reordering individuals and treats empty or missing populations as neutral; indexing selects the same individuals. "
    "A deep copy of an individual is independent of the original, and reset clears values, violations and (unless kept) data.",
    ["inputs"], "all values of the stated sizes, symbolic boolean selections", "tests check single fixed populations",
    [P, I], [("set/get", P + ":Population.set"), ("new", P + ":Population.new"), ("merge", P + ":merge"), ("copy", I + ":Individual.copy"), ("reset", I + ":Individual.reset"), ("collect", P + ":Population.collect")],
    "bounded: up to 3 individuals with 2 variables, objectives and constraints")


@harness("P39", "set_get", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], functions=[P + ":Population.new", P + ":Population.set", P + ":Population.get"], bounds="2-3 individuals; new with keywords or interleaved arguments")
def set_get(S, n):
    from pymoo.core.population import Population
    X, F, R = S.reals("X", (n, 2)), S.reals("F", (n, 2)), S.reals("r", (n,))
    rx, rf, rr = rows(X), rows(F), [R[i] for i in range(n)]
    k = S.choose(4)
    if k == 0:
        pop = Population.new(X=X, F=F, rank=R)
    elif k == 1:
        pop = Population.new("X", X, "F", F, "rank", R)
    elif k == 2:
        pop = Population.new("X", X, F=F)
        pop.set("rank", R)
    else:
        pop = Population.empty(n)
        S.require(pop.set("X", X, "F", F, "rank", R) is pop, "set returns the population")
    S.require(len(pop) == n, "size")
    # changing the arrays afterwards has no influence
    X[0, 0], F[n - 1, 1] = 5.0, -5.0
    gx, gf, gr = pop.get("X", "F", "rank")
    S.require(gx.shape == (n, 2) and gf.shape == (n, 2) and gr.shape == (n,), "shapes")
    S.require(S.all([S.same(gx[i, j], rx[i][j]) for i in range(n) for j in range(2)] + [S.same(gf[i, j], rf[i][j]) for i in range(n) for j in range(2)] + [S.same(gr[i], rr[i]) for i in range(n)]), "same values in the same order")
    for i in range(n):
        S.require(S.all([S.same(pop[i].X[j], rx[i][j]) for j in range(2)] + [S.same(pop[i].get("rank"), rr[i])]), "values of the individual")
        S.require(pop[i].has("X") and pop[i].has("rank") and not pop[i].has("nothing") and pop[i].get("nothing") is None, "has")
    S.require(pop.has("rank") and not pop.has("nothing"), "has")
    v = S.real("v")
    pop.set("flag", v)
    pop.set("name", "abc")
    S.require(S.all([S.same(e, v) for e in pop.get("flag")]) , "a scalar goes to every individual")
    S.require(pop.get("name", to_numpy=False) == ["abc"] * n, "text goes to every individual")
    lst = pop.get("rank", to_numpy=False)
    S.require(isinstance(lst, list) and S.truth(S.all([S.same(a, b) for a, b in zip(lst, rr)])), "list")
    got = pop.collect(lambda e: e.get("rank"))
    S.require(S.all([S.same(a, b) for a, b in zip(got, rr)]), "collect")


@harness("P39", "mismatch", quick=[dict()], functions=[P + ":Population.new", P + ":Population.set", P + ":interleaving_args"], bounds="sizes 1-3")
def mismatch(S):
    from pymoo.core.population import Population
    a, b = S.choose(3) + 1, S.choose(3) + 1
    X, F = S.reals("X", (a, 1)), S.reals("F", (b, 1))

    def refused(fn):
        try:
            fn()
        except Exception:
            return True
        return False
    S.require(refused(lambda: Population.new(X=X, F=F)) == (a != b), "new refuses different sizes")
    pop = Population.new(X=X)
    S.require(refused(lambda: pop.set("F", F)) == (a != b), "set refuses different sizes")
    S.require(refused(lambda: Population.new("X")), "odd number of arguments")
    S.require(len(Population.new()) == 0 and len(Population.empty()) == 0 and len(Population.empty(2)) == 2, "empty")
    S.require(Population.empty().set("F", F) is None, "nothing to set")


@harness("P39", "merge", quick=[dict(a=2, b=1)], functions=[P + ":merge", P + ":Population.merge", P + ":pop_from_array_or_individual", P + ":Population.create"], bounds="2 + 1 (+ 1) individuals, arrays and missing parts")
def merge(S, a, b):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population, merge, pop_from_array_or_individual
    X, Y = S.reals("X", (a, 2)), S.reals("Y", (b, 2))
    A, B = Population.new(X=X), Population.new(X=Y)
    c = Individual(X=Y[0], extra=3)
    ia, ib = list(A), list(B)

    def same(m, want):
        S.require(isinstance(m, Population) and len(m) == len(want) and all(x is y for x, y in zip(m, want)), "the same individuals in order")
    same(Population.merge(A, B), ia + ib)
    same(merge(A, B), ia + ib)
    same(Population.merge(A, B, c), ia + ib + [c])
    same(merge(A, c), ia + [c])
    same(merge(None, A), ia)
    same(merge(A, None), ia)
    same(merge(Population.empty(), A), ia)
    same(merge(A, Population.empty()), ia)
    same(Population.create(*ia), ia)
    same(Population(ia), ia)
    same(Population(c), [c])
    same(A, ia)
    same(B, ib)
    m = merge(A, Y)
    S.require(len(m) == a + b and all(x is y for x, y in zip(m, ia)), "an array becomes individuals")
    S.require(S.all([S.same(m[a + i].X[j], Y[i, j]) for i in range(b) for j in range(2)]), "values of the array")
    p = pop_from_array_or_individual(Y[0])
    S.require(len(p) == 1 and S.truth(S.all([S.same(p[0].X[j], Y[0, j]) for j in range(2)])), "one row")
    S.require(c.get("extra") == 3 and c.data == dict(extra=3), "unknown names are data")


@harness("P39", "select", quick=[dict(n=3)], functions=[P + ":Population.get"], bounds="3 individuals, symbolic condition")
def select(S, n):
    from pymoo.core.population import Population
    F = S.reals("F", (n, 1))
    pop = Population.new(F=F)
    inds = list(pop)
    M = pop.get("F")[:, 0] > 0
    sub = pop[M]
    want = [e for e, i in zip(inds, range(n)) if S.truth(S.xlt(0.0, F[i, 0]))]
    S.require(isinstance(sub, Population) and len(sub) == len(want) and all(x is y for x, y in zip(sub, want)), "selected individuals")
    r = pop[[2, 0]]
    S.require([e is w for e, w in zip(r, (inds[2], inds[0]))] == [True, True], "by index")
    k = []
    pop.apply(lambda e: k.append(e))
    S.require(len(k) == n and all(x is y for x, y in zip(k, inds)), "apply visits everyone once in order")


@harness("P39", "copy", quick=[dict()], functions=[I + ":Individual.copy", I + ":Individual.reset", I + ":Individual.set", I + ":Individual.get", I + ":Individual.duplicate"], bounds="1 individual with symbolic values")
def copy(S):
    from pymoo.core.individual import Individual
    x, f, g = S.reals("x", (2,)), S.reals("f", (2,)), S.reals("g", (1,))
    ind = Individual(X=x, F=f, G=g)
    ind.set("rank", 7)
    ind.set_by_dict(a=1, b=[1, 2])
    ind.evaluated.add("F")
    cp = ind.copy()
    keys = ("X", "F", "G")
    src = dict(X=x, F=f, G=g)
    for k in keys:
        S.require(S.all([S.same(u, v) for u, v in zip(cp.get(k), src[k])]), "same values")
    S.require(cp.get("rank", "a") == (7, 1) and cp.evaluated == {"F"} and cp is not ind, "same data")
    cp.set("rank", 8)
    cp.get("b").append(3)
    cp.evaluated.add("G")
    v = S.real("v")
    old = cp.X[0]
    cp.X[0] = v
    S.require(S.same(ind.X[0], old) and ind.get("rank") == 7 and ind.get("b") == [1, 2] and ind.evaluated == {"F"}, "the copy is independent")
    S.require(S.iff(ind.feas, S.xle(g[0], 0.0)), "feasibility")
    ind.duplicate("F", "F0")
    S.require(S.all([S.same(u, w) for u, w in zip(ind.get("F0"), f)]), "duplicate")
    S.require(S.same(ind.f, f[0]) and S.truth(S.same(ind.cv, S.max([0.0, g[0]]))), "first value")
    keep = S.choose(2) == 0
    ind.reset(data=not keep)
    S.require(all(len(ind.get(k)) == 0 for k in ("X", "F", "G", "H")) and ind.evaluated == set(), "reset clears the values")
    S.require((ind.get("rank") == 7) if keep else (ind.get("rank") is None), "data only on request")
    S.require(S.same(ind.CV[0], 0.0), "no stale violation")
    n = cp.new()
    S.require(isinstance(n, Individual) and len(n.X) == 0 and n.data == {}, "a new one is empty")
