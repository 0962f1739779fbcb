"""P14: permutation operators."""
import numpy as np
from symx.harness import harness
from common import meta, problem, pop_of, rows, vsame

C, M = "pymoo/operators/crossover/", "pymoo/operators/mutation/"
META = meta(
    "Permutation operators return permutations",
    "Given parents that are permutations of the same elements, ordered crossover (OX, shifted or not), edge recombination crossover and inversion mutation return permutations of exactly those elements, "
    "as does permutation random sampling (of 0..n_var-1). OX keeps the donor's elements of the drawn segment in place and the receiver's order of the others; ERX continues with a neighbour of "
    "the current element (in either parent) that is still available and has the fewest available neighbours, whenever there is one; inversion reverses exactly the drawn segment. Parents are not modified.",
    ["inputs"], "all element values, all pairs of permutations, all segments and draws within the bounds",
    "tests run the operators on a handful of fixed permutations",
    [C + "ox.py", C + "erx.py", M + "inversion.py", "pymoo/operators/sampling/rnd.py"],
    [("ordered crossover", C + "ox.py:ox"), ("edge recombination", C + "erx.py:erx"), ("inversion", M + "inversion.py:inversion_mutation"), ("sampling", "pymoo/operators/sampling/rnd.py:PermutationRandomSampling._do")],
    "bounded: 2-4 elements (5 thorough), element values symbolic integers; sequences by exhaustive forking")


def elements(S, n):
    e = [S.int("e%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.ne(e[i], e[j]))
    return e


def perm(S, n):
    rest = list(range(n))
    return [rest.pop(S.choose(len(rest))) for _ in range(n)]


def order(S, y, e):
    """positions of the elements in y, as indices into e; requires a permutation"""
    S.require(len(y) == len(e), "length")
    out = []
    for v in y:
        hit = [i for i in range(len(e)) if S.truth(S.eq(v, e[i]))]
        S.require(len(hit) == 1, "an element of the parents")
        out.append(hit[0])
    S.require(sorted(out) == list(range(len(e))), "every element exactly once")
    return out


@harness("P14", "ox", quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=3), dict(n=4), dict(n=5)], functions=[C + "ox.py:ox"], bounds="2-4 elements, explicit segment")
def ox_(S, n):
    from pymoo.operators.crossover.ox import ox
    e = elements(S, n)
    p = perm(S, n)
    start = S.choose(n)
    end = start + S.choose(n - start)
    shift = S.choose(2) == 1
    rec, don = S.array(e), S.array([e[i] for i in p])
    y = order(S, ox(rec, don, seq=(start, end), shift=shift), e)
    S.require(y[start:end + 1] == p[start:end + 1], "the donated segment stays in place")
    given = set(p[start:end + 1])
    walk = list(range(n)) if not shift else [(start + k) % n for k in range(n)]
    S.require(y[:start] + y[end + 1:] == [i for i in walk if i not in given], "receiver order of the other elements")
    S.require(S.all([S.eq(a, b) for a, b in zip(rec, e)]), "receiver unchanged")


@harness("P14", "order_crossover", quick=[dict(n=3)], functions=[C + "ox.py:OrderCrossover._do", C + "ox.py:random_sequence", "pymoo/core/crossover.py:Crossover.do"], bounds="2 matings, 3 elements, random segments")
def order_crossover(S, n):
    from pymoo.operators.crossover.ox import OrderCrossover
    e = elements(S, n)
    p = perm(S, n)
    X = S.array([e, [e[i] for i in p], [e[i] for i in p[::-1]], e])
    R = rows(X)
    pop = pop_of(S, X=X)
    off = OrderCrossover(shift=False, prob=1.0)(problem(n_var=n, vtype=int), pop, parents=np.array([[0, 1], [2, 3]]), random_state=S.rng())
    S.require(len(off) == 4, "two children per mating")
    par = [[list(range(n)), p], [p[::-1], list(range(n))]]
    for q in range(2):
        ys = [order(S, off[i * 2 + q].get("X"), e) for i in range(2)]
        ok = False
        for s in range(n):
            for t in range(s + 1, n):
                want = []
                for rec, don in (par[q], par[q][::-1]):
                    g = don[s:t + 1]
                    rest = [i for i in rec if i not in g]
                    want.append(rest[:s] + g + rest[s:])
                ok = ok or ys == want
        S.require(ok, "both children use one common segment of at least two positions")
    for ind, r in zip(pop, R):
        S.require(vsame(S, ind.get("X"), r), "parents unchanged")
    S.require(S.unseeded() == 0, "draws only from the given generator")


@harness("P14", "erx", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=4), dict(n=5)], functions=[C + "erx.py:erx", C + "erx.py:calc_adjency_matrix", C + "erx.py:remove_from_adj_list"], bounds="3-4 elements")
def erx_(S, n):
    from pymoo.operators.crossover.erx import erx
    e = elements(S, n)
    p = perm(S, n)
    a, b = S.array(e), S.array([e[i] for i in p])
    y = order(S, erx(a, b, random_state=S.rng()), e)
    nb = {i: set() for i in range(n)}
    for seq in (list(range(n)), p):
        for k in range(n):
            nb[seq[k]] |= {seq[k - 1], seq[(k + 1) % n]}
    left = set(range(n))
    for cur, nxt in zip(y, y[1:]):
        left.discard(cur)
        cand = nb[cur] & left
        if cand:
            deg = {c: len(nb[c] & left) for c in cand}
            S.require(nxt in cand and deg[nxt] == min(deg.values()), "continue with the available neighbour that has the fewest neighbours")
    S.require(S.unseeded() == 0, "draws only from the given generator")


@harness("P14", "erx_op", quick=[dict(n=3)], functions=[C + "erx.py:EdgeRecombinationCrossover._do"], bounds="2 matings, 3 elements")
def erx_op(S, n):
    from pymoo.operators.crossover.erx import ERX
    p = perm(S, n)
    X = np.array([list(range(n)), p, p, list(range(n))])
    off = ERX(prob=1.0)(problem(n_var=n, vtype=int), pop_of(S, X=X), parents=np.array([[0, 1], [2, 3]]), random_state=S.rng())
    S.require(len(off) == 2, "one child per mating")
    for o in off:
        order(S, o.get("X"), list(range(n)))


@harness("P14", "inversion", quick=[dict(n=3), dict(n=4)], functions=[M + "inversion.py:InversionMutation._do", M + "inversion.py:inversion_mutation"], bounds="2 individuals, 3-4 elements, symbolic values and probability draws")
def inversion(S, n):
    from pymoo.operators.mutation.inversion import InversionMutation
    e = elements(S, n)
    p = perm(S, n) if n < 4 else list(range(n))[::-1]
    X = S.array([e, [e[i] for i in p]])
    pop = pop_of(S, X=X)
    prob = S.pick([0.0, 0.5, 1.0])
    out = InversionMutation(prob=prob)(problem(n_var=n, vtype=int), pop, inplace=True, random_state=S.rng())
    S.require(len(out) == 2, "same number")
    for o, old in zip(out, (list(range(n)), p)):
        y = order(S, o.get("X"), e)
        opts = [old[:s] + old[s:t + 1][::-1] + old[t + 1:] for s in range(n) for t in range(s + 1, n)]
        S.require(y in opts or (y == old and prob < 1), "one segment of at least two positions reversed")
        if prob == 0:
            S.require(y == old, "never with probability zero")
    S.require(S.unseeded() == 0, "draws only from the given generator")


@harness("P14", "inversion_fn", quick=[dict(n=4)], functions=[M + "inversion.py:inversion_mutation"], bounds="4 elements, explicit segment")
def inversion_fn(S, n):
    from pymoo.operators.mutation.inversion import inversion_mutation
    x = S.reals("x", (n,))
    r = [x[i] for i in range(n)]
    s = S.choose(n)
    t = s + S.choose(n - s)
    inpl = S.choose(2) == 1
    y = inversion_mutation(x, (s, t), inplace=inpl)
    want = r[:s] + r[s:t + 1][::-1] + r[t + 1:]
    S.require(vsame(S, y, want), "exactly the segment is reversed")
    S.require(vsame(S, x, want if inpl else r), "in place only on request")


@harness("P14", "sampling", quick=[dict(n=3)], functions=["pymoo/operators/sampling/rnd.py:PermutationRandomSampling._do"], bounds="2 samples of 3 elements")
def sampling(S, n):
    from pymoo.operators.sampling.rnd import PermutationRandomSampling
    r = S.rng()
    pop = PermutationRandomSampling()(problem(n_var=n, xl=0, xu=n - 1, vtype=int), 2, random_state=r)
    S.require(len(pop) == 2, "number of samples")
    for ind in pop:
        order(S, ind.get("X"), list(range(n)))
    S.require(S.unseeded() == 0 and r.n_draws >= 2, "independent draws from the given generator")
