"""P15: discrete and mixed variables."""
import numpy as np
from symx.harness import harness
from common import meta, problem

C = "pymoo/core/"
META = meta(
    "Mixed and discrete variables keep their type and domain",
    "Sampling a variable yields a value of its domain: a real or integer between the bounds (both reachable for integers), a boolean, or one of the options exactly as they were given, whatever their types. "
    "Mating of mixed variables gives every offspring exactly the variables of the problem, each a value of its domain and type: reals and integers within the bounds (integers are whole numbers), "
    "choices and booleans inherited from a parent or mutated within the domain; the parents stay as they are. Bit-flip and choice mutation change exactly the genes drawn, with probability prob_var. "
    "Duplicate elimination of mixed variables removes exactly the individuals equal in every variable to another one that stays or to a reference one.",
    ["inputs", "histories"], "all draws and parent values",
    "tests run a mixed problem once for a few generations",
    [C + "mixed.py", C + "variable.py", "pymoo/operators/mutation/bitflip.py", "pymoo/operators/mutation/rm.py"],
    [("mating", C + "mixed.py:MixedVariableMating._do"), ("sampling", C + "mixed.py:MixedVariableSampling._do"), ("choice", C + "variable.py:Choice._sample"), ("duplicates", C + "mixed.py:MixedVariableDuplicateElimination")],
    "bounded: 2-3 individuals, up to 5 variables of all four types, all draws; SBX and PM (checked in P11, P12) replaced by operators with arbitrary in-range results where stated")


OPTIONS = [["a", "b"], ["auto", 5, 2.5], [None, True, "x"], [3, 4], [1.5]]


def same_option(v, o):
    return v == o and (isinstance(v, str) == isinstance(o, str)) and (v is None) == (o is None) and isinstance(v, (bool, np.bool_)) == isinstance(o, bool)


@harness("P15", "sample", quick=[dict(t="real"), dict(t="int"), dict(t="bin"), dict(t="choice")], functions=[C + "variable.py:Variable.sample", C + "variable.py:Real._sample", C + "variable.py:Integer._sample", C + "variable.py:Binary._sample", C + "variable.py:Choice._sample"],
         bounds="single samples and 2 samples, symbolic real bounds, representative integer bounds and options of all types")
def sample(S, t):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    n = S.pick([None, 1, 2])
    rng = S.rng(open_=False)
    if t == "real":
        lo, w = S.real("lo", lo=-5, hi=5), S.real("w", lo=0, hi=4)
        v = Real(bounds=(lo, lo + w)).sample(n, random_state=rng)
    elif t == "int":
        lo, hi = S.pick([(0, 2), (-3, -3), (-1, 4)])
        v = Integer(bounds=(lo, hi)).sample(n, random_state=rng)
    elif t == "bin":
        v = Binary().sample(n, random_state=rng)
    else:
        o = S.pick(OPTIONS)
        v = Choice(options=o).sample(n, random_state=rng)
    S.require(n is None or len(v) == n, "number of samples")
    for x in ([v] if n is None else list(v)):
        if t == "real":
            S.require(S.all([S.le(lo, x), S.le(x, lo + w)]), "within the bounds")
        elif t == "int":
            S.require(S.all([S.xle(lo, x), S.xle(x, hi)]), "within the bounds")
            S.require(S.any([S.same(x, q) for q in range(lo, hi + 1)]), "a whole number")
        elif t == "bin":
            S.require(S.truth(S.any([S.same(x, True), S.same(x, False)])), "a boolean")
        else:
            S.require(any(same_option(x, q) for q in o), "one of the options, with its type")
    S.require(S.unseeded() == 0, "all draws come from the given generator")


@harness("P15", "int_reachable", quick=[dict()], functions=[C + "variable.py:Integer._sample", C + "variable.py:Choice._sample"], bounds="every value of 3 integers and every option of 3 has a draw that yields it")
def int_reachable(S):
    """the generator's contract allows any index: the value drawn is the image of the draw"""
    from pymoo.core.variable import Choice, Integer

    class Draw:
        def __init__(self, k):
            self.k, self.seen = k, None

        def integers(self, lo, hi=None, size=None, endpoint=False):
            if hi is None:
                lo, hi = 0, lo
            if endpoint:
                hi = hi + 1
            self.seen = hi - lo
            return np.full(size, lo + self.k) if size is not None else lo + self.k

        def choice(self, a, size=None, **kw):
            a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            self.seen = len(a)
            r = np.empty(size if size is not None else 1, dtype=object)
            r[:] = [a[self.k]] * len(r)
            return r if size is not None else r[0]
    k = S.choose(3)
    d = Draw(k)
    v = Integer(bounds=(4, 6)).sample(2, random_state=d)
    S.require(d.seen == 3 and all(int(x) == 4 + k for x in v), "both bounds are reachable")
    d = Draw(k)
    v = Choice(options=["a", "b", "c"]).sample(1, random_state=d)
    S.require(d.seen == 3 and v[0] == "abc"[k], "every option is reachable")


def variables(which):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    if which == 3:
        return dict(r=Real(bounds=(0, 2)), c=Choice(options=["p", 3]))
    if which == 0:
        return dict(b=Binary(), r=Real(bounds=(0, 2)), c=Choice(options=["p", "q"]))
    if which == 1:
        return dict(c1=Choice(options=["p", 7]), c2=Choice(options=["long name", "s", "t"]), i=Integer(bounds=(-1, 3)))
    return dict(r1=Real(bounds=(0, 2)), b1=Binary(), i=Integer(bounds=(-1, 3)), r2=Real(bounds=(-4, -3)), b2=Binary())


def value(S, v, name, q):
    t = type(v).__name__
    if t == "Real":
        return S.real(name, lo=v.bounds[0], hi=v.bounds[1])
    if t == "Integer":
        return [v.bounds[0], v.bounds[1] - 1][q]
    if t == "Binary":
        return q == 0
    return v.options[q]


def in_domain(S, v, x, msg):
    t = type(v).__name__
    if t == "Real":
        S.require(S.all([S.le(v.bounds[0], x), S.le(x, v.bounds[1])]), msg + ": within the bounds")
    elif t == "Integer":
        S.require(S.any([S.same(x, q) for q in range(v.bounds[0], v.bounds[1] + 1)]), msg + ": whole number within the bounds")
    elif t == "Binary":
        S.require(isinstance(x, (bool, np.bool_)) or type(x).__name__.startswith("Sym"), msg + ": a boolean")
        S.require(S.truth(S.any([S.same(x, True), S.same(x, False)])), msg + ": a boolean")
    else:
        S.require(any(same_option(x, q) for q in v.options), msg + ": one of the options, with its type")


def scramble(S):
    """a mutation with arbitrary results within the bounds"""
    from pymoo.core.mutation import Mutation

    class Any(Mutation):
        k = 0

        def _do(self, problem, X, random_state=None, **kwargs):
            Xp = X.copy()
            for i in range(X.shape[0]):
                for j in range(X.shape[1]):
                    Any.k += 1
                    S.require(list(problem.vars.values())[j].bounds == (problem.xl[j], problem.xu[j]), "the operator sees the bounds of its variables")
                    Xp[i, j] = S.real("m%d" % Any.k, lo=problem.xl[j], hi=problem.xu[j])
            return Xp
    return Any


@harness("P15", "mating", quick=[dict(which=0, n=1), dict(which=1, n=1), dict(which=2, n=1), dict(which=3, n=3)], functions=[C + "mixed.py:MixedVariableMating._do", C + "operator.py:Operator.__call__", "pymoo/operators/mutation/rm.py:ChoiceRandomMutation._do", "pymoo/operators/mutation/bitflip.py:BitflipMutation._do", "pymoo/operators/crossover/ux.py:UniformCrossover._do", "pymoo/operators/repair/rounding.py:RoundingRepair"],
         stubs=["SBX and PM of reals and integers: uniform crossover and arbitrary values within the bounds"], bounds="2 parents, 1 or 3 offspring, all draws; the probability of crossover and mutation is 1 (the case 3 offspring: of mutation 0)")
def mating(S, which, n):
    from pymoo.core.individual import Individual
    from pymoo.core.mixed import MixedVariableMating
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Binary, Choice, Integer, Real
    from pymoo.operators.crossover.ux import UX
    from pymoo.operators.mutation.bitflip import BFM
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    from pymoo.operators.repair.rounding import RoundingRepair
    V = variables(which)
    p = Problem(vars=V, n_obj=1)
    xs = [{k: value(S, v, "%s%d" % (k, q), q) for k, v in V.items()} for q in range(2)]
    inds = [Individual(X=dict(x)) for x in xs]
    pop = Population.create(*inds)
    Any = scramble(S)
    mut = 0.0 if n > 1 else 1.0
    kw = dict(prob=mut)
    m = MixedVariableMating(selection=lambda problem, pop, n_select, n_parents, **kw: [[inds[0], inds[1]]] * n_select,
                            crossover={Binary: UX(prob=1.0), Real: UX(prob=1.0), Integer: UX(prob=1.0, vtype=float, repair=RoundingRepair()), Choice: UX(prob=1.0)},
                            mutation={Binary: BFM(**kw), Real: Any(**kw), Integer: Any(vtype=float, repair=RoundingRepair(), **kw), Choice: ChoiceRandomMutation(**kw)}, eliminate_duplicates=False)
    off = m._do(p, pop, n, random_state=S.rng(open_=n > 1))
    S.require(len(off) == n, "number of offspring")
    for o in off:
        S.require(sorted(o.X) == sorted(V), "all variables of the problem")
        for k, v in V.items():
            in_domain(S, v, o.X[k], k)
            if mut == 0.0 and type(v).__name__ != "Integer":
                S.require(S.any([S.eq(o.X[k], x[k]) if type(v).__name__ != "Choice" else o.X[k] == x[k] for x in xs]), "inherited from a parent")
    for q in range(2):
        S.require(S.all([S.same(inds[q].X[k], xs[q][k]) if type(V[k]).__name__ != "Choice" else inds[q].X[k] == xs[q][k] for k in V]), "parents unchanged")
    S.require(S.unseeded() == 0, "all draws come from the given generator")


@harness("P15", "own_parents", quick=[dict(n=3), dict(n=4)], functions=[C + "mixed.py:MixedVariableMating._do"], bounds="3-4 offspring of 2 matings, no mutation, all draws of the crossover")
def own_parents(S, n):
    from pymoo.core.individual import Individual
    from pymoo.core.mixed import MixedVariableMating
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Choice, Real
    from pymoo.operators.crossover.ux import UX
    from pymoo.operators.mutation.nom import NoMutation
    V = dict(r=Real(bounds=(0, 4)), c=Choice(options=["p", "q", 3, 4]))
    inds = [Individual(X=dict(r=float(k), c=o)) for k, o in enumerate(["p", "q", 3, 4])]
    pairs = [[inds[0], inds[1]], [inds[2], inds[3]]]
    m = MixedVariableMating(selection=lambda problem, pop, n_select, n_parents, **kw: pairs[:n_select], crossover={Real: UX(prob=1.0), Choice: UX(prob=1.0)}, mutation={Real: NoMutation(), Choice: NoMutation()}, eliminate_duplicates=False)
    off = m._do(Problem(vars=V, n_obj=1), Population.create(*inds), n, random_state=S.rng(open_=True))
    S.require(len(off) == n, "number of offspring")
    # the offspring of a mating take complementary variables from its parents (the second child may be cut off)
    for k in ("r", "c"):
        vals = [o.X[k] for o in off]
        allowed = [x.X[k] for x in inds]
        for v in vals:
            S.require(sum(1 for a in allowed if same_option(v, a)) == 1, "inherited from one parent")
        S.require(len({allowed.index(v) for v in vals}) == n, "every parent's value is passed on once")
    for o in off:
        S.require((o.X["r"] < 2) == (o.X["c"] in ("p", "q")), "the variables of an offspring come from the parents of one mating")


@harness("P15", "default_integer", quick=[dict()], functions=[C + "mixed.py:MixedVariableMating.__init__", C + "operator.py:Operator.__call__"], stubs=["cross_sbx, mut_pm: arbitrary values within the bounds"], bounds="2 integer and 1 real variable, one mating")
def default_integer(S):
    from pymoo.core.individual import Individual
    from pymoo.core.mixed import MixedVariableMating
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Integer, Real
    from pymoo.operators.crossover import sbx
    from pymoo.operators.mutation import pm
    V = dict(i=Integer(bounds=(0, 3)), r=Real(bounds=(-1.0, 0.5)), j=Integer(bounds=(-2, -1)))
    p = Problem(vars=V, n_obj=1)
    inds = [Individual(X=dict(i=0, r=0.25, j=-2)), Individual(X=dict(i=3, r=-1.0, j=-1))]
    cnt = [0]

    def anything(X, xl, xu, *a, **kw):
        Y = X.astype(float)
        for idx in np.ndindex(*X.shape):
            cnt[0] += 1
            Y[idx] = S.real("y%d" % cnt[0], lo=float(xl[idx[-1]]), hi=float(xu[idx[-1]]))
        return Y
    o1, o2 = sbx.cross_sbx, pm.mut_pm
    sbx.cross_sbx, pm.mut_pm = anything, anything
    try:
        m = MixedVariableMating(eliminate_duplicates=False)
        m.crossover[Real].prob.value = m.crossover[Integer].prob.value = 1.0
        off = m._do(p, Population.create(*inds), 1, random_state=S.rng(open_=False))
    finally:
        sbx.cross_sbx, pm.mut_pm = o1, o2
    for k, v in V.items():
        in_domain(S, v, off[0].X[k], k)


@harness("P15", "sampling", quick=[dict()], functions=[C + "mixed.py:MixedVariableSampling._do"], bounds="2 samples of 3 variable sets, all draws")
def sampling(S):
    from pymoo.core.mixed import MixedVariableSampling
    from pymoo.core.problem import Problem
    V = variables(S.choose(3))
    X = MixedVariableSampling()._do(Problem(vars=V, n_obj=1), 2, random_state=S.rng(open_=False))
    S.require(len(X) == 2, "number of samples")

    class Two:
        def sample(self, n, random_state=None):
            return ["first", "second"][:n]
    Y = MixedVariableSampling()._do(Problem(vars=dict(u=Two(), v=Two()), n_obj=1), 2, random_state=S.rng())
    S.require(list(Y) == [dict(u="first", v="first"), dict(u="second", v="second")], "each sample has its own draw of each variable")
    for x in X:
        S.require(sorted(x) == sorted(V), "all variables of the problem")
        for k, v in V.items():
            in_domain(S, v, x[k], k)


@harness("P15", "bitflip", quick=[dict()], functions=["pymoo/operators/mutation/bitflip.py:BitflipMutation._do", C + "mutation.py:Mutation.get_prob_var"], bounds="2x2 bits, all draws, given and default probability")
def bitflip(S):
    from pymoo.operators.mutation.bitflip import BitflipMutation
    pv = S.pick([None, 0.25, 0.0, 1.0])
    X = np.array([[True, False], [False, bool(S.choose(2))]])
    X0 = X.copy()
    p = problem(n_var=2, n_obj=1)
    rng = S.rng()
    seen = []
    rnd = rng.random
    rng.random = lambda *a, **k: (seen.append(rnd(*a, **k)) or seen[-1])
    Y = BitflipMutation(prob=1.0, prob_var=pv)._do(p, X, random_state=rng)
    S.require(np.array_equal(X, X0), "input unchanged")
    prob = 0.5 if pv is None else pv
    S.require(Y.shape == (2, 2) and len(seen) == 1, "one draw per gene")
    R = seen[0]
    for i in range(2):
        for j in range(2):
            S.require(S.iff(S.ne(Y[i, j], bool(X0[i, j])), S.xlt(R[i, j], prob)), "flipped with the given probability")
            S.require(S.any([S.same(Y[i, j], True), S.same(Y[i, j], False)]), "a boolean")


@harness("P15", "choice_mutation", quick=[dict()], functions=["pymoo/operators/mutation/rm.py:ChoiceRandomMutation._do"], bounds="2 individuals with 2 choices, all draws, given and default probability")
def choice_mutation(S):
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Choice
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    V = dict(a=Choice(options=["u", "much longer"]), b=Choice(options=[1, "v"]))
    p = Problem(vars=V, n_obj=1)
    X = np.array([["u", 1], ["u", "v"]], dtype=object)
    X0 = X.copy()
    pv = S.pick([None, 0.0, 1.0])
    Y = ChoiceRandomMutation(prob_var=pv)._do(p, X, random_state=S.rng())
    S.require(X.tolist() == X0.tolist(), "input unchanged")
    for i in range(2):
        for j, v in enumerate(V.values()):
            S.require(any(same_option(Y[i, j], o) for o in v.options), "one of the options, with its type")
            if pv == 0.0:
                S.require(Y[i, j] == X0[i, j], "nothing mutated with probability zero")


@harness("P15", "duplicates", quick=[dict()], functions=[C + "mixed.py:MixedVariableDuplicateElimination.is_equal", C + "duplicate.py:ElementwiseDuplicateElimination._do"], bounds="3 individuals and 1 reference individual with a symbolic real, an integer and a choice")
def duplicates(S):
    from pymoo.core.mixed import MixedVariableDuplicateElimination
    from pymoo.core.population import Population
    r = S.reals("r", (4,), lo=0, hi=1)
    c = [S.pick(["p", "q"]) for _ in range(2)] + ["p", "p"]
    i = [0, 0, S.choose(2), 0]
    X = [dict(r=r[k], c=c[k], i=i[k]) for k in range(4)]
    pop = Population.new(X=X[:3])
    for k in range(3):
        pop[k].set("uid", k)
    ref = Population.new(X=X[3:])
    out = [int(x.get("uid")) for x in MixedVariableDuplicateElimination().do(pop, ref)]
    eq = lambda a, b: c[a] == c[b] and i[a] == i[b] and S.truth(S.same(r[a], r[b]))
    for k in range(3):
        S.require(sum(1 for q in out if eq(k, q)) == (0 if eq(k, 3) else 1), "one of the equal ones stays, none that the reference has")
    S.require(out == sorted(out), "in order")
