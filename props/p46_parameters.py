"""P46: parameters of algorithms and operators."""
import numpy as np
from symx.harness import harness
from common import meta, pop_of

C, O, H = "pymoo/core/parameters.py", "pymoo/operators/control.py", "pymoo/algorithms/hyperparameters.py"
META = meta(
    "Parameters of algorithms are found, set, tuned and controlled one by one",
    "Every parameter object reachable from an algorithm through attributes and dictionaries is found exactly once, if its flag is the one asked for and it is active; flattening to dotted names and nesting again is the identity; setting parameters by name changes exactly those named, and tuning works on a copy. "
    "A hyperparameter problem evaluates the algorithm with the values of the solution and averages over one run per seed. Parameter control draws one admissible value per mating for every parameter of the operators, keeps the values individuals already have, and each offspring carries the values used in the mating that created it.",
    ["inputs", "configurations", "histories"], "all values, flags and activity of nested parameters; all draws and numbers of offspring of the stated sizes", "no test looks at parameters",
    [C, O, H, "pymoo/core/variable.py"],
    [("search", C + ":get_params"), ("setting", C + ":set_params"), ("names", C + ":hierarchical"), ("control", O + ":ParameterControl.do"), ("evolution", O + ":EvolutionaryParameterControl._do"), ("mating", O + ":ParameterControlMating._do"), ("tuning", H + ":HyperparameterProblem._evaluate")],
    "bounded: up to 5 parameters in 3 levels, 2 matings, up to 3 offspring each; the values of SBX and polynomial mutation within the bounds are arbitrary")


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def leaves(tree, prefix=()):
    for k, v in tree.items():
        if isinstance(v, dict):
            yield from leaves(v, prefix + (k,))
        else:
            yield prefix + (k,), v


def nested(S, flags):
    from pymoo.core.variable import Choice, Integer, Real
    kw = lambda: dict(flag="default" if S.choose(2) == 0 else "other", active=S.choose(2) == 0) if flags else {}
    a, b, c = Real(S.real("a"), bounds=(0.0, 1.0), **kw()), Integer(S.int("b"), bounds=(1, 5), **kw()), Choice("u", options=["u", "v"], **kw())
    root = Obj(a=a, n=3, text="x", sub=Obj(b=b, deep={"c": c, "again": a}), other={"k": 1}, array=np.arange(2))
    where = {("a",): a, ("sub", "b"): b, ("sub", "deep", "c"): c, ("sub", "deep", "again"): a}
    return root, where, [a, b, c]


@harness("P46", "search", quick=[{}], functions=[C + ":get_params", C + ":get_params_bfs", C + ":flatten", C + ":flatten_rec", C + ":hierarchical", C + ":deactivate_params", C + ":apply_to_params"], bounds="3 parameters on 4 paths of up to 3 levels, any flags and activity")
def search(S):
    from pymoo.core.parameters import deactivate_params, flatten, get_params, hierarchical
    root, where, P = nested(S, True)
    flag, only = S.pick(["default", "other"]), S.choose(2) == 0
    got = get_params(root, flag=flag, only_active=only)
    L = list(leaves(got))
    want = [p for p in P if p.flag == flag and (p.active or not only)]
    S.require(len(L) == len(want) and all(sum(1 for _, v in L if v is p) == 1 for p in want), "every parameter asked for is found exactly once")
    S.require(all(where.get(k) is v for k, v in L), "at the place where it is")
    flat = flatten(got)
    S.require(len(flat) == len(L) and all(flat.get(".".join(k)) is v for k, v in L), "flat names are the paths")
    back = list(leaves(hierarchical(flat)))
    S.require(len(back) == len(L) and all(any(k == k2 and v is v2 for k2, v2 in back) for k, v in L), "nesting undoes flattening")
    act = [p.active for p in P]
    deactivate_params(root)
    S.require(all(p.active == (q and p.flag != "default") for p, q in zip(P, act)), "parameters are deactivated")
    S.require(len(list(leaves(get_params(root)))) == 0, "no active parameter is left")


@harness("P46", "setting", quick=[dict(value=True), dict(value=False)], functions=[C + ":set_params", C + ":hierarchical"], bounds="any subset of 3 parameters in up to 3 levels, by value or replaced")
def setting(S, value):
    from pymoo.core.parameters import hierarchical, set_params
    root, where, P = nested(S, False)
    old = [p.get() for p in P]
    new = {"a": S.real("na"), "sub.b": S.int("nb"), "sub.deep.c": "v"}
    names = list(new)
    todo = {k: new[k] for k in names if S.choose(2) == 0}
    set_params(root, hierarchical(todo), as_value=value)
    now = [root.a, root.sub.b, root.sub.deep["c"]]
    for k, p, q, o in zip(names, P, now, old):
        same = (lambda u, v: u == v) if k == "sub.deep.c" else S.same
        if value:
            S.require(q is p and S.truth(same(p.get(), todo.get(k, o))), "exactly the parameters named are set")
        elif k in todo:
            S.require(q is not p and S.truth(same(q, todo[k])), "the parameters named are replaced")
            S.require(same(p.get(), o), "the parameters themselves keep their values")
        else:
            S.require(q is p and S.truth(same(p.get(), o)), "the other parameters stay")
    S.require(root.sub.deep["again"] is P[0] and root.n == 3 and root.text == "x", "nothing else is changed")


@harness("P46", "tuning", quick=[{}], functions=[H + ":create", H + ":HyperparameterProblem.__init__", H + ":HyperparameterProblem._evaluate", H + ":MultiRun.__call__", H + ":SingleObjectiveSingleRun.__call__", H + ":stats_single_objective_mean", H + ":stats_avg_nevals"], bounds="2 solutions with a symbolic real, an integer and a choice; 1-3 seeds",
         stubs=["minimize returns symbolic results per seed"])
def tuning(S):
    from pymoo.algorithms import hyperparameters as hp
    root, where, P = nested(S, False)
    old = [p.get() for p in P]
    seen = []

    def performance(alg):
        d = [alg.a.get(), alg.sub.b.get(), alg.sub.deep["c"].get()]
        seen.append((alg, d))
        return dict(F=2.0 * d[0] + d[1] + (10.0 if d[2] == "v" else 0.0))
    p = hp.HyperparameterProblem(root, performance, n_obj=1)
    keys = sorted(p.vars)
    S.require(len(keys) == 3 and {id(v) for v in p.vars.values()} == {id(v) for v in P}, "the variables are the parameters of the algorithm")
    name = {k: next(i for i, q in enumerate(P) if q is p.vars[k]) for k in keys}
    X = [[S.real("x%d" % i, lo=0, hi=1), S.int("y%d" % i, lo=1, hi=5), "uv"[S.choose(2)]] for i in range(2)]
    F = p.evaluate(np.array([{k: x[name[k]] for k in keys} for x in X], dtype=object), return_values_of=["F"])
    for i, x in enumerate(X):
        S.require(S.eq(F[i, 0], 2.0 * x[0] + x[1] + (10.0 if x[2] == "v" else 0.0)), "the algorithm is run with the values of the solution")
    S.require(all(a is not root for a, _ in seen) and S.truth(S.all([S.same(q.get(), o) for q, o in zip(P[:2], old[:2])])) and P[2].get() == "u", "the algorithm that is tuned is not changed")
    seeds = [3, 7, 11][:1 + S.choose(3)]
    res = {s: Obj(F=S.array([S.real("F%d" % s)]), G=S.array([S.real("G%d" % s)]), H=S.array([S.real("H%d" % s)]), algorithm=Obj(evaluator=Obj(n_eval=S.int("n%d" % s, lo=0, hi=99)))) for s in seeds}
    calls = []

    def minimize(problem, algorithm, seed=None, **kw):
        calls.append((problem, algorithm, seed, kw))
        return res[seed if seed is not None else seeds[0]]
    before, hp.minimize = hp.minimize, minimize
    try:
        out = hp.MultiRun("problem", seeds=list(seeds), verbose=1)("algorithm")
        avg = hp.MultiRun("problem", seeds=list(seeds), func_stats=hp.stats_avg_nevals)("algorithm")
        one = hp.SingleObjectiveSingleRun("problem", seed=seeds[-1])("algorithm")
    finally:
        hp.minimize = before
    S.require(calls[:len(seeds)] == [("problem", "algorithm", s, dict(verbose=1)) for s in seeds], "one run per seed, with the arguments given")
    for k in "FGH":
        S.require(S.eq(out[k][0] * len(seeds), S.sum([getattr(res[s], k)[0] for s in seeds])), "the results are averaged over the runs")
        S.require(S.same(one[k][0], getattr(res[seeds[-1]], k)[0]), "the result of a single run")
    S.require([id(r) for r in out["__results__"]] == [id(res[s]) for s in seeds], "the results of the runs are kept")
    S.require(S.eq(avg["F"] * len(seeds), S.sum([res[s].algorithm.evaluator.n_eval for s in seeds])), "the average number of evaluations")


def controlled():
    from pymoo.core.variable import Choice, Integer, Real
    return Obj(r=Real(0.5, bounds=(-1.0, 2.0)), i=Integer(2, bounds=(1, 3)), c=Choice("u", options=["u", "v"]))


def admissible(S, name, v):
    if name.endswith("r"):
        return S.all([S.xle(-1.0, v), S.xle(v, 2.0)])
    if name.endswith("i"):
        return S.any([S.eq(v, k) for k in (1, 2, 3)])
    return v in ("u", "v")


@harness("P46", "random", quick=[dict(n=2)], thorough=[dict(n=3)], functions=[O + ":ParameterControl.do", O + ":ParameterControl.advance", O + ":RandomParameterControl._do"], bounds="3 parameters, 2-3 values each, all draws")
def random_(S, n):
    from pymoo.operators.control import NoParameterControl, RandomParameterControl
    obj = controlled()
    ctrl = RandomParameterControl(obj)
    S.require({id(v) for v in ctrl.params.values()} == {id(v) for v in vars(obj).values()}, "every parameter is controlled")
    keep = S.choose(2) == 1
    vals = ctrl.do(n, set_to_params=not keep, random_state=S.rng(open_=False))
    S.require(set(vals) == set(ctrl.params), "one set of values per parameter")
    for k, v in vals.items():
        S.require(len(v) == n, "one value per mating")
        S.require(S.all([admissible(S, k, e) for e in v]), "admissible values")
        if not keep:
            w = ctrl.params[k].get()
            S.require(all(a is b or a == b for a, b in zip(w, v)) if k.endswith("c") else S.all([S.same(a, b) for a, b in zip(w, v)]), "the parameters take the values drawn")
    if keep:
        S.require(obj.r.get() == 0.5 and obj.i.get() == 2 and obj.c.get() == "u", "the parameters keep their values")
        return
    pop = pop_of(S, F=S.array([[0.0]] * n))
    ctrl.advance(pop)
    for k, v in vals.items():
        S.require(all(pop[j].get(k) == v[j] for j in range(n)) if k.endswith("c") else S.all([S.same(pop[j].get(k), v[j]) for j in range(n)]), "each individual carries its own values")
    off = NoParameterControl(obj)
    S.require(off.do(n) == {} and len(off.params) == 0, "without control nothing is drawn")


@harness("P46", "mating", quick=[dict(n=4, k=2), dict(n=3, k=2), dict(n=2, k=1)], thorough=[dict(n=6, k=3), dict(n=4, k=2)], functions=[O + ":ParameterControlMating._do", O + ":ParameterControl.advance", "pymoo/core/crossover.py:Crossover.do"], bounds="1-3 offspring per mating, 2-4 offspring, all draws of the parameters")
def mating(S, n, k):
    from pymoo.core.crossover import Crossover
    from pymoo.core.mutation import Mutation
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Real, get
    from pymoo.operators.control import ParameterControlMating, RandomParameterControl
    m = -(-n // k)
    used, mutated = [], []

    class X(Crossover):
        def __init__(self):
            super().__init__(2, k, prob=1.0)
            self.strength = Real(0.5, bounds=(0.0, 4.0))

        def _do(self, problem, P, *args, **kwargs):
            v = get(self.strength, size=len(P[0]))
            used.append([e for e in v])
            out = np.zeros((k, P.shape[1], 2))
            for j in range(P.shape[1]):
                out[:, j] = [[j, c] for c in range(k)]
            return out

    class Mu(Mutation):
        def __init__(self):
            super().__init__(prob=1.0, prob_var=1.0)
            self.power = Real(0.5, bounds=(0.0, 4.0))

        def _do(self, problem, Q, **kwargs):
            mutated.append([e for e in get(self.power, size=len(Q))])
            return Q

    class Sel:
        def do(self, problem, pop, n_select, n_parents=2, **kwargs):
            return [[pop[0], pop[1]] for _ in range(n_select)]
    x, mu = X(), Mu()
    for op in (x, mu):
        for v in vars(op).values():
            if isinstance(v, Real) and v not in (getattr(x, "strength"), getattr(mu, "power")):
                v.active = False
    pm = ParameterControlMating(Sel(), x, mu, control=RandomParameterControl, eliminate_duplicates=False)
    S.require(len(pm.control.params) == 2, "the parameters of the operators are controlled")
    problem = Problem(n_var=2, n_obj=1, xl=-9.0, xu=9.0)
    pop = Population.new(X=np.zeros((2, 2)))
    off = pm._do(problem, pop, n, random_state=S.rng(open_=False))
    S.require(len(off) == m * k, "every mating has its offspring")
    ks = next(q for q in pm.control.params if q.endswith("strength"))
    kp = next(q for q in pm.control.params if q.endswith("power"))
    for a, ind in enumerate(off):
        j = int(ind.X[0])
        S.require(S.same(ind.get(ks), used[0][j]), "an offspring carries the values of the mating that created it")
        S.require(S.same(ind.get(kp), mutated[0][a]), "and of its own mutation")
    first = {}
    for ind in off:
        j = int(ind.X[0])
        first.setdefault(j, ind.get(kp))
        S.require(S.same(ind.get(kp), first[j]), "one value per mating")


@harness("P46", "evolution", quick=[dict(have=h) for h in (0, 1, 2)], functions=[O + ":EvolutionaryParameterControl._do", O + ":ParameterControl.tell"], bounds="3 individuals, a symbolic real, an integer and a choice, present or missing, 2 values each; two seeds",
         stubs=["cross_sbx, mut_pm: arbitrary values within the bounds"])
def evolution(S, have):
    from pymoo.operators.control import EvolutionaryParameterControl
    from pymoo.operators.crossover import sbx
    from pymoo.operators.mutation import pm
    obj = controlled()
    ctrl = EvolutionaryParameterControl(obj)
    key = {k[-1]: k for k in ctrl.params}
    n = 3
    pop = pop_of(S, F=S.array([[0.0]] * n), n_gen=[1, 2, 2])
    given = {}
    for i in range(n):
        if have == 2 or (have == 1 and i != 1):
            given[i] = dict(r=S.real("r%d" % i, lo=-1, hi=2), i=1 + i, c="uv"[i % 2])
            for k, v in given[i].items():
                pop[i].set(key[k], v)
        else:
            for k in key:
                pop[i].set(key[k], None)
    cnt = [0]

    def anything(X, xl, xu, *a, **kw):
        Y = X.astype(float)
        for idx in np.ndindex(*X.shape):
            cnt[0] += 1
            Y[idx] = S.real("y%d" % cnt[0], lo=float(xl[idx[-1]]), hi=float(xu[idx[-1]]))
        return Y
    ctrl.tell(pop=pop)
    o1, o2 = sbx.cross_sbx, pm.mut_pm
    sbx.cross_sbx, pm.mut_pm = anything, anything
    try:
        vals = ctrl.do(2, random_state=np.random.default_rng(1 + S.choose(2)))
    finally:
        sbx.cross_sbx, pm.mut_pm = o1, o2
    S.require(set(vals) == set(ctrl.params), "one set of values per parameter")
    for k, v in vals.items():
        S.require(len(v) == 2, "one value per mating")
        S.require(S.all([admissible(S, k, e) for e in v]), "admissible values")
        w = ctrl.params[k].get()
        S.require(all(a == b for a, b in zip(w, v)) if k.endswith("c") else S.all([S.same(a, b) for a, b in zip(w, v)]), "the parameters take the values")
    for i in range(n):
        for k in key:
            v = pop[i].get(key[k])
            if i in given:
                S.require(v == given[i][k] if k == "c" else S.same(v, given[i][k]), "individuals keep the values they have")
            else:
                S.require(v is not None and S.truth(admissible(S, key[k], v)), "individuals without values are given admissible ones")


@harness("P46", "age", quick=[{}], functions=[O + ":age_binary_tournament"], bounds="2 tournaments, all ages and draws")
def age(S):
    from pymoo.operators.control import age_binary_tournament
    g = [S.int("g%d" % i, lo=1, hi=9) for i in range(3)]
    pop = pop_of(S, F=S.array([[0.0]] * 3), n_gen=g)
    P = np.array([[0, 1], [2, 0]])
    w = age_binary_tournament(pop, P, random_state=S.rng())
    for r, (a, b) in enumerate(P.tolist()):
        S.require(S.any([S.all([S.eq(w[r, 0], c), S.xle(g[d], g[c])]) for c, d in ((a, b), (b, a))]), "the more recent one is selected")
