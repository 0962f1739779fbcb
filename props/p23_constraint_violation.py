"""P23: constraint violation and feasibility."""
import numpy as np
from symx.harness import harness
from common import meta, rows

IN = "pymoo/core/individual.py"
META = meta(
    "Constraint violation is the sum of violated amounts and decides feasibility",
    "For every G and H, CV is the sum of max(0, g - eps_ieq) over inequality and max(0, |h| - eps_eq) over equality constraints (scaled, raised and aggregated as configured; defaults eps_ieq = 0, eps_eq = 1e-4): "
    "never negative, 0 without constraints, and the same whether computed per individual, per population or on matrices. "
    "An individual is feasible exactly when CV <= cv_eps, and reading CV or FEAS always reflects the constraint values and the configuration most recently set.",
    ["inputs", "histories"], "all constraint values of the stated sizes, all tolerances; all orders of setting and reading on one individual",
    "tests compute CV for a few fixed matrices", [IN, "pymoo/core/population.py"],
    [("calc_cv", IN + ":calc_cv"), ("constr_to_cv", IN + ":constr_to_cv"), ("CV cache", IN + ":Individual.CV"), ("FEAS", IN + ":Individual.FEAS"), ("population", "pymoo/core/population.py:calc_cv")],
    "bounded: up to 2 individuals, 2 inequality and 2 equality constraints; histories of up to 3 set/read steps")


def cv_of(S, g, h, eg=0, eh=1e-4, sg=1, sh=1):
    return S.sum([S.max([0.0, v - eg]) / sg for v in g] + [S.max([0.0, S.abs(v) - eh]) / sh for v in h])


@harness("P23", "formula", quick=[dict(n=2, p=2, q=1), dict(n=1, p=0, q=2), dict(n=2, p=2, q=0)], functions=[IN + ":calc_cv", IN + ":constr_to_cv", "pymoo/core/population.py:calc_cv"], bounds="1-2 rows, 0-2 inequality and 0-2 equality constraints")
def formula(S, n, p, q):
    from pymoo.core.individual import calc_cv, Individual
    from pymoo.core.population import Population, calc_cv as pop_cv
    G, H = S.reals("G", (n, p)), S.reals("H", (n, q))
    want = [cv_of(S, [G[i, j] for j in range(p)], [H[i, j] for j in range(q)]) for i in range(n)]
    how = S.choose(4)
    if how == 0:
        got = calc_cv(G=G, H=H)
    elif how == 1:
        got = [calc_cv(G=G[i], H=H[i]) for i in range(n)]
    elif how == 2:
        got = [ind.CV[0] for ind in Population.new(X=S.array(np.zeros((n, 1))), G=G, H=H)]
    else:
        got = pop_cv(Population.new(X=S.array(np.zeros((n, 1))), G=G, H=H))
    S.require(len(got) == n, "one value per row")
    for i in range(n):
        S.require(S.eq(got[i], want[i]), "sum of the violated amounts")
        S.require(S.xle(0.0, got[i]), "never negative")
        if how == 2:
            S.require(S.iff(S.all([S.xle(G[i, j], 0.0) for j in range(p)] + [S.xle(S.abs(H[i, j]), 1e-4) for j in range(q)]), S.xle(got[i], 0.0)), "zero exactly when every constraint holds")


@harness("P23", "configured", quick=[dict()], functions=[IN + ":constr_to_cv", IN + ":calc_cv"], bounds="2 inequality, 1 equality constraint; symbolic eps, concrete scale and power, sum/mean/max")
def configured(S):
    from pymoo.core.individual import calc_cv, Individual, constr_to_cv
    g, h = S.reals("g", (2,)), S.reals("h", (1,))
    eg, eh = S.real("eg", 0), S.real("eh", 0)
    c = Individual.default_config()
    scale = S.pick([None, 4.0])
    pow = S.pick([None, 2])
    fname = S.pick(["sum", "mean", "max"])
    func = dict(sum=np.sum, mean=np.mean, max=np.max)[fname]
    c["cv_ieq"] = dict(scale=scale, eps=eg, pow=pow, func=func)
    c["cv_eq"] = dict(scale=scale, eps=eh, pow=pow, func=func)

    def one(v, e):
        v = S.max([0.0, v - e]) / (scale or 1)
        return v * v if pow else v
    a = [one(g[0], eg), one(g[1], eg)]
    a = dict(sum=lambda: a[0] + a[1], mean=lambda: (a[0] + a[1]) / 2, max=lambda: S.max(a))[fname]()
    S.require(S.eq(calc_cv(G=g, H=h, config=c), a + one(S.abs(h[0]), eh)), "configured aggregation")
    S.require(S.eq(constr_to_cv(g, eps=eg, scale=scale, pow=pow, func=func), a), "constr_to_cv")


@harness("P23", "feasible", quick=[dict()], functions=[IN + ":Individual.FEAS", IN + ":Individual.CV"], bounds="1 individual, 1+1 constraints, symbolic tolerance cv_eps, caching on and off")
def feasible(S):
    from pymoo.core.individual import Individual
    g, h, e = S.reals("g", (1,)), S.reals("h", (1,)), S.real("e", 0)
    c = Individual.default_config()
    c["cv_eps"], c["cache"] = e, S.choose(2) == 1
    ind = Individual(config=c, G=g, H=h)
    cv = cv_of(S, [g[0]], [h[0]])
    how = S.choose(3)
    got = ind.FEAS[0] if how == 0 else (ind.feas if how == 1 else ind.get("FEAS")[0])
    S.require(S.iff(got, S.xle(cv, e)), "feasible exactly when CV <= cv_eps")
    S.require(S.eq(ind.cv, cv) and ind.CV.shape == (1,) and ind.FEAS.shape == (1,), "CV")
    S.require(S.iff(Individual(G=g, H=h).FEAS[0], S.xle(cv, 0.0)), "no tolerance by default")


@harness("P23", "history", quick=[dict()], functions=[IN + ":Individual.CV", IN + ":Individual.G", IN + ":Individual.H", IN + ":Individual.reset"], bounds="3 steps on one individual: set G, set H, change the tolerance, reset, copy; CV read in between or not")
def history(S):
    from pymoo.core.individual import Individual
    c = Individual.default_config()
    ind = Individual(config=c)
    g, h, e = [], [], 0.0
    for t in range(3):
        k = S.choose(5)
        if k == 0:
            v = S.reals("g%d" % t, (1,))
            g = [v[0]]
            if S.choose(2) == 0:
                ind.G = v
            else:
                ind.set("G", v)
        elif k == 1:
            v = S.reals("h%d" % t, (1,))
            h = [v[0]]
            ind.H = v
        elif k == 2:
            e = S.real("e%d" % t, 0)
            ind.config["cv_eps"] = e
        elif k == 3:
            ind.reset()
            g, h = [], []
        else:
            ind = ind.copy()
        if t == 2 or S.choose(2) == 1:
            want = cv_of(S, g, h)
            S.require(S.eq(ind.CV[0], want), "CV reflects the current constraint values")
            S.require(S.iff(ind.FEAS[0], S.xle(want, e)), "feasibility reflects the current values and tolerance")


@harness("P23", "explicit", quick=[dict()], functions=[IN + ":Individual.CV"], bounds="CV given explicitly")
def explicit(S):
    from pymoo.core.population import Population
    cv = S.reals("cv", (2, 1), lo=0)
    pop = Population.new(X=S.array([[0.0], [1.0]]))
    pop.set("CV", cv)
    got = pop.get("CV")
    S.require(got.shape == (2, 1) and S.truth(S.all([S.same(got[i, 0], cv[i, 0]) for i in range(2)])), "explicitly set violation is kept")
    S.require(S.all([S.iff(pop[i].FEAS[0], S.xle(cv[i, 0], 0.0)) for i in range(2)]), "feasibility from the explicit violation")
