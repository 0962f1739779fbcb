"""Shared helpers of the harness modules (work in symbolic and in concrete mode)."""
import numpy as np


def dom(S, a, b):
    """a Pareto-dominates b (minimisation)"""
    return S.all([S.xle(x, y) for x, y in zip(a, b)] + [S.any([S.xlt(x, y) for x, y in zip(a, b)])])


def rows(F):
    return [[F[i, j] for j in range(F.shape[1])] for i in range(F.shape[0])]


def veq(S, a, b):
    return S.all([S.eq(x, y) for x, y in zip(a, b)])


def vsame(S, a, b):
    return S.all([S.same(x, y) for x, y in zip(a, b)])


def problem(n_var=2, n_obj=2, n_ieq=0, n_eq=0, xl=None, xu=None, vtype=None, **kw):
    from pymoo.core.problem import Problem
    return Problem(n_var=n_var, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, xl=xl, xu=xu, vtype=vtype, **kw)


def pop_of(S, F=None, CV=None, X=None, G=None, H=None, **kw):
    """a population whose individuals count as evaluated"""
    from pymoo.core.population import Population
    n = len(next(v for v in (F, CV, X, G, H) if v is not None))
    args = {}
    for k, v in (("X", X), ("F", F), ("G", G), ("H", H)):
        if v is not None:
            args[k] = v
    args.update(kw)
    pop = Population.new(**args)
    if CV is not None:
        pop.set("CV", CV)
    for i in range(n):
        pop[i].evaluated = {"F", "G", "H"}
        pop[i].set("uid", i)
    return pop


def uids(pop):
    return [int(i.get("uid")) for i in pop]


def cvs(S, n, name="cv"):
    """n x 1 constraint violations (>= 0)"""
    return S.reals(name, (n, 1), lo=0)


def meta(title, statement, over, text, why, files, mech, note):
    return dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), level_note=note)
