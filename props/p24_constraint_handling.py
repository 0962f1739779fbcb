"""P24: constraint handling wrappers."""
import numpy as np
from symx.harness import harness
from common import meta, rows

C = "pymoo/constraints/"
META = meta(
    "Constraint-handling wrappers convert and relax violations faithfully",
    "ConstraintsAsObjective returns the constraint violation as first objective (appended to, or instead of, the original objectives), ConstraintsAsPenalty adds penalty times the violation, ConstraintsFromBounds appends xl - x and x - xu to the inequality constraints; "
    "otherwise the values of the wrapped problem are unchanged, for every x, with and without constraints and for any requested values. "
    "Adaptive epsilon handling treats an individual as feasible up to max(0, 1 - progress / perc_eps_until) times the mean initial violation only while the algorithm mates and selects, never outside of it, and evaluations are still counted.",
    ["inputs", "configurations", "histories"], "all decision and constraint values, penalties and progress values of the stated sizes",
    "tests only check that one optimization run succeeds", [C + x for x in ("as_obj.py", "as_penalty.py", "from_bounds.py", "adaptive.py", "eps.py")] + ["pymoo/core/meta.py"],
    [("objective", C + "as_obj.py:ConstraintsAsObjective.do"), ("penalty", C + "as_penalty.py:ConstraintsAsPenalty.do"), ("bounds", C + "from_bounds.py:ConstraintsFromBounds.do"),
     ("epsilon", C + "eps.py:AdaptiveEpsilonConstraintHandling._adapt_constraint_handling"), ("adaptive", C + "adaptive.py:AdaptiveConstraintHandling")],
    "bounded: 1-2 rows, 2 variables, up to 2 objectives, 2 inequality and 1 equality constraint; one generation for the adaptive handling")


def prob(n_obj, n_ieq, n_eq, **kw):
    from pymoo.core.problem import Problem

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = np.column_stack([x[:, 0] + (2 + k) * x[:, 1] for k in range(n_obj)])
            if n_ieq:
                out["G"] = np.column_stack([(1 + k) * x[:, 0] - x[:, 1] for k in range(n_ieq)])
            if n_eq:
                out["H"] = np.column_stack([x[:, 0] + x[:, 1] - 1])
    return P(n_var=2, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, **kw)


def vals(S, r, n_obj, n_ieq, n_eq):
    F = [r[0] + (2 + k) * r[1] for k in range(n_obj)]
    G = [(1 + k) * r[0] - r[1] for k in range(n_ieq)]
    H = [r[0] + r[1] - 1] if n_eq else []
    return F, G, H, S.sum([S.max([0.0, g]) for g in G] + [S.max([0.0, S.abs(h) - 1e-4]) for h in H])


SHAPES = [(2, 0, 0), (1, 2, 1), (2, 1, 0), (1, 0, 1)]


def evaluate(S, p, X):
    """all three ways of asking for the objectives"""
    k = S.choose(3)
    if k == 0:
        return p.evaluate(X, return_values_of=["F"])
    if k == 1:
        return p.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)["F"]
    F = p.evaluate(X)
    return F[0] if isinstance(F, tuple) else F


@harness("P24", "objective", quick=[dict(n=2)], functions=[C + "as_obj.py:ConstraintsAsObjective.do", "pymoo/core/meta.py:Meta.__init__"], bounds="1-2 rows")
def objective(S, n):
    from pymoo.constraints.as_obj import ConstraintsAsObjective
    X = S.reals("X", (n, 2))
    r = rows(X)
    sh = S.pick(SHAPES)
    app = S.choose(2) == 1
    p = ConstraintsAsObjective(prob(*sh), append=app)
    S.require(p.n_obj == (sh[0] + 1 if app else 1) and p.n_constr == 0, "unconstrained with the violation as objective")
    F = evaluate(S, p, X)
    S.require(F.shape == (n, p.n_obj), "shape")
    for i in range(n):
        f, _, _, cv = vals(S, r[i], *sh)
        for j, w in enumerate([cv] + (f if app else [])):
            S.require(S.eq(F[i, j], w), "violation first, then the objectives")


@harness("P24", "penalty", quick=[dict(n=2)], functions=[C + "as_penalty.py:ConstraintsAsPenalty.do"], bounds="1-2 rows, one objective; penalty 0, 0.25, 8")
def penalty(S, n):
    from pymoo.constraints.as_penalty import ConstraintsAsPenalty
    X = S.reals("X", (n, 2))
    r = rows(X)
    sh = S.pick([(1, 0, 0), (1, 2, 1), (1, 0, 1)])
    w = S.pick([0.0, 0.25, 8.0])
    p = ConstraintsAsPenalty(prob(*sh), penalty=w)
    S.require(p.n_constr == 0 and p.n_obj == 1, "unconstrained")
    F = evaluate(S, p, X)
    S.require(F.shape == (n, 1), "shape")
    for i in range(n):
        f, _, _, cv = vals(S, r[i], *sh)
        S.require(S.eq(F[i, 0], f[0] + w * cv), "objective plus weighted violation")


@harness("P24", "bounds", quick=[dict(n=2)], functions=[C + "from_bounds.py:ConstraintsFromBounds.do"], bounds="1-2 rows, symbolic bounds")
def bounds(S, n):
    from pymoo.constraints.from_bounds import ConstraintsFromBounds
    X, lo, hi = S.reals("X", (n, 2)), S.reals("lo", (2,)), S.reals("hi", (2,))
    S.assume(S.all([S.lt(lo[j], hi[j]) for j in range(2)]))
    r = rows(X)
    sh = S.pick([(2, 0, 0), (1, 2, 1)])
    rem = S.choose(2) == 1
    p = ConstraintsFromBounds(prob(*sh, xl=lo, xu=hi), remove_bonds=rem)
    S.require(p.has_bounds() != rem and p.n_ieq_constr == sh[1] + 4, "declared constraints")
    out = p.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True) if S.choose(2) == 0 else p.evaluate(X, return_as_dictionary=True)
    G = out["G"]
    S.require(G.shape == (n, sh[1] + 4), "shape")
    for i in range(n):
        f, g, h, _ = vals(S, r[i], *sh)
        S.require(S.all([S.eq(out["F"][i, j], f[j]) for j in range(sh[0])] + [S.eq(G[i, j], g[j]) for j in range(sh[1])] + [S.eq(out["H"][i, j], h[j]) for j in range(len(h))]), "values of the wrapped problem")
        w = [lo[j] - r[i][j] for j in range(2)] + [r[i][j] - hi[j] for j in range(2)]
        S.require(S.all([S.eq(G[i, sh[1] + j], w[j]) for j in range(4)]), "bound constraints")
        S.require(S.iff(S.all([S.xle(lo[j], r[i][j]) for j in range(2)] + [S.xle(r[i][j], hi[j]) for j in range(2)]), S.all([S.xle(G[i, sh[1] + j], 0.0) for j in range(4)])), "violated exactly outside the bounds")


@harness("P24", "epsilon", quick=[dict()], functions=[C + "eps.py:AdaptiveEpsilonConstraintHandling._adapt_constraint_handling"], bounds="symbolic progress and largest violation; perc_eps_until 0.25, 0.5, 1")
def epsilon(S):
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling as A
    from pymoo.algorithms.soo.nonconvex.ga import GA
    t, m = S.real("t", 0, 1), S.real("m", 0)
    u = S.pick([0.25, 0.5, 1.0])
    a = A(GA(pop_size=4), perc_eps_until=u)

    class T:
        perc = t
    a.termination, a.max_cv = T(), m
    config = {}
    a._adapt_constraint_handling(config)
    S.require(S.eq(config["cv_eps"], S.max([0.0, 1 - t / u]) * m), "linear schedule")
    S.require(S.implies(S.xle(u, t), S.eq(config["cv_eps"], 0.0)), "no relaxation once the schedule is over")


@harness("P24", "evaluator", quick=[dict()], functions=[C + "adaptive.py:AttachConfigEvaluator.eval"], bounds="2 individuals; evaluated through the attached evaluator")
def evaluator(S):
    from pymoo.constraints.adaptive import AttachConfigEvaluator
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    X = S.reals("X", (2, 2))
    r = rows(X)
    c = Individual.default_config()
    c["cache"] = False
    w = Evaluator()
    ev = AttachConfigEvaluator(w, c)
    pop = Population.new(X=X)
    ev.eval(prob(1, 2, 1), pop)
    S.require(ev.n_eval == 2, "evaluations counted")
    ev.eval(prob(1, 2, 1), pop, skip_already_evaluated=False, count_evals=S.choose(2) == 0)
    S.require(ev.n_eval == w.n_eval, "evaluations counted")
    e = S.real("e", 0)
    c["cv_eps"] = e
    for i in range(2):
        cv = vals(S, r[i], 1, 2, 1)[3]
        S.require(S.eq(pop[i].CV[0], cv), "violation")
        S.require(S.iff(pop[i].FEAS[0], S.xle(cv, e)), "the shared configuration decides feasibility")


@harness("P24", "schedule", quick=[dict(u=0.5)], thorough=[dict(u=0.5), dict(u=0.25), dict(u=1.0)], functions=[C + "adaptive.py:AdaptiveConstraintHandling._advance", C + "adaptive.py:AdaptiveConstraintHandling._infill",
         C + "adaptive.py:AdaptiveConstraintHandling._initialize_advance", C + "eps.py:AdaptiveEpsilonConstraintHandling._initialize_advance"],
         bounds="3 generations of a stub algorithm with 2 initial individuals and one more per generation; symbolic violations and progress")
def schedule(S, u):
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling as A
    from pymoo.core.algorithm import Algorithm
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.termination import Termination
    from pymoo.util.display.display import Display

    g = S.reals("g", (4,), lo=0)
    t = S.reals("t", (3,), lo=0, hi=1)
    S.assume(S.all([S.xle(t[0], t[1]), S.xle(t[1], t[2])]))
    seen = []

    class P(Problem):
        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = x
            out["G"] = S.array([[g[int(i)]] for i in np.ravel(x)]) if not S.sym else np.array([[g[int(i)]] for i in np.ravel(x)])

    class Term(Termination):
        k = 0

        def update(self, algorithm):
            self.perc = t[self.k]
            self.k += 1
            return self.perc

        def has_terminated(self):
            return False

    class Alg(Algorithm):
        def look(self, where):
            seen.append((where, self.n_iter, [(int(i.X[0]), i.FEAS[0]) for i in self.pop]))

        def _initialize_infill(self):
            return Population.new(X=np.array([[0], [1]]))

        def _infill(self):
            self.look("infill")
            return Population.new(X=np.array([[self.n_iter]]))

        def _initialize_advance(self, infills=None, **kwargs):
            self.look("select")

        def _advance(self, infills=None, **kwargs):
            self.pop = Population.merge(self.pop, infills)
            self.look("select")

        def _set_optimum(self):
            self.opt = self.pop[:1]

        def _post_advance(self):
            self.look("outside")
            super()._post_advance()

    alg = A(Alg(termination=Term(), display=Display(None)), perc_eps_until=u)
    alg.setup(P(n_var=1, n_obj=1, n_ieq_constr=1))
    for _ in range(3):
        alg.next()
    m = (g[0] + g[1]) / 2
    S.require(S.eq(alg.evaluator.n_eval, 4), "evaluations counted")
    for where, it, feas in seen:
        # the tolerance follows the progress known when the previous generation was finished; the first two selections use the default
        e = 0.0 if where == "outside" or it is None or it < 3 else S.max([0.0, 1 - t[it - 3] / u]) * m
        for k, f in feas:
            S.require(S.iff(f, S.xle(g[k], e)), "relaxed as scheduled while selecting, strict outside")
