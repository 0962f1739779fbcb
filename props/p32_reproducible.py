"""P32: runs are reproducible."""
import numpy as np
from symx.harness import harness
from common import meta

A = "pymoo/algorithms/"
META = meta(
    "The same seed and the same evaluations give the same run",
    "For every algorithm: two runs created with the same settings and the same seed that receive the same evaluations propose exactly the same solutions in every iteration, whatever ran before them in the same process "
    "(no state is shared between algorithm objects, their default operators, survivals, archives or outputs), every random draw comes from the generator of the run, and NumPy's global generator is neither used nor changed. "
    "The proposed solutions lie within the bounds of the problem and the number proposed is the number the algorithm was configured with.",
    ["inputs", "histories"], "all evaluations of an individual, whatever ran before",
    "tests compare runs of fresh objects with fixed evaluations on an unconstrained sphere and ZDT1",
    ["pymoo/core/algorithm.py", "pymoo/util/__init__.py", "pymoo/util/archive.py", A + "base/genetic.py", A + "moo/", A + "soo/nonconvex/"],
    [("seed", "pymoo/core/algorithm.py:Algorithm.setup"), ("default generator", "pymoo/util/__init__.py:default_random_state"), ("archive", "pymoo/util/archive.py:Archive.add")],
    "bounded: seed 1, populations of 4-8, 3 variables, 3-4 iterations, the evaluation of one individual per run symbolic; a run with another seed and other evaluations in between; CMA-ES (vendored implementation with NumPy's global generator) is not covered")

XL, XU = np.array([0.0, -1.0, 0.0]), np.array([1.0, 1.0, 2.0])


def make(name):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    if name == "GA":
        return GA(pop_size=5)
    if name == "DE":
        from pymoo.algorithms.soo.nonconvex.de import DE
        return DE(pop_size=5, variant="DE/rand/1/bin")
    if name == "DE_steady":
        from pymoo.algorithms.soo.nonconvex.de import DE
        return DE(pop_size=6, n_offsprings=2, variant="DE/best/1/exp", jitter=True)
    if name == "PSO":
        from pymoo.algorithms.soo.nonconvex.pso import PSO
        return PSO(pop_size=4)
    if name == "EPPSO":
        from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO
        return EPPSO(pop_size=5)
    if name == "ES":
        from pymoo.algorithms.soo.nonconvex.es import ES
        return ES(n_offsprings=7, pop_size=3)
    if name == "SRES":
        from pymoo.algorithms.soo.nonconvex.sres import SRES
        return SRES(n_offsprings=6, pop_size=3)
    if name == "ISRES":
        from pymoo.algorithms.soo.nonconvex.isres import ISRES
        return ISRES(n_offsprings=6, pop_size=3)
    if name == "BRKGA":
        from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
        return BRKGA(n_elites=2, n_offsprings=3, n_mutants=1)
    if name == "G3PCX":
        from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
        return G3PCX(pop_size=6)
    if name == "NicheGA":
        from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
        return NicheGA(pop_size=5)
    if name == "NelderMead":
        from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
        return NelderMead(n_sample_points=4)
    if name == "PatternSearch":
        from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
        return PatternSearch(n_sample_points=4)
    if name == "DIRECT":
        from pymoo.algorithms.soo.nonconvex.direct import DIRECT
        return DIRECT(n_max_candidates=2)
    if name == "RandomSearch":
        from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
        return RandomSearch(n_points_per_iteration=4)
    if name == "NRBO":
        from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
        return NRBO(pop_size=5)
    if name == "GA_perm":
        from pymoo.operators.crossover.erx import EdgeRecombinationCrossover
        from pymoo.operators.mutation.inversion import InversionMutation
        from pymoo.operators.sampling.rnd import PermutationRandomSampling
        return GA(pop_size=5, sampling=PermutationRandomSampling(), crossover=EdgeRecombinationCrossover(), mutation=InversionMutation())
    if name == "GA_order":
        from pymoo.operators.crossover.ox import OrderCrossover
        from pymoo.operators.mutation.inversion import InversionMutation
        from pymoo.operators.sampling.rnd import PermutationRandomSampling
        return GA(pop_size=5, sampling=PermutationRandomSampling(), crossover=OrderCrossover(), mutation=InversionMutation())
    if name == "GA_bin":
        from pymoo.operators.crossover.pntx import TwoPointCrossover
        from pymoo.operators.mutation.bitflip import BitflipMutation
        from pymoo.operators.sampling.rnd import BinaryRandomSampling
        return GA(pop_size=5, sampling=BinaryRandomSampling(), crossover=TwoPointCrossover(), mutation=BitflipMutation())
    if name == "GA_int":
        from pymoo.operators.crossover.sbx import SBX
        from pymoo.operators.mutation.pm import PM
        from pymoo.operators.repair.rounding import RoundingRepair
        from pymoo.operators.sampling.rnd import IntegerRandomSampling
        return GA(pop_size=5, sampling=IntegerRandomSampling(), crossover=SBX(vtype=float, repair=RoundingRepair()), mutation=PM(vtype=float, repair=RoundingRepair()))
    if name == "GA_lhs":
        from pymoo.operators.sampling.lhs import LHS
        return GA(pop_size=5, sampling=LHS())
    if name == "mixed":
        from pymoo.core.mixed import MixedVariableGA
        return MixedVariableGA(pop_size=5)
    from pymoo.util.ref_dirs import get_reference_directions
    if name == "NSGA2":
        from pymoo.algorithms.moo.nsga2 import NSGA2
        return NSGA2(pop_size=6)
    if name == "NSGA2_archive":
        from pymoo.algorithms.moo.nsga2 import NSGA2
        from pymoo.util.archive import MultiObjectiveArchive
        return NSGA2(pop_size=6, archive=MultiObjectiveArchive(max_size=2, truncate_size=1))
    if name in ("DNSGA2", "DNSGA2_B"):
        from pymoo.algorithms.moo.dnsga2 import DNSGA2
        return DNSGA2(pop_size=5, version="B" if name.endswith("B") else "A")
    if name == "KGB":
        from pymoo.algorithms.moo.kgb import KGB
        return KGB(pop_size=5)
    if name == "AGEMOEA2":
        from pymoo.algorithms.moo.age2 import AGEMOEA2
        return AGEMOEA2(pop_size=5)
    if name == "Omni":
        from pymoo.algorithms.moo.omni import OmniOptimizer
        return OmniOptimizer(pop_size=6)
    if name == "NSDE":
        from pymoo.algorithms.moo.nsde import NSDE
        return NSDE(pop_size=5)
    if name == "NSDER":
        from pymoo.algorithms.moo.nsder import NSDER
        return NSDER(ref_dirs=get_reference_directions("das-dennis", 2, n_partitions=3), pop_size=5)
    if name.startswith("GDE3"):
        from pymoo.algorithms.moo import gde3
        return getattr(gde3, name)(pop_size=5)
    if name == "SPEA2":
        from pymoo.algorithms.moo.spea2 import SPEA2
        return SPEA2(pop_size=5)
    if name == "SMSEMOA":
        from pymoo.algorithms.moo.sms import SMSEMOA
        return SMSEMOA(pop_size=5, n_offsprings=3)
    if name == "AGEMOEA":
        from pymoo.algorithms.moo.age import AGEMOEA
        return AGEMOEA(pop_size=5)
    if name == "CMOPSO":
        from pymoo.algorithms.moo.cmopso import CMOPSO
        return CMOPSO(pop_size=4, elite_size=2)
    if name == "MOPSO_CD":
        from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
        return MOPSO_CD(pop_size=4, archive_size=3)
    dirs = get_reference_directions("das-dennis", 2, n_partitions=3)
    if name == "NSGA3":
        from pymoo.algorithms.moo.nsga3 import NSGA3
        return NSGA3(ref_dirs=dirs, pop_size=5)
    if name == "UNSGA3":
        from pymoo.algorithms.moo.unsga3 import UNSGA3
        return UNSGA3(ref_dirs=dirs, pop_size=5)
    if name == "RVEA":
        from pymoo.algorithms.moo.rvea import RVEA
        return RVEA(ref_dirs=dirs, pop_size=5)
    if name == "CTAEA":
        from pymoo.algorithms.moo.ctaea import CTAEA
        return CTAEA(ref_dirs=dirs)
    if name == "MOEAD":
        from pymoo.algorithms.moo.moead import MOEAD
        return MOEAD(ref_dirs=dirs, n_neighbors=3)
    if name == "RNSGA2":
        from pymoo.algorithms.moo.rnsga2 import RNSGA2
        return RNSGA2(ref_points=np.array([[0.5, 0.5]]), pop_size=5)
    if name == "RNSGA3":
        from pymoo.algorithms.moo.rnsga3 import RNSGA3
        return RNSGA3(ref_points=np.array([[0.5, 0.5]]), pop_per_ref_point=4)
    raise Exception(name)


SOO = ["GA", "DE", "DE_steady", "PSO", "EPPSO", "ES", "SRES", "ISRES", "BRKGA", "G3PCX", "NicheGA", "NelderMead", "PatternSearch", "DIRECT", "RandomSearch", "NRBO"]
VAR = ["GA_perm", "GA_order", "GA_bin", "GA_int", "GA_lhs", "mixed"]
MOO = ["NSGA2", "NSGA2_archive", "DNSGA2", "SPEA2", "SMSEMOA", "AGEMOEA", "CMOPSO", "MOPSO_CD", "NSGA3", "UNSGA3", "RVEA", "CTAEA", "MOEAD", "RNSGA2", "RNSGA3", "AGEMOEA2", "Omni", "NSDE", "NSDER", "GDE3", "GDE3MNN", "GDE32NN", "GDE3PCD", "DNSGA2_B"]
ONE = ["SPEA2", "SMSEMOA", "AGEMOEA", "CMOPSO", "NSGA3", "UNSGA3", "RVEA", "CTAEA", "MOEAD", "RNSGA2", "RNSGA3", "MOPSO_CD", "AGEMOEA2", "NSDER", "GDE3MNN", "GDE32NN", "Omni"]
TABLE = ["SPEA2", "AGEMOEA", "AGEMOEA2", "NSDER", "Omni", "CMOPSO", "NSGA3", "UNSGA3", "RVEA", "CTAEA", "MOEAD", "RNSGA2", "RNSGA3"]
UNCONSTRAINED = ["MOEAD", "DNSGA2", "DNSGA2_B", "MOPSO_CD"]


def the_problem(name, con):
    from common import problem
    n_obj = 1 if name in SOO + VAR else 2
    if name == "mixed":
        from pymoo.core.problem import Problem
        from pymoo.core.variable import Binary, Choice, Integer, Real
        return Problem(vars={"a": Real(bounds=(0.0, 1.0)), "b": Integer(bounds=(-1, 3)), "c": Binary(), "d": Choice(options=["x", "y", "z"])}, n_obj=1, n_ieq_constr=1 if con else 0)
    if name in ("GA_perm", "GA_order"):
        return problem(n_var=5, n_obj=1, n_ieq=1 if con else 0, xl=0, xu=4)
    if name == "GA_bin":
        return problem(n_var=5, n_obj=1, n_ieq=1 if con else 0, xl=0, xu=1)
    if name == "GA_int":
        return problem(n_var=3, n_obj=1, n_ieq=1 if con else 0, xl=np.array([0, -1, 0]), xu=np.array([6, 4, 5]))
    return problem(n_var=3, n_obj=n_obj, n_ieq=1 if con else 0, xl=XL, xu=XU)


def numbers(ind):
    """three numbers that describe the solution"""
    if isinstance(ind.X, dict):
        x = [float(ind.X["a"]), float(ind.X["b"]), float(ind.X["c"]) + 2 * ["x", "y", "z"].index(ind.X["d"])]
    else:
        x = [float(e) for e in ind.X]
    return x[:3]


def simulate(S, name, con, gens, sym, seed=1):
    """ask and tell with given evaluations: the proposed solutions of every iteration"""
    from pymoo.core.individual import Individual
    p = the_problem(name, con)
    n_obj = p.n_obj
    algo = make(name)
    algo.setup(p, seed=seed, termination=("n_gen", 1000), verbose=False)
    out = []
    for g in range(gens):
        off = algo.ask()
        if off is None:
            algo.advance()
            out.append(None)
            continue
        inds = [off] if isinstance(off, Individual) else list(off)
        X = np.array([numbers(i) for i in inds])
        out.append([dict(i.X) if isinstance(i.X, dict) else tuple(i.X) for i in inds])
        if g == gens - 1:
            break
        y = (X - np.array([0.3, 0.2, 0.9])) ** 2
        f = [100 * (X[:, 1] - X[:, 0] ** 2) ** 2 + (1 - X[:, 0]) ** 2 + X[:, 2] ** 2, y.sum(axis=1)]
        F = np.empty((len(X), n_obj), dtype=object)
        F[:] = np.column_stack(f[:n_obj])
        G = np.empty((len(X), 1), dtype=object)
        G[:] = 0.6 - X[:, [0]] - X[:, [1]]
        if sym is None:
            F[:] = F - 7.0
        elif g == sym[0]:
            k = min(sym[1], len(X) - 1)
            F[k] = sym[2][:n_obj]
            G[k, 0] = sym[3]
        F, G = S.array(F.tolist()), S.array(G.tolist())
        for k, ind in enumerate(inds):
            ind.F = F[k]
            if con:
                ind.G = G[k]
            ind.evaluated = {"F", "G", "H"}
        algo.evaluator.n_eval += len(inds)
        algo.tell(infills=off)
    if name == "NSGA2_archive":
        out.append([tuple(x) for x in algo.archive.get("X")])
    return out


def same_run(S, name, con, gens=3, k=0):
    g = gens - 2
    F = S.array([S.pick([0.0, 0.25, 1.5, 60.0]) if name in TABLE else S.real("F0", lo=-1, hi=60), 0.5 if name in ONE else S.real("F1", lo=0, hi=2)])
    G = S.real("G", lo=-1, hi=1) if con else 0.0
    state = np.random.get_state()[1].copy()
    make(name)  # imports
    S.forbid_unseeded("all draws come from the generator of the run")
    a = simulate(S, name, con, gens, (g, k, F, G))
    simulate(S, name, con, gens, None, seed=2)
    b = simulate(S, name, con, gens, (g, k, F, G))
    S.require(a == b, "the same solutions in every iteration, whatever ran in between")
    S.require(S.unseeded() == 0, "all draws come from the generator of the run")
    S.require(np.array_equal(np.random.get_state()[1], state), "the global generator is not used")
    p = the_problem(name, con)
    if name != "mixed":
        for x in a:
            S.require(x is None or (bool(np.all(np.array(x) >= p.xl)) and bool(np.all(np.array(x) <= p.xu))), "within the bounds")


@harness("P32", "single", quick=[dict(name=n, con=c, gens=4 if "PSO" in n else 3) for n in SOO for c in (False, True)],
         thorough=[dict(name=n, con=c, gens=4, k=k) for n in SOO for c in (False, True) for k in (0, 2)], functions=[A + "soo/nonconvex/%s.py" % n for n in ("ga", "de", "pso", "pso_ep", "es", "sres", "isres", "brkga", "g3pcx", "ga_niching", "nelder", "pattern", "direct")] + ["pymoo/core/algorithm.py:Algorithm.setup"],
         bounds="16 single-objective algorithms with and without a constraint, 3 iterations, the evaluation of the first individual of the second one symbolic")
def single(S, name, con, gens=3, k=1):
    same_run(S, name, con, gens, k)


@harness("P32", "variables", quick=[dict(name=n, con=c) for n in VAR for c in (False, True)], functions=["pymoo/operators/crossover/erx.py", "pymoo/operators/crossover/ox.py", "pymoo/operators/mutation/inversion.py", "pymoo/operators/mutation/bitflip.py", "pymoo/operators/repair/rounding.py", "pymoo/operators/sampling/lhs.py", "pymoo/core/mixed.py"],
         bounds="permutations of 5, 5 bits, 3 integers, LHS and mixed variables with and without a constraint, 3 iterations, the evaluation of the second individual of the second one symbolic")
def variables(S, name, con, gens=3, k=1):
    same_run(S, name, con, gens, k)


@harness("P32", "multi", quick=[dict(name=n, con=c, gens=5 if n == "CMOPSO" else 3) for n in MOO for c in (False, True) if not (c and n in UNCONSTRAINED)],
         thorough=[dict(name=n, con=c, gens=4, k=k) for n in MOO for c in (False, True) for k in (0, 2) if not (c and n in UNCONSTRAINED)], functions=[A + "moo/%s.py" % n for n in ("nsga2", "nsga3", "unsga3", "spea2", "sms", "age", "rvea", "ctaea", "moead", "rnsga2", "rnsga3", "cmopso", "mopso_cd", "dnsga2", "age2", "omni", "nsde", "nsder", "gde3")] + ["pymoo/util/archive.py:Archive.add"],
         bounds="24 multi-objective algorithms with and without a constraint, 3 iterations, the evaluation of the first individual of the second one symbolic")
def multi(S, name, con, gens=3, k=0):
    same_run(S, name, con, gens, k)


@harness("P32", "decorator", quick=[dict(seed=s) for s in (0, 1, 42)], functions=["pymoo/util/__init__.py:default_random_state"], bounds="seeds 0, 1 and 42 given as argument or as default of the decorator, any draws of the given generator")
def decorator(S, seed):
    from pymoo.util import default_random_state

    def f(a, b=2, random_state=None):
        return a, b, random_state.random(), random_state.integers(1000)
    want = (1, 3) + (lambda r: (r.random(), r.integers(1000)))(np.random.default_rng(seed))
    S.require(default_random_state(f)(1, b=3, seed=seed) == want, "a seed given to the function")
    S.require(default_random_state(seed)(f)(1, b=3) == want and default_random_state(seed=seed)(f)(1, b=3) == want, "a default seed")
    S.require(default_random_state(seed=seed + 1)(f)(1, b=3, seed=seed) == want, "a seed given to the function takes precedence over the default")
    S.require(S.unseeded() == 0, "no unseeded draws")
    r = S.rng(open_=True)
    g = default_random_state(seed=seed)(lambda a, random_state=None: (a, random_state.random()))(7, random_state=r)
    S.require(g[0] == 7 and r.n_draws == 1, "a given random state takes precedence")
