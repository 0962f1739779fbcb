"""P26: the test problems compute their published definitions (unconstrained and constrained suites, with their parameters)."""
import math

import numpy as np
from symx.harness import harness
from common import meta

PR = "pymoo/problems/"
META = meta(
    "Test problems compute their published objectives and constraints",
    "At every point of its box, for every number of variables and objectives and every value of its parameters, a test problem returns the objectives and inequality constraints of its published definition, in the published order and with feasibility meaning g <= 0: the single-objective functions (Ackley with a, b and c, Rastrigin with A, Griewank, "
    "Rosenbrock, Schwefel, Zakharov, sphere, Himmelblau, the multimodal ones, cantilevered beam, pressure vessel), ZDT1-6, DTLZ1-7 with alpha, their inverted, scaled, convex and constrained (C1-C3, DC1-DC3) variants, CTP1-8 with linear and multimodal distance, DAS-CMOP1-9 with the difficulty triple, MW1-14, WFG1-9, and the classical problems BNH, Kursawe, OSY, SRN, TNK, truss, "
    "welded beam, car side impact, Omni-test and SYM-PART with its lengths, distances and angle; the dynamic DF1-11 at their current time; the length of a closed tour, the makespan of a flow shop, and the profit, size and capacity of a knapsack.",
    ["inputs"], "all points of the box (symbolic coordinates; elementary functions uninterpreted, with the same meaning in code and definition) for the listed sizes and parameters",
    "tests compare one recorded data set per problem, which is not part of the package, and only for the default sizes and parameters",
    [PR + "single/", PR + "multi/zdt.py", PR + "many/dtlz.py", PR + "many/cdtlz.py", PR + "many/dcdtlz.py", PR + "many/wfg.py", PR + "multi/ctp.py", PR + "multi/dascmop.py", PR + "multi/mw.py", PR + "multi/sympart.py"],
    [("distance functions", PR + "many/dtlz.py:DTLZ.g1"), ("constraints", PR + "many/cdtlz.py:constraint_c2"), ("transformations", PR + "many/wfg.py:_transformation_shift_deceptive"), ("difficulty", PR + "multi/dascmop.py:DASCMOP.constraint_seg"), ("local optima", PR + "multi/mw.py:MW.LA2"), ("constraint", PR + "multi/ctp.py:CTP.calc_constraint")],
    "bounded: 2-6 variables (30 for DAS-CMOP), 2-5 objectives; terms that differ by rounding of their constants only (relative 1e-12) are identified; the origin of CTP2-5 is a known finding; MODAct, ZCAT, the CEC suites (G1-G24, CEC2015) and DF12-14 are not covered here")

PI = math.pi


class M:
    """scalar mathematics on symbolic and concrete values"""

    def __init__(self, S):
        self.S = S

    sin, cos, exp, sqrt, log, arctan, arcsin = (staticmethod(f) for f in (np.sin, np.cos, np.exp, np.sqrt, np.log, np.arctan, np.arcsin))

    @staticmethod
    def pow(a, b):
        return a ** b if isinstance(b, int) else np.power(a, b)

    def abs(self, a):
        return self.S.abs(a)

    def min(self, *a):
        return self.S.min(list(a))

    def max(self, *a):
        return self.S.max(list(a))

    def sum(self, xs):
        r = 0.0
        for v in xs:
            r = r + v
        return r

    def prod(self, xs):
        r = 1.0
        for v in xs:
            r = r * v
        return r


# ------------------------------------------------------------------------------------------------ single objective

def o_ackley(m, x, a=20, b=0.2, c=2 * PI):
    n = len(x)
    return [a + math.e - a * m.exp(-b * m.sqrt(m.sum(v * v for v in x) / n)) - m.exp(m.sum(m.cos(c * v) for v in x) / n)], []


def o_rastrigin(m, x, A=10.0):
    return [A * len(x) + m.sum(v * v - A * m.cos(2 * PI * v) for v in x)], []


def o_griewank(m, x):
    return [1 + m.sum(v * v for v in x) / 4000 - m.prod(m.cos(v / math.sqrt(i + 1)) for i, v in enumerate(x))], []


def o_rosenbrock(m, x):
    return [m.sum(100 * (x[i + 1] - x[i] * x[i]) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))], []


def o_schwefel(m, x):
    return [418.9829 * len(x) - m.sum(v * m.sin(m.sqrt(m.abs(v))) for v in x)], []


def o_zakharov(m, x):
    s = m.sum(0.5 * (i + 1) * v for i, v in enumerate(x))
    return [m.sum(v * v for v in x) + s ** 2 + s ** 4], []


def o_sphere(m, x):
    return [m.sum((v - 0.5) ** 2 for v in x)], []


def o_himmelblau(m, x):
    return [(x[0] ** 2 + x[1] - 11) ** 2 + (x[0] + x[1] ** 2 - 7) ** 2], []


def o_simple1(m, x):
    return [1 - m.exp(-(x[0] * x[0])) * m.sin(2 * PI * x[0]) ** 2], []


def o_simple2(m, x):
    return [1.1 - m.exp(2 * x[0]) * m.sin(-5 * PI * x[0]) ** 2], []


def o_beam(m, x):
    b1, h1, b2, H = x
    inertia = b2 * (H - 2 * h1) ** 3 / 12 + 2 * (b1 * h1 ** 3 / 12 + b1 * h1 * (H - h1) ** 2 / 4)
    return [(2 * h1 * b1 + (H - 2 * h1) * b2) * 36.0], [(1000.0 * 36.0 * H / (2 * inertia) - 5000.0) / 5000.0,
                                                       (1000.0 * 36.0 ** 3 / (3 * 1e7 * inertia) - 0.1) / 0.1]


def o_vessel(m, x):
    d1, d2, r, L = 0.0625 * x[0], 0.0625 * x[1], x[2], x[3]
    return [0.6224 * d1 * r * L + 1.7781 * d2 * r ** 2 + 3.1661 * d1 ** 2 * L + 19.84 * d1 ** 2 * r], \
        [(0.0193 * r - d1) / 3, (0.00954 * r - d2) / 3, (1296000 - PI * r ** 2 * L - 4.0 / 3.0 * PI * r ** 3) / 1296000, (L - 240) / 240]


# ------------------------------------------------------------------------------------------------ ZDT

def o_zdt(m, x, k):
    f1, r, n = x[0], x[1:], len(x)
    if k in (1, 2, 3):
        g = 1 + 9.0 * m.sum(r) / (n - 1)
    if k == 1:
        return [f1, g * (1 - m.sqrt(f1 / g))], []
    if k == 2:
        return [f1, g * (1 - (f1 / g) ** 2)], []
    if k == 3:
        return [f1, g * (1 - m.sqrt(f1 / g) - f1 / g * m.sin(10 * PI * f1))], []
    if k == 4:
        g = 1 + 10 * (n - 1) + m.sum(v * v - 10 * m.cos(4 * PI * v) for v in r)
        return [f1, g * (1 - m.sqrt(f1 / g))], []
    f1 = 1 - m.exp(-4 * f1) * m.sin(6 * PI * f1) ** 6
    g = 1 + 9 * m.pow(m.sum(r) / (n - 1), 0.25)
    return [f1, g * (1 - (f1 / g) ** 2)], []


# ------------------------------------------------------------------------------------------------ DTLZ

def g_rastrigin(m, xm):
    return 100 * (len(xm) + m.sum((v - 0.5) ** 2 - m.cos(20 * PI * (v - 0.5)) for v in xm))


def g_sphere(m, xm):
    return m.sum((v - 0.5) ** 2 for v in xm)


def linear_shape(m, xp, g):
    k = len(xp)
    F = []
    for i in range(k + 1):
        f = 0.5 * (1 + g) * m.prod(xp[:k - i])
        if i:
            f = f * (1 - xp[k - i])
        F.append(f)
    return F


def sphere_shape(m, th, g):
    """th: angles as multiples of pi / 2"""
    k = len(th)
    F = []
    for i in range(k + 1):
        f = (1 + g) * m.prod(m.cos(t * PI / 2) for t in th[:k - i])
        if i:
            f = f * m.sin(th[k - i] * PI / 2)
        F.append(f)
    return F


def o_dtlz(m, x, k, M, alpha=100):
    xp, xm = x[:M - 1], x[M - 1:]
    if k == 1:
        return linear_shape(m, xp, g_rastrigin(m, xm)), []
    if k == 2:
        return sphere_shape(m, xp, g_sphere(m, xm)), []
    if k == 3:
        return sphere_shape(m, xp, g_rastrigin(m, xm)), []
    if k == 4:
        return sphere_shape(m, [m.pow(v, alpha) for v in xp], g_sphere(m, xm)), []
    if k in (5, 6):
        g = g_sphere(m, xm) if k == 5 else m.sum(m.pow(v, 0.1) for v in xm)
        return sphere_shape(m, [xp[0]] + [(1 + 2 * g * v) / (2 * (1 + g)) for v in xp[1:]], g), []
    g = 1 + 9.0 * m.sum(xm) / len(xm)
    h = M - m.sum(v / (1 + g) * (1 + m.sin(3 * PI * v)) for v in xp)
    return list(xp) + [(1 + g) * h], []


def o_inverted(m, x, M):
    F, _ = o_dtlz(m, x, 1, M)
    g = g_rastrigin(m, x[M - 1:])
    return [0.5 * (1 + g) - f for f in F], []


def o_scaled(m, x, M, s):
    F, _ = o_dtlz(m, x, 1, M)
    return [f * float(s) ** i for i, f in enumerate(F)], []


def o_convex(m, x, k, M, alpha=100):
    F, _ = o_dtlz(m, x, k, M, alpha)
    return [f ** 4 for f in F[:-1]] + [F[-1] ** 2], []


def o_cdtlz(m, x, name, M, r=None):
    if name == "c1dtlz1":
        F, _ = o_dtlz(m, x, 1, M)
        return F, [F[-1] / 0.6 + m.sum(f / 0.5 for f in F[:-1]) - 1]
    if name == "c1dtlz3":
        F, _ = o_dtlz(m, x, 3, M)
        q = m.sum(f * f for f in F)
        r = r if r is not None else (9.0 if M < 5 else 12.5)
        return F, [-(q - 16) * (q - r * r)]
    if name == "c2dtlz2":
        F, _ = o_dtlz(m, x, 2, M)
        r = r if r is not None else {2: 0.2, 3: 0.4}.get(M, 0.5)
        q = m.sum(f * f for f in F)
        v1 = m.min(*[(f - 1) ** 2 + q - f * f - r * r for f in F])
        v2 = m.sum((f - 1 / math.sqrt(M)) ** 2 for f in F) - r * r
        return F, [m.min(v1, v2)]
    if name == "c3dtlz1":
        F, _ = o_dtlz(m, x, 1, M)
        return F, [1 - F[j] / 0.5 - m.sum(F[i] for i in range(M) if i != j) for j in range(M)]
    F, _ = o_dtlz(m, x, 4, M)
    return F, [1 - F[j] ** 2 / 4 - m.sum(F[i] ** 2 for i in range(M) if i != j) for j in range(M)]


def o_dcdtlz(m, x, c, k, M):
    F, _ = o_dtlz(m, x, k, M)
    g = g_rastrigin(m, x[M - 1:])
    if c == 1:
        return F, [0.95 - m.cos(5 * PI * x[0])]
    if c == 2:
        return F, [0.9 - m.cos(3 * PI * g / 100), 0.9 - m.exp(-g / 100)]
    return F, [0.5 - m.cos(5 * PI * g)] + [0.5 - m.cos(5 * PI * v) for v in x[:M - 1]]


# ------------------------------------------------------------------------------------------------ CTP

CTP = {2: [(-0.2, 0.2, 10, 1, 6, 1)], 3: [(-0.2, 0.1, 10, 1, 0.5, 1)], 4: [(-0.2, 0.75, 10, 1, 0.5, 1)], 5: [(-0.2, 0.1, 10, 2, 0.5, 1)],
       6: [(0.1, 40, 0.5, 1, 2, -2)], 7: [(-0.05, 40, 5, 1, 6, 0)], 8: [(0.1, 40, 0.5, 1, 2, -2), (-0.05, 40, 2, 1, 6, 0)]}


def o_ctp(m, x, k, option="linear", J=2):
    f1, r = x[0], x[1:]
    if option == "linear":
        g = 1 + m.sum(r)
    else:
        g = 1 + 10 * len(r) + m.sum(v * v - 10 * m.cos(2 * PI * v) for v in r)
    if k == 1:
        f2 = g * m.exp(-f1 / g)
        a, b, G = 1.0, 1.0, []
        for j in range(J):
            t = (j + 1.0) / (J + 1)
            y = a * math.exp(-b * t)
            a = (a + y) / 2
            b = -math.log(y / a) / t
            G.append(a * m.exp(-b * f1) - f2)
        return [f1, f2], G
    f2 = g * (1 - m.sqrt(f1 / g))
    G = []
    for th, a, b, c, d, e in CTP[k]:
        th = th * PI
        lhs = math.cos(th) * (f2 - e) - math.sin(th) * f1
        u = math.sin(th) * (f2 - e) + math.cos(th) * f1
        s = m.abs(m.sin(b * PI * u ** c))
        if not isinstance(s, float):
            m.S.assume(m.S.xlt(1e-9, s))
        s = m.sqrt(s) if d == 0.5 else s ** d
        G.append(1 - lhs / (a * s))
    return [f1, f2], G


# ------------------------------------------------------------------------------------------------ DAS-CMOP

DIFF = [(.25, 0, 0), (0, .25, 0), (0, 0, .25), (.25, .25, .25), (.5, 0, 0), (0, .5, 0), (0, 0, .5), (.5, .5, .5), (.75, 0, 0), (0, .75, 0), (0, 0, .75),
        (.75, .75, .75), (0, 1.0, 0), (.5, 1.0, 0), (0, 1.0, .5), (.5, 1.0, .5)]


def o_dascmop(m, x, k, d):
    eta, zeta, gamma = DIFF[d - 1] if isinstance(d, int) else d
    M = 2 if k <= 6 else 3
    n, r = len(x), x[M - 1:]
    if k <= 3:
        s = m.sin(0.5 * PI * x[0])
        g = m.sum((v - s) ** 2 for v in r)
    elif k <= 8:
        g = (n - M + 1) + m.sum((v - 0.5) ** 2 - m.cos(20 * PI * (v - 0.5)) for v in r)
    else:
        g = m.sum((v - m.cos(0.25 * (M + i) / n * PI * (x[0] + x[1]))) ** 2 for i, v in enumerate(r))
    if M == 2:
        f2 = 1 - (x[0] ** 2 if k in (1, 4) else m.sqrt(x[0])) + g
        if k in (3, 6):
            f2 = f2 + 0.5 * m.abs(m.sin(5 * PI * x[0]))
        F = [x[0] + g, f2]
    elif k == 7:
        F = [x[0] * x[1] + g, x[1] * (1 - x[0]) + g, 1 - x[1] + g]
    else:
        a, b = 0.5 * PI * x[0], 0.5 * PI * x[1]
        F = [m.cos(a) * m.cos(b) + g, m.cos(a) * m.sin(b) + g, m.sin(a) + g]
    b = 2 * eta - 1
    G = [b - m.sin(20 * PI * x[0])]
    if M == 3:
        G.append(b - m.cos(20 * PI * x[1]))
    dd = 0.5 if zeta > 0 else 0.0
    e = dd - math.log(zeta) if zeta > 0 else 1e30
    if zeta == 1:
        G.append(m.abs(e - g) - 1e-4)
    else:
        G.append(-(e - g) * (g - dd))
    if M == 2:
        c, s = math.cos(-0.25 * PI), math.sin(-0.25 * PI)
        for p, q in zip([0, 1, 0, 1, 2, 0, 1, 2, 3], [1.5, 0.5, 2.5, 1.5, 0.5, 3.5, 2.5, 1.5, 0.5]):
            u, v = F[0] - p, F[1] - q
            G.append(0.5 * gamma - (u * c - v * s) ** 2 / 0.3 - (u * s + v * c) ** 2 / 1.2)
    else:
        t = 1 / math.sqrt(3)
        for p in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (t, t, t)):
            G.append((0.5 * gamma) ** 2 - m.sum((f - q) ** 2 for f, q in zip(F, p)))
    return F, G


# ------------------------------------------------------------------------------------------------ MW

def mw_g(m, x, M, k):
    n = len(x)
    if k == 1:
        return 1 + m.sum(1 - m.exp(-10 * (x[i] ** (n - M) - 0.5 - i / (2.0 * n)) ** 2) for i in range(M - 1, n))
    if k == 2:
        g = 1.0
        for i in range(M - 1, n):
            z = 1 - m.exp(-10 * (x[i] - float(i) / n) ** 2)
            g = g + 1.5 + 0.1 / n * z * z - 1.5 * m.cos(2 * PI * z)
        return g
    return 1 + m.sum(2 * (x[i] + (x[i - 1] - 0.5) ** 2 - 1) ** 2 for i in range(M - 1, n))


def o_mw(m, x, k, M=2):
    R2 = math.sqrt(2.0)
    if k in (1, 2, 3):
        g = mw_g(m, x, 2, k)
        f1 = x[0]
        f2 = g - 0.85 * f1 if k == 1 else g - f1
        q = R2 * f2 - R2 * f1
        if k == 1:
            return [f1, f2], [f1 + f2 - 1 - 0.5 * m.sin(2 * PI * q) ** 8]
        if k == 2:
            return [f1, f2], [f1 + f2 - 1 - 0.5 * m.sin(3 * PI * q) ** 8]
        return [f1, f2], [f1 + f2 - 1.05 - 0.45 * m.sin(0.75 * PI * q) ** 6, 0.85 - f1 - f2 + 0.3 * m.sin(0.75 * PI * q) ** 2]
    if k in (4, 8):
        g = mw_g(m, x, M, 1 if k == 4 else 2)
        F = []
        for i in range(M):
            if k == 4:
                f = g * m.prod(1 - v for v in x[:M - 1 - i])
                F.append(f * x[M - 1 - i] if i else f)
            else:
                f = g * m.prod(m.cos(0.5 * PI * v) for v in x[:M - 1 - i])
                F.append(f * m.sin(0.5 * PI * x[M - 1 - i]) if i else f)
        if k == 4:
            q = F[-1] - m.sum(F[:-1])
            return F, [m.sum(F) - 1 - 0.4 * m.sin(2.5 * PI * q) ** 8]
        sq = m.sum(f * f for f in F)
        return F, [sq - (1.25 - 0.5 * m.sin(6 * m.arcsin(F[-1] / m.sqrt(sq))) ** 2) ** 2]
    if k in (5, 6, 7):
        g = mw_g(m, x, 2, {5: 1, 6: 2, 7: 3}[k])
        rad = 1.1 * 1.1 if k == 6 else 1.0
        f1 = g * x[0]
        t = rad - (f1 / g) ** 2
        f2 = g * m.sqrt(m.max(t, 0.0) if k == 6 else t)
        at = m.arctan(f2 / f1)
        sq = f1 ** 2 + f2 ** 2
        if k == 5:
            t = 0.5 * PI - 2 * m.abs(at - 0.25 * PI)
            return [f1, f2], [sq - (1.7 - 0.2 * m.sin(2 * at)) ** 2, (1 + 0.5 * m.sin(6 * t ** 3)) ** 2 - sq, (1 - 0.45 * m.sin(6 * t ** 3)) ** 2 - sq]
        if k == 6:
            c = m.cos(6 * at ** 4) ** 10
            return [f1, f2], [f1 ** 2 / (1 + 0.15 * c) ** 2 + f2 ** 2 / (1 + 0.75 * c) ** 2 - 1]
        s = m.sin(4 * at)
        return [f1, f2], [sq - (1.2 + m.abs(0.4 * s ** 16)) ** 2, (1.15 - 0.2 * s ** 8) ** 2 - sq]
    if k in (9, 10, 11, 12, 13):
        g = mw_g(m, x, 2, {9: 1, 10: 2, 11: 3, 12: 1, 13: 2}[k])
        f1 = g * (x[0] ** len(x) if k == 10 else x[0])
        u = f1 / g
        if k == 9:
            f2 = g * (1 - m.pow(u, 0.6))
            t1 = (1 - 0.64 * f1 * f1 - f2) * (1 - 0.36 * f1 * f1 - f2)
            t2 = (1.35 ** 2 - (f1 + 0.35) ** 2 - f2) * (1.15 ** 2 - (f1 + 0.15) ** 2 - f2)
            return [f1, f2], [m.min(t1, t2)]
        if k == 10:
            f2 = g * (1 - u ** 2)
            q = f1 * f1
            return [f1, f2], [-(2 - 4 * q - f2) * (2 - 8 * q - f2), (2 - 2 * q - f2) * (2 - 16 * q - f2), (1 - q - f2) * (1.2 - 1.2 * q - f2)]
        if k == 11:
            f2 = g * m.sqrt(m.max(2 - u ** 2, 0.0))
            q = f1 * f1
            return [f1, f2], [-(3 - q - f2) * (3 - 2 * q - f2), (3 - 0.625 * q - f2) * (3 - 7 * q - f2),
                              -(1.62 - 0.18 * q - f2) * (1.125 - 0.125 * q - f2), (2.07 - 0.23 * q - f2) * (0.63 - 0.07 * q - f2)]
        if k == 12:
            f2 = g * (0.85 - 0.8 * u - 0.08 * m.abs(m.sin(3.2 * PI * u)))

            def lin(c, s, p, q):
                return c - s * f1 - f2 + 0.08 * m.sin(2 * PI * (f2 / p - f1 / q))
            return [f1, f2], [-lin(1, 0.625, 1, 1.6) * lin(1.4, 0.875, 1.4, 1.6), lin(1, 0.8, 1, 1.5) * lin(1.8, 1.125, 1.8, 1.6)]
        f2 = g * (5 - m.exp(u) - m.abs(0.5 * m.sin(3 * PI * f1 / g)))
        s = 0.5 * m.sin(3 * PI * f1)
        return [f1, f2], [-(5 - (1 + f1 + 0.5 * f1 ** 2) - s - f2) * (5 - (1 + 0.7 * f1) - s - f2), (5 - m.exp(f1) - s - f2) * (5 - (1 + 0.4 * f1) - s - f2)]
    g = mw_g(m, x, M, 3)
    p = x[:M - 1]
    s = [1.5 * m.sin(1.1 * PI * v ** 2) for v in p]
    f = g / (M - 1) * m.sum(6 - m.exp(v) - t for v, t in zip(p, s))
    return list(p) + [f], [f - m.sum(6.1 - 1 - v - 0.5 * v ** 2 - t for v, t in zip(p, s)) / (M - 1)]


# ------------------------------------------------------------------------------------------------ engineering and classical bi-objective problems

def o_bnh(m, x):
    a, b = x
    return [4 * a * a + 4 * b * b, (a - 5) ** 2 + (b - 5) ** 2], [((a - 5) ** 2 + b * b - 25) / 25.0, (7.7 - (a - 8) ** 2 - (b + 3) ** 2) / 7.7]


def o_kursawe(m, x):
    return [m.sum(-10 * m.exp(-0.2 * m.sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in range(2)), m.sum(m.pow(m.abs(v), 0.8) + 5 * m.sin(v ** 3) for v in x)], []


def o_osy(m, x):
    a, b, c, d, e, f = x
    return [-(25 * (a - 2) ** 2 + (b - 2) ** 2 + (c - 1) ** 2 + (d - 4) ** 2 + (e - 1) ** 2), m.sum(v * v for v in x)], \
        [-(a + b - 2) / 2, -(6 - a - b) / 6, -(2 - b + a) / 2, -(2 - a + 3 * b) / 2, -(4 - (c - 3) ** 2 - d) / 4, -((e - 3) ** 2 + f - 4) / 4]


def o_srn(m, x):
    a, b = x
    return [2 + (a - 2) ** 2 + (b - 1) ** 2, 9 * a - (b - 1) ** 2], [a * a + b * b - 225, a - 3 * b + 10]


def o_tnk(m, x):
    a, b = x
    return [a, b], [1 + 0.1 * m.cos(16 * m.arctan(a / b)) - a * a - b * b, 2 * ((a - 0.5) ** 2 + (b - 0.5) ** 2) - 1]


def o_truss(m, x):
    a, b, y = x
    p, q = m.sqrt(16 + y * y), m.sqrt(1 + y * y)
    s = m.max(20 * p / (y * a), 80 * q / (y * b))
    return [a * p + b * q, s], [s - 1e5]


def o_welded(m, x):
    h, l, t, b = x
    R = m.sqrt(0.25 * (l * l + (h + t) ** 2))
    J = 2 * math.sqrt(0.5) * h * l * (l * l / 12 + 0.25 * (h + t) ** 2)
    t1, t2 = 6000 / (math.sqrt(2) * h * l), 6000 * (14 + l / 2) * R / J
    tau = m.sqrt(t1 * t1 + t2 * t2 + t1 * t2 * l / R)
    return [1.10471 * h * h * l + 0.04811 * t * b * (14 + l), 2.1952 / (b * t ** 3)], \
        [tau / 13600 - 1, 6 * 6000 * 14 / (b * t * t) / 30000 - 1, (h - b) / 4.875, 1 - 64746.022 * (1 - 0.0282346 * t) * t * b ** 3 / 6000]


def o_carside(m, x):
    a, b, c, d, e, f, g = x
    g1 = 1.16 - 0.3717 * b * d - 0.0092928 * c
    g2 = 0.261 - 0.0159 * a * b - 0.188 * a * 0.345 - 0.019 * b * g + 0.0144 * c * e + 0.08045 * f * 0.192
    g3 = 0.214 + 0.00817 * e - 0.131 * a * 0.345 - 0.0704 * a * 0.192 + 0.03099 * b * f - 0.018 * b * g + 0.0208 * c * 0.345 + 0.121 * c * 0.192 \
        - 0.00364 * e * f - 0.018 * b * b
    g4 = 0.74 - 0.61 * b - 0.031296 * c - 0.166 * g * 0.192 + 0.227 * b * b
    g5 = 28.98 + 3.818 * c - 4.2 * a * b + 6.63 * f * 0.192 - 7.77 * g * 0.345
    g6 = 33.86 + 2.95 * c - 5.057 * a * b - 11 * b * 0.345 - 9.98 * g * 0.345 + 22 * 0.345 * 0.192
    g7 = 46.36 - 9.9 * b - 12.9 * a * 0.345
    g8 = 4.72 - 0.5 * d - 0.19 * b * c
    g9 = 10.58 - 0.674 * a * b - 1.95 * b * 0.345
    g10 = 16.45 - 0.489 * c * g - 0.843 * e * f
    w = 1.98 + 4.9 * a + 6.67 * b + 6.98 * c + 4.01 * d + 1.78 * e + 0.00001 * f + 2.73 * g
    return [w, g8, (g9 + g10) / 2], [g1 - 1, g2 / 0.32 - 1, g3 / 0.32 - 1, g4 / 0.32 - 1, g5 / 32 - 1, g6 / 32 - 1, g7 / 32 - 1, g8 / 4 - 1, g9 / 9.9 - 1,
                                     g10 / 15.7 - 1]


def o_omni(m, x):
    return [m.sum(m.sin(PI * v) for v in x), m.sum(m.cos(PI * v) for v in x)], []


def o_sympart(m, x, a=1, b=10, c=10, w=0):
    S = m.S
    cw, sw = (math.cos(w), math.sin(w)) if w else (1.0, 0.0)
    u, v = (cw * x[0] + sw * x[1], -sw * x[0] + cw * x[1]) if w else x

    def tile(z, half, period):
        # -1, 0 or 1: the nearest tile centre, limited to the three by three grid
        if S.truth(S.xlt(half, z)):
            return 1
        return -1 if S.truth(S.xlt(z, -half)) else 0
    p, q = u - c * tile(u, a + c / 2, 2 * a + c), v - b * tile(v, b / 2, b)
    return [(p + a) ** 2 + q * q, (p - a) ** 2 + q * q], []


# ------------------------------------------------------------------------------------------------ WFG

def fl(m, v):
    """floor for values in [-1, 1)"""
    return -1.0 if m.S.truth(m.S.xlt(v, 0)) else 0.0


def off(m, u, c):
    """u keeps a distance from a jump or kink of a transformation, where rounding decides"""
    if not isinstance(u, float):
        m.S.assume(m.S.xlt(1e-9, m.abs(u - c)))


def s_linear(m, y, A):
    off(m, y, A)
    return m.abs(y - A) / m.abs(np.floor(A - y) + A)


def s_decept(m, y, A, B, C):
    off(m, y, A - B)
    off(m, y, A + B)
    t1 = np.floor(y - A + B) * (1 - C + (A - B) / B) / (A - B)
    t2 = np.floor(A + B - y) * (1 - C + (1 - A - B) / B) / (1 - A - B)
    r = 1 + (m.abs(y - A) - B) * (t1 + t2 + 1 / B)
    off(m, r, 0)
    off(m, r, 1)
    return r


def s_multi(m, y, A, B, C):
    t = m.abs(y - C) / (2.0 * (np.floor(C - y) + C))
    return (1 + m.cos((4 * A + 2) * PI * (0.5 - t)) + 4 * B * t * t) / (B + 2)


def b_flat(m, y, A, B, C):
    return A + m.min(0.0, np.floor(y - B)) * A * (B - y) / B - m.min(0.0, np.floor(C - y)) * (1 - A) * (y - C) / (1 - C)


def b_param(m, y, u, A=0.98 / 49.98, B=0.02, C=50.0):
    off(m, u, 0.5)
    v = A - (1 - 2 * u) * m.abs(np.floor(0.5 - u) + A)
    return np.power(y, B + (C - B) * v)


def r_sum(m, ys, ws=None):
    ws = ws or [1.0] * len(ys)
    return m.sum(w * y for w, y in zip(ws, ys)) / sum(ws)


def r_nonsep(m, ys, A):
    n = len(ys)
    num = 0.0
    for j in range(n):
        num = num + ys[j]
        for k in range(A - 1):
            num = num + m.abs(ys[j] - ys[(j + k + 1) % n])
    h = math.ceil(A / 2)
    return num / (n * h * (1 + 2 * A - 2 * h) / A)


def wfg_shape(m, t, kind, i, M):
    """shape function i (1..M) of the first M - 1 values"""
    lo = {"linear": lambda v: v, "convex": lambda v: 1 - m.cos(v * PI / 2), "concave": lambda v: m.sin(v * PI / 2)}[kind]
    hi = {"linear": lambda v: 1 - v, "convex": lambda v: 1 - m.sin(v * PI / 2), "concave": lambda v: m.cos(v * PI / 2)}[kind]
    r = m.prod(lo(v) for v in t[:M - i])
    return r * hi(t[M - i]) if i > 1 else r


def o_wfg(m, x, q, M, k):
    n = len(x)
    y = [v / (2.0 * (i + 1)) for i, v in enumerate(x)]
    gap = k // (M - 1)
    groups = [list(range(j * gap, (j + 1) * gap)) for j in range(M - 1)]

    def uni(y):
        return [r_sum(m, [y[i] for i in g]) for g in groups] + [r_sum(m, y[k:])]
    if q in (1, 2, 3, 6):
        y = y[:k] + [s_linear(m, v, 0.35) for v in y[k:]]
    if q == 1:
        y = y[:k] + [b_flat(m, v, 0.8, 0.75, 0.85) for v in y[k:]]
        y = [np.power(v, 0.02) for v in y]
        w = [2.0 * (i + 1) for i in range(n)]
        t = [r_sum(m, [y[i] for i in g], [w[i] for i in g]) for g in groups] + [r_sum(m, y[k:], w[k:])]
    elif q in (2, 3):
        z = [r_nonsep(m, y[k + 2 * i:k + 2 * i + 2], 2) for i in range((n - k) // 2)]
        t = [r_sum(m, [y[i] for i in g]) for g in groups] + [r_sum(m, z)]
    elif q == 4:
        t = uni([s_multi(m, v, 30, 10, 0.35) for v in y])
    elif q == 5:
        t = uni([s_decept(m, v, 0.35, 0.001, 0.05) for v in y])
    elif q == 6:
        t = [r_nonsep(m, [y[i] for i in g], gap) for g in groups] + [r_nonsep(m, y[k:], n - k)]
    elif q == 7:
        y = [b_param(m, y[i], r_sum(m, y[i + 1:])) for i in range(k)] + [s_linear(m, v, 0.35) for v in y[k:]]
        t = uni(y)
    elif q == 8:
        y = y[:k] + [b_param(m, y[i], r_sum(m, y[:i])) for i in range(k, n)]
        t = uni(y[:k] + [s_linear(m, v, 0.35) for v in y[k:]])
    else:
        y = [b_param(m, y[i], r_sum(m, y[i + 1:])) for i in range(n - 1)] + y[-1:]
        y = [s_decept(m, v, 0.35, 0.001, 0.05) for v in y[:k]] + [s_multi(m, v, 30, 95, 0.35) for v in y[k:]]
        t = [r_nonsep(m, [y[i] for i in g], gap) for g in groups] + [r_nonsep(m, y[k:], n - k)]
    A = [1.0] + [0.0 if q == 3 else 1.0] * (M - 2)
    p = [m.max(t[-1], a) * (v - 0.5) + 0.5 for v, a in zip(t[:-1], A)]
    kind = {1: "convex", 2: "convex", 3: "linear"}.get(q, "concave")
    h = [wfg_shape(m, p, kind, i, M) for i in range(1, M + 1)]
    if q == 1:
        h[-1] = 1 - p[0] - m.cos(10 * PI * p[0] + PI / 2) / (10 * PI)
    if q == 2:
        h[-1] = 1 - p[0] * m.cos(5 * PI * p[0]) ** 2
    return [t[-1] + 2.0 * i * v for i, v in enumerate(h, 1)], []


# ------------------------------------------------------------------------------------------------ harnesses

def build(name, kw):
    from pymoo.problems import get_problem
    from pymoo.problems.single.multimodal import MultiModalSimple1, MultiModalSimple2
    if name == "multimodal1":
        return MultiModalSimple1()
    if name == "multimodal2":
        return MultiModalSimple2()
    if name.startswith("sympart"):
        from pymoo.problems.multi.sympart import SYMPART, SYMPARTRotated
        return (SYMPARTRotated if name.endswith("rotated") else SYMPART)(**kw)
    if name.startswith("dascmop"):
        return get_problem(name, kw["d"])
    return get_problem(name, **kw)


def compare(S, p, oracle, sym, positive=(), margin=0.0):
    n = p.n_var
    xl, xu = np.broadcast_to(p.xl, n).astype(float), np.broadcast_to(p.xu, n).astype(float)
    x = []
    for i in range(n):
        if sym is None or i in sym:
            x.append(S.real("x%d" % i, lo=float(xl[i]) + margin, hi=float(xu[i]) - margin))
            if i in positive:
                S.assume(S.xlt(float(xl[i]), x[-1]))
        else:
            u = [0.25, 0.75, 0.625, 0.125, 0.875, 0.5, 0.3125][i % 7]
            x.append(float(xl[i] + (xu[i] - xl[i]) * u))
    F, G = oracle(M(S), list(x))
    out = p.evaluate(S.array([x]), return_values_of=["F", "G"], return_as_dictionary=True)
    S.require(out["F"].shape == (1, len(F)) and p.n_obj == len(F), "number of objectives")
    S.require(out["G"].shape == (1, len(G)) and p.n_ieq_constr == len(G), "number of constraints")
    for j, f in enumerate(F):
        S.require(S.eq(out["F"][0, j], f), "objective %d is the published function" % (j + 1))
    for j, g in enumerate(G):
        S.require(S.eq(out["G"][0, j], g), "constraint %d is the published function" % (j + 1))


SINGLE = [("ackley", dict(n_var=2)), ("ackley", dict(n_var=3, a=10, b=0.25, c=3.0)), ("rastrigin", dict(n_var=3)), ("rastrigin", dict(n_var=2, A=7.0)),
          ("griewank", dict(n_var=3)), ("rosenbrock", dict(n_var=3)), ("rosenbrock", dict(n_var=4)), ("schwefel", dict(n_var=2)), ("zakharov", dict(n_var=3)), ("sphere", dict(n_var=3)),
          ("himmelblau", {}), ("multimodal1", {}), ("multimodal2", {}), ("cantilevered_beam", {}), ("pressure_vessel", {})]
SO = dict(ackley=o_ackley, rastrigin=o_rastrigin, griewank=o_griewank, rosenbrock=o_rosenbrock, schwefel=o_schwefel, zakharov=o_zakharov, sphere=o_sphere,
          himmelblau=o_himmelblau, multimodal1=o_simple1, multimodal2=o_simple2, cantilevered_beam=o_beam, pressure_vessel=o_vessel)


@harness("P26", "single", quick=[dict(name=n, kw=k) for n, k in SINGLE], approx=True, bounds="2-4 variables, all of them symbolic",
         functions=[PR + "single/ackley.py:Ackley._evaluate", PR + "single/rastrigin.py:Rastrigin._evaluate", PR + "single/griewank.py:Griewank._evaluate",
                    PR + "single/rosenbrock.py:Rosenbrock._evaluate", PR + "single/schwefel.py:Schwefel._evaluate", PR + "single/zakharov.py:Zakharov._evaluate"])
def single_(S, name, kw):
    par = {k: v for k, v in kw.items() if k != "n_var"}
    compare(S, build(name, kw), lambda m, x: SO[name](m, x, **par), None)


@harness("P26", "zdt", quick=[dict(k=k, n=n) for k in (1, 2, 3, 4, 6) for n in (3, 4)], approx=True, bounds="3 and 4 variables, all of them symbolic",
         functions=[PR + "multi/zdt.py:ZDT%d._evaluate" % i for i in (1, 2, 3, 4, 6)])
def zdt_(S, k, n):
    compare(S, build("zdt%d" % k, dict(n_var=n)), lambda m, x: o_zdt(m, x, k), None)


@harness("P26", "zdt5", quick=[dict(m=3, n=3, norm=True), dict(m=4, n=2, norm=False), dict(m=11, n=5, norm=True)], approx=True,
         bounds="5 to 8 symbolic bits, one in each group", functions=[PR + "multi/zdt.py:ZDT5._evaluate"])
def zdt5_(S, m, n, norm):
    from pymoo.problems import get_problem
    p = get_problem("zdt5", m=m, n=n, normalize=norm)
    S.require(p.n_var == 30 + n * (m - 1), "number of bits")
    bits = [(i * 5) % 3 == 0 for i in range(p.n_var)]
    free = [0, 3, 30, 31] + list(range(32, min(p.n_var, 36)))
    for i in free:
        bits[i] = S.bool("b%d" % i)
    out = p.evaluate(S.array([bits]), return_values_of=["F"])
    f1 = 1 + S.count(bits[:30])
    g = 0
    for i in range(m - 1):
        u = S.count(bits[30 + i * n:30 + (i + 1) * n])
        g = g + S.ite(S.same(u, n), 1, 2 + u)
    f2 = g / (f1 + 0.0)
    if norm:
        f1, f2 = (f1 - 1.0) / 30.0, (f2 - (m - 1) / 31.0) / ((m - 1) - (m - 1) / 31.0)
    S.require(S.eq(out[0, 0], f1), "objective 1 is the published function")
    S.require(S.eq(out[0, 1], f2), "objective 2 is the published function")


@harness("P26", "dtlz", quick=[dict(k=k, M=M, n=M + 1) for k in range(1, 8) for M in (2, 3, 4)], approx=True, bounds="2-4 objectives, all variables symbolic",
         functions=[PR + "many/dtlz.py:DTLZ%d._evaluate" % i for i in range(1, 8)] + [PR + "many/dtlz.py:DTLZ.obj_func", PR + "many/dtlz.py:DTLZ.g1", PR + "many/dtlz.py:DTLZ.g2"])
def dtlz_(S, k, M, n):
    kw = dict(n_var=n, n_obj=M)
    if k == 4 and M == 2:
        kw["alpha"] = 5
    compare(S, build("dtlz%d" % k, kw), lambda m, x: o_dtlz(m, x, k, M, kw.get("alpha", 100)), None)


@harness("P26", "dtlz_variants", quick=[dict(name=n, M=M) for n in ("dtlz1^-1", "sdtlz1", "convex_dtlz2", "convex_dtlz4", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4",
         "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3") for M in (2, 3)] + [dict(name="c1dtlz3", M=5), dict(name="c2dtlz2", M=4)], approx=True,
         bounds="2 and 3 (two problems also 4 or 5) objectives, all variables symbolic",
         functions=[PR + "many/cdtlz.py:" + f for f in ("constraint_c1_linear", "constraint_c1_spherical", "constraint_c2", "constraint_c3_linear", "constraint_c3_spherical")]
         + [PR + "many/dcdtlz.py:" + f for f in ("constraint_dc1", "constraints_dc2", "constraints_dc3")] + [PR + "many/dtlz.py:" + f for f in
            ("InvertedDTLZ1._evaluate", "ScaledProblem._evaluate", "ConvexProblem._evaluate")])
def variants_(S, name, M):
    kw = dict(n_var=M + 1, n_obj=M)
    if name == "dtlz1^-1":
        fn = lambda m, x: o_inverted(m, x, M)  # noqa: E731
    elif name == "sdtlz1":
        kw["scale_factor"] = 10 if M == 2 else 3
        fn = lambda m, x: o_scaled(m, x, M, kw["scale_factor"])  # noqa: E731
    elif name.startswith("convex"):
        fn = lambda m, x: o_convex(m, x, int(name[-1]), M)  # noqa: E731
    elif name.startswith("dc"):
        fn = lambda m, x: o_dcdtlz(m, x, int(name[2]), int(name[-1]), M)  # noqa: E731
    else:
        fn = lambda m, x: o_cdtlz(m, x, name, M)  # noqa: E731
    compare(S, build(name, kw), fn, None)


@harness("P26", "ctp", quick=[dict(k=k) for k in range(1, 9)] + [dict(k=1, J=3), dict(k=2, n=3), dict(k=1, opt="multimodal"), dict(k=7, opt="multimodal"), dict(k=4, opt="multimodal")],
         approx=True, bounds="2 or 3 variables, all of them symbolic, without the points where the published constraint divides by zero",
         functions=[PR + "multi/ctp.py:CTP%d._evaluate" % i for i in range(1, 9)] + [PR + "multi/ctp.py:CTP.calc_constraint", PR + "multi/ctp.py:CTP1.__init__"])
def ctp_(S, k, n=2, J=2, opt="linear"):
    from pymoo.problems.multi import ctp
    kw = {} if k in (6, 8) else dict(n_var=n, option=opt)
    if k == 1:
        kw["n_ieq_constr"] = J
    compare(S, getattr(ctp, "CTP%d" % k)(**kw), lambda m, x: o_ctp(m, x, k, opt, J), None, positive=(0,) if k in (2, 3, 4, 5) else ())


@harness("P26", "dascmop", quick=[dict(k=k, d=d) for k in range(1, 10) for d in (4, 13 if k % 2 else 16)] + [dict(k=1, d=1), dict(k=7, d=(0.5, 0.0, 0.75)), dict(k=2, d=(0.25, 0.5, 0.125))],
         approx=True, bounds="30 variables, three of them symbolic; difficulty triples", functions=[PR + "multi/dascmop.py:DASCMOP%d._evaluate" % i for i in range(1, 10)])
def dascmop_(S, k, d):
    compare(S, build("dascmop%d" % k, dict(d=d)), lambda m, x: o_dascmop(m, x, k, d), (0, 1, 17))


SLOW_MW = {(3, 2): (0,), (6, 2): (0, 1), (13, 2): (0, 1), (8, 3): (0, 1, 3), (8, 4): (0, 2, 4)}


@harness("P26", "mw", quick=[dict(k=k, n=4) for k in range(1, 15)] + [dict(k=k, n=4, M=3) for k in (4, 8, 14)] + [dict(k=k, n=5, M=4) for k in (4, 8, 14)] + [dict(k=1, n=6)],
         approx=True, bounds="4 to 6 variables, all of them symbolic (two or three of them in MW3, MW6, MW8, MW13); 2 to 4 objectives", functions=[PR + "multi/mw.py:MW%d._evaluate" % i for i in range(1, 15)])
def mw_(S, k, n, M=2):
    kw = dict(n_var=n)
    if k in (4, 8, 14):
        kw["n_obj"] = M
    compare(S, build("mw%d" % k, kw), lambda m, x: o_mw(m, x, k, M), SLOW_MW.get((k, M)), positive=(0,) if k in (5, 6, 7) else ())


CLASSIC = dict(bnh=o_bnh, kursawe=o_kursawe, osy=o_osy, srn=o_srn, tnk=o_tnk, truss2d=o_truss, welded_beam=o_welded, carside=o_carside, omnitest=o_omni, omnitest3=o_omni,
               sympart=o_sympart, sympart_rotated=o_sympart)


@harness("P26", "classic", quick=[dict(name=n) for n in CLASSIC if n != "sympart_rotated"] + [dict(name="sympart_rotated", sym=(i,)) for i in (0, 1)] + [dict(name="sympart", kw=dict(length=2, v_dist=5, h_dist=8)), dict(name="sympart_rotated", kw=dict(length=1, v_dist=10, h_dist=10, angle=0.5))],
         approx=True, bounds="all variables symbolic", functions=[PR + "multi/%s.py" % f for f in ("bnh", "kursawe", "osy", "srn", "tnk", "truss2d", "welded_beam", "carside", "omnitest", "sympart")])
def classic_(S, name, kw=None, sym=None):
    if name.startswith("omnitest"):
        from pymoo.problems.multi.omnitest import OmniTest
        return compare(S, OmniTest(3 if name[-1] == "3" else 2), o_omni, None)
    if name.startswith("sympart"):
        kw = dict(kw or {})
        w = kw.get("angle", PI / 4 if name.endswith("rotated") else 0)
        return compare(S, build(name, kw), lambda m, x: o_sympart(m, x, kw.get("length", 1), kw.get("v_dist", 10), kw.get("h_dist", 10), w), sym)
    compare(S, build(name, {}), CLASSIC[name], None, positive=(0, 1) if name == "truss2d" else ())


WFG = [(q, M, 4, i) for q in (1, 2, 3, 4, 6) for M in (2, 3) for i in (3, 4)] + [(4, 3, 6, 6), (6, 3, 6, 6)] + [(5, 2, 4, 4), (5, 3, 4, 4), (5, 5, 4, 0), (5, 2, 4, 3), (7, 2, 4, 0), (7, 3, 4, 0), (7, 5, 4, 0), (7, 5, 4, 4), (7, 2, 4, 5),
    (8, 2, 4, 5), (8, 3, 4, 5), (9, 2, 4, 0), (9, 3, 4, 0), (9, 5, 4, 0)]


@harness("P26", "wfg", quick=[dict(q=q, M=M, n=k + 2, k=k, sym=(i,)) for q, M, k, i in WFG],
         approx=True, bounds="2, 3 or 5 objectives, 4 or 6 position and 2 distance variables, one of them symbolic, 1e-9 from the jumps of the transformations", functions=[PR + "many/wfg.py:WFG%d._evaluate" % i for i in range(1, 10)])
def wfg_(S, q, M, n, k, sym):
    compare(S, build("wfg%d" % q, dict(n_var=n, n_obj=M, k=k)), lambda m, x: o_wfg(m, x, q, M, k), sym)


@harness("P26", "ctp_origin", quick=[dict(k=k) for k in (2, 3, 4, 5)], finding=True, bounds="first variable 0, the second symbolic", functions=[PR + "multi/ctp.py:CTP.calc_constraint"])
def ctp_origin(S, k):
    from pymoo.problems.multi import ctp
    p = getattr(ctp, "CTP%d" % k)()
    G = p.evaluate(S.array([[0.0, S.real("x1", lo=0, hi=1)]]), return_values_of=["G"])
    S.require(S.finite(G[0, 0]), "the constraint is defined at the Pareto-optimal corner")


def above(m, u):
    """the base of a power is positive (it is nonnegative for the real sine, and 0 at a bound up to rounding)"""
    if not isinstance(u, float):
        m.S.assume(m.S.xlt(1e-9, u))


def o_df(m, x, k, t):
    n = len(x)
    v = math.sin(0.5 * PI * t)
    aG = abs(v)
    if k == 1:
        g = 1 + m.sum((y - aG) ** 2 for y in x[1:])
        return [x[0], g * (1 - m.pow(x[0] / g, 0.75 * v + 1.25))], []
    if k == 2:
        r = int((n - 1) * aG)
        g = 1 + m.sum((y - aG) ** 2 for i, y in enumerate(x) if i != r)
        return [x[r], g * (1 - m.pow(x[r] / g, 0.5))], []
    if k == 3:
        H = v + 1.5
        z = m.pow(x[0], H)
        g = 1 + m.sum((y - v - z) ** 2 for y in x[1:])
        return [x[0], g * (1 - m.pow(x[0] / g, H))], []
    if k == 4:
        b = 1 + abs(math.cos(0.5 * PI * t))
        H, c = 1.5 + v, max(abs(v), v + b)
        g = 1 + m.sum((x[i] - v * (x[0] / c) ** 2 / (i + 1)) ** 2 for i in range(1, n))
        return [g * m.pow(m.abs(x[0] - v), H), g * m.pow(m.abs(x[0] - v - b), H)], []
    if k == 5:
        w = math.floor(10 * v)
        g = 1 + m.sum((y - v) ** 2 for y in x[1:])
        s = 0.02 * m.sin(w * PI * x[0])
        return [g * (x[0] + s), g * (1 - x[0] + s)], []
    if k == 6:
        a = 0.2 + 2.8 * aG
        g = 1 + m.sum(aG * (y - v) ** 2 - 10 * m.cos(2 * PI * (y - v)) + 10 for y in x[1:])
        s = 0.1 * m.sin(3 * PI * x[0])
        above(m, x[0] + s)
        above(m, 1 - x[0] + s)
        return [g * m.pow(x[0] + s, a), g * m.pow(1 - x[0] + s, a)], []
    if k == 7:
        a = 5 * math.cos(0.5 * PI * t)
        c = 1 / (1 + m.exp(a * (x[0] - 2.5)))
        g = 1 + m.sum((y - c) ** 2 for y in x[1:])
        return [g * (1 + t) / x[0], g * x[0] / (1 + t)], []
    if k == 8:
        a = 2.25 + 2 * math.cos(2 * PI * t)
        c = v * m.sin(4 * PI * x[0]) / (1 + aG)
        g = 1 + m.sum((y - c) ** 2 for y in x[1:])
        s = 0.1 * m.sin(3 * PI * x[0])
        above(m, 1 - x[0] + s)
        return [g * (x[0] + s), g * m.pow(1 - x[0] + s, a)], []
    if k == 9:
        N = 1 + math.floor(10 * aG)
        g = 1 + m.sum((x[i] - m.cos(4 * t + x[0] + x[i - 1])) ** 2 for i in range(1, n))
        s = m.max(0.0, (0.1 + 0.5 / N) * m.sin(2 * N * PI * x[0]))
        return [g * (x[0] + s), g * (1 - x[0] + s)], []
    y1, y2 = x[0], x[1]
    if k == 10:
        H = 2.25 + 2 * math.cos(0.5 * PI * t)
        c = m.sin(4 * PI * (y1 + y2)) / (1 + aG)
        g = 1 + m.sum((y - c) ** 2 for y in x[2:])
        s1, c1, s2, c2 = [f(0.5 * PI * y) for y in (y1, y2) for f in (m.sin, m.cos)]
        return [g * m.pow(s1, H), g * m.pow(s2 * c1, H), g * m.pow(c2 * c1, H)], []
    if k == 11:
        g = 1 + aG + m.sum((y - 0.5 * aG * y1) ** 2 for y in x[2:])
        a, b = [PI * aG / 6 + (PI / 2 - PI * aG / 3) * y for y in (y1, y2)]
        return [g * m.sin(a), g * m.sin(b) * m.cos(a), g * m.cos(b) * m.cos(a)], []


@harness("P26", "df", quick=[dict(k=k, t=t) for k in range(1, 12) for t in (0.3, 1.7)], approx=True, bounds="4 variables, 2 of them symbolic, two moments",
         functions=[PR + "dynamic/df.py:DF%d._evaluate" % i for i in range(1, 12)])
def df_(S, k, t):
    p = build("df%d" % k, dict(n_var=4))
    p.time = t
    compare(S, p, lambda m, x: o_df(m, x, k, t), (0, 2))


@harness("P26", "routes", quick=[dict(n=n) for n in (2, 3, 4)], functions=[PR + "single/traveling_salesman.py:TravelingSalesman.get_route_length", PR + "single/flowshop_scheduling.py:FlowshopScheduling.get_machine_times"],
         bounds="2-4 cities or jobs on 1-3 machines, every permutation, symbolic distances and processing times")
def routes(S, n):
    from pymoo.problems.single.flowshop_scheduling import FlowshopScheduling
    from pymoo.problems.single.traveling_salesman import TravelingSalesman
    left, perm = list(range(n)), []
    while left:
        perm.append(left.pop(S.choose(len(left))))
    tsp = TravelingSalesman(np.array([[float(i), float(i * i)] for i in range(n)]))
    D = S.reals("d", (n, n), lo=0, hi=100)
    tsp.D = D
    f = tsp.evaluate(np.array([perm]))
    S.require(S.eq(f[0, 0], S.sum([D[perm[i], perm[(i + 1) % n]] for i in range(n)])), "the length of the closed tour")
    for m in (1, 2, 3):
        T = S.reals("t%d_" % m, (m, n), lo=0, hi=100)
        p = FlowshopScheduling(np.zeros((m, n)))
        p.records = T
        f = p.evaluate(np.array([perm]))
        C = [[0.0] * n for _ in range(m)]       # completion times
        for j in range(n):
            for i in range(m):
                ready = [C[i][j - 1]] if j else []
                ready += [C[i - 1][j]] if i else []
                C[i][j] = (S.max(ready) if ready else 0.0) + T[i, perm[j]]
        S.require(S.eq(f[0, 0], C[-1][-1]), "the makespan")


@harness("P26", "knapsack", quick=[dict(n=3), dict(n=4)], functions=[PR + "single/knapsack.py:Knapsack._evaluate", PR + "single/knapsack.py:MultiObjectiveKnapsack._evaluate"],
         bounds="3 and 4 items, two packings, symbolic weights, profits and capacity")
def knapsack(S, n):
    from pymoo.problems.single.knapsack import Knapsack, MultiObjectiveKnapsack
    W, P, C = S.reals("w", n, lo=0, hi=100), S.reals("p", n, lo=0, hi=100), S.real("c", lo=0, hi=300)
    X = S.bools("x", (2, n))
    for cls, m in ((Knapsack, 1), (MultiObjectiveKnapsack, 2)):
        p = cls(n, W, P, C)
        out = p.evaluate(X, return_values_of=["F", "G"], return_as_dictionary=True)
        S.require(out["F"].shape == (2, m) and p.n_obj == m and out["G"].shape == (2, 1), "numbers of objectives and constraints")
        for r in range(2):
            S.require(S.eq(out["F"][r, 0], -S.sum([S.ite(X[r, i], P[i], 0.0) for i in range(n)])), "the profit is maximised")
            S.require(S.eq(out["G"][r, 0], S.sum([S.ite(X[r, i], W[i], 0.0) for i in range(n)]) - C), "the weight is limited by the capacity")
            if m == 2:
                S.require(S.eq(out["F"][r, 1], S.count(list(X[r]))), "the number of items is minimised")
