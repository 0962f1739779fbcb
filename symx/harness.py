"""Harness API. A harness is written once and runs in two modes: symbolic (SymS) and concrete (ConcS: replay of a model on the
unpatched code with real numpy)."""
from __future__ import annotations

import importlib
import math
import os
import sys
from fractions import Fraction

import numpy as np

REGISTRY = {}


class Harness:
    def __init__(self, pid, name, fn, quick, thorough, functions, bounds, stubs, timeout_ms, max_decisions, expect, resolve=False, approx=False):
        self.pid, self.name, self.fn = pid, name, fn
        self.quick, self.thorough = quick, thorough
        self.functions, self.bounds, self.stubs = functions, bounds, stubs
        self.timeout_ms, self.max_decisions = timeout_ms, max_decisions
        self.resolve = resolve  # decide if-then-else conditions by a query where the path implies them
        self.approx = approx  # terms that differ only by the rounding of float constants are the same term
        self.expect = expect  # None, or the text of a known finding this harness demonstrates


def harness(pid, name=None, quick=({},), thorough=None, functions=(), bounds="", stubs=(), timeout_ms=4000, max_decisions=30000, finding=None, resolve=False, approx=False):
    def deco(fn):
        nm = name or fn.__name__
        REGISTRY.setdefault(pid, [])
        REGISTRY[pid] = [h for h in REGISTRY[pid] if h.name != nm]
        REGISTRY[pid].append(Harness(pid, nm, fn, list(quick), list(thorough if thorough is not None else quick), list(functions), bounds,
                                     list(stubs), timeout_ms, max_decisions, finding, resolve, approx))
        return fn
    return deco


def load(pid):
    props = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
    if props not in sys.path:
        sys.path.insert(0, props)
    mods = [f[:-3] for f in sorted(os.listdir(props)) if f.endswith(".py") and f.split("_")[0].upper() == pid]
    if not mods:
        raise SystemExit("no harness module for " + pid)
    for m in mods:
        importlib.import_module(m)
    return REGISTRY.get(pid, [])


class AssumptionFailed(Exception):
    pass


class ConcreteViolation(Exception):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Base:
    def arr(self, x):
        return np.array(x)

    def leq_all(self, A, B):
        return self.all([self.le(a, b) for a, b in zip(self.flat(A), self.flat(B))])


class SymS(Base):
    sym = True

    def __init__(self, ctx):
        from . import array, core
        self.c, self.A, self.core = ctx, array, core
        self.n_choices = 0

    # inputs
    def real(self, name, lo=None, hi=None):
        v = self.c.real(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def int(self, name, lo=None, hi=None):
        v = self.c.int_(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        return self.c.bool_(name)

    def reals(self, name, shape, lo=None, hi=None):
        return self._fill(shape, lambda i: self.real("%s%s" % (name, i), lo, hi), "f")

    def ints(self, name, shape, lo=None, hi=None):
        return self._fill(shape, lambda i: self.int("%s%s" % (name, i), lo, hi), "i")

    def bools(self, name, shape):
        return self._fill(shape, lambda i: self.bool("%s%s" % (name, i)), "b")

    def _fill(self, shape, fn, kind):
        shape = shape if isinstance(shape, tuple) else (shape,)
        o = np.empty(shape, object)
        for idx in np.ndindex(*shape):
            o[idx] = fn("_".join(map(str, idx)))
        return self.A.from_obj(o, kind)

    def choose(self, n):
        k = self.c.choose(n)
        self.c.draws.append(("choice", k))
        return k

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def rng(self, tag="rnd", normal_bound=None, open_=False):
        from .rng import SymRNG
        return SymRNG(tag, normal_bound, open_)

    def unseeded(self):
        """number of draws from unseeded generators (or the global one) so far"""
        from .rng import unseeded_draws
        return unseeded_draws()

    def forbid_unseeded(self, label):
        """a draw from an unseeded generator or the global one is a violation"""
        from . import rng

        def found():
            self.require(False, label)
            self.skip()
        rng.FORBID[:] = [found]

    def array(self, x):
        return self.A.symize_f(self.A.np_array(x))

    # logic
    def assume(self, c):
        self.c.assume(self._b(c))

    def _b(self, c):
        if isinstance(c, np.ndarray):
            c = self.A.np_all(c)
        return self.core.pyv(c)

    def require(self, c, label):
        self.c.require(self._b(c), label)

    def truth(self, c):
        """decide a condition (forks)"""
        return bool(c)

    def eq(self, a, b):
        return self.core.s_close(a, b)

    def same(self, a, b):
        return self.core.s_eq(a, b)

    def ne(self, a, b):
        return self.core.s_ne(a, b)

    def lt(self, a, b):
        return self.core.s_lt(a, b)

    def le(self, a, b):
        return self.core.s_le(a, b)

    xlt, xle = lt, le

    def all(self, xs):
        r = True
        for x in xs:
            r = self.core.s_and(r, self._b(x))
        return r

    def any(self, xs):
        r = False
        for x in xs:
            r = self.core.s_or(r, self._b(x))
        return r

    def not_(self, a):
        return self.core.s_not(self._b(a))

    def implies(self, a, b):
        return self.core.s_or(self.core.s_not(self._b(a)), self._b(b))

    def iff(self, a, b):
        return self.core.s_not(self.core.s_xor(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        return self.core.s_where(self.core.s_bool(self._b(c)), a, b)

    def min(self, xs):
        return self.A._fold(self.core.s_min, list(xs))

    def max(self, xs):
        return self.A._fold(self.core.s_max, list(xs))

    def sum(self, xs):
        r = 0
        for x in xs:
            r = self.core.s_add(r, x)
        return r

    def count(self, xs):
        return self.sum([self.ite(x, 1, 0) for x in xs])

    def abs(self, a):
        return self.core.s_abs(a)

    def sqrt(self, a):
        return self.core.s_sqrt(a)

    def finite(self, x):
        return not self.core.nonfinite(self.core.pyv(x))

    def flat(self, x):
        return list(self.A.to_obj(x).reshape(-1)) if isinstance(x, (np.ndarray, list, tuple)) else [self.core.pyv(x)]

    def observe(self, name, v):
        self.c.observed.append((name, v))

    def skip(self):
        from .core import Infeasible
        raise Infeasible()


class ConcS(Base):
    sym = False

    def __init__(self, script):
        self.inputs = script["inputs"]
        self.script = list(script["draws"])
        self.counters = {}
        self.n_req = 0
        self.observed = []
        self.trail = []

    def _name(self, base):
        k = self.counters.get(base, 0)
        self.counters[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def _val(self, name):
        return self.inputs.get(self._name(name), 0)

    def real(self, name, lo=None, hi=None):
        v = self._val(name)
        v = np.float64(Fraction(v)) if isinstance(v, str) else np.float64(v)
        self.trail.append((name, float(v)))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def int(self, name, lo=None, hi=None):
        v = np.int64(int(Fraction(self._val(name))))
        self.trail.append((name, int(v)))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        return np.bool_(bool(self._val(name)))

    def _fill(self, shape, fn, dt):
        shape = shape if isinstance(shape, tuple) else (shape,)
        o = np.zeros(shape, dt)
        for idx in np.ndindex(*shape):
            o[idx] = fn("_".join(map(str, idx)))
        return o

    def reals(self, name, shape, lo=None, hi=None):
        return self._fill(shape, lambda i: self.real("%s%s" % (name, i), lo, hi), float)

    def ints(self, name, shape, lo=None, hi=None):
        return self._fill(shape, lambda i: self.int("%s%s" % (name, i), lo, hi), int)

    def bools(self, name, shape):
        return self._fill(shape, lambda i: self.bool("%s%s" % (name, i)), bool)

    def choose(self, n):
        if n == 1:
            # a single alternative is not a decision, but it is in the script
            pass
        d = self.script.pop(0)
        return d[1]

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def rng(self, tag="rnd", normal_bound=None, open_=False):
        from .rng import ScriptedRNG
        return ScriptedRNG(self.script)

    def unseeded(self):
        from .rng import unseeded_draws
        return unseeded_draws()

    def forbid_unseeded(self, label):
        from . import rng
        rng.FORBID[:] = [lambda: self.require(False, label)]

    def array(self, x):
        return np.array(x)

    def assume(self, c):
        if not np.all(c):
            raise AssumptionFailed()

    def require(self, c, label):
        self.n_req += 1
        if not np.all(c):
            raise ConcreteViolation(label)

    def truth(self, c):
        return bool(c)

    @staticmethod
    def _tol(a, b):
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            return 0.0
        return 1e-7 * (1.0 + abs(a) + abs(b))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if float(a) == float(b):
            return True
        return abs(float(a) - float(b)) <= self._tol(a, b)

    def same(self, a, b):
        return bool(a == b)

    def ne(self, a, b):
        return not bool(a == b)

    def lt(self, a, b):
        return float(a) < float(b) + self._tol(a, b)

    def le(self, a, b):
        return float(a) <= float(b) + self._tol(a, b)

    def xlt(self, a, b):
        return bool(a < b)

    def xle(self, a, b):
        return bool(a <= b)

    def all(self, xs):
        return all(bool(np.all(x)) for x in xs)

    def any(self, xs):
        return any(bool(np.all(x)) for x in xs)

    def not_(self, a):
        return not bool(np.all(a))

    def implies(self, a, b):
        return (not bool(np.all(a))) or bool(np.all(b))

    def iff(self, a, b):
        return bool(np.all(a)) == bool(np.all(b))

    def ite(self, c, a, b):
        return a if bool(np.all(c)) else b

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def sum(self, xs):
        return sum(xs)

    def count(self, xs):
        return sum(1 for x in xs if bool(np.all(x)))

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else float("nan")

    def finite(self, x):
        return math.isfinite(float(x))

    def flat(self, x):
        return list(np.asarray(x).reshape(-1)) if isinstance(x, (np.ndarray, list, tuple)) else [x]

    def observe(self, name, v):
        self.observed.append((name, v))

    def skip(self):
        raise AssumptionFailed()
