"""Symbolic scalars, the path context and the re-execution explorer.

Values are exact reals / integers (z3 Real, Int); booleans are z3 Bool. Non-finite values are only ever concrete
Python floats, so every symbolic number is finite ("extended real" semantics: operations that could leave the finite
range fork on the condition that decides it).
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import numpy as np
import z3

INF = float("inf")
NAN = float("nan")


class EngineSignal(BaseException):
    """Base of everything the engine raises; derives from BaseException so that code under test cannot swallow it."""


class Infeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class Inconclusive(EngineSignal):
    pass


class PathLimit(EngineSignal):
    pass


class Violation(EngineSignal):
    def __init__(self, label, model):
        super().__init__(label)
        self.label = label
        self.model = model


# ----------------------------------------------------------------------------------------------------- context

class Stats:
    FIELDS = ("paths", "decisions", "queries", "solver_s", "props", "infeasible", "merged")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class _Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __reduce__(self):
        return (_mark, (self.n,))


I1, I0, IU = _Mark("I1"), _Mark("I0"), _Mark("IU")


def _mark(n):
    return {"I1": I1, "I0": I0, "IU": IU}[n]


class Ctx:
    """One path of one job. `prefix` are recorded decisions to replay, afterwards decisions are fresh."""

    def __init__(self, prefix=(), stats=None, timeout_ms=4000, max_decisions=4000, pick=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pending = []
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.model_stale = True
        self.known = {}
        self.keep = []
        self.counters = {}
        self.inputs = []  # (name, z3 const) in creation order
        self.reqs = []
        self.draws = []   # scripted random draws, for replay
        self.cache = {}
        self.observed = []
        self.pow_terms = {}
        self.mono = {}
        self.used_uf = False
        self.resolve = False
        self.approx = False
        self.snap_ids, self.snap_atoms, self.snap_terms, self.snap_polys, self.snap_tab = {}, {}, [], {}, {}
        self.nonlinear = False
        self.constraints = []
        self.notes = []

    # -- assertions -------------------------------------------------------------------------------
    def add(self, e):
        self.solver.add(e)
        self.constraints.append(e)

    def define(self, *es):
        """Add a definitional constraint (never restricts the inputs); keeps the path feasible."""
        e = es[0] if len(es) == 1 else z3.And(*es)
        self.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def check(self, *assumptions, timeout=None):
        t = time.perf_counter()
        self.stats.queries += 1
        full = timeout or self.timeout_ms
        # nonlinear paths: the incremental solver gets a short first try, then nlsat, then everything the time-out allows
        first = min(full, 500) if self.nonlinear else full
        self.solver.set("timeout", first)
        r = self.solver.check(*assumptions)
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            stages = [(lambda: z3.Tactic("qfnra-nlsat").solver(), min(full, 3000)), (lambda: z3.Solver(), full),
                      (lambda: z3.Tactic("qfnra-nlsat").solver(), full * 2), (lambda: z3.Then("simplify", "solve-eqs", "smt").solver(), full * 2)]
            for mk, tmo in stages:
                try:
                    s = mk()
                    s.set("timeout", tmo)
                    s.add(*self.constraints)
                    s.add(*assumptions)
                    self.stats.queries += 1
                    r = s.check()
                    if r == z3.sat:
                        m = s.model()
                except z3.Z3Exception:
                    r = z3.unknown
                if r != z3.unknown:
                    break
        self.stats.solver_s += time.perf_counter() - t
        return r, m

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                self.stats.infeasible += 1
                raise Infeasible()
            if r == z3.sat:
                self.model = m
        return self.model

    def assume(self, cond):
        if isinstance(cond, SymBool):
            e = cond.e
            self.add(e)
            if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None
            self.known[e.get_id()] = True
            self.keep.append(e)
        elif not bool(cond):
            self.stats.infeasible += 1
            raise Infeasible()

    # -- decisions --------------------------------------------------------------------------------
    def _record(self, d):
        self.trace.append(d)
        self.stats.decisions += 1
        if len(self.trace) > self.max_decisions:
            raise PathLimit("more than %d decisions on a path" % self.max_decisions)

    def _learn(self, e, val):
        while z3.is_not(e):
            e = e.arg(0)
            val = not val
        self.known[e.get_id()] = val
        self.keep.append(e)
        self.add(e if val else z3.Not(e))

    def branch(self, e):
        """Decide a condition. Every call records one trace entry (True/False: a fork; 1/0: implied), so that re-execution stays in
        step even where term simplification is not reproducible."""
        e = z3.simplify(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d is True or d is False:
                self.trace.append(d)
                self._learn(e, d)
                return d
            if d is I1 or d is I0:
                self.trace.append(d)
                val = d is I1
                self.known[e.get_id()] = val
                self.keep.append(e)
                return val
            raise Inconclusive("non-deterministic re-execution (expected %r, got a branch)" % (d,))
        if z3.is_true(e):
            self.trace.append(I1)
            return True
        if z3.is_false(e):
            self.trace.append(I0)
            return False
        neg = False
        full = e
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        k = self.known.get(e.get_id())
        if k is None:
            k2 = self.known.get(full.get_id())
            if k2 is not None:
                k = k2 != neg
        if k is not None:
            self.trace.append(I1 if k != neg else I0)
            return k != neg
        m = self.get_model()
        val = None
        if m is not None:
            v = m.eval(e, model_completion=True)
            if z3.is_true(v):
                val = True
            elif z3.is_false(v):
                val = False
        if val is None:
            r, m2 = self.check(e)
            if r == z3.unsat:
                self.trace.append(I1 if neg else I0)
                self.known[e.get_id()] = False
                self.keep.append(e)
                return neg
            val = True
            if r == z3.sat:
                self.model = m2
        other = z3.Not(e) if val else e
        r, m2 = self.check(other)
        if r == z3.unsat:
            # implied: no fork (but recorded, so that re-execution stays in step)
            self.trace.append(I1 if val != neg else I0)
            self.known[e.get_id()] = val
            self.keep.append(e)
            return val != neg
        self.pending.append(self.trace + [not (val != neg)])
        self._record(val != neg)
        self._learn(e, val)
        return val != neg

    def implied(self, e):
        """True/False when the path condition decides e, None otherwise (recorded, never forks)"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d is not I1 and d is not I0 and d is not IU:
                raise Inconclusive("non-deterministic re-execution (expected %r, got a resolution)" % (d,))
            self.trace.append(d)
            return None if d is IU else d is I1
        val = self.known.get(e.get_id())
        m = self.get_model() if self.resolve and val is None else None
        if m is not None:
            v = m.eval(e, model_completion=True)
            if z3.is_true(v):
                r, _ = self.check(z3.Not(e), timeout=500)
                val = True if r == z3.unsat else None
            elif z3.is_false(v):
                r, _ = self.check(e, timeout=500)
                val = False if r == z3.unsat else None
        self.trace.append(IU if val is None else I1 if val else I0)
        return val

    def choose(self, n, label="choose"):
        """Free choice among n alternatives (all feasible)."""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if not (isinstance(d, tuple) and d[0] == "c"):
                raise Inconclusive("non-deterministic re-execution (expected %r, got a choice)" % (d,))
            self.trace.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [("c", k)])
        self._record(("c", 0))
        return 0

    def concretize(self, e):
        """Fork over the values of an integer term (or real term that must be an integer)."""
        e = z3.simplify(e)
        if not (self.pos < len(self.prefix)):
            v = const_value(e)
            if v is None:
                v = self.cache.get(("conc", e.get_id()))
            if v is not None:
                self.trace.append(("k", int(v)))
                return int(v)
        n = 0
        while True:
            n += 1
            if n > 64:
                raise PathLimit("more than 64 values for one integer")
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                if not (isinstance(d, tuple) and d[0] in "enk"):
                    raise Inconclusive("non-deterministic re-execution (expected %r, got a value)" % (d,))
                self.trace.append(d)
                if d[0] == "k":
                    self.cache[("conc", e.get_id())] = d[1]
                    self.keep.append(e)
                    return d[1]
                eq = e == (z3.IntVal(d[1]) if e.is_int() else z3.RealVal(d[1]))
                self.add(eq if d[0] == "e" else z3.Not(eq))
                if d[0] == "e":
                    self.cache[("conc", e.get_id())] = d[1]
                    self.keep.append(e)
                    return d[1]
                continue
            m = self.get_model()
            if m is None:
                raise Inconclusive("unknown while concretizing")
            v = const_value(m.eval(e, model_completion=True))
            if v is None or v != int(v):
                raise Unsupported("concretization of a non-integer")
            v = int(v)
            eq = e == (z3.IntVal(v) if e.is_int() else z3.RealVal(v))
            r, m2 = self.check(z3.Not(eq))
            if r != z3.unsat:
                self.pending.append(self.trace + [("n", v)])
                self._record(("e", v))
            else:
                self.trace.append(("e", v))
            self.add(eq)
            self.cache[("conc", e.get_id())] = v
            self.keep.append(e)
            return v

    # -- fresh variables --------------------------------------------------------------------------
    def name(self, base):
        k = self.counters.get(base, 0)
        self.counters[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def real(self, base):
        n = self.name(base)
        c = z3.Real(n)
        self.inputs.append((n, c))
        return SymNum(c)

    def int_(self, base):
        n = self.name(base)
        c = z3.Int(n)
        self.inputs.append((n, c))
        return SymNum(c)

    def bool_(self, base):
        n = self.name(base)
        c = z3.Bool(n)
        self.inputs.append((n, c))
        return SymBool(c)

    def internal(self, base, sort=None):
        n = self.name("$" + base)
        return z3.Const(n, sort if sort is not None else z3.RealSort())

    # -- properties -------------------------------------------------------------------------------
    def require(self, cond, label):
        self.stats.props += 1
        if isinstance(cond, SymNum):
            cond = SymBool(cond.e != 0)
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            self.reqs.append((e, label))
            if z3.is_false(e) or len(self.reqs) >= 400:
                self.flush()
        elif not bool(cond):
            self.flush()
            m = self.get_model()
            if m is None:
                raise Inconclusive("path feasibility unknown at failed requirement: " + label)
            raise Violation(label, self.best_model())

    def best_model(self, *extra):
        """A model of the path (and extra); prefers small dyadic inputs so that float replay is exact."""
        reals = [c for _, c in self.inputs if c.sort() == z3.RealSort()]
        for den, lim in ((1, 8), (4, 16), (64, 1024), (1024, None)):
            grid = []
            for i, c in enumerate(reals):
                k = z3.Int("$grid%d" % i)
                grid.append(c * den == z3.ToReal(k))
                if lim is not None:
                    grid.append(z3.And(c <= lim, c >= -lim))
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*self.constraints)
            s.add(*extra)
            s.add(*grid)
            self.stats.queries += 1
            t = time.perf_counter()
            r = s.check()
            self.stats.solver_s += time.perf_counter() - t
            if r == z3.sat:
                return s.model()
        r, m = self.check(*extra)
        return m if r == z3.sat else self.model

    def flush(self):
        if not self.reqs:
            return
        reqs, self.reqs = self.reqs, []
        bad = z3.Not(z3.And(*[e for e, _ in reqs])) if len(reqs) > 1 else z3.Not(reqs[0][0])
        r, m = self.check(bad, timeout=self.timeout_ms * 2)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # try one by one
            left = []
            for e, label in reqs:
                r1, m1 = self.check(z3.Not(e), timeout=self.timeout_ms * 5)
                if r1 == z3.sat:
                    raise Violation(label, self.best_model(z3.Not(e)) or m1)
                if r1 == z3.unknown:
                    left.append(label)
            if left:
                raise Inconclusive("solver gave no answer on: " + "; ".join(left[:3]))
            return
        for e, label in reqs:
            if not z3.is_true(m.eval(e, model_completion=True)):
                raise Violation(label, self.best_model(z3.Not(e)) or m)
        raise Violation(reqs[0][1], m)


CTX: Ctx | None = None


def ctx() -> Ctx:
    if CTX is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ------------------------------------------------------------------------------------------------ z3 conversion

_RV = {}


def real_val(x):
    r = _RV.get(x)
    if r is None:
        if isinstance(x, float):
            f = Fraction(x)
        else:
            f = Fraction(x)
        r = z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
        if len(_RV) < 20000:
            _RV[x] = r
    return r


def const_value(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def is_sym(x):
    t = type(x)
    return t is SymNum or t is SymBool


BOOLS = (bool, np.bool_)
INTS = (int, np.integer)


def pyv(x):
    """Canonical Python value for a concrete scalar."""
    t = type(x)
    if t is float or t is int or t is bool or t is SymNum or t is SymBool:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return pyv(np.ndarray.item(x))
    return x


def to_real(x):
    if type(x) is SymNum:
        return x.e if x.e.is_real() else z3.ToReal(x.e)
    if type(x) is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    return real_val(float(x) if isinstance(x, float) else int(x))


def to_int(x):
    if type(x) is SymNum:
        if x.e.is_int():
            return x.e
        raise Unsupported("real to int coercion")
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def isint(x):
    if type(x) is SymNum:
        return x.root is None and x.e.is_int()
    if type(x) is SymBool:
        return True
    return isinstance(x, (bool, int))


def pair(a, b):
    if isint(a) and isint(b):
        return to_int(a), to_int(b)
    return to_real(a), to_real(b)


def to_bool(x):
    """z3 Bool of a scalar."""
    if type(x) is SymBool:
        return x.e
    if type(x) is SymNum:
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mknum(e):
    v = const_value(e)
    if v is None:
        return SymNum(e)
    if e.is_int():
        return int(v)
    f = float(v)
    if Fraction(f) == v:
        return f
    return SymNum(e)


def nonfinite(x):
    return type(x) is float and (x != x or x in (INF, -INF))


# ---------------------------------------------------------------------------------------------- scalar operations

def s_neg(a):
    a = pyv(a)
    if not is_sym(a):
        return -a
    if type(a) is SymBool:
        raise Unsupported("negative of bool")
    return mknum(z3.simplify(-a.e))


def _num(x):
    """numeric view of a bool"""
    return x


def s_add(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        return a + b
    if nonfinite(a):
        return a
    if nonfinite(b):
        return b
    if type(a) in (int, float) and a == 0 and type(b) is SymNum and (not b.isint() or type(a) is int):
        return b
    if type(b) in (int, float) and b == 0 and type(a) is SymNum and (not a.isint() or type(b) is int):
        return a
    x, y = pair(a, b)
    return SymNum(x + y)


def s_sub(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        return a - b
    if nonfinite(a):
        return a
    if nonfinite(b):
        return -b
    if type(b) in (int, float) and b == 0 and type(a) is SymNum and (not a.isint() or type(b) is int):
        return a
    x, y = pair(a, b)
    if x.eq(y):
        return 0 if x.is_int() else 0.0
    return SymNum(x - y)


def s_mul(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        return a * b
    if nonfinite(a):
        a, b = b, a
    if nonfinite(b):
        if b != b:
            return b
        if s_truth(s_eq(a, 0)):
            return NAN
        return b if s_truth(s_lt(0, a)) else -b
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            if p == 0:
                return 0 if (isint(p) and isint(q)) else 0.0
            if p == 1 and type(q) is SymNum:
                if isint(p) or not isint(q):
                    return q
    if type(a) is SymNum and type(b) is SymNum and a.root is not None and b.root is not None and a.root.eq(b.root):
        return SymNum(a.root)
    x, y = pair(a, b)
    if CTX is not None and is_sym(a) and is_sym(b):
        CTX.nonlinear = True
    return SymNum(x * y)


def floaty(e, lim=4000):
    """does the term contain a constant that looks like a rounded float (or division by a non power of two done in floats)?"""
    seen, st = set(), [e]
    while st and len(seen) < lim:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_rational_value(t):
            d = t.denominator_as_long()
            if d > (1 << 30):
                return True
        else:
            st.extend(t.children())
    return False


def s_close(a, b):
    """equality; up to 1e-8 (relative to b) where a side carries float-rounded constants"""
    a, b = pyv(a), pyv(b)
    if isinstance(a, complex) or isinstance(b, complex) or nonfinite(a) or nonfinite(b) or a is None or b is None:
        return s_eq(a, b)
    if not is_sym(a) and not is_sym(b):
        if a == b:
            return True
        try:
            return abs(a - b) <= 1e-8 * (1 + abs(b))
        except TypeError:
            return False
    if CTX is not None and CTX.approx:
        ab = snapped_pair(a, b)
        if ab is not None:
            a, b = ab
    if any(type(v) is SymNum and floaty(v.e) for v in (a, b)) or any(isinstance(v, float) and Fraction(v).denominator > (1 << 30) for v in (a, b)):
        d = s_abs(s_sub(a, b))
        return s_or(s_eq(a, b), s_le(d, s_mul(1e-8, s_add(1, s_abs(b)))))
    return s_eq(a, b)


def s_div(a, b):
    """numpy true_divide on floats"""
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        a, b = float(a), float(b)
        if b == 0:
            if a != a or a == 0:
                return NAN
            return math.copysign(INF, a) * math.copysign(1.0, b)
        return a / b
    if nonfinite(a):
        if a != a:
            return a
        if s_truth(s_eq(b, 0)):
            return a
        return a if s_truth(s_lt(0, b)) else -a
    if nonfinite(b):
        return NAN if b != b else 0.0
    if not is_sym(b):
        if b == 0:
            if s_truth(s_eq(a, 0)):
                return NAN
            return INF if s_truth(s_lt(0, a)) else -INF
        return s_mul(a, SymNum(real_val(Fraction(1) / Fraction(b))))
    if s_truth(s_eq(b, 0)):
        if s_truth(s_eq(a, 0)):
            return NAN
        return INF if s_truth(s_lt(0, a)) else -INF
    x, y = snap(z3.simplify(to_real(a))), snap(z3.simplify(to_real(b)))
    if x.eq(y):
        return 1.0
    if not is_sym(a) and a == 0:
        return 0.0
    vy = const_value(y)
    if vy is not None and vy != 0:
        return s_mul(a, SymNum(real_val(Fraction(1) / Fraction(vy))))
    ctx().nonlinear = True
    # introduce the quotient as a fresh variable: q * y == x (y != 0 on this path) -- friendlier than z3's division
    c = ctx()
    key = ("div", x.get_id(), y.get_id())
    q = c.cache.get(key)
    if q is None:
        qv = c.internal("q")
        c.define_model(qv, lambda m: div_value(m, x, y))
        c.define(qv * y == x)
        q = SymNum(qv)
        c.cache[key] = q
        c.keep.append((x, y))
    return q


def div_value(m, x, y):
    a, b = const_value(m.eval(x, model_completion=True)), const_value(m.eval(y, model_completion=True))
    if a is None or b is None or b == 0:
        return None
    return a / b


def _define_model(self, var, fn):
    """Extend the current model with the value of a defined variable, if that is computable."""
    if self.model is None:
        return
    try:
        v = fn(self.model)
    except z3.Z3Exception:
        v = None
    if v is None:
        self.model = None
        return
    try:
        self.model.update_value(var, z3.RealVal("%d/%d" % (v.numerator, v.denominator)))
    except Exception:
        self.model = None


Ctx.define_model = _define_model


def s_floor(a):
    a = pyv(a)
    if not is_sym(a):
        return a if nonfinite(a) else (math.floor(a) if not isinstance(a, float) else float(math.floor(a)))
    if isint(a):
        return a
    return SymNum(z3.ToReal(z3.ToInt(a.e)))


def s_floor_int(a):
    a = pyv(a)
    if not is_sym(a):
        return math.floor(a)
    if isint(a):
        return SymNum(to_int(a))
    return SymNum(z3.ToInt(a.e))


def s_ceil(a):
    a = pyv(a)
    if not is_sym(a):
        return a if nonfinite(a) else (a if not isinstance(a, float) else float(math.ceil(a)))
    if isint(a):
        return a
    return SymNum(-z3.ToReal(z3.ToInt(-a.e)))


def s_trunc_int(a):
    a = pyv(a)
    if not is_sym(a):
        return int(a)
    if isint(a):
        return SymNum(to_int(a))
    return SymNum(z3.If(a.e >= 0, z3.ToInt(a.e), -z3.ToInt(-a.e)))


def s_rint(a):
    a = pyv(a)
    if not is_sym(a):
        return float(np.rint(a))
    if isint(a):
        return a
    f = z3.ToInt(a.e)
    d = a.e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SymNum(z3.ToReal(r))


def s_floordiv(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        if isint(a) and isint(b):
            return int(np.floor_divide(a, b)) if b != 0 else 0
        return float(np.floor_divide(float(a), float(b)))
    if isint(a) and isint(b):
        x, y = to_int(a), to_int(b)
        if s_truth(s_eq(b, 0)):
            return 0
        if s_truth(s_lt(0, b)):
            return SymNum(x / y)
        return SymNum((-x) / (-y))
    return s_floor(s_div(a, b))


def s_mod(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return pyv(np.mod(a, b))
    if nonfinite(a):
        return NAN
    if nonfinite(b):
        if b != b:
            return NAN
        if b > 0:
            return a if s_truth(s_le(0, a)) else b
        return a if s_truth(s_le(a, 0)) else b
    if s_truth(s_eq(b, 0)):
        return 0 if (isint(a) and isint(b)) else NAN
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def s_abs(a):
    a = pyv(a)
    if not is_sym(a):
        return abs(a)
    if type(a) is SymBool or a.root is not None:
        return a
    return SymNum(z3.If(a.e >= 0, a.e, -a.e))


def s_sign(a):
    a = pyv(a)
    if not is_sym(a):
        return pyv(np.sign(a))
    one, zero = (z3.IntVal(1), z3.IntVal(0)) if a.e.is_int() else (z3.RealVal(1), z3.RealVal(0))
    return SymNum(z3.If(a.e > 0, one, z3.If(a.e < 0, -one, zero)))


def _root_cmp(a, b, op):
    """comparison with square roots decided on the radicands; NotImplemented where that is not possible"""
    ra = a.root if type(a) is SymNum else None
    rb = b.root if type(b) is SymNum else None
    if ra is None and rb is None:
        return NotImplemented
    if ra is None:
        if is_sym(a):
            return NotImplemented
        if a < 0:
            return op != "eq"
        ra = _sq_const(a)
    elif rb is None:
        if is_sym(b):
            return NotImplemented
        if b < 0:
            return False
        rb = _sq_const(b)
    if ra.eq(rb):
        return op != "lt"
    return mkbool(ra < rb if op == "lt" else (ra <= rb if op == "le" else ra == rb))


def _sq_const(v):
    q = Fraction(v) ** 2
    return z3.RealVal("%d/%d" % (q.numerator, q.denominator))


def s_lt(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        return bool(a < b)
    if nonfinite(a):
        return a == -INF
    if nonfinite(b):
        return b == INF
    r = _root_cmp(a, b, "lt")
    if r is not NotImplemented:
        return r
    x, y = pair(a, b)
    if x.eq(y):
        return False
    return mkbool(x < y)


def s_le(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        return bool(a <= b)
    if nonfinite(a):
        return a == -INF
    if nonfinite(b):
        return b == INF
    r = _root_cmp(a, b, "le")
    if r is not NotImplemented:
        return r
    x, y = pair(a, b)
    if x.eq(y):
        return True
    return mkbool(x <= y)


NUMT = (bool, int, float)


def s_eq(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        r = a == b
        return bool(r) if isinstance(r, (bool, np.bool_)) else r
    for q in (a, b):
        if not is_sym(q) and not isinstance(q, NUMT):
            return False
    if nonfinite(a) or nonfinite(b):
        return False
    if type(a) is SymBool and type(b) in (SymBool, bool):
        return mkbool(a.e == to_bool(b))
    if type(b) is SymBool and type(a) is bool:
        return mkbool(b.e == to_bool(a))
    r = _root_cmp(a, b, "eq")
    if r is not NotImplemented:
        return r
    x, y = pair(a, b)
    if x.eq(y):
        return True
    return mkbool(x == y)


def s_not(a):
    a = pyv(a)
    if not is_sym(a):
        return not a
    return mkbool(z3.Not(to_bool(a)))


def s_ne(a, b):
    return s_not(s_eq(a, b))


def s_and(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a):
        return (s_bool(b)) if a else False
    if not is_sym(b):
        return (s_bool(a)) if b else False
    return mkbool(z3.And(to_bool(a), to_bool(b)))


def s_or(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a):
        return True if a else s_bool(b)
    if not is_sym(b):
        return True if b else s_bool(a)
    return mkbool(z3.Or(to_bool(a), to_bool(b)))


def s_xor(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    return mkbool(z3.Xor(to_bool(a), to_bool(b)))


def s_bool(a):
    a = pyv(a)
    if type(a) is SymBool:
        return a
    if type(a) is SymNum:
        return mkbool(a.e != 0)
    return bool(a)


def s_truth(a):
    """Python truth value of a scalar: forks when symbolic."""
    a = pyv(a)
    if type(a) is SymBool:
        return ctx().branch(a.e)
    if type(a) is SymNum:
        return ctx().branch(a.e != 0)
    return bool(a)


def s_where(c, a, b):
    c, a, b = pyv(c), pyv(a), pyv(b)
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and (a == b):
        return a
    if nonfinite(a) or nonfinite(b) or not (is_sym(a) or isinstance(a, NUMT)) or not (is_sym(b) or isinstance(b, NUMT)):
        return a if s_truth(c) else b
    ce = to_bool(c)
    k = CTX.implied(ce) if CTX is not None else None
    if k is not None:
        return a if k else b
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return mkbool(z3.simplify(z3.If(ce, to_bool(a), to_bool(b))))
    if type(a) is SymNum and type(b) is SymNum and a.root is not None and b.root is not None:
        return a if a.root.eq(b.root) else SymNum(None, z3.If(ce, a.root, b.root))
    x, y = pair(a, b)
    if x.eq(y):
        return SymNum(x) if is_sym(a) else a
    return SymNum(z3.If(ce, x, y))


def s_min(a, b):
    a, b = pyv(a), pyv(b)
    for p, q in ((a, b), (b, a)):
        if nonfinite(p):
            return p if (p != p or p == -INF) else q
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return s_where(s_le(a, b), a, b)


def s_max(a, b):
    a, b = pyv(a), pyv(b)
    for p, q in ((a, b), (b, a)):
        if nonfinite(p):
            return p if (p != p or p == INF) else q
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return s_where(s_le(b, a), a, b)


def s_fmin(a, b):
    a, b = pyv(a), pyv(b)
    if a != a if isinstance(a, float) else False:
        return b
    if b != b if isinstance(b, float) else False:
        return a
    return s_min(a, b)


def s_fmax(a, b):
    a, b = pyv(a), pyv(b)
    if a != a if isinstance(a, float) else False:
        return b
    if b != b if isinstance(b, float) else False:
        return a
    return s_max(a, b)


def s_square(a):
    return s_mul(a, a)


def _exact_sqrt(v):
    if v < 0:
        return None
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def s_sqrt(a):
    a = pyv(a)
    if not is_sym(a):
        a = float(a)
        if a != a or a < 0:
            return NAN
        return math.sqrt(a)
    e0 = to_real(a)
    if e0.decl().kind() == z3.Z3_OP_MUL and e0.num_args() == 2 and e0.arg(0).eq(e0.arg(1)):
        return s_abs(SymNum(e0.arg(0)))
    e = snap(z3.simplify(e0))
    v = const_value(e)
    if v is not None:
        return s_sqrt(float(v))
    if not _nonneg(e0) and s_truth(s_lt(a, 0)):
        return NAN
    return SymNum(None, e)


def _nonneg(e):
    """syntactically a sum of squares"""
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_nonneg(e.arg(i)) for i in range(e.num_args()))
    if k == z3.Z3_OP_MUL:
        return e.num_args() == 2 and (e.arg(0).eq(e.arg(1)) or (_nonneg(e.arg(0)) and _nonneg(e.arg(1))))
    if k == z3.Z3_OP_ITE:
        return _nonneg(e.arg(1)) and _nonneg(e.arg(2))
    v = const_value(e)
    return v is not None and v >= 0


def _root_value(e):
    """the value of a square root: a fresh variable with its defining constraints"""
    c = ctx()
    key = ("sqrt", e.get_id())
    rv = c.cache.get(key)
    if rv is None:
        CTX.nonlinear = True
        rv = c.internal("sqrt")
        c.define_model(rv, lambda m: (lambda q: None if q is None else _exact_sqrt(q))(
            const_value(m.eval(e, model_completion=True))))
        c.define(z3.And(rv >= 0, rv * rv == e))
        for (oe, orv) in c.mono.setdefault("sqrt", []):
            c.define(z3.And(z3.Implies(oe <= e, orv <= rv), z3.Implies(e <= oe, rv <= orv)))
        c.mono["sqrt"].append((e, rv))
        c.cache[key] = rv
        c.keep.append(e)
    return rv


# -- terms that agree up to float rounding of their constants (harness option approx) -----------------

class _Poly(Exception):
    pass


def _atom(c, e):
    """a number for a non-polynomial subterm; subterms that agree up to rounding get the same number"""
    i = c.snap_ids.get(e.get_id())
    if i is not None:
        return i
    keys, group = [_key(c, e.arg(j)) for j in range(e.num_args())], None
    if keys:
        group = c.snap_atoms.setdefault((e.decl().name(), len(keys)), [])
        for okeys, oi in group:
            if all(_alike(x, y) for x, y in zip(keys, okeys)):
                i = oi
                break
    if i is None:
        i = len(c.snap_terms)
        c.snap_terms.append(e)
        if group is not None:
            group.append((keys, i))
    c.snap_ids[e.get_id()] = i
    c.keep.append(e)
    return i


_REL = {z3.Z3_OP_LE: 1, z3.Z3_OP_GE: 1, z3.Z3_OP_LT: 2, z3.Z3_OP_GT: 2, z3.Z3_OP_EQ: 3}


def _key(c, e):
    """e for the comparison of subterms: a polynomial, or the tree of a boolean term"""
    if not z3.is_bool(e):
        return _poly(c, e)
    if not e.num_args():
        return e.decl().name()
    r = c.snap_polys.get(e.get_id())
    if r is None:
        k, args = e.decl().kind(), [_key(c, e.arg(j)) for j in range(e.num_args())]
        if k in _REL and isinstance(args[0], dict):
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                args.reverse()
            d = {m: args[0].get(m, 0) - args[1].get(m, 0) for m in set(args[0]) | set(args[1])}
            sc = max([abs(x) for x in d.values()] + [0])
            if k == z3.Z3_OP_EQ and sc and d[min(m for m in d if abs(d[m]) == sc)] < 0:
                sc = -sc
            k, args = _REL[k], [{m: x / sc for m, x in d.items() if x}]
        r = (k, args)
        c.snap_polys[e.get_id()] = r
        c.keep.append(e)
    return r


def _alike(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and _near_poly(x, y)
    if isinstance(x, tuple):
        return isinstance(y, tuple) and x[0] == y[0] and len(x[1]) == len(y[1]) and all(_alike(p, q) for p, q in zip(x[1], y[1]))
    return x == y


def _near_poly(p, q):
    sc = max([abs(v) for v in p.values()] + [abs(v) for v in q.values()] + [0])
    tiny = sc * Fraction(1, 10 ** 12)
    for m in set(p) | set(q):
        if abs(p.get(m, 0) - q.get(m, 0)) > tiny:
            return False
    return True


def _poly(c, e):
    """e as a polynomial {monomial: coefficient} over numbered subterms"""
    r = c.snap_polys.get(e.get_id())
    if r is not None:
        return r
    v = const_value(e)
    k = e.decl().kind()
    if v is not None:
        r = {(): Fraction(v)} if v else {}
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = {}
        for j in range(e.num_args()):
            sg = -1 if k == z3.Z3_OP_SUB and j else 1
            for m, x in _poly(c, e.arg(j)).items():
                r[m] = r.get(m, 0) + sg * x
    elif k == z3.Z3_OP_UMINUS:
        r = {m: -x for m, x in _poly(c, e.arg(0)).items()}
    elif k == z3.Z3_OP_MUL or (k == z3.Z3_OP_POWER and const_value(e.arg(1)) in (2, 3, 4)):
        args = [e.arg(j) for j in range(e.num_args())] if k == z3.Z3_OP_MUL else [e.arg(0)] * int(const_value(e.arg(1)))
        r = {(): Fraction(1)}
        for a in args:
            q, t = _poly(c, a), {}
            if len(r) * len(q) > 20000:
                raise _Poly
            for m1, x1 in r.items():
                for m2, x2 in q.items():
                    m = tuple(sorted(m1 + m2))
                    t[m] = t.get(m, 0) + x1 * x2
            r = t
    elif k == z3.Z3_OP_TO_REAL:
        r = _poly(c, e.arg(0))
    else:
        r = {(_atom(c, e),): Fraction(1)}
    r = {m: x for m, x in r.items() if x}
    c.snap_polys[e.get_id()] = r
    c.keep.append(e)
    return r


def snap(e, kind="arg"):
    """the first term seen of those that agree with e up to rounding"""
    c = CTX
    if c is None or not c.approx:
        return e
    try:
        p = _poly(c, e)
    except _Poly:
        return e
    key = (kind, frozenset(p))
    if () not in p:
        alt = (kind, frozenset(p) | {()})
    else:
        alt = (kind, frozenset(p) - {()})
    for k in (key, alt):
        for q, oe in c.snap_tab.get(k, ()):
            if _near_poly(p, q):
                return oe
    c.snap_tab.setdefault(key, []).append((p, e))
    return e


def _rebuilt(c, p):
    ts = []
    for m, x in sorted(p.items()):
        t = real_val(x)
        for i in m:
            v = c.snap_terms[i]
            t = t * (z3.ToReal(v) if v.is_int() else v)
        ts.append(t)
    return z3.Sum(ts) if ts else z3.RealVal(0)


def snapped_pair(a, b):
    """(a', b') for the solver: the same values with the coefficients of b rounded to those of a, or None"""
    c = CTX
    try:
        p, q = _poly(c, to_real(a)), _poly(c, to_real(b))
    except _Poly:
        return None
    sc = max([abs(v) for v in p.values()] + [abs(v) for v in q.values()] + [0])
    tiny = sc * Fraction(1, 10 ** 11)
    p = {m: x for m, x in p.items() if abs(x) > tiny or m in q}
    q2 = {}
    for m, x in q.items():
        if m in p and abs(p[m] - x) <= tiny:
            q2[m] = p[m]
        elif m in p or abs(x) > tiny:
            q2[m] = x
    return SymNum(_rebuilt(c, p)), SymNum(_rebuilt(c, q2))


_UF = {}


def uf(name, arity=1):
    f = _UF.get(name)
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
        _UF[name] = f
    return f


def uf_app(name, fn, axioms, a):
    """Unary transcendental function as an uninterpreted function with instantiated axioms."""
    a = pyv(a)
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return pyv(fn(float(a)))
    c = ctx()
    e = snap(z3.simplify(to_real(a)))
    v = const_value(e)
    if v is not None:
        with np.errstate(all="ignore"):
            return pyv(fn(float(v)))
    key = (name, e.get_id())
    r = c.cache.get(key)
    if r is None:
        t = uf(name)(e)
        c.used_uf = True
        c.model = None
        for ax in axioms(e, t):
            c.define(ax)
        if name in ("exp", "log", "arctan"):
            for (oe, ot) in c.mono.setdefault(name, []):
                c.define(z3.And(z3.Implies(oe < e, ot < t), z3.Implies(e < oe, t < ot)))
            c.mono[name].append((e, t))
        r = SymNum(t)
        c.cache[key] = r
        c.keep.append(e)
    return r


def s_exp(a):
    if nonfinite(pyv(a)):
        return pyv(np.exp(a))
    return uf_app("exp", np.exp, lambda e, t: [t > 0, t >= 1 + e, z3.Implies(e < 0, t < 1), z3.Implies(e > 0, t > 1),
                                               z3.Implies(e == 0, t == 1)], a)


def s_log(a):
    a = pyv(a)
    if is_sym(a):
        if s_truth(s_le(a, 0)):
            return -INF if s_truth(s_eq(a, 0)) else NAN
    return uf_app("log", np.log, lambda e, t: [z3.Implies(e > 1, t > 0), z3.Implies(e < 1, t < 0),
                                               z3.Implies(e == 1, t == 0), t <= e - 1], a)


PI_LO, PI_HI = z3.RealVal("3141592653589793/1000000000000000"), z3.RealVal("3141592653589794/1000000000000000")


def _trig(a, which):
    a = pyv(a)
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return pyv({"sin": np.sin, "cos": np.cos, "tan": np.tan}[which](float(a)))
    c = ctx()
    e = snap(z3.simplify(to_real(a)))
    v = const_value(e)
    if v is not None:
        return pyv({"sin": np.sin, "cos": np.cos, "tan": np.tan}[which](float(v)))
    key = ("trig", e.get_id())
    r = c.cache.get(key)
    if r is None:
        s, k = uf("sin")(e), uf("cos")(e)
        c.used_uf = True
        c.model = None
        hp = PI_LO / 2
        c.define(s * s + k * k == 1, s >= -1, s <= 1, k >= -1, k <= 1)
        # float pi/2 is below pi/2, so these hold for every float argument in [0, np.pi/2]
        c.define(z3.Implies(z3.And(e >= 0, e <= real_val(math.pi / 2)), z3.And(s >= 0, k > 0)))
        c.define(z3.Implies(z3.And(e <= 0, e >= -real_val(math.pi / 2)), z3.And(s <= 0, k > 0)))
        c.define(z3.Implies(e == 0, z3.And(s == 0, k == 1)))
        r = (s, k)
        c.cache[key] = r
        c.keep.append(e)
    if which == "sin":
        return SymNum(r[0])
    if which == "cos":
        return SymNum(r[1])
    return s_div(SymNum(r[0]), SymNum(r[1]))


def s_sin(a):
    return _trig(a, "sin")


def s_cos(a):
    return _trig(a, "cos")


def s_tan(a):
    return _trig(a, "tan")


def s_arccos(a):
    a = pyv(a)
    if is_sym(a) and s_truth(s_or(s_lt(a, -1), s_lt(1, a))):
        return NAN
    r = uf_app("arccos", np.arccos, lambda e, t: [t >= 0, t <= PI_HI, z3.Implies(e == 1, t == 0)], a)
    if is_sym(r):
        c = ctx()
        e = to_real(a)
        for (oe, ot) in c.mono.setdefault("arccos_", []):
            c.define(z3.And(z3.Implies(oe < e, ot > r.e), z3.Implies(e < oe, r.e > ot)))
        c.mono["arccos_"].append((e, r.e))
    return r


def s_arctan(a):
    return uf_app("arctan", np.arctan, lambda e, t: [z3.Implies(e > 0, t > 0), z3.Implies(e < 0, t < 0),
                                                     z3.Implies(e == 0, t == 0), t * 2 <= PI_HI, t * 2 >= -PI_HI], a)


def s_arcsin(a):
    return uf_app("arcsin", np.arcsin, lambda e, t: [t * 2 <= PI_HI, t * 2 >= -PI_HI], a)


def s_log2(a):
    a = pyv(a)
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return pyv(np.log2(float(a)))
    return s_div(s_log(a), math.log(2))


def s_log10(a):
    a = pyv(a)
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return pyv(np.log10(float(a)))
    return s_div(s_log(a), math.log(10))


def s_pow(a, b):
    a, b = pyv(a), pyv(b)
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return int(a) ** int(b) if b >= 0 else float(a) ** b
            return pyv(np.float64(a) ** np.float64(b))
    if not is_sym(b):
        if isinstance(b, float) and b.is_integer() and abs(b) <= 16:
            n = int(b)
        elif isinstance(b, (int, bool)) and abs(b) <= 16:
            n = int(b)
        else:
            n = None
        if n is not None:
            if n == 0:
                return 1 if isint(a) and isint(b) else 1.0
            r = a
            for _ in range(abs(n) - 1):
                r = s_mul(r, a)
            if n < 0:
                r = s_div(1.0, r)
            elif isinstance(b, float) and isint(r):
                r = SymNum(to_real(r))
            return r
        if b == 0.5:
            return s_sqrt(a)
        if b == 0.25:
            return s_sqrt(s_sqrt(a))
        if nonfinite(b):
            raise Unsupported("pow with non-finite exponent")
    if nonfinite(a):
        if not is_sym(b):
            return pyv(np.float64(a) ** np.float64(b))
        raise Unsupported("pow with non-finite base")
    # general power: base must be positive (or zero with a positive exponent)
    if s_truth(s_lt(a, 0)):
        return NAN  # integer exponents were handled above; a symbolic exponent that happens to be an integer is out
    if s_truth(s_eq(a, 0)):
        if s_truth(s_eq(b, 0)):
            return 1.0
        return 0.0 if s_truth(s_lt(0, b)) else INF
    x, y = snap(z3.simplify(to_real(a))), snap(z3.simplify(to_real(b)))
    c = ctx()
    key = ("pow", x.get_id(), y.get_id())
    r = c.cache.get(key)
    if r is not None:
        return r
    t = uf("pow", 2)(x, y)
    c.used_uf = True
    c.model = None
    one = z3.RealVal(1)
    c.define(t > 0,
          z3.Implies(z3.Or(x == 1, y == 0), t == 1),
          z3.Implies(y == 1, t == x),
          z3.Implies(z3.And(x > 1, y > 0), t > 1), z3.Implies(z3.And(x > 1, y < 0), t < 1),
          z3.Implies(z3.And(x < 1, y > 0), t < 1), z3.Implies(z3.And(x < 1, y < 0), t > 1),
          # between the identity and the constant
          z3.Implies(z3.And(x < 1, y >= 1), t <= x), z3.Implies(z3.And(x < 1, y > 0, y <= 1), t >= x),
          z3.Implies(z3.And(x > 1, y >= 1), t >= x), z3.Implies(z3.And(x > 1, y > 0, y <= 1), t <= x))
    for (ox, oy, ot) in c.mono.setdefault("pow", []):
        if oy.eq(y):
            c.define(z3.Implies(y > 0, z3.And(z3.Implies(ox < x, ot < t), z3.Implies(x < ox, t < ot), z3.Implies(x == ox, t == ot))),
                  z3.Implies(y < 0, z3.And(z3.Implies(ox < x, ot > t), z3.Implies(x < ox, t > ot), z3.Implies(x == ox, t == ot))))
        # inverse exponents: pow(pow(a, y), 1/y) == a
        if ot.eq(x):
            c.define(z3.Implies(oy * y == 1, t == ox))
    c.mono["pow"].append((x, y, t))
    r = SymNum(t)
    c.cache[key] = r
    c.keep.append((x, y))
    return r


# ------------------------------------------------------------------------------------------------- scalar classes

def _arr(o):
    return isinstance(o, np.ndarray)


class _SymBase:
    __slots__ = ()
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, uf_, method, *inputs, **kw):
        from . import array
        return array.ufunc_dispatch(uf_, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import array
        return array.function_dispatch(func, args, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def flatten(self, *a, **k):
        from . import array
        return array.mk([self])

    ravel = flatten

    def reshape(self, *shape, **k):
        from . import array
        return array.mk([self]).reshape(*shape)

    def _self(self, *a, **k):
        return self

    sum = min = max = mean = squeeze = prod = _self
    T = property(lambda s: s)

    def __getitem__(self, k):
        from . import array
        return array.mk0(self)[k]

    def any(self, *a, **k):
        return s_bool(self)

    all = any


def _bin(fn, swap=False):
    def op(self, o):
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            from . import array
            if isinstance(o, (list, tuple)):
                o = array.mk(o)
            return array.elementwise2(fn, *((o, self) if swap else (self, o)))
        o = pyv(o)
        if not (is_sym(o) or isinstance(o, NUMT)):
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)
    return op


def _cmp(fn):
    def op(self, o):
        if isinstance(o, np.ndarray):
            from . import array
            return array.elementwise2(fn, self, o)
        o = pyv(o)
        if not (is_sym(o) or isinstance(o, NUMT)):
            if fn is s_eq:
                return False
            if fn is s_ne:
                return True
            return NotImplemented
        return fn(self, o)
    return op


def _gt(a, b):
    return s_lt(b, a)


def _ge(a, b):
    return s_le(b, a)


class SymNum(_SymBase):
    """A symbolic number. A square root is kept as its radicand (`root`) and gets its defining constraints only when something other than
    a comparison needs its value (then the missing attribute `e` is created)."""
    __slots__ = ("e", "root")

    def __init__(self, e, root=None):
        if root is None:
            self.e = e
        self.root = root

    def __getattr__(self, k):
        if k == "e":
            self.e = _root_value(self.root)
            return self.e
        raise AttributeError(k)

    def isint(self):
        return self.root is None and self.e.is_int()

    @property
    def dtype(self):
        return np.dtype("int64") if self.isint() else np.dtype("float64")

    __add__, __radd__ = _bin(s_add), _bin(s_add, True)
    __sub__, __rsub__ = _bin(s_sub), _bin(s_sub, True)
    __mul__, __rmul__ = _bin(s_mul), _bin(s_mul, True)
    __truediv__, __rtruediv__ = _bin(s_div), _bin(s_div, True)
    __floordiv__, __rfloordiv__ = _bin(s_floordiv), _bin(s_floordiv, True)
    __mod__, __rmod__ = _bin(s_mod), _bin(s_mod, True)
    __pow__, __rpow__ = _bin(s_pow), _bin(s_pow, True)
    __lt__, __le__, __gt__, __ge__ = _cmp(s_lt), _cmp(s_le), _cmp(_gt), _cmp(_ge)
    __eq__, __ne__ = _cmp(s_eq), _cmp(s_ne)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __bool__(self):
        return s_truth(self)

    def __hash__(self):
        return self.e.hash()

    def __index__(self):
        if not self.isint():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(to_int(s_trunc_int(self)))

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        r = s_rint(self)
        return SymNum(z3.ToInt(to_real(r))) if n is None and is_sym(r) else r

    def __floor__(self):
        return s_floor_int(self)

    def __ceil__(self):
        return s_neg(s_floor_int(s_neg(self)))

    def __trunc__(self):
        return s_trunc_int(self)

    def astype(self, t, **k):
        from . import array
        return array.coerce(self, array.kind_of_dtype(t))

    def sqrt(self):
        return s_sqrt(self)

    def __repr__(self):
        return "<%s>" % (str(self.e)[:60],)

    def __format__(self, spec):
        return repr(self)

    def is_integer(self):
        if self.e.is_int():
            return True
        return mkbool(z3.IsInt(self.e))


class SymBool(_SymBase):
    __slots__ = ("e",)
    dtype = np.dtype("bool")

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _bin(s_add), _bin(s_add, True)
    __sub__, __rsub__ = _bin(s_sub), _bin(s_sub, True)
    __mul__, __rmul__ = _bin(s_mul), _bin(s_mul, True)
    __truediv__, __rtruediv__ = _bin(s_div), _bin(s_div, True)
    __and__, __rand__ = _bin(s_and), _bin(s_and, True)
    __or__, __ror__ = _bin(s_or), _bin(s_or, True)
    __xor__, __rxor__ = _bin(s_xor), _bin(s_xor, True)
    __lt__, __le__, __gt__, __ge__ = _cmp(s_lt), _cmp(s_le), _cmp(_gt), _cmp(_ge)
    __eq__, __ne__ = _cmp(s_eq), _cmp(s_ne)

    def __invert__(self):
        return s_not(self)

    def __bool__(self):
        return s_truth(self)

    def __int__(self):
        return int(s_truth(self))

    def __index__(self):
        return int(s_truth(self))

    def __float__(self):
        return float(s_truth(self))

    def __hash__(self):
        return self.e.hash()

    def astype(self, t, **k):
        from . import array
        return array.coerce(self, array.kind_of_dtype(t))

    def __repr__(self):
        return "<%s>" % (str(self.e)[:60],)
