"""Random generators: SymRNG returns arbitrary values of the documented distribution's support; ScriptedRNG replays them."""
from __future__ import annotations

import numpy as np

from . import array, core
from .core import SymNum, Unsupported, is_sym
import z3


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


UNSEEDED = []
FORBID = []     # called at the first draw of an unseeded generator (or the global one)


class Counted:
    unseeded = False
    _n = 0

    @property
    def n_draws(self):
        return self._n

    @n_draws.setter
    def n_draws(self, n):
        drawn = n > self._n
        self._n = n
        if drawn and FORBID and (self.unseeded or getattr(self, "tag", None) in ("unseeded", "global")):
            FORBID[0]()


def reset():
    UNSEEDED.clear()
    FORBID.clear()


def default_rng(seed=None):
    """np.random.default_rng of the modules under test: without a seed the values are arbitrary (and recorded)"""
    if seed is None:
        r = SymRNG("unseeded")
        UNSEEDED.append(r)
        return r
    if isinstance(seed, SymRNG):
        return seed
    return SeededRNG(np.random.default_rng(seed).bit_generator)


class SeededRNG(np.random.Generator):
    """the real generator; concrete values that symbolic execution keeps in object arrays are passed as numbers"""

    pass


def _pass_numbers(name):
    f = getattr(np.random.Generator, name)

    def g(self, *args, **kwargs):
        return f(self, *[array.concretize_deep(a) for a in args], **{k: array.concretize_deep(a) for k, a in kwargs.items()})
    return g


for _n in ("normal", "uniform", "integers", "choice", "lognormal", "exponential", "standard_normal", "random"):
    setattr(SeededRNG, _n, _pass_numbers(_n))


def global_random(name, args, kwargs):
    if name == "seed":
        return None
    r = SymRNG("global")
    UNSEEDED.append(r)
    alias = dict(rand="rand", randn="standard_normal", randint="integers", random_sample="random", ranf="random", sample="random")
    if name == "rand":
        return r.random(tuple(args) or None)
    if name == "randn":
        return r.standard_normal(tuple(args) or None)
    return getattr(r, alias.get(name, name))(*args, **kwargs)


def unseeded_draws():
    return sum(r.n_draws for r in UNSEEDED)


class SymRNG(Counted):
    """Every draw is a fresh symbolic value; permutations and choices fork."""

    def __init__(self, tag="rnd", normal_bound=None, open_=False):
        self.open = open_
        self.tag = tag
        self.n_draws = 0
        self.normal_bound = normal_bound

    def _reals(self, size, cons, kind="f"):
        c = core.ctx()
        sh = _shape(size)
        self.n_draws += 1

        def one():
            v = c.real(self.tag) if kind == "f" else c.int_(self.tag)
            for q in cons(v.e):
                c.add(q)
            c.model = None
            return v
        if sh is None:
            v = one()
            c.draws.append(v.e)
            return v
        n = int(np.prod(sh)) if sh else 1
        out = np.empty(n, object)
        for i in range(n):
            out[i] = one()
        c.draws.append([v.e for v in out])
        return array.from_obj(out.reshape(sh), kind)

    def random(self, size=None, dtype=None, out=None):
        return self._reals(size, lambda v: (v > 0 if self.open else v >= 0, v < 1))

    random_sample = rand_ = random

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            sh = np.broadcast_shapes(np.shape(array.as_arr(low)) if isinstance(low, (np.ndarray, list)) else (),
                                     np.shape(array.as_arr(high)) if isinstance(high, (np.ndarray, list)) else ())
            size = sh if sh != () else None
        u = self.random(size)
        return low + (high - low) * u

    def standard_normal(self, size=None):
        b = self.normal_bound
        return self._reals(size, lambda v: () if b is None else (v >= -b, v <= b))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            sh = np.broadcast_shapes(*[np.shape(x) if isinstance(x, np.ndarray) else () for x in (loc, scale)])
            size = sh if sh != () else None
        return loc + scale * self.standard_normal(size)

    def standard_cauchy(self, size=None):
        return self._reals(size, lambda v: ())

    def exponential(self, scale=1.0, size=None):
        return scale * self._reals(size, lambda v: (v >= 0,))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if isinstance(low, np.ndarray) or isinstance(high, np.ndarray):
            L, H = np.broadcast_arrays(array.to_obj(low), array.to_obj(high))
            if size is not None:
                L, H = np.broadcast_to(L, _shape(size)), np.broadcast_to(H, _shape(size))
            c = core.ctx()
            self.n_draws += 1
            out = np.empty(L.shape, object)
            of = out.reshape(-1)
            for i, (lo, hi) in enumerate(zip(L.flat, H.flat)):
                of[i] = self._one_int(lo, hi, endpoint)
            c.draws.append([v.e if is_sym(v) else v for v in of])
            return array.from_obj(of.reshape(L.shape), "i")
        c = core.ctx()
        self.n_draws += 1
        sh = _shape(size)
        if sh is None:
            v = self._one_int(low, high, endpoint)
            c.draws.append(v.e)
            return v
        n = int(np.prod(sh))
        out = np.empty(n, object)
        for i in range(n):
            out[i] = self._one_int(low, high, endpoint)
        c.draws.append([v.e for v in out])
        return array.from_obj(out.reshape(sh), "i")

    def _one_int(self, lo, hi, endpoint):
        c = core.ctx()
        lo, hi = core.pyv(lo), core.pyv(hi)
        ok = core.s_le(lo, hi) if endpoint else core.s_lt(lo, hi)
        if not core.s_truth(ok):
            raise ValueError("low >= high")
        v = c.int_(self.tag)
        L = lo if not is_sym(lo) else lo
        c.add(v.e >= (L.e if is_sym(L) else z3.IntVal(int(L))))
        h = hi.e if is_sym(hi) else z3.IntVal(int(hi))
        c.add(v.e <= h if endpoint else v.e < h)
        c.model = None
        return v

    def _perm(self, n):
        c = core.ctx()
        rest, out = list(range(n)), []
        while rest:
            k = c.choose(len(rest), self.tag)
            out.append(rest.pop(k))
        return out

    def permutation(self, x, axis=0):
        c = core.ctx()
        self.n_draws += 1
        if isinstance(x, (int, np.integer)) or is_sym(x):
            p = self._perm(int(x))
            c.draws.append(list(p))
            return np.array(p, dtype=int)
        p = self._perm(len(x))
        c.draws.append(list(p))
        if isinstance(x, np.ndarray):
            return x[np.array(p, dtype=int)] if axis == 0 else x[:, np.array(p, dtype=int)]
        return array.np_array([x[i] for i in p])

    def permuted(self, x, axis=None, out=None):
        raise Unsupported("Generator.permuted")

    def shuffle(self, x, axis=0):
        c = core.ctx()
        self.n_draws += 1
        p = self._perm(len(x))
        c.draws.append(list(p))
        vals = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i] for i in p]
        for i, v in enumerate(vals):
            x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        c = core.ctx()
        self.n_draws += 1
        n = int(a) if isinstance(a, (int, np.integer)) or is_sym(a) else len(a)
        sh = _shape(size)
        k = 1 if sh is None else int(np.prod(sh))
        if n == 0 and k > 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        allowed = list(range(n))
        if p is not None:
            p = list(array.to_obj(p).reshape(-1))
            allowed = [i for i in allowed if core.s_truth(core.s_lt(0, p[i]))]
        idx = []
        pool = list(allowed)
        for _ in range(k):
            q = c.choose(len(pool), self.tag)
            idx.append(pool[q])
            if not replace:
                pool.pop(q)
        c.draws.append(list(idx))
        if sh is None:
            i = idx[0]
            return i if isinstance(a, (int, np.integer)) or is_sym(a) else (a[i])
        I = np.array(idx, dtype=int).reshape(sh)
        if isinstance(a, (int, np.integer)) or is_sym(a):
            return I
        if isinstance(a, np.ndarray):
            return a[I]
        r = [a[i] for i in idx]
        r = array.np_array(r)
        return r.reshape(sh + r.shape[1:]) if isinstance(r, np.ndarray) else r

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("Generator.%s" % k)

    def __deepcopy__(self, memo):
        return self


class ScriptExhausted(Exception):
    pass


class ScriptedRNG(Counted):
    """Replays the recorded draws on the unpatched code with real numpy values."""

    def __init__(self, script):
        self.script = script
        self.n_draws = 0

    def _next(self):
        self.n_draws += 1
        if not self.script:
            raise ScriptExhausted()
        return self.script.pop(0)

    def random(self, size=None, dtype=None, out=None):
        v = self._next()
        sh = _shape(size)
        if sh is None:
            return np.float64(v)
        return np.array(v, dtype=float).reshape(sh)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            sh = np.broadcast_shapes(np.shape(low), np.shape(high))
            size = sh if sh != () else None
        return low + (high - low) * self.random(size)

    standard_normal = standard_cauchy = random

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            sh = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            size = sh if sh != () else None
        return loc + scale * self.random(size)

    def exponential(self, scale=1.0, size=None):
        return scale * self.random(size)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        v = self._next()
        if high is None:
            low, high = 0, low
        if isinstance(v, list):
            sh = _shape(size) if size is not None else np.broadcast_shapes(np.shape(low), np.shape(high))
            return np.array(v, dtype=int).reshape(sh)
        return np.int64(v)

    def permutation(self, x, axis=0):
        p = np.array(self._next(), dtype=int)
        if isinstance(x, (int, np.integer)):
            return p
        x = np.asarray(x) if not isinstance(x, np.ndarray) else x
        return x[p] if axis == 0 else x[:, p]

    def shuffle(self, x, axis=0):
        p = self._next()
        vals = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i] for i in p]
        for i, v in enumerate(vals):
            x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        idx = self._next()
        sh = _shape(size)
        if sh is None:
            return idx[0] if isinstance(a, (int, np.integer)) else (a[idx[0]] if isinstance(a, np.ndarray) else np.asarray(a)[idx[0]] if not isinstance(a, (list, tuple)) or not a or isinstance(a[0], (int, float, np.number, bool)) else a[idx[0]])
        I = np.array(idx, dtype=int).reshape(sh)
        if isinstance(a, (int, np.integer)):
            return I
        return (a if isinstance(a, np.ndarray) else np.asarray(a))[I]

    def __deepcopy__(self, memo):
        return self


def install_scripted(script):
    """replay: unseeded generators and the global one replay the recorded draws as well"""
    reset()
    orig = getattr(np.random.default_rng, "__symx_orig__", np.random.default_rng)

    def default_rng(seed=None):
        if seed is None:
            r = ScriptedRNG(script)
            r.unseeded = True
            UNSEEDED.append(r)
            return r
        if isinstance(seed, ScriptedRNG):
            return seed
        return orig(seed)
    default_rng.__symx_orig__ = orig
    np.random.default_rng = default_rng

    def glob(name):
        def f(*a, **k):
            r = ScriptedRNG(script)
            r.unseeded = True
            UNSEEDED.append(r)
            if name == "rand":
                return r.random(tuple(a) or None)
            if name == "randn":
                return r.standard_normal(tuple(a) or None)
            return getattr(r, dict(randint="integers", random_sample="random").get(name, name))(*a, **k)
        return f
    for name in ("rand", "randn", "randint", "random", "random_sample", "uniform", "normal", "permutation", "shuffle", "choice"):
        setattr(np.random, name, glob(name))
