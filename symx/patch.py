"""Patching of loaded modules for symbolic execution: numpy proxy, builtins, Population indexing, library contracts."""
from __future__ import annotations

import builtins
import math
import sys
import types

import numpy as np

from . import array, core
from .array import SymArray, call_np, has_symarray, symize, symize_f
from .core import SymBool, SymNum, Unsupported, is_sym



class _NPFunc:
    """callable stand-in for a numpy function"""

    def __init__(self, func, name):
        self.__symx_real__ = func
        self.__name__ = name
        self._f = func

    def __call__(self, *args, **kwargs):
        return call_np(self.__name__, self._f, args, kwargs)

    def __getattr__(self, k):
        if k.startswith("__") or k == "_f":
            raise AttributeError(k)
        return getattr(self._f, k)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class _NPUfunc:
    def __init__(self, u):
        self.__symx_real__ = u
        self.__name__ = u.__name__
        self._u = u

    def __call__(self, *args, **kwargs):
        args = [array.concretize_out(a) for a in args]
        if has_symarray(args) or any(isinstance(a, (list, tuple)) for a in args):
            return array.ufunc_dispatch(self._u, "__call__", args, kwargs)
        with np.errstate(all="ignore"):
            return symize_f(self._u(*args, **kwargs))

    def _m(self, method, *args, **kwargs):
        if has_symarray(args):
            if method == "reduce" and len(args) > 1:
                kwargs = dict(kwargs, axis=args[1])
                args = args[:1]
            return array.ufunc_dispatch(self._u, method, args, kwargs)
        return symize_f(getattr(self._u, method)(*args, **kwargs))

    def reduce(self, *a, **k):
        return self._m("reduce", *a, **k)

    def accumulate(self, *a, **k):
        return self._m("accumulate", *a, **k)

    def outer(self, *a, **k):
        return self._m("outer", *a, **k)

    def at(self, *a, **k):
        return self._m("at", *a, **k)

    def __getattr__(self, k):
        if k.startswith("__") or k == "_u":
            raise AttributeError(k)
        return getattr(self._u, k)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        f = getattr(np.linalg, k)
        if callable(f) and not isinstance(f, type):
            w = _NPFunc(f, k)
            setattr(self, k, w)
            return w
        return f


class _Random:
    """np.random of the module under test: any use of the global generator or of an unseeded one is reported to a hook."""

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        if k == "default_rng":
            from . import rng
            return rng.default_rng
        v = getattr(np.random, k)
        if isinstance(v, type):
            return v

        def f(*a, **kw):
            from . import rng
            return rng.global_random(k, a, kw)
        return f


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__symx_real__ = np
        self.linalg = _Linalg()
        self.random = _Random()
        self.ma = np.ma
        self.lib = np.lib

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        if k.startswith("__") and k != "__version__":
            raise AttributeError(k)
        v = getattr(np, k)
        v = wrap_np(v, k)
        setattr(self, k, v)
        return v


def wrap_np(v, k=None):
    if isinstance(v, np.ufunc):
        return _NPUfunc(v)
    if isinstance(v, type) or isinstance(v, types.ModuleType):
        if v is np.vectorize:
            return array.np_vectorize
        return v
    if callable(v):
        return _NPFunc(v, k or v.__name__)
    return v


NP = NPProxy()


# ------------------------------------------------------------------------------------------------------- builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymNum:
            return not x.isint()
        return isinstance(x, float)

    def __call__(cls, x=0.0):
        if is_sym(x):
            return array.coerce(x, "f")
        if isinstance(x, SymArray) and x.size == 1:
            return array.coerce(x.obj().flat[0], "f")
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    __symx_real__ = float
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SymNum:
            return x.isint()
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if is_sym(x):
            return array.coerce(x, "i")
        if isinstance(x, SymArray) and x.size == 1:
            return array.coerce(x.obj().flat[0], "i")
        return int(x, *a)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    __symx_real__ = int


def s_range(*a):
    return range(*[x.__index__() if is_sym(x) else x for x in a])


def s_minmax(name, op):
    real = getattr(builtins, name)

    def f(*a, **k):
        if k or len(a) == 0:
            return real(*a, **k)
        vals = list(a[0]) if len(a) == 1 else list(a)
        if vals and any(is_sym(v) for v in vals) and all(is_sym(core.pyv(v)) or isinstance(core.pyv(v), core.NUMT) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                r = op(r, v)
            return array.wrap(r)
        return real(*a, **k)
    f.__name__ = name
    return f


class _Math(types.ModuleType):
    TABLE = {"sqrt": core.s_sqrt, "exp": core.s_exp, "log": core.s_log, "sin": core.s_sin, "cos": core.s_cos, "tan": core.s_tan,
             "acos": core.s_arccos, "atan": core.s_arctan, "asin": core.s_arcsin, "fabs": core.s_abs, "log2": core.s_log2, "log10": core.s_log10,
             "pow": core.s_pow}

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, k):
        v = getattr(math, k)
        if k in self.TABLE:
            t = self.TABLE[k]

            def f(*a):
                if any(is_sym(x) for x in a):
                    return t(*a)
                return v(*a)
        elif k in ("isnan", "isinf"):
            def f(x):
                return False if is_sym(x) else v(x)
        elif k == "isfinite":
            def f(x):
                return True if is_sym(x) else v(x)
        elif k == "isclose":
            def f(a, b, rel_tol=1e-9, abs_tol=0.0):
                if is_sym(a) or is_sym(b):
                    d = core.s_abs(core.s_sub(a, b))
                    return core.s_le(d, core.s_max(core.s_mul(rel_tol, core.s_max(core.s_abs(a), core.s_abs(b))), abs_tol))
                return v(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        elif k in ("prod", "fsum"):
            def f(xs):
                xs = list(xs)
                if any(is_sym(x) for x in xs):
                    r = xs[0]
                    for x in xs[1:]:
                        r = core.s_mul(r, x) if k == "prod" else core.s_add(r, x)
                    return r
                return v(xs)
        elif k == "dist" or k == "hypot":
            raise Unsupported("math." + k)
        else:
            return v
        setattr(self, k, f)
        return f


MATH = _Math()

BUILTINS = {"float": SFloat, "int": SInt, "range": s_range, "min": s_minmax("min", core.s_min), "max": s_minmax("max", core.s_max)}


# ------------------------------------------------------------------------------------------- library contracts

def c_cdist(A, B, metric="euclidean", **kw):
    A, B = array.as_arr(A), array.as_arr(B)
    ao, bo = A.obj(), B.obj()
    if ao.ndim != 2 or bo.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    out = np.empty((ao.shape[0], bo.shape[0]), object)
    for i in range(ao.shape[0]):
        for j in range(bo.shape[0]):
            out[i, j] = dist1(ao[i], bo[j], metric)
    return array.from_obj(out, "f")


def dist1(x, y, metric):
    d = [core.s_sub(p, q) for p, q in zip(x, y)]
    if metric in ("euclidean", "sqeuclidean"):
        s = 0.0
        for v in d:
            s = core.s_add(s, core.s_square(v))
        s = array.coerce(s, "f")
        return s if metric == "sqeuclidean" else core.s_sqrt(s)
    if metric in ("cityblock", "manhattan"):
        s = 0.0
        for v in d:
            s = core.s_add(s, core.s_abs(v))
        return s
    if metric == "chebyshev":
        s = core.s_abs(d[0])
        for v in d[1:]:
            s = core.s_max(s, core.s_abs(v))
        return s
    if callable(metric):
        return metric(array.from_obj(x.copy(), "f"), array.from_obj(y.copy(), "f"))
    raise Unsupported("cdist metric %s" % (metric,))


def c_pdist(A, metric="euclidean", **kw):
    o = array.as_arr(A).obj()
    n = len(o)
    return array.mk([dist1(o[i], o[j], metric) for i in range(n) for j in range(i + 1, n)], "f")


def c_squareform(v, *a, **k):
    v = array.as_arr(v)
    if v.ndim == 2:
        n = len(v)
        return array.mk([v.obj()[i, j] for i in range(n) for j in range(i + 1, n)], "f")
    L = len(v)
    n = int(round((1 + math.sqrt(1 + 8 * L)) / 2))
    out = np.full((n, n), 0.0, dtype=object)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            out[i, j] = out[j, i] = v.obj()[k]
            k += 1
    return array.from_obj(out, "f")


def by_contract(real, contract):
    def f(*a, **k):
        if has_symarray(a) or has_symarray(list(k.values())):
            return contract(*a, **k)
        return real(*a, **k)
    f.__symx_real__ = real
    f.__name__ = getattr(real, "__name__", "f")
    return f


# moocore ------------------------------------------------------------------------------------------------

def _dom(a, b):
    """a weakly dominates b (minimisation) and differs: z3-merged"""
    le, lt = True, False
    for x, y in zip(a, b):
        le = core.s_and(le, core.s_le(x, y))
        lt = core.s_or(lt, core.s_lt(x, y))
    return core.s_and(le, lt)


def _eqrow(a, b):
    r = True
    for x, y in zip(a, b):
        r = core.s_and(r, core.s_eq(x, y))
    return r


def m_pareto_rank(data, *, maximise=False):
    """contract of moocore.pareto_rank: rank k = non-dominated after removing ranks < k (duplicates share their rank)."""
    if np.any(maximise):
        raise Unsupported("maximise")
    o = array.as_arr(data).obj()
    n = len(o)
    rank = np.full(n, -1, int)
    D = {(i, j): core.s_truth(_dom(o[i], o[j])) for i in range(n) for j in range(n) if i != j}
    rem, k = list(range(n)), 0
    while rem:
        front = [i for i in rem if not any(D[j, i] for j in rem if j != i)]
        for i in front:
            rank[i] = k
        rem = [i for i in rem if i not in front]
        k += 1
    return rank


def m_is_nondominated(data, *, maximise=False, keep_weakly=False):
    if np.any(maximise):
        raise Unsupported("maximise")
    o = array.as_arr(data).obj()
    n = len(o)
    r = []
    for i in range(n):
        bad = False
        for j in range(n):
            if i == j:
                continue
            bad = core.s_or(bad, _dom(o[j], o[i]))
            if not keep_weakly and j < i:
                bad = core.s_or(bad, _eqrow(o[j], o[i]))
        r.append(not core.s_truth(bad))
    return np.array(r, dtype=bool)


def m_igd(data, ref, maximise=False):
    D = c_cdist(ref, data)
    return array.np_mean(array.np_min(D, axis=1))


def m_igd_plus(data, ref, maximise=False):
    A, R = array.as_arr(data).obj(), array.as_arr(ref).obj()
    out = np.empty((len(R), len(A)), object)
    for i in range(len(R)):
        for j in range(len(A)):
            s = 0.0
            for a, z in zip(A[j], R[i]):
                s = core.s_add(s, core.s_square(core.s_max(core.s_sub(a, z), 0.0)))
            out[i, j] = core.s_sqrt(s)
    return array.np_mean(array.np_min(array.from_obj(out, "f"), axis=1))


def m_epsilon(data, ref, maximise=False, mult=False):
    A, R = array.as_arr(data).obj(), array.as_arr(ref).obj()
    out = np.empty((len(R), len(A)), object)
    for i in range(len(R)):
        for j in range(len(A)):
            s = None
            for a, z in zip(A[j], R[i]):
                d = core.s_div(a, z) if mult else core.s_sub(a, z)
                s = d if s is None else core.s_max(s, d)
            out[i, j] = s
    return array.np_max(array.np_min(array.from_obj(out, "f"), axis=1))


def m_epsilon_mult(data, ref, maximise=False):
    return m_epsilon(data, ref, mult=True)


def m_hypervolume(data, ref, maximise=False):
    """exact hypervolume by inclusion-exclusion (contract of moocore.hypervolume for few points)"""
    A = array.as_arr(data).obj()
    ref = array.as_arr(ref).obj().reshape(-1)
    n, m = A.shape
    if n > 4:
        raise Unsupported("hypervolume of more than 4 points")
    tot = 0.0
    for mask in range(1, 2 ** n):
        idx = [i for i in range(n) if mask >> i & 1]
        v = 1.0
        for j in range(m):
            mx = A[idx[0], j]
            for i in idx[1:]:
                mx = core.s_max(mx, A[i, j])
            v = core.s_mul(v, core.s_max(core.s_sub(ref[j], mx), 0.0))
        tot = core.s_add(tot, v) if len(idx) % 2 else core.s_sub(tot, v)
    return tot


def m_hv_contributions(data, ref, maximise=False, **k):
    A = array.as_arr(data)
    n = len(A)
    full = m_hypervolume(A, ref)
    return array.mk([core.s_sub(full, m_hypervolume(array._delete(A, i, axis=0), ref) if n > 1 else 0.0) for i in range(n)], "f")


MOOCORE = {"pareto_rank": m_pareto_rank, "is_nondominated": m_is_nondominated, "igd": m_igd, "igd_plus": m_igd_plus,
           "epsilon_additive": m_epsilon, "epsilon_mult": m_epsilon_mult, "hypervolume": m_hypervolume, "hv_contributions": m_hv_contributions}


# -------------------------------------------------------------------------------------------------- installation

_DONE = set()
_STATE = {"installed": False}


def _replacement_table():
    import moocore
    import scipy.spatial.distance as ssd
    table = {}
    for name, c in (("cdist", c_cdist), ("pdist", c_pdist), ("squareform", c_squareform)):
        real = getattr(ssd, name)
        real = getattr(real, "__symx_real__", real)
        table[id(real)] = by_contract(real, c)
        _KEEP.append(real)
    for name, c in MOOCORE.items():
        real = getattr(moocore, name, None)
        if real is None:
            continue
        table[id(real)] = by_contract(real, c)
        _KEEP.append(real)
    return table


_KEEP = []
_TABLE = {}


def patch_module(mod):
    d = mod.__dict__
    for k, v in list(d.items()):
        if v is np or (isinstance(v, types.ModuleType) and getattr(v, "__name__", "") in ("autograd.numpy",)):
            d[k] = NP
        elif v is math:
            d[k] = MATH
        elif isinstance(v, np.ufunc):
            d[k] = _NPUfunc(v)
        elif id(v) in _TABLE:
            d[k] = _TABLE[id(v)]
        elif isinstance(v, types.ModuleType) and getattr(v, "__name__", "") == "moocore":
            d[k] = _MoocoreProxy(v)
        elif v is np.linalg:
            d[k] = NP.linalg
        elif v is np.random:
            d[k] = NP.random
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == "_ArrayFunctionDispatcher":
            m = getattr(v, "__module__", "") or ""
            if m == "numpy" or m.startswith("numpy."):
                nm = getattr(v, "__name__", k)
                if getattr(np, nm, None) is v or getattr(np.linalg, nm, None) is v:
                    d[k] = _NPFunc(v, nm)
    for k, v in BUILTINS.items():
        if k not in d:
            d[k] = v


class _MoocoreProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__("moocore")
        self._r = real

    def __getattr__(self, k):
        v = getattr(self._r, k)
        return _TABLE.get(id(v), v)


# ------------------------------------------------------------------------------------------------ subscripts
# x[k] with a plain numpy array x and an array of symbolic values k: numpy itself refuses object arrays as indices, so every
# subscript of a pymoo module goes through these two functions (same meaning, the code is otherwise compiled as it is).

def _sx_get(a, k):
    if type(a) is np.ndarray:
        if isinstance(k, array.SymArray) or (type(k) is tuple and any(isinstance(e, array.SymArray) for e in k)):
            k = array.norm_key(k)
    return a[k]


def _conc(k):
    if isinstance(k, array.SymArray) and k.ld in "bi" and not any(core.is_sym(v) for v in k.obj().flat):
        return np.array(k.obj().tolist(), dtype=bool if k.ld == "b" else int).reshape(k.shape)
    return k


def _sx_key(k):
    if isinstance(k, array.SymArray):
        return _conc(k)
    if type(k) is tuple:
        return tuple(_conc(e) for e in k)
    return k


def instrument(src, path):
    import ast

    def expr(k):
        if isinstance(k, ast.Slice):
            none = lambda e: e if e is not None else ast.Constant(None)
            return ast.Call(ast.Name("_sx_slice", ast.Load()), [none(k.lower), none(k.upper), none(k.step)], [])
        if isinstance(k, ast.Tuple):
            return ast.Tuple([expr(e) for e in k.elts], ast.Load())
        return k

    def call(name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    class T(ast.NodeTransformer):
        def visit_Subscript(self, node):
            self.generic_visit(node)
            k = node.slice
            if any(isinstance(e, ast.Starred) for e in ast.walk(k)):
                return node
            if isinstance(node.ctx, ast.Load):
                if isinstance(k, ast.Constant):
                    return node
                return ast.copy_location(call("_sx_get", node.value, expr(k)), node)
            if isinstance(node.ctx, ast.Store) and not isinstance(k, (ast.Constant, ast.Slice)):
                node.slice = call("_sx_key", expr(k))
            return node

        def visit_AnnAssign(self, node):
            if node.value is not None:
                node.value = self.visit(node.value)
            return node

        def visit_arg(self, node):
            return node

        def _fn(self, node):
            node.body = [self.visit(b) for b in node.body]
            node.args = self.visit(node.args)
            node.decorator_list = [self.visit(b) for b in node.decorator_list]
            return node
        visit_FunctionDef = visit_AsyncFunctionDef = _fn
    tree = ast.fix_missing_locations(T().visit(ast.parse(src, path)))
    return compile(tree, path, "exec", dont_inherit=True)


class _Hook:
    """import hook: pymoo modules imported later are patched as soon as they are executed"""

    def find_spec(self, fullname, path=None, target=None):
        if not (fullname == "pymoo" or fullname.startswith("pymoo.")):
            return None
        import importlib.machinery
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or spec.loader is None or not (spec.origin or "").endswith(".py"):
            return spec
        ld = spec.loader
        orig = ld.exec_module
        path = spec.origin

        def get_code(name):
            with open(path, "rb") as f:
                src = f.read()
            return instrument(src, path)
        ld.get_code = get_code

        def exec_module(module):
            orig(module)
            if fullname not in _DONE:
                _DONE.add(fullname)
                patch_module(module)
        ld.exec_module = exec_module
        return spec


def _fake_numba():
    """just-in-time compiled functions run as the Python functions they are written as"""
    m = types.ModuleType("numba")

    def jit(*a, **k):
        return a[0] if len(a) == 1 and callable(a[0]) and not k else (lambda f: f)
    m.jit = m.njit = jit
    m.intp, m.boolean, m.float64, m.int64, m.prange = np.intp, np.bool_, np.float64, np.int64, range
    sys.modules["numba"] = m


def install():
    """Patch every loaded pymoo module (idempotent, incremental)."""
    if not _TABLE:
        _TABLE.update(_replacement_table())
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "pymoo" or name.startswith("pymoo.")):
            continue
        if name in _DONE or not isinstance(mod, types.ModuleType) or getattr(mod, "__file__", "") is None:
            continue
        if (getattr(mod, "__file__", "") or "").endswith(".so"):
            continue
        _DONE.add(name)
        patch_module(mod)
    if not _STATE["installed"]:
        _STATE["installed"] = True
        import builtins
        builtins._sx_get, builtins._sx_key, builtins._sx_slice = _sx_get, _sx_key, slice
        sys.meta_path.insert(0, _Hook())
        _patch_population()
        _patch_functions()
        _fake_numba()
        # function-local imports see the contracts too
        import moocore
        for nm in list(MOOCORE):
            v = getattr(moocore, nm, None)
            if v is not None and id(v) in _TABLE:
                setattr(moocore, nm, _TABLE[id(v)])
        import scipy.spatial.distance as ssd
        for nm in ("cdist", "pdist", "squareform"):
            v = getattr(ssd, nm)
            if id(v) in _TABLE:
                setattr(ssd, nm, _TABLE[id(v)])


def _patch_population():
    from pymoo.core.population import Population

    orig = Population.__getitem__

    def getitem(self, key):
        return orig(self, array.norm_key(key))
    Population.__getitem__ = getitem

    orig_set = Population.__setitem__

    def setitem(self, key, v):
        return orig_set(self, array.norm_key(key), v)
    Population.__setitem__ = setitem


def _patch_functions():
    """load_function: the Python implementations by default (the compiled extension cannot run on symbolic values)."""
    import pymoo.functions as pf

    orig = pf.FunctionLoader.load

    def load(self, func_name=None, mode=None):
        return orig(self, func_name, "python")
    pf.FunctionLoader.load = load
