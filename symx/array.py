"""SymArray: an ndarray subclass with object storage whose elements are Python scalars or symbolic scalars.

Structural operations (indexing, reshape, stacking) are numpy's own; arithmetic, comparisons, reductions, sorting and
data-dependent indexing are reimplemented here on symbolic scalars.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from .core import *  # noqa: F401,F403
from .core import BOOLS, INTS, NUMT, SymBool, SymNum, Unsupported, Infeasible, ctx, is_sym, nonfinite, pyv
from . import core
import z3

OBJ = np.dtype(object)
KIND_DT = {"f": np.dtype("float64"), "i": np.dtype("int64"), "b": np.dtype("bool"), "O": OBJ}


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt in (float, "float", "f", "d", "float64", "f8"):
        return "f"
    if dt in (int, "int", "i", "int64"):
        return "i"
    if dt in (bool, "bool", "?"):
        return "b"
    if dt in (object, "O", "object"):
        return "O"
    real = getattr(dt, "__symx_real__", None)
    if real is not None:
        return kind_of_dtype(real)
    k = np.dtype(dt).kind
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "O"}.get(k, k)


def kind_of(v):
    t = type(v)
    if t is SymNum:
        return "i" if v.isint() else "f"
    if t is SymBool or t is bool:
        return "b"
    if t is float:
        return "f"
    if t is int:
        return "i"
    if isinstance(v, np.ndarray):
        return v.ld if isinstance(v, SymArray) else kind_of_dtype(v.dtype)
    v = pyv(v)
    if type(v) in (bool, int, float):
        return kind_of(v)
    return "O"


ORDER = {"b": 0, "i": 1, "f": 2, "O": 3}


def join_kind(*ks):
    r = "b"
    for k in ks:
        if ORDER.get(k, 3) > ORDER[r]:
            r = k if k in ORDER else "O"
    return r


def coerce(v, kind):
    v = pyv(v)
    if kind is None or kind == "O":
        return v
    if kind == "f":
        if type(v) in (bool, int):
            return float(v)
        if type(v) is SymBool or (type(v) is SymNum and v.isint()):
            return SymNum(core.to_real(v))
        if v is None:
            return core.NAN
        if isinstance(v, str):
            return float(v)
        return v
    if kind == "i":
        if type(v) is bool:
            return int(v)
        if type(v) is float:
            if v != v or v in (core.INF, -core.INF):
                return -(2 ** 63)
            return int(v)
        if type(v) is SymBool:
            return SymNum(core.to_int(v))
        if type(v) is SymNum and not v.isint():
            return core.s_trunc_int(v)
        return v
    if kind == "b":
        if v is None:
            return False
        return core.s_bool(v)
    return v


def wrap(v):
    """Element handed out of an array: concrete values get numpy scalar semantics."""
    t = type(v)
    if t is float:
        return np.float64(v)
    if t is int:
        return np.int64(v)
    if t is bool:
        return np.bool_(v)
    return v


class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self.ld = getattr(obj, "ld", "O")

    @property
    def dtype(self):
        return KIND_DT[self.ld]

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    # -- construction helpers
    def obj(self):
        return self.view(np.ndarray)

    # -- indexing
    def __getitem__(self, key):
        key = norm_key(key, self.shape)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, SymArray):
            return r
        return wrap(r)

    def __setitem__(self, key, value):
        ma = merge_assign(self, key, value)
        if ma:
            return
        key = norm_key(key, self.shape)
        if self.ld == "O" and isinstance(value, (list, tuple)) and not any(isinstance(v, (np.ndarray, list, tuple)) for v in value):
            # numpy keeps the elements of a list as they are when it fills an array of objects
            np.ndarray.__setitem__(self.view(np.ndarray), key, np.fromiter(value, dtype=object, count=len(value)))
            return
        if isinstance(value, np.ndarray) or isinstance(value, (list, tuple)):
            value = to_obj(value)
            if self.ld != "O":
                value = map1(lambda v: coerce(v, self.ld), value)
        else:
            value = coerce(value, self.ld)
            if self.ld == "O" and not isinstance(value, (int, float, bool, SymNum, SymBool)):
                np.ndarray.__setitem__(self, key, value)
                return
            if not isinstance(value, (int, float, bool, SymNum, SymBool)):
                box = np.empty((), object)
                box[()] = value
                value = box
        np.ndarray.__setitem__(self.view(np.ndarray), key, value)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __array_ufunc__(self, uf_, method, *inputs, **kw):
        return ufunc_dispatch(uf_, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return core.s_truth(self.obj().flat[0])

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return int(self.obj().flat[0].__index__())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self.size == 1:
            return int(self.obj().flat[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __float__(self):
        if self.size == 1:
            return float(self.obj().flat[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __contains__(self, v):
        return bool(np_any(elementwise2(core.s_eq, self, v)))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return a[()]
            return [rec(x) if isinstance(x, np.ndarray) else x for x in a]
        return rec(self.obj())

    def item(self, *k):
        if not k:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return self.obj().flat[0]
        return self.obj().item(*k)

    def copy(self, order="C"):
        r = np.ndarray.copy(self)
        r.ld = self.ld
        return r

    def astype(self, dtype=None, *a, copy=True, **k):
        t = dtype
        kd = kind_of_dtype(t)
        if kd not in ORDER:
            c = concrete(self)
            if c is None:
                raise Unsupported("astype(%s)" % (t,))
            return c.astype(t)
        if kd == self.ld and not copy:
            return self
        return from_obj(map1(lambda v: coerce(v, kd), self.obj()), kd)

    def tobytes(self, *a, **k):
        c = concrete(self)
        if c is None:
            raise Unsupported("tobytes of symbolic values")
        return c.tobytes()

    def fill(self, v):
        self[...] = v

    def __repr__(self):
        return "SymArray(%s)" % (self.tolist(),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = np_sort(self, axis=axis)

    def partition(self, kth, axis=-1, **k):
        self[...] = np_sort(self, axis=axis)

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        return np.ndarray.view(self, *a, **k)


def _method(name):
    def m(self, *args, **kwargs):
        return FUNCS[name](self, *args, **kwargs)
    m.__name__ = name
    return m


# ------------------------------------------------------------------------------------------------------ conversions

def to_obj(x):
    """ndarray of object dtype (base class) with canonical Python scalars."""
    if isinstance(x, SymArray):
        return np.ndarray.view(x, np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            return np.asarray(x).view(np.ndarray)
        return x.view(np.ndarray).astype(object)
    if isinstance(x, (list, tuple, range)):
        return to_obj(mk(x))
    b = np.empty((), object)
    b[()] = pyv(x)
    return b


def from_obj(o, kind=None):
    if kind is None:
        kind = infer_kind(o)
    r = o.view(SymArray)
    r.ld = kind
    return r


def infer_kind(o):
    k = "b"
    if o.size == 0:
        return "f"
    for v in o.flat:
        k = join_kind(k, kind_of(v))
        if k == "O":
            break
    return k


def map1(fn, o):
    out = np.empty(o.shape, object)
    of = out.reshape(-1)
    for i, v in enumerate(o.flat):
        of[i] = fn(v)
    return of.reshape(o.shape)


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        for v in x.obj().flat:
            if is_sym(v):
                return True
        return False
    if isinstance(x, np.ndarray):
        return False
    if isinstance(x, (list, tuple, set)) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x.values())
    return False


def has_symarray(x, depth=0):
    if is_sym(x) or isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_symarray(v, depth + 1) for v in x)
    return False


def concrete(a):
    """native ndarray if no element is symbolic, else None"""
    o = a.obj()
    for v in o.flat:
        if is_sym(v):
            return None
    if a.ld == "O":
        return o
    return o.astype(KIND_DT[a.ld])


def concretize_deep(x):
    if isinstance(x, SymArray):
        c = concrete(x)
        return x if c is None else c
    if isinstance(x, list):
        return [concretize_deep(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concretize_deep(v) for v in x)
    if isinstance(x, dict):
        return {k: concretize_deep(v) for k, v in x.items()}
    if getattr(x, "__symx_real__", None) is not None:
        return x.__symx_real__
    return x


def symize(x):
    """numeric native arrays -> SymArray (so that later in-place symbolic stores work)"""
    if isinstance(x, SymArray):
        return x
    if type(x) is np.ndarray and x.dtype.kind in "fiub":
        return from_obj(x.astype(object), kind_of_dtype(x.dtype))
    if type(x) is tuple:
        return tuple(symize(v) for v in x)
    return x


def symize_f(x):
    """float results only: integer and boolean results stay native, so that they can index native arrays"""
    if type(x) is np.ndarray and x.dtype.kind == "f":
        return symize(x)
    if type(x) is tuple:
        return tuple(symize_f(v) for v in x)
    return x


def mk0(v):
    b = np.empty((), object)
    b[()] = v
    return from_obj(b)


def mk(x, kind=None):
    """np.array for possibly symbolic (nested) input; always a copy."""
    if isinstance(x, SymArray):
        r = x.copy()
        return r if kind is None or kind == r.ld else r.astype_kind(kind)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fiub":
            r = from_obj(x.view(np.ndarray).astype(object), kind_of_dtype(x.dtype))
            return r if kind is None else r.astype_kind(kind)
        if x.dtype == OBJ:
            if has_symarray(list(x.flat)):
                return mk(list(x), kind) if x.ndim == 1 else from_obj(x.view(np.ndarray).copy(), kind)
            if kind in ("f", "i", "b"):
                return from_obj(map1(lambda v: coerce(v, kind), x.view(np.ndarray)), kind)
            return np.array(x)
        return np.array(x)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            r = from_obj(np.empty((0,), object), kind or "f")
            return r
        if not has_symarray(x):
            a = np.array(x, dtype=None if kind != "O" else object)
            if a.dtype.kind in "fiub":
                r = from_obj(a.astype(object), kind_of_dtype(a.dtype))
                return r if kind is None else r.astype_kind(kind)
            if a.dtype == OBJ and kind in ("f", "i", "b"):
                return from_obj(map1(lambda v: coerce(v, kind), a), kind)
            return a
        parts = []
        for v in x:
            if isinstance(v, (list, tuple, range)):
                v = mk(v)
            parts.append(v)
        shapes = {np.shape(p) if isinstance(p, np.ndarray) else () for p in parts}
        if len(shapes) > 1:
            if kind == "O":
                out = np.empty(len(parts), object)
                for i, p in enumerate(parts):
                    out[i] = p
                return from_obj(out, "O")
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        sh = shapes.pop()
        out = np.empty((len(parts),) + sh, object)
        ks = []
        for i, p in enumerate(parts):
            if sh == ():
                out[i] = pyv(p)
                ks.append(kind_of(out[i]))
            else:
                out[i] = to_obj(p)
                ks.append(kind_of(p))
        k0 = join_kind(*ks)
        r = from_obj(out, k0)
        if k0 == "f" and any(k != "f" for k in ks):
            r = r.astype_kind("f", force=True)
        return r if kind is None else r.astype_kind(kind)
    b = np.empty((), object)
    b[()] = pyv(x)
    r = from_obj(b)
    return r if kind is None else r.astype_kind(kind)


def _astype_kind(self, kind, force=False):
    if kind == self.ld and not force:
        return self
    return from_obj(map1(lambda v: coerce(v, kind), self.obj()), kind)


SymArray.astype_kind = _astype_kind


# ------------------------------------------------------------------------------------------------------- indexing

def norm_index(k):
    if type(k) is SymNum:
        return k.__index__()
    if type(k) is SymBool:
        return core.s_truth(k)
    if isinstance(k, SymArray):
        if k.ld == "b":
            return map1(core.s_truth, k.obj()).astype(bool)
        if k.size == 0:
            return np.zeros(k.shape, dtype=int)
        if k.ld == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")

        def ix(v):
            if v is None:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return v.__index__()
        return map1(ix, k.obj()).astype(int)
    if isinstance(k, list):
        if has_sym(k):
            return norm_index(mk(k))
        return k
    if isinstance(k, slice):
        def b(v):
            return v.__index__() if is_sym(v) else v
        return slice(b(k.start), b(k.stop), b(k.step))
    return k


def norm_key(key, shape=None):
    if isinstance(key, tuple):
        return tuple(norm_index(k) for k in key)
    return norm_index(key)


def merge_assign(a, key, value):
    """a[mask] = scalar with a symbolic mask is done without forking."""
    if not isinstance(key, SymArray) or key.ld != "b" or a.ld == "O":
        return False
    ko = key.obj()
    if not any(is_sym(v) for v in ko.flat):
        return False
    if key.shape != a.shape[: key.ndim]:
        return False
    if isinstance(value, np.ndarray):
        if value.size != 1:
            return False
        value = to_obj(value).flat[0]
    elif isinstance(value, (list, tuple)):
        return False
    value = coerce(value, a.ld)
    if not (is_sym(value) or isinstance(value, NUMT)) or nonfinite(value):
        return False
    ao = a.obj()
    for v in ao.flat:
        if nonfinite(v) or v is None:
            return False
    for idx in np.ndindex(*key.shape):
        sub = ao[idx]
        if isinstance(sub, np.ndarray):
            ao[idx] = map1(lambda v: core.s_where(ko[idx], value, v), sub)
        else:
            ao[idx] = core.s_where(ko[idx], value, sub)
    core.ctx().stats.merged += 1
    return True


# ---------------------------------------------------------------------------------------------------------- ufuncs

def _obj_bin(op):
    return op


ARITH2 = {
    "add": core.s_add, "subtract": core.s_sub, "multiply": core.s_mul, "true_divide": core.s_div,
    "divide": core.s_div, "floor_divide": core.s_floordiv, "remainder": core.s_mod, "mod": core.s_mod,
    "power": core.s_pow, "float_power": core.s_pow, "maximum": core.s_max, "minimum": core.s_min,
    "fmax": core.s_fmax, "fmin": core.s_fmin,
}
CMP2 = {
    "less": core.s_lt, "less_equal": core.s_le, "greater": lambda a, b: core.s_lt(b, a),
    "greater_equal": lambda a, b: core.s_le(b, a), "equal": core.s_eq, "not_equal": core.s_ne,
    "logical_and": core.s_and, "logical_or": core.s_or, "logical_xor": core.s_xor,
}


def _is_nan(a):
    a = pyv(a)
    return isinstance(a, float) and a != a


def _is_inf(a):
    a = pyv(a)
    return isinstance(a, float) and a in (core.INF, -core.INF)


def _recip(a):
    return core.s_div(1.0, a)


def _log1p(a):
    return core.s_log(core.s_add(1.0, a))


def _expm1(a):
    return core.s_sub(core.s_exp(a), 1.0)


def _exp2(a):
    return core.s_pow(2.0, a)


def _cbrt(a):
    return core.s_pow(a, 1.0 / 3.0)


UN_F = {
    "sqrt": core.s_sqrt, "exp": core.s_exp, "log": core.s_log, "sin": core.s_sin, "cos": core.s_cos, "tan": core.s_tan,
    "arccos": core.s_arccos, "arctan": core.s_arctan, "arcsin": core.s_arcsin, "log2": core.s_log2, "log10": core.s_log10,
    "log1p": _log1p, "expm1": _expm1, "exp2": _exp2, "reciprocal": _recip, "rint": core.s_rint, "cbrt": _cbrt,
    "deg2rad": lambda a: core.s_mul(a, math.pi / 180), "radians": lambda a: core.s_mul(a, math.pi / 180),
}
UN_SAME = {"negative": core.s_neg, "positive": lambda a: a, "absolute": core.s_abs, "fabs": core.s_abs, "sign": core.s_sign,
           "square": core.s_square, "floor": core.s_floor, "ceil": core.s_ceil, "conjugate": lambda a: a,
           "trunc": lambda a: coerce(core.s_trunc_int(a), "f")}
UN_B = {"isnan": _is_nan, "isinf": _is_inf, "isfinite": lambda a: not (_is_nan(a) or _is_inf(a)), "logical_not": core.s_not,
        "signbit": lambda a: core.s_lt(a, 0)}


def scal(v, kind=None):
    return wrap(v)


def finish(out, kind):
    if out.ndim == 0:
        return wrap(coerce(out[()], kind))
    return from_obj(out, kind)


def elementwise2(fn, a, b, kind=None):
    A, B = np.broadcast_arrays(to_obj(a), to_obj(b))
    out = np.empty(A.shape, object)
    of = out.reshape(-1)
    for i, (x, y) in enumerate(zip(A.flat, B.flat)):
        of[i] = fn(x, y)
    out = of.reshape(A.shape)
    if kind is None:
        kind = "b" if fn in (core.s_eq, core.s_ne, core.s_lt, core.s_le, core.s_and, core.s_or, core.s_xor, core._gt, core._ge) \
            else ("f" if fn is core.s_div else None)
    return finish(out, kind if kind is not None else infer_kind(out))


def result_kind(name, ks):
    j = join_kind(*ks)
    if name in ("true_divide", "divide", "float_power"):
        return "f" if j != "O" else "O"
    if j == "b" and name in ("subtract", "floor_divide", "remainder", "power"):
        return "i"
    return j


def apply2(name, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if isinstance(a, (list, tuple)):
        a = mk(a)
        ka = kind_of(a)
    if isinstance(b, (list, tuple)):
        b = mk(b)
        kb = kind_of(b)
    if name in ARITH2:
        fn = ARITH2[name]
        k = result_kind(name, (ka, kb))
        if k == "b":
            fn = {"add": core.s_or, "multiply": core.s_and, "maximum": core.s_or, "minimum": core.s_and}.get(name, fn)
        if "O" in (ka, kb):
            base = fn

            def fn(x, y):  # noqa: F811
                if isinstance(x, NUMT) or is_sym(x):
                    if isinstance(y, NUMT) or is_sym(y):
                        return base(x, y)
                return getattr(np, name)(x, y)
        elif k == "f":
            base2 = fn

            def fn(x, y):  # noqa: F811
                return coerce(base2(x, y), "f")
        return fn, k
    if name in CMP2:
        return CMP2[name], "b"
    if name in ("bitwise_and", "bitwise_or", "bitwise_xor"):
        if join_kind(ka, kb) == "b":
            return {"bitwise_and": core.s_and, "bitwise_or": core.s_or, "bitwise_xor": core.s_xor}[name], "b"
        raise Unsupported("bitwise operation on integers")
    raise Unsupported("ufunc " + name)


def ufunc_dispatch(u, method, inputs, kw):
    name = u.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    dt = kw.pop("dtype", None)
    if method == "__call__":
        if not any(has_sym(x) for x in inputs) and where is True:
            ins = [concretize_deep(x) for x in inputs]
            if not any(isinstance(x, np.ndarray) and x.dtype == OBJ for x in ins):
                with np.errstate(all="ignore"):
                    r = u(*ins, dtype=concretize_deep(dt)) if dt is not None else u(*ins)
                r = symize_f(r)
                if out is None:
                    return r
                return store_out(out, r)
        if name == "matmul":
            r = np_dot(*inputs)
        elif name == "divmod":
            r = (ufunc_dispatch(np.floor_divide, "__call__", inputs, {}), ufunc_dispatch(np.remainder, "__call__", inputs, {}))
            return r
        elif u.nin == 1:
            x = inputs[0]
            if isinstance(x, (list, tuple)):
                x = mk(x)
            k = kind_of(x)
            if name in UN_F:
                fn, k2 = UN_F[name], "f"
            elif name in UN_SAME:
                fn, k2 = UN_SAME[name], k
            elif name in UN_B:
                fn, k2 = UN_B[name], "b"
            elif name == "invert":
                if k != "b":
                    raise Unsupported("bitwise not on integers")
                fn, k2 = core.s_not, "b"
            else:
                raise Unsupported("ufunc " + name)
            r = finish(map1(fn, to_obj(x)), k2)
        else:
            fn, k2 = apply2(name, *inputs)
            if where is not True:
                W = to_obj(where)
                A, B, W = np.broadcast_arrays(to_obj(inputs[0]), to_obj(inputs[1]), W)
                if out is None:
                    raise Unsupported("ufunc where= without out=")
                O = np.broadcast_to(to_obj(out[0]), A.shape)
                res = np.empty(A.shape, object)
                rf = res.reshape(-1)
                for i, (x, y, w, o) in enumerate(zip(A.flat, B.flat, W.flat, O.flat)):
                    rf[i] = fn(x, y) if core.s_truth(w) else o
                r = finish(rf.reshape(A.shape), k2)
            else:
                r = elementwise2(fn, inputs[0], inputs[1], k2)
        if dt is not None:
            r = coerce(r, kind_of_dtype(dt)) if not isinstance(r, np.ndarray) else r.astype(dt)
        if out is not None:
            return store_out(out, r)
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        table = {"add": np_sum, "multiply": np_prod, "minimum": np_min, "maximum": np_max, "logical_and": np_all,
                 "logical_or": np_any, "bitwise_or": np_any, "bitwise_and": np_all}
        if name not in table:
            raise Unsupported("reduce of " + name)
        return table[name](a, axis=axis, keepdims=keep)
    if method == "accumulate":
        a = inputs[0]
        fn, k = apply2(name, a, a)
        return accumulate(fn, a, kw.get("axis", 0))
    if method == "outer":
        a, b = mk(inputs[0]), mk(inputs[1])
        return ufunc_dispatch(u, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == "at":
        a, idx = inputs[0], norm_key(inputs[1])
        if len(inputs) == 2:
            raise Unsupported("unary ufunc.at")
        fn, k = apply2(name, a, inputs[2])
        pos = np.arange(a.size).reshape(a.shape)[idx]
        vals = np.broadcast_to(to_obj(inputs[2]), pos.shape)
        flat = to_obj(a).reshape(-1)
        for p, v in zip(pos.flat, vals.flat):
            flat[p] = coerce(fn(flat[p], v), kind_of(a))
        if not np.shares_memory(flat, to_obj(a)):
            raise Unsupported("ufunc.at on non-contiguous array")
        return None
    raise Unsupported("ufunc method " + method)


def store_out(out, r):
    o = out[0] if isinstance(out, tuple) else out
    if isinstance(o, SymArray):
        rk = kind_of(r)
        if ORDER.get(rk, 3) > ORDER[o.ld] and o.ld != "O" and rk != "b":
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (rk, o.ld))
        np.ndarray.__setitem__(o.obj(), Ellipsis, map1(lambda v: coerce(v, o.ld), to_obj(r)) if o.shape != ()
                               else coerce(to_obj(r)[()], o.ld))
        return o
    if isinstance(o, np.ndarray):
        if o.dtype == OBJ:
            o[...] = to_obj(r)
            return o
        c = concrete(r) if isinstance(r, SymArray) else (r if not is_sym(r) else None)
        if c is None:
            raise Unsupported("in-place symbolic store into a native array")
        o[...] = c
        return o
    raise Unsupported("out= of type %s" % type(o))


# ------------------------------------------------------------------------------------------------------- reductions

def as_arr(a):
    if isinstance(a, SymArray):
        return a
    return mk(a) if not isinstance(a, np.ndarray) else (symize(a) if a.dtype != OBJ else from_obj(a.view(np.ndarray), infer_kind(a)))


def norm_axis(axis, nd):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        return tuple(int(x) % nd for x in axis)
    axis = int(axis)
    if axis >= nd or axis < -nd:
        raise np.exceptions.AxisError(axis, nd)
    return axis % nd


def reduce_axis(a, axis, keepdims, fn, kind=None, empty=None):
    """fn maps a list of scalars to a scalar"""
    a = as_arr(a)
    o = a.obj()
    axis = norm_axis(axis, max(o.ndim, 1)) if o.ndim else None
    if axis is None:
        vals = list(o.flat)
        if not vals and empty is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = fn(vals) if vals else empty
        if keepdims:
            b = np.empty((1,) * o.ndim, object)
            b[...] = r
            return from_obj(b, kind or kind_of(r))
        return wrap(coerce(r, kind))
    if isinstance(axis, tuple):
        rest = [i for i in range(o.ndim) if i not in axis]
        t = o.transpose(rest + list(axis)).reshape([o.shape[i] for i in rest] + [-1])
        r = reduce_axis(from_obj(t, a.ld), -1, False, fn, kind, empty)
        if keepdims:
            return r.reshape([1 if i in axis else o.shape[i] for i in range(o.ndim)])
        return r
    t = np.moveaxis(o, axis, -1)
    if t.shape[-1] == 0 and empty is None:
        raise ValueError("zero-size array to reduction operation which has no identity")
    out = np.empty(t.shape[:-1], object)
    for idx in np.ndindex(*out.shape):
        vals = list(t[idx])
        out[idx] = fn(vals) if vals else empty
    k = kind if kind is not None else (infer_kind(out) if out.size else a.ld)
    if out.ndim == 0 and not keepdims:
        return wrap(coerce(out[()], k))
    if k != "O":
        out = map1(lambda v: coerce(v, k), out)
    r = from_obj(out, k)
    if keepdims:
        r = np.expand_dims(r, axis)
    return r


def _fold(fn, vals, init=None):
    it = iter(vals)
    r = next(it) if init is None else init
    for v in it:
        r = fn(r, v)
    return r


def _tree(fn, vals):
    vals = list(vals)
    while len(vals) > 1:
        vals = [fn(vals[i], vals[i + 1]) if i + 1 < len(vals) else vals[i] for i in range(0, len(vals), 2)]
    return vals[0]


def _sum_list(vals):
    return _fold(core.s_add, [v for v in vals])


def _kin(a):
    k = kind_of(a) if isinstance(a, np.ndarray) else kind_of(as_arr(a))
    return "i" if k == "b" else k


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
    a = as_arr(a)
    if where is not True:
        a = np_where(where, a, 0)
    kd = kind_of_dtype(dtype) or _kin(a)
    f = (lambda vals: _fold(core.s_add, vals, 0)) if a.ld == "b" else _sum_list
    r = reduce_axis(a, axis, keepdims, f, kd, 0.0 if kd == "f" else 0)
    if initial is not None:
        r = r + initial
    return r


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_arr(a)
    return reduce_axis(a, axis, keepdims, lambda v: _fold(core.s_mul, v), _kin(a), 1.0)


def np_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = as_arr(a)
    r = reduce_axis(a, axis, keepdims, lambda v: _fold(core.s_min, v), a.ld if a.ld != "O" else None, initial)
    return core.s_min(r, initial) if initial is not None and not isinstance(r, np.ndarray) else r


def np_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = as_arr(a)
    r = reduce_axis(a, axis, keepdims, lambda v: _fold(core.s_max, v), a.ld if a.ld != "O" else None, initial)
    return core.s_max(r, initial) if initial is not None and not isinstance(r, np.ndarray) else r


def np_nanmin(a, axis=None, **k):
    return reduce_axis(as_arr(a), axis, False, lambda v: _fold(core.s_fmin, v), "f")


def np_nanmax(a, axis=None, **k):
    return reduce_axis(as_arr(a), axis, False, lambda v: _fold(core.s_fmax, v), "f")


def np_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda v: core.s_bool(_fold(core.s_or, v, False)), "b", False)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda v: core.s_bool(_fold(core.s_and, v, True)), "b", True)


def np_count_nonzero(a, axis=None, keepdims=False):
    return np_sum(finish(map1(core.s_bool, as_arr(a).obj()), "b"), axis=axis, keepdims=keepdims)


def _mean_list(v):
    return core.s_div(coerce(_sum_list(v), "f"), float(len(v)))


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, _mean_list, "f", core.NAN)


def _nanfilter(v):
    return [x for x in v if not _is_nan(x)]


def np_nanmean(a, axis=None, **k):
    return reduce_axis(a, axis, False, lambda v: (_mean_list(_nanfilter(v)) if _nanfilter(v) else core.NAN), "f", core.NAN)


def np_nansum(a, axis=None, **k):
    return reduce_axis(a, axis, False, lambda v: (_sum_list(_nanfilter(v)) if _nanfilter(v) else 0.0), None, 0.0)


def _var_list(v, ddof=0):
    m = _mean_list(v)
    s = _sum_list([core.s_square(core.s_sub(x, m)) for x in v])
    return core.s_div(s, float(len(v) - ddof))


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda v: _var_list(v, ddof), "f", core.NAN)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda v: core.s_sqrt(_var_list(v, ddof)), "f", core.NAN)


def np_ptp(a, axis=None, **k):
    return np_max(a, axis=axis) - np_min(a, axis=axis)


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis=axis)
    raise Unsupported("weighted average")


def accumulate(fn, a, axis):
    a = as_arr(a)
    o = a.obj()
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    axis = norm_axis(axis, o.ndim)
    t = np.moveaxis(o, axis, -1)
    out = np.empty(t.shape, object)
    for idx in np.ndindex(*t.shape[:-1]):
        acc = None
        for j in range(t.shape[-1]):
            acc = t[idx][j] if acc is None else fn(acc, t[idx][j])
            out[idx + (j,)] = acc
    return from_obj(np.moveaxis(out, -1, axis), infer_kind(out))


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = as_arr(a)
    if a.ld == "b":
        a = a.astype_kind("i")
    return accumulate(core.s_add, a, axis)


def np_cumprod(a, axis=None, dtype=None, out=None):
    return accumulate(core.s_mul, a, axis)


# ---------------------------------------------------------------------------------------------------------- sorting

def _nanlast(v):
    return isinstance(v, float) and v != v


def sort_list(vals):
    """sorted values as a merging sorting network (no forks for finite values)"""
    vals = list(vals)
    if not any(is_sym(v) for v in vals):
        nn = sorted(v for v in vals if not _nanlast(v))
        return nn + [v for v in vals if _nanlast(v)]
    n = len(vals)
    tail = [v for v in vals if _nanlast(v) or v == core.INF and not is_sym(v)]
    head = [v for v in vals if not is_sym(v) and v == -core.INF]
    mid = [v for v in vals if is_sym(v) or not nonfinite(v)]
    infs = [v for v in tail if not _nanlast(v)]
    nans = [v for v in tail if _nanlast(v)]
    m = len(mid)
    for i in range(m):
        for j in range(m - 1 - i):
            a, b = mid[j], mid[j + 1]
            mid[j], mid[j + 1] = core.s_min(a, b), core.s_max(a, b)
    assert len(head) + m + len(infs) + len(nans) == n
    return head + mid + infs + nans


def argsort_list(vals, lt=None):
    """stable insertion argsort; forks on comparisons"""
    n = len(vals)
    if lt is None:
        def lt(i, j):
            a, b = vals[i], vals[j]
            if _nanlast(a):
                return False
            if _nanlast(b):
                return True
            return core.s_truth(core.s_lt(a, b))
    order = []
    for i in range(n):
        # binary insertion: position after all elements that are <= vals[i]
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if lt(i, order[mid]):
                hi = mid
            else:
                lo = mid + 1
        order.insert(lo, i)
    return order


def along(a, axis, fn, kind):
    a = as_arr(a)
    o = a.obj()
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    axis = norm_axis(axis, o.ndim)
    t = np.moveaxis(o, axis, -1)
    res = {}
    L = None
    for idx in np.ndindex(*t.shape[:-1]):
        r = fn(list(t[idx]))
        res[idx] = r
        L = len(r)
    if L is None:
        L = t.shape[-1]
    out = np.empty(t.shape[:-1] + (L,), object)
    for idx, r in res.items():
        for j, v in enumerate(r):
            out[idx + (j,)] = v
    return from_obj(np.moveaxis(out, -1, axis), kind or a.ld)


def np_sort(a, axis=-1, kind=None, order=None, **k):
    return along(a, axis, sort_list, None)


def np_argsort(a, axis=-1, kind=None, order=None, **k):
    r = along(a, axis, argsort_list, "i")
    return concrete(r)


def np_lexsort(keys, axis=-1):
    ks = [to_obj(k) for k in keys] if isinstance(keys, (list, tuple)) else [to_obj(keys)[i] for i in range(len(keys))]
    if ks[0].ndim != 1:
        raise Unsupported("lexsort of multi-dimensional keys")
    n = len(ks[0])
    ks = [[pyv(v) for v in k] for k in ks][::-1]  # last key is primary

    def lt(i, j):
        for k in ks:
            a, b = k[i], k[j]
            if core.s_truth(core.s_lt(a, b)):
                return True
            if core.s_truth(core.s_lt(b, a)):
                return False
        return False
    return np.array(argsort_list(list(range(n)), lt), dtype=int)


def np_partition(a, kth, axis=-1, **k):
    return np_sort(a, axis=axis)


def np_argpartition(a, kth, axis=-1, **k):
    return np_argsort(a, axis=axis)


def arg_best(vals, better):
    """index of the first best element; n-way fork"""
    if not any(is_sym(v) for v in vals):
        for i, v in enumerate(vals):
            if _nanlast(v):
                return i
        best = 0
        for i in range(1, len(vals)):
            if better(vals[i], vals[best]):
                best = i
        return best
    for i, v in enumerate(vals):
        if _nanlast(v):
            return i
    n = len(vals)
    for i in range(n - 1):
        c = True
        for j in range(n):
            if j < i:
                c = core.s_and(c, better(vals[i], vals[j]))
            elif j > i:
                c = core.s_and(c, core.s_not(better(vals[j], vals[i])))
        if core.s_truth(c):
            return i
    return n - 1


def _argred(a, axis, better, keepdims=False):
    a = as_arr(a)
    o = a.obj()
    if axis is None:
        if o.size == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        return np.int64(arg_best(list(o.flat), better))
    axis = norm_axis(axis, o.ndim)
    t = np.moveaxis(o, axis, -1)
    if t.shape[-1] == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    out = np.empty(t.shape[:-1], int)
    for idx in np.ndindex(*out.shape):
        out[idx] = arg_best(list(t[idx]), better)
    if out.ndim == 0:
        return np.int64(out[()])
    return np.expand_dims(out, axis) if keepdims else out


def np_argmin(a, axis=None, out=None, keepdims=False):
    return _argred(a, axis, lambda x, y: core.s_lt(x, y), keepdims)


def np_argmax(a, axis=None, out=None, keepdims=False):
    a = as_arr(a)
    if a.ld == "b":
        a = a.astype_kind("i")
    return _argred(a, axis, lambda x, y: core.s_lt(y, x), keepdims)


def np_nanargmin(a, axis=None, **k):
    a = as_arr(a)
    b = from_obj(map1(lambda v: core.INF if _nanlast(v) else v, a.obj()), a.ld)
    return np_argmin(b, axis)


def np_nanargmax(a, axis=None, **k):
    a = as_arr(a)
    b = from_obj(map1(lambda v: -core.INF if _nanlast(v) else v, a.obj()), a.ld)
    return np_argmax(b, axis)


def np_median(a, axis=None, **k):
    def med(v):
        s = sort_list(v)
        n = len(s)
        if n % 2:
            return s[n // 2]
        return core.s_div(core.s_add(s[n // 2 - 1], s[n // 2]), 2.0)
    return reduce_axis(a, axis, False, med, "f")


def np_quantile(a, q, axis=None, scale=1.0, **k):
    def one(qq):
        def f(v):
            s = sort_list(v)
            pos = float(qq) / scale * (len(s) - 1)
            lo = int(math.floor(pos))
            hi = min(lo + 1, len(s) - 1)
            t = pos - lo
            return core.s_add(core.s_mul(s[lo], 1 - t), core.s_mul(s[hi], t)) if t else s[lo]
        return reduce_axis(a, axis, False, f, "f")
    if isinstance(q, (list, tuple, np.ndarray)):
        return mk([one(x) for x in q])
    return one(q)


def np_percentile(a, q, axis=None, **k):
    return np_quantile(a, q, axis=axis, scale=100.0)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = as_arr(a)
    o = a.obj()
    if axis is None:
        rows = [(v,) for v in o.reshape(-1)]
    else:
        t = np.moveaxis(o, norm_axis(axis, o.ndim), 0)
        rows = [tuple(t[i].reshape(-1)) for i in range(t.shape[0])]

    def lt(i, j):
        for x, y in zip(rows[i], rows[j]):
            if core.s_truth(core.s_lt(x, y)):
                return True
            if core.s_truth(core.s_lt(y, x)):
                return False
        return False

    def eq(i, j):
        r = True
        for x, y in zip(rows[i], rows[j]):
            r = core.s_and(r, core.s_eq(x, y))
        return core.s_truth(r)
    order = argsort_list(list(range(len(rows))), lt)
    groups = []
    for i in order:
        if groups and eq(groups[-1][0], i):
            groups[-1].append(i)
        else:
            groups.append([i])
    first = [min(g) for g in groups]
    inv = np.zeros(len(rows), int)
    for g, mem in enumerate(groups):
        inv[mem] = g
    if axis is None:
        vals = from_obj(o.reshape(-1)[np.array(first, int)], a.ld)
        c = concrete(vals)
        if c is not None:
            vals = c
    else:
        vals = np.take(a, np.array(first, int), axis=axis)
    ret = [vals]
    if return_index:
        ret.append(np.array(first, int))
    if return_inverse:
        ret.append(inv)
    if return_counts:
        ret.append(np.array([len(g) for g in groups], int))
    return ret[0] if len(ret) == 1 else tuple(ret)


def np_searchsorted(a, v, side="left", sorter=None):
    a = as_arr(a)
    if sorter is not None:
        a = a[sorter]
    o = list(a.obj())

    def one(x):
        for i, y in enumerate(o):
            stop = core.s_le(x, y) if side == "left" else core.s_lt(x, y)
            if core.s_truth(stop):
                return i
        return len(o)
    if isinstance(v, (np.ndarray, list, tuple)):
        return map1(one, to_obj(v)).astype(int)
    return np.int64(one(pyv(v)))


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


def np_isin(a, b, invert=False, **k):
    A = as_arr(a)
    bl = list(to_obj(b).reshape(-1)) if isinstance(b, (np.ndarray, list, tuple, range)) else [pyv(x) for x in b]

    def f(v):
        r = False
        for w in bl:
            r = core.s_or(r, core.s_eq(v, w))
        return core.s_not(r) if invert else r
    return finish(map1(f, A.obj()), "b")


def np_setdiff1d(a, b, **k):
    a = np_unique(a)
    return a[np_isin(a, b, invert=True)] if isinstance(a, SymArray) else a[norm_index(np_isin(a, b, invert=True))]


def np_intersect1d(a, b, **k):
    a = np_unique(a)
    m = np_isin(a, b)
    return a[m] if isinstance(a, SymArray) else a[norm_index(m)]


def np_union1d(a, b):
    return np_unique(np_concatenate([np.ravel(as_arr(a)), np.ravel(as_arr(b))]))


# ----------------------------------------------------------------------------------------------- selection and others

def np_where(cond, x=None, y=None):
    if x is None and y is None:
        return np_nonzero(cond)
    C, X, Y = np.broadcast_arrays(to_obj(cond), to_obj(x), to_obj(y))
    out = np.empty(C.shape, object)
    of = out.reshape(-1)
    k = join_kind(kind_of(as_arr(x) if isinstance(x, (list, tuple)) else x), kind_of(as_arr(y) if isinstance(y, (list, tuple)) else y))
    for i, (c, a, b) in enumerate(zip(C.flat, X.flat, Y.flat)):
        of[i] = coerce(core.s_where(core.s_bool(c), a, b), k)
    return finish(of.reshape(C.shape), k)


def np_nonzero(a):
    a = as_arr(a)
    m = map1(core.s_truth, a.obj()).astype(bool)
    return np.nonzero(m)


def np_flatnonzero(a):
    return np_nonzero(np.ravel(as_arr(a)))[0]


def np_argwhere(a):
    return np.transpose(np_nonzero(a))


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):  # noqa: A002
    if min is not None:
        a_min = min
    if max is not None:
        a_max = max
    r = a
    if a_min is not None:
        r = ufunc_dispatch(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = ufunc_dispatch(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        return store_out(out, r)
    return r


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if nonfinite(x) or nonfinite(y):
            if _nanlast(x) or _nanlast(y):
                return bool(equal_nan and _nanlast(x) and _nanlast(y))
            return core.s_eq(x, y)
        d = core.s_abs(core.s_sub(x, y))
        return core.s_le(d, core.s_add(atol, core.s_mul(rtol, core.s_abs(y))))
    return elementwise2(f, a, b, "b")


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol, equal_nan))


def np_array_equal(a, b, equal_nan=False):
    A, B = as_arr(a), as_arr(b)
    if A.shape != B.shape:
        return False
    return np_all(elementwise2(core.s_eq, A, B, "b"))


def np_dot(a, b, out=None):
    A, B = as_arr(a), as_arr(b)
    if A.ndim == 0 or B.ndim == 0:
        return A * B
    Ao, Bo = A.obj(), B.obj()
    kd = join_kind(_kin(A), _kin(B))

    def inner(x, y):
        return coerce(_sum_list([core.s_mul(p, q) for p, q in zip(x, y)]), kd) if len(x) else coerce(0, kd)
    if A.shape[-1] != (B.shape[0] if B.ndim == 1 else B.shape[-2]):
        raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
    if A.ndim == 1 and B.ndim == 1:
        return wrap(inner(Ao, Bo))
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported("matmul of rank > 2")
    if B.ndim == 1:
        out_ = np.empty(Ao.shape[:-1], object)
        for i in range(Ao.shape[0]):
            out_[i] = inner(Ao[i], Bo)
        return from_obj(out_, kd)
    if A.ndim == 1:
        out_ = np.empty(Bo.shape[1], object)
        for j in range(Bo.shape[1]):
            out_[j] = inner(Ao, Bo[:, j])
        return from_obj(out_, kd)
    out_ = np.empty((Ao.shape[0], Bo.shape[1]), object)
    for i in range(Ao.shape[0]):
        for j in range(Bo.shape[1]):
            out_[i, j] = inner(Ao[i], Bo[:, j])
    return from_obj(out_, kd)


def np_outer(a, b, out=None):
    a, b = np.ravel(as_arr(a)), np.ravel(as_arr(b))
    return a[:, None] * b[None, :]


def np_inner(a, b):
    A, B = as_arr(a), as_arr(b)
    if A.ndim == 1 and B.ndim == 1:
        return np_dot(A, B)
    return np_dot(A, B.T)


def np_norm(x, ord=None, axis=None, keepdims=False):  # noqa: A002
    x = as_arr(x)
    if axis is None and x.ndim > 1 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    if isinstance(axis, tuple):
        raise Unsupported("matrix norm")
    if ord in (None, 2, "fro"):
        return reduce_axis(x, axis, keepdims, lambda v: core.s_sqrt(_sum_list([core.s_square(e) for e in v])), "f", 0.0)
    if ord == 1:
        return reduce_axis(x, axis, keepdims, lambda v: _sum_list([core.s_abs(e) for e in v]), "f", 0.0)
    if ord == core.INF:
        return reduce_axis(x, axis, keepdims, lambda v: _fold(core.s_max, [core.s_abs(e) for e in v]), "f", 0.0)
    raise Unsupported("norm ord %s" % ord)


def gauss(A, B):
    """Gauss elimination with forking pivot choice (raises LinAlgError when singular)."""
    n = A.shape[0]
    A = [[coerce(v, "f") for v in row] for row in A]
    B = [[coerce(v, "f") for v in row] for row in B]
    for c in range(n):
        p = None
        for r in range(c, n):
            if core.s_truth(core.s_ne(A[r][c], 0)):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[c], A[p] = A[p], A[c]
        B[c], B[p] = B[p], B[c]
        for r in range(n):
            if r != c and not (not is_sym(A[r][c]) and A[r][c] == 0):
                f = core.s_div(A[r][c], A[c][c])
                A[r] = [core.s_sub(x, core.s_mul(f, y)) for x, y in zip(A[r], A[c])]
                B[r] = [core.s_sub(x, core.s_mul(f, y)) for x, y in zip(B[r], B[c])]
    return [[core.s_div(v, A[c][c]) for v in B[c]] for c in range(n)]


def np_solve(a, b):
    A, B = as_arr(a), as_arr(b)
    if A.ndim != 2:
        raise Unsupported("batched solve")
    one = B.ndim == 1
    r = gauss(A.obj(), B.obj().reshape(len(B), -1))
    res = mk(r, "f")
    return res[:, 0] if one else res


def np_inv(a):
    A = as_arr(a)
    return mk(gauss(A.obj(), np.eye(len(A)).astype(object)), "f")


def np_det(a):
    A = as_arr(a).obj()
    n = len(A)
    if n == 1:
        return wrap(A[0, 0])
    r = 0.0
    for j in range(n):
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        t = core.s_mul(A[0, j], np_det(from_obj(minor, "f")))
        r = core.s_add(r, t) if j % 2 == 0 else core.s_sub(r, t)
    return wrap(r)


def np_diff(a, n=1, axis=-1, **k):
    a = as_arr(a)
    axis = norm_axis(axis, a.ndim)
    sl1 = [slice(None)] * a.ndim
    sl2 = [slice(None)] * a.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    r = a[tuple(sl1)] - a[tuple(sl2)]
    return r if n == 1 else np_diff(r, n - 1, axis)


def np_fill_diagonal(a, val, wrap=False):  # noqa: A002
    n = min(a.shape)
    for i in range(n):
        a[i, i] = val if not isinstance(val, (np.ndarray, list)) else val[i]


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(np.finfo(float).max)

    def f(v):
        if isinstance(v, float):
            if v != v:
                return nan
            if v == core.INF:
                return big if posinf is None else posinf
            if v == -core.INF:
                return -big if neginf is None else neginf
        return v
    r = map1(f, to_obj(x))
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return finish(r, kind_of(x))


def np_round(a, decimals=0, out=None):
    if decimals:
        p = 10.0 ** decimals
        r = finish(map1(lambda v: core.s_div(core.s_rint(core.s_mul(v, p)), p), to_obj(a)), "f")
    else:
        k = kind_of(a)
        r = a if k in "ib" else finish(map1(core.s_rint, to_obj(a)), "f")
    if out is not None:
        return store_out(out, r)
    return r


def np_full(shape, fill_value, dtype=None, order="C", **k):
    o = np.empty(shape_of(shape), object)
    kd = kind_of_dtype(dtype)
    if isinstance(fill_value, (np.ndarray, list, tuple)):
        fv = to_obj(fill_value)
        kd = kd or (kind_of(fill_value) if isinstance(fill_value, np.ndarray) else infer_kind(fv))
        o[...] = fv
        return from_obj(o if kd == "O" else map1(lambda v: coerce(v, kd), o), kd)
    if kd is None:
        kd = kind_of(pyv(fill_value))
    if kd not in ORDER:
        return np.full(shape_of(shape), fill_value, dtype=dtype)
    v = coerce(fill_value, kd)
    of = o.reshape(-1)
    for i in range(of.size):
        of[i] = v
    return from_obj(of.reshape(o.shape), kd)


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return (int(s),)


def np_zeros(shape, dtype=float, order="C", **k):
    return np_full(shape, 0, dtype or float)


def np_ones(shape, dtype=float, order="C", **k):
    return np_full(shape, 1, dtype or float)


def np_empty(shape, dtype=float, order="C", **k):
    kd = kind_of_dtype(dtype or float)
    if kd == "O":
        return from_obj(np.full(shape_of(shape), None, dtype=object), "O")
    return np_full(shape, 0, dtype or float)


def _like(fn):
    def f(a, *args, dtype=None, order="K", subok=True, shape=None, **k):
        a = a if isinstance(a, np.ndarray) else as_arr(a)
        kd = kind_of_dtype(dtype) or kind_of(a)
        sh = a.shape if shape is None else shape
        if kd == "O" and not args:
            return from_obj(np.full(sh, None if fn is np_empty else (0 if fn is np_zeros else 1), dtype=object), "O")
        return fn(sh, *args, dtype=KIND_DT[kd])
    return f


np_zeros_like, np_ones_like, np_empty_like, np_full_like = _like(np_zeros), _like(np_ones), _like(np_empty), _like(np_full)


def np_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    kd = kind_of_dtype(dtype)
    if kd is not None and kd not in ORDER:
        return np.array(concretize_deep(x), dtype=dtype)
    if hasattr(x, "__array__") and not isinstance(x, np.ndarray) and not is_sym(x):
        x = x.__array__()
    if isinstance(x, np.ndarray) and type(x) not in (np.ndarray, SymArray) and x.dtype == OBJ:
        return np.array(x, dtype=concretize_deep(dtype))
    if isinstance(x, (set, map, filter, zip)) or (hasattr(x, "__next__")):
        return np.array(x, dtype=concretize_deep(dtype))
    if isinstance(x, type({}.values())) or isinstance(x, type({}.keys())):
        return np.array(x)
    r = mk(x, kd)
    if isinstance(r, np.ndarray) and ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray) and (dtype is None or kind_of_dtype(dtype) == x.ld):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and dtype is None:
        return x if x.dtype.kind not in "fiub" else symize(np.asarray(x))
    return np_array(x, dtype=dtype)


def np_arange(*a, dtype=None, **k):
    a = [v.__index__() if is_sym(v) and v.dtype.kind == "i" else v for v in a]
    if has_sym(a):
        raise Unsupported("arange with symbolic reals")
    r = np.arange(*a, dtype=concretize_deep(dtype))
    return r if r.dtype.kind == "i" else symize(r)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym([start, stop]):
        r = np.linspace(concretize_deep(start), concretize_deep(stop), int(num), endpoint=endpoint, retstep=retstep)
        return symize(r)
    n = int(num)
    div = (n - 1) if endpoint else n
    step = (stop - start) / div
    r = mk([start + step * i for i in range(n)])
    return (r, step) if retstep else r


def np_eye(N, M=None, k=0, dtype=float, **kw):
    return symize(np.eye(N, M, k, dtype=concretize_deep(dtype)))


def np_interp(x, xp, fp, **k):
    raise Unsupported("interp")


def np_shape(a):
    return a.shape if isinstance(a, np.ndarray) else (mk(a).shape if isinstance(a, (list, tuple)) else ())


def np_size(a, axis=None):
    s = np_shape(a)
    return int(np.prod(s)) if axis is None else s[axis]


def np_ndim(a):
    return len(np_shape(a))


def np_einsum(spec, *ops, **k):
    if not isinstance(spec, str) or "..." in spec:
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    O = [to_obj(o) for o in ops]
    dims = {}
    for t, o in zip(ins, O):
        for c, d in zip(t, o.shape):
            dims[c] = max(d, dims.get(c, 1))
    red = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        terms = []
        for ri in np.ndindex(*[dims[c] for c in red]):
            env.update(zip(red, ri))
            v = None
            for t, o in zip(ins, O):
                x = o[tuple(env[c] if o.shape[i] > 1 else 0 for i, c in enumerate(t))]
                v = x if v is None else core.s_mul(v, x)
            terms.append(v)
        res[oi] = _sum_list(terms) if terms else 0
    r = from_obj(res, join_kind(*[kind_of(o) for o in ops]))
    return r[()] if res.shape == () else r


def np_apply_over_axes(func, a, axes):
    r = as_arr(a)
    for ax in np.atleast_1d(axes):
        t = func(r, int(ax))
        r = t if np.ndim(t) == np.ndim(r) else np.expand_dims(t, int(ax))
    return r


def np_place(arr, mask, vals):
    arr[mask] = np_resize(vals, int(np_count_nonzero(mask)))


def np_putmask(a, mask, values):
    a[...] = np_where(mask, values, a)


def np_resize(vals, n):
    v = list(to_obj(vals).reshape(-1))
    return from_obj(np.array([v[i % len(v)] for i in range(n)] + [None], object)[:-1], None)


def np_kron(a, b):
    A, B = to_obj(a), to_obj(b)
    A, B = np.atleast_2d(A), np.atleast_2d(B)
    o = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = core.s_mul(A[i // B.shape[0], j // B.shape[1]], B[i % B.shape[0], j % B.shape[1]])
    return from_obj(o)


def np_ediff1d(a, **k):
    return np_diff(as_arr(a).reshape(-1))


def np_fromiter(it, dtype=float, count=-1, **k):
    return np_array(list(it), dtype=dtype)


def np_copyto(dst, src, where=True, **k):
    dst[...] = np_where(where, src, dst) if where is not True else src


def np_choose(a, choices, **k):
    a = as_arr(a)
    C = mk(list(choices))
    out = np.empty(a.shape, object)
    for idx in np.ndindex(*a.shape):
        out[idx] = C.obj()[int(a.obj()[idx])][idx] if C.ndim > 1 else C.obj()[int(a.obj()[idx])]
    return from_obj(out)


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = np_where(c, v, r)
    return r


def np_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def np_iterable(x):
    return np.iterable(x) if not is_sym(x) else False


def np_vectorize(f, *a, **k):
    def g(*args):
        B = np.broadcast_arrays(*[to_obj(x) for x in args])
        out = np.empty(B[0].shape, object)
        for idx in np.ndindex(*out.shape):
            out[idx] = f(*[b[idx] for b in B])
        return from_obj(out)
    return g


def np_apply_along_axis(f, axis, arr, *args, **kw):
    a = as_arr(arr)
    o = np.moveaxis(a.obj(), axis, -1)
    res = np.empty(o.shape[:-1], object)
    for idx in np.ndindex(*res.shape):
        res[idx] = f(from_obj(o[idx].copy(), a.ld), *args, **kw)
    if any(isinstance(v, np.ndarray) for v in res.flat):
        L = len(res.flat[0])
        out = np.empty(res.shape + (L,), object)
        for idx in np.ndindex(*res.shape):
            out[idx] = to_obj(res[idx])
        return from_obj(np.moveaxis(out, -1, axis))
    return from_obj(res)


def np_cross(a, b, **k):
    A, B = as_arr(a), as_arr(b)
    if A.ndim != 1 or len(A) != 3:
        raise Unsupported("cross")
    return mk([A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])


def np_concatenate(arrs, axis=0, **k):
    parts = [p if isinstance(p, np.ndarray) else as_arr(p) for p in arrs]
    if any(kind_of(p) == "O" for p in parts) and not any(isinstance(p, SymArray) for p in parts):
        return np.concatenate(parts, axis=axis)
    kd = join_kind(*[kind_of(p) for p in parts if p.size or True])
    o = np.concatenate([to_obj(p) for p in parts], axis=axis)
    if kd != "O" and any(kind_of(p) != kd for p in parts):
        o = map1(lambda v: coerce(v, kd), o)
    return from_obj(o, kd)


def _stack(name):
    real = getattr(np, name)

    def f(arrs, *a, **k):
        k.pop("dtype", None)
        if isinstance(arrs, SymArray):
            arrs = list(arrs)
        arrs = list(arrs) if not isinstance(arrs, np.ndarray) else arrs
        parts = [p if isinstance(p, np.ndarray) else as_arr(p) for p in arrs]
        kd = join_kind(*[kind_of(p) for p in parts])
        o = real([to_obj(p) for p in parts], *a, **k)
        if kd != "O":
            o = map1(lambda v: coerce(v, kd), o)
        return from_obj(o, kd)
    f.__name__ = name
    return f


def _structural(name):
    real = getattr(np, name)

    def f(a, *args, **k):
        a = a if isinstance(a, np.ndarray) else as_arr(a)
        kd = kind_of(a)
        args = [norm_index(x) if not isinstance(x, (tuple, list)) else (concretize_deep(x) if not has_sym(x) else norm_key(tuple(x)))
                for x in args]
        k = {q: norm_index(v) if not isinstance(v, tuple) else v for q, v in k.items()}
        r = real(to_obj(a), *args, **k)
        return rewrap(r, kd)
    f.__name__ = name
    return f


def rewrap(r, kd):
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            return from_obj(r, kd)
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(rewrap(x, kd) for x in r) if type(r) in (list, tuple) else [rewrap(x, kd) for x in r]
    return wrap(r) if not isinstance(r, (int, np.integer)) else r


def np_append(arr, values, axis=None):
    if axis is None:
        return np_concatenate([np.ravel(as_arr(arr)), np.ravel(as_arr(values))])
    return np_concatenate([as_arr(arr), as_arr(values)], axis=axis)


def np_insert(arr, obj, values, axis=None):
    a = as_arr(arr)
    r = np.insert(a.obj(), norm_index(obj), to_obj(values), axis=axis)
    return from_obj(r, join_kind(a.ld, kind_of(values)))


def np_meshgrid(*xs, **k):
    return [from_obj(g, kind_of(as_arr(x))) for g, x in zip(np.meshgrid(*[to_obj(as_arr(x)) for x in xs], **k), xs)]


def np_broadcast_arrays(*xs, **k):
    return [from_obj(g, kind_of(as_arr(x))) for g, x in zip(np.broadcast_arrays(*[to_obj(as_arr(x)) for x in xs]), xs)]


def np_ix_(*xs):
    return np.ix_(*[norm_index(x) if isinstance(x, SymArray) else x for x in xs])


def np_bincount(x, weights=None, minlength=0):
    x = norm_index(as_arr(x)) if not (isinstance(x, np.ndarray) and not isinstance(x, SymArray)) else x
    if weights is None:
        return np.bincount(x, minlength=minlength)
    n = max(int(max(x)) + 1 if len(x) else 0, minlength)
    out = np_zeros(n)
    for i, w in zip(x, as_arr(weights)):
        out[i] = out[i] + w
    return out


def np_errstate(*a, **k):
    return np.errstate(*a, **k)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = as_arr(y)
    d = dx if x is None else np_diff(x)
    return np_sum(d * (y[1:] + y[:-1]) / 2.0)


def np_tri(name):
    real = getattr(np, name)

    def f(m, k=0):
        a = as_arr(m)
        mask = real(np.ones(a.shape[-2:], bool), k)
        return np_where(mask, a, coerce(0, a.ld))
    return f


def np_trace(a, **k):
    a = as_arr(a)
    return np_sum(mk([a[i, i] for i in range(min(a.shape))]))


def np_take_along_axis(arr, indices, axis=-1):
    a = as_arr(arr)
    return from_obj(np.take_along_axis(a.obj(), norm_index(indices) if isinstance(indices, SymArray) else indices, axis), a.ld)


def np_put_along_axis(arr, indices, values, axis):
    idx = norm_index(indices) if isinstance(indices, SymArray) else indices
    np.put_along_axis(arr.obj(), idx, to_obj(values), axis)


def np_put(a, ind, v, **k):
    np.put(a.obj(), norm_index(ind), to_obj(v))


def np_iscomplexobj(x):
    return False


def np_result_type(*a):
    return KIND_DT[join_kind(*[kind_of(x) for x in a])]


def np_lstsq(a, b, rcond=None):
    raise Unsupported("lstsq")


def np_histogram(*a, **k):
    raise Unsupported("histogram")


def np_array2string(a, *r, **k):
    return repr(a)


def np_gradient(*a, **k):
    raise Unsupported("gradient")


FUNCS = {
    "sum": np_sum, "prod": np_prod, "min": np_min, "max": np_max, "amin": np_min, "amax": np_max, "any": np_any,
    "all": np_all, "mean": np_mean, "var": np_var, "std": np_std, "ptp": np_ptp, "average": np_average,
    "nanmin": np_nanmin, "nanmax": np_nanmax, "nanmean": np_nanmean, "nansum": np_nansum, "count_nonzero": np_count_nonzero,
    "cumsum": np_cumsum, "cumprod": np_cumprod, "sort": np_sort, "argsort": np_argsort, "lexsort": np_lexsort,
    "partition": np_partition, "argpartition": np_argpartition, "argmin": np_argmin, "argmax": np_argmax,
    "nanargmin": np_nanargmin, "nanargmax": np_nanargmax, "median": np_median, "quantile": np_quantile,
    "percentile": np_percentile, "unique": np_unique, "searchsorted": np_searchsorted, "digitize": np_digitize,
    "isin": np_isin, "in1d": np_isin, "setdiff1d": np_setdiff1d, "intersect1d": np_intersect1d, "union1d": np_union1d,
    "where": np_where, "nonzero": np_nonzero, "flatnonzero": np_flatnonzero, "argwhere": np_argwhere, "clip": np_clip,
    "isclose": np_isclose, "allclose": np_allclose, "array_equal": np_array_equal, "array_equiv": np_array_equal,
    "dot": np_dot, "matmul": np_dot, "outer": np_outer, "inner": np_inner, "vdot": np_dot, "norm": np_norm,
    "solve": np_solve, "inv": np_inv, "det": np_det, "lstsq": np_lstsq, "diff": np_diff, "fill_diagonal": np_fill_diagonal,
    "nan_to_num": np_nan_to_num, "round": np_round, "around": np_round, "round_": np_round, "full": np_full, "zeros": np_zeros,
    "ones": np_ones, "empty": np_empty, "zeros_like": np_zeros_like, "ones_like": np_ones_like, "empty_like": np_empty_like,
    "full_like": np_full_like, "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray, "asfarray": lambda x, dtype=None: np_array(x, dtype=float), "arange": np_arange,
    "linspace": np_linspace, "eye": np_eye, "identity": np_eye, "interp": np_interp, "shape": np_shape, "size": np_size,
    "ndim": np_ndim, "einsum": np_einsum, "copyto": np_copyto, "choose": np_choose, "select": np_select,
    "apply_over_axes": np_apply_over_axes, "place": np_place, "putmask": np_putmask, "kron": np_kron, "ediff1d": np_ediff1d,
    "fromiter": np_fromiter,
    "isscalar": np_isscalar, "iterable": np_iterable, "vectorize": np_vectorize, "apply_along_axis": np_apply_along_axis,
    "cross": np_cross, "concatenate": np_concatenate, "concat": np_concatenate, "append": np_append, "insert": np_insert,
    "meshgrid": np_meshgrid,
    "broadcast_arrays": np_broadcast_arrays, "ix_": np_ix_, "bincount": np_bincount, "trapz": np_trapz,
    "trapezoid": np_trapz, "triu": np_tri("triu"), "tril": np_tri("tril"), "trace": np_trace,
    "take_along_axis": np_take_along_axis, "put_along_axis": np_put_along_axis, "put": np_put, "iscomplexobj": np_iscomplexobj,
    "result_type": np_result_type, "histogram": np_histogram, "array2string": np_array2string, "array_repr": np_array2string,
    "array_str": np_array2string, "gradient": np_gradient,
    "fix": lambda x: finish(map1(UN_SAME["trunc"], to_obj(x)), "f"),
    "isreal": lambda x: finish(map1(lambda v: True, to_obj(x)), "b"),
    "copy": lambda a, *r, **k: as_arr(a).copy(),
    "conj": lambda a: a,
}
for _n in ("vstack", "hstack", "column_stack", "dstack", "stack", "row_stack"):
    if hasattr(np, _n):
        FUNCS[_n] = _stack(_n)
for _n in ("reshape", "repeat", "tile", "transpose", "expand_dims", "squeeze", "ravel", "roll", "flip", "fliplr", "flipud", "rot90",
           "delete", "swapaxes", "moveaxis", "rollaxis", "broadcast_to", "take", "diag", "diagonal", "split", "array_split",
           "hsplit", "vsplit", "resize", "compress", "trim_zeros", "permute_dims"):
    if hasattr(np, _n):
        FUNCS[_n] = _structural(_n)


def _atleast(nd):
    def f(*arrs):
        r = []
        for a in arrs:
            a = as_arr(a)
            r.append(from_obj(getattr(np, "atleast_%dd" % nd)(a.obj()), a.ld))
        return r[0] if len(r) == 1 else r
    return f


for _d in (1, 2, 3):
    FUNCS["atleast_%dd" % _d] = _atleast(_d)


def _delete(arr, obj, axis=None):
    a = arr if isinstance(arr, np.ndarray) else as_arr(arr)
    r = np.delete(to_obj(a), norm_index(obj) if not isinstance(obj, list) else [norm_index(v) for v in obj], axis=axis)
    return from_obj(r, kind_of(a))


FUNCS["delete"] = _delete

NATIVE_OK = {"triu_indices", "tril_indices", "diag_indices", "indices", "unravel_index", "ravel_multi_index", "ndindex",
             "shares_memory", "may_share_memory", "can_cast", "errstate", "seterr", "finfo", "iinfo", "isfortran",
             "set_printoptions", "broadcast_shapes", "issubdtype", "dtype", "promote_types", "nditer"}


def function_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    return call_np(name, func, args, kwargs, mod)


# functions whose replacement is used even for concrete input: they create arrays (later stores may be symbolic)
def call_np(name, func, args, kwargs, mod="numpy"):
    if isinstance(kwargs.get("out"), np.ndarray) and name != "copyto":
        kwargs = dict(kwargs)
        out = kwargs.pop("out")
        store_out(out, call_np(name, func, args, kwargs, mod))
        return out
    args = [concretize_out(a) for a in args]
    kwargs = {k: concretize_out(v) for k, v in kwargs.items()}
    if not has_sym(list(args)) and not has_sym(kwargs):
        if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "zeros", "ones", "empty", "full", "zeros_like", "ones_like",
                    "empty_like", "full_like", "eye", "identity", "linspace", "copy", "arange"):
            return FUNCS[name](*args, **kwargs)
        if any(isinstance(a, SymArray) and a.ld == "O" for a in args) and name in FUNCS:
            return FUNCS[name](*args, **kwargs)
        if name in ("fill_diagonal", "copyto", "put", "put_along_axis", "place", "putmask"):
            if isinstance(args[0], SymArray):
                return FUNCS[name](*args, **kwargs)
            return func(*[concretize_deep(a) for a in args], **kwargs)
        if kwargs.get("out") is not None and isinstance(kwargs["out"], SymArray) and name in FUNCS:
            return FUNCS[name](*args, **kwargs)
        if name in ("isnan", "vectorize"):
            pass
        elif name in VIEWS and args and isinstance(args[0], SymArray):
            return FUNCS[name](*args, **kwargs)
        ca = [concretize_deep(a) for a in args]
        ck = {k: concretize_deep(v) for k, v in kwargs.items()}
        with np.errstate(all="ignore"):
            r = func(*ca, **ck)
        if name in INDEX_OUT and not (name == "where" and len(args) > 1):
            return r
        return symize_f(r)
    if name in FUNCS:
        return FUNCS[name](*args, **kwargs)
    if name in NATIVE_OK:
        return func(*[concretize_deep(a) for a in args], **kwargs)
    u = getattr(np, name, None)
    if isinstance(u, np.ufunc):
        return ufunc_dispatch(u, "__call__", args, kwargs)
    raise Unsupported("numpy function %s with symbolic arguments" % name)


def concretize_out(a):
    real = getattr(a, "__symx_real__", None)
    return a if real is None else real


VIEWS = {"reshape", "transpose", "expand_dims", "squeeze", "ravel", "swapaxes", "moveaxis", "atleast_1d", "atleast_2d", "atleast_3d",
         "diagonal", "flip", "split", "array_split"}
INDEX_OUT = {"argsort", "lexsort", "nonzero", "where", "flatnonzero", "argwhere", "argmin", "argmax", "searchsorted", "digitize",
             "argpartition", "unravel_index", "triu_indices", "tril_indices", "ix_", "bincount", "indices", "diag_indices", "ravel_multi_index"}


for _n in ("sum", "prod", "min", "max", "any", "all", "mean", "var", "std", "ptp", "cumsum", "cumprod", "argsort", "argmin", "argmax",
           "nonzero", "clip", "dot", "round", "repeat", "take", "diagonal", "searchsorted", "compress", "trace", "put", "choose"):
    def _mk(nm):
        def m(self, *args, **kwargs):
            return call_np(nm, getattr(np, nm), (self,) + args, kwargs)
        m.__name__ = nm
        return m
    setattr(SymArray, _n, _mk(_n))


def _flatten(self, order="C"):
    r = np.ndarray.flatten(self)
    r.ld = self.ld
    return r


def _resh(self, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return np.ndarray.reshape(self, tuple(int(s) for s in shape))


SymArray.flatten = _flatten
SymArray.reshape = _resh
