"""numpy facing side: SArr (object ndarray with symbolic-aware operations) and
NpProxy (stands in for the module global `np` of code under test)."""

import builtins
import math as _math
import sys
import types

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, SymInt, SymNum, SymReal, Unsupported, _b, ite, sand, smax, smin, sor


def kind_of(dt):
    """'f','i','b','O',... of a dtype-like (also of the proxied scalar types)."""
    if dt is None:
        return None
    if isinstance(dt, ScalarType):
        dt = dt.np_type
    if dt is SymFloatType:
        return "f"
    if dt is SymIntType:
        return "i"
    try:
        d = carried(np.dtype(dt))
        return d.kind
    except TypeError:
        return None


def carried(d):
    """The dtype an array of symbolic elements stands for, when it says so."""
    if d.kind == "O" and d.metadata and "real" in d.metadata:
        return np.dtype(d.metadata["real"])
    return d


def carry(a, dt):
    """Array of symbolic elements whose dtype remembers the one of the file."""
    return a.astype(np.dtype("O", metadata={"real": str(np.dtype(dt))})) if a.dtype == object else a


def real_dtype(dt):
    if isinstance(dt, ScalarType):
        return np.dtype(dt.np_type)
    if dt is SymFloatType:
        return np.dtype(float)
    if dt is SymIntType:
        return np.dtype(int)
    if isinstance(dt, np.dtype):
        return carried(dt)
    return dt


_INT_WRAP = [True]


def _wrap_int(v, dt):
    """Two's complement wrap of a symbolic int when a narrow dtype could overflow."""
    d = np.dtype(real_dtype(dt))
    bits = d.itemsize * 8
    lo, hi = (0, 2**bits - 1) if d.kind == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    if bits >= 64 and d.kind == "i":
        return v
    c = core.ctx()
    inside = z3.And(v.e >= lo, v.e <= hi)
    if c.feasible(z3.Not(inside)):
        return SymInt(z3.If(inside, v.e, ((v.e - lo) % (2**bits)) + lo))
    return v


LITERALS = {}  # texts of numbers that stand for symbolic values: text -> (is an integer, value)


def literal(v, kind):
    """What parsing a text gives (as Python and numpy do: integers only from integer
    literals)."""
    whole, x = LITERALS[v.strip()]
    if kind in ("i", "u") and not whole:
        raise ValueError(f"invalid literal for int() with base 10: {v!r}")
    if kind == "f" and isinstance(x, SymInt):
        return SymReal(x.as_real())
    return x


def is_literal(v):
    if isinstance(v, (list, tuple)):
        return any(is_literal(x) for x in v)
    return isinstance(v, str) and v.strip() in LITERALS


def cast_scalar(v, dt):
    k = kind_of(dt)
    if isinstance(v, str) and is_literal(v):
        return literal(v, k)
    if isinstance(v, Sym):
        if k in ("i", "u"):
            if isinstance(v, SymBool):
                return v.as_int()
            return _wrap_int(v.trunc_int(), dt)
        if k == "f":
            if isinstance(v, SymReal):
                return v
            if isinstance(v, SymBool):
                v = v.as_int()
            return SymReal(v.as_real())
        if k == "b":
            return _b(v)
        return v
    if k in ("i", "u", "f", "b"):
        r = np.dtype(real_dtype(dt)).type(v)
        return r.item() if k != "b" else bool(r)
    return v


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) for v in x.reshape(-1).view(np.ndarray))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def is_objarr(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def conc_index(ix):
    """Index expression -> concrete numpy index (splits paths)."""
    if isinstance(ix, SymBool):
        return bool(ix)
    if isinstance(ix, SymNum):
        return ix.__index__() if isinstance(ix, SymInt) else int(ix)
    if isinstance(ix, slice):
        f = lambda v: v.__index__() if isinstance(v, (SymInt, SymBool)) else v  # noqa: E731
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    if isinstance(ix, tuple):
        return tuple(conc_index(i) for i in ix)
    if is_objarr(ix):
        flat = ix.reshape(-1).view(np.ndarray)
        if flat.size == 0:
            return np.zeros(ix.shape, dtype=int)
        if all(isinstance(v, (SymBool, bool, np.bool_)) for v in flat):
            return np.array([bool(v) for v in flat], dtype=bool).reshape(ix.shape)
        return np.array([v.__index__() for v in flat], dtype=np.int64).reshape(ix.shape)
    if isinstance(ix, list) and has_sym(ix):
        return conc_index(np.array(ix, dtype=object))
    return ix


def _vec(f, nin):
    return np.frompyfunc(f, nin, 1)


_CMP = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal}


def plain(x):
    return x.view(np.ndarray) if isinstance(x, SArr) else x


def obj(x):
    """Anything -> plain object ndarray (no copy of Sym)."""
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, Sym):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if hasattr(type(x), "__array__"):
        r = np.asarray(x)
        if r.dtype == object:
            return r.view(np.ndarray)
    return np.array(x, dtype=object)


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SArr) and type(x) is np.ndarray:
        return x.view(SArr)
    return x


def _round_he(v):
    return v.rint() if isinstance(v, SymNum) else np.rint(v)


def _lnot(v):
    v = _b(v)
    return (~v) if isinstance(v, SymBool) else (not v)


_EL = {
    np.logical_and: (lambda a, b: sand(a, b), 2),
    np.logical_or: (lambda a, b: sor(a, b), 2),
    np.bitwise_and: (lambda a, b: (sand(a, b) if isinstance(_u(a), (SymBool, bool, np.bool_)) and isinstance(_u(b), (SymBool, bool, np.bool_)) else a & b), 2),
    np.bitwise_or: (lambda a, b: (sor(a, b) if isinstance(_u(a), (SymBool, bool, np.bool_)) and isinstance(_u(b), (SymBool, bool, np.bool_)) else a | b), 2),
    np.logical_not: (_lnot, 1),
    np.invert: (lambda a: _lnot(a) if isinstance(_u(a), (SymBool, bool, np.bool_)) else ~a, 1),
    np.maximum: (lambda a, b: smax(a, b), 2),
    np.minimum: (lambda a, b: smin(a, b), 2),
    np.fmax: (lambda a, b: smax(a, b), 2),
    np.fmin: (lambda a, b: smin(a, b), 2),
    np.isfinite: (lambda a: True if isinstance(a, Sym) else bool(np.isfinite(a)), 1),
    np.isnan: (lambda a: False if isinstance(a, Sym) else bool(np.isnan(a)), 1),
    np.isinf: (lambda a: False if isinstance(a, Sym) else bool(np.isinf(a)), 1),
    np.absolute: (lambda a: abs(a), 1),
    np.fabs: (lambda a: abs(a), 1),
    np.sign: (lambda a: a.sign() if isinstance(a, SymNum) else np.sign(a), 1),
}
for _n in ("sqrt", "floor", "ceil", "trunc", "exp", "log", "log10", "log2", "sin", "cos", "tan", "square", "cbrt", "arctan", "arcsin", "arccos", "deg2rad", "rad2deg", "radians", "degrees"):
    _EL[getattr(np, _n)] = ((lambda nm: lambda a: getattr(a, nm)() if isinstance(a, SymNum) else getattr(np, nm)(a))(_n), 1)
_EL[np.rint] = (_round_he, 1)


def _fmod(x, y):
    if not (isinstance(x, SymNum) or isinstance(y, SymNum)):
        return np.fmod(x, y)
    q = x / y
    return x - y * (q.trunc() if isinstance(q, SymNum) else np.trunc(q))


def _copysign(x, y):
    if not (isinstance(x, SymNum) or isinstance(y, SymNum)):
        return np.copysign(x, y)
    return ite(y >= 0, abs(x), -abs(x))


_EL[np.fmod] = (_fmod, 2)
_EL[np.copysign] = (_copysign, 2)
_EL[np.heaviside] = (lambda x, h: ite(x > 0, 1, ite(x < 0, 0, h)) if isinstance(x, SymNum) or isinstance(h, SymNum) else np.heaviside(x, h), 2)
_EL[np.logaddexp] = (lambda x, y: Unsupported("logaddexp"), 2)


def _u(v):
    return core._unwrap(v)


class BArr(np.ndarray):
    """Concrete (boolean) array that may be indexed by symbolic values."""

    def __getitem__(self, ix):
        return np.ndarray.__getitem__(self, conc_index(ix))

    def __setitem__(self, ix, v):
        np.ndarray.__setitem__(self, conc_index(ix), v)

    def __array_finalize__(self, o):
        pass

    def __array_wrap__(self, r, context=None, return_scalar=False):
        return r[()] if return_scalar and r.shape == () else r.view(np.ndarray)


class SArr(np.ndarray):
    """Object array; indices may be symbolic, comparisons/logic stay symbolic."""

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, conc_index(ix))
        if isinstance(r, SArr):
            t = self.__dict__.get("_rdt")
            if t is not None:
                r._rdt = t
        return r

    def __setitem__(self, ix, v):
        np.ndarray.__setitem__(self, conc_index(ix), v)

    def astype(self, dt, *a, **k):
        kd = kind_of(dt)
        if kd in ("i", "u", "f", "b"):
            out = np.empty(self.shape, dtype=object)
            of, sf = out.reshape(-1), self.reshape(-1).view(np.ndarray)
            for i in range(sf.size):
                of[i] = cast_scalar(sf[i], dt)
            if kd in ("i", "u", "b") and not has_sym(out):
                return out.astype(real_dtype(dt))
            return out.view(SArr)
        return np.ndarray.astype(self, real_dtype(dt), *a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for i in inputs:
            if isinstance(i, np.ndarray) and not isinstance(i, (SArr, BArr)) and type(i) is not np.ndarray:
                return NotImplemented
        ins = [plain(i) for i in inputs]
        if "out" in kw:
            o = kw["out"]
            kw["out"] = tuple(plain(x) for x in o) if isinstance(o, tuple) else plain(o)
        if method == "reduce" and isinstance(kw.get("where", True), (bool, np.bool_)) is False:
            raise Unsupported("reduce with where")
        if ufunc in _EL and kw.get("out") is None:
            f, n = _EL[ufunc]
            if method == "__call__":
                return _post(_vec(f, n)(*[obj(i) for i in ins]))
            if method == "reduce":
                return _post(_fold(f, obj(ins[0]), kw.get("axis", 0), kw.get("keepdims", False)))
        if ufunc in _CMP and method == "__call__" and kw.get("out") is None:
            kw["dtype"] = object
        if "dtype" in kw and kw["dtype"] is not None and kind_of(kw["dtype"]) in ("f", "i", "u"):
            kw["dtype"] = object
        if ufunc is np.add and method == "reduce":
            ins[0] = _bool_to_int(ins[0])
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, tuple):
            return tuple(_post(x) for x in r)
        return _post(r)

    def __array_function__(self, func, types_, args, kwargs):
        h = _AF.get(func)
        if h is not None:
            return h(*args, **kwargs)
        a2 = _strip(args)
        k2 = {k: _strip(v) for k, v in kwargs.items()}
        if func in (np.array_equal, np.searchsorted, np.digitize):
            pass
        return _post(func(*a2, **k2))

    def sum(self, axis=None, dtype=None, out=None, **k):
        return np.add.reduce(self, axis=axis, **k)

    def any(self, axis=None, **k):
        return np.logical_or.reduce(self, axis=axis, **k)

    def all(self, axis=None, **k):
        return np.logical_and.reduce(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def min(self, axis=None, **k):
        return np.minimum.reduce(self, axis=axis)

    def max(self, axis=None, **k):
        return np.maximum.reduce(self, axis=axis)

    def fill(self, v):
        self[...] = v

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def nonzero(self):
        return conc_index(_to_boolobj(self)).nonzero()

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def byteswap(self, inplace=False):
        return self


def _bswap(v):
    """The number whose bytes are those of v in reverse order (any function that is its own inverse)."""
    if not (isinstance(v, SymNum) or core.is_num(v)) or (isinstance(v, (float, np.floating)) and not np.isfinite(v)):
        return v
    f = core.ctx().uf("bswap")
    e = core.to_real(v)
    if e.decl().eq(f):
        return core.SymReal(e.arg(0))
    return core.SymReal(f(e))


class NArr(SArr):
    """Array of a type that is not in native byte order: holds the numbers as read through its current type."""

    @property
    def dtype(self):
        if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] in ("symex", "numpy", "unyt"):
            return _NDT.__get__(self)
        return self.__dict__.get("_rdt") or _NDT.__get__(self)

    @dtype.setter
    def dtype(self, dt):
        dt, old = np.dtype(dt), self.__dict__.get("_rdt")
        if old is not None and old.isnative != dt.isnative:
            self._swap()
        self._rdt = dt

    def _swap(self):
        f = self.view(np.ndarray).reshape(-1)
        f[:] = [_bswap(v) for v in f]
        if self.size and not np.shares_memory(f, self.view(np.ndarray)):
            raise Unsupported("byte order of a strided array")

    def __array_finalize__(self, o):
        t = getattr(o, "__dict__", {}).get("_rdt")
        if t is not None:
            self._rdt = t

    def byteswap(self, inplace=False):
        r = self if inplace else self.copy()
        r._swap()
        return r


_NDT = np.ndarray.__dict__["dtype"]


def _to_boolobj(a):
    out = np.empty(a.shape, dtype=object)
    of, sf = out.reshape(-1), a.reshape(-1).view(np.ndarray)
    for i in range(sf.size):
        of[i] = _b(sf[i])
    return out


def _bool_to_int(a):
    if isinstance(a, np.ndarray) and a.dtype == object and any(isinstance(v, SymBool) for v in a.reshape(-1)):
        return _vec(lambda v: v.as_int() if isinstance(v, SymBool) else v, 1)(a)
    return a


def _fold(f, a, axis, keepdims=False):
    if axis is None:
        flat = a.reshape(-1)
        if flat.size == 0:
            return {True: True}.get(f in (_EL[np.logical_and][0],), False)
        r = flat[0]
        if f in (_EL[np.logical_and][0], _EL[np.logical_or][0]):
            r = _b(r)
        for v in flat[1:]:
            r = f(r, v)
        return r
    a = np.moveaxis(a, axis, 0)
    if a.shape[0] == 0:
        unit = f is _EL[np.logical_and][0]
        return np.full(a.shape[1:], unit, dtype=object)
    r = a[0]
    for v in a[1:]:
        r = _vec(f, 2)(obj(r), obj(v))
    if a.shape[0] == 1 and f in (_EL[np.logical_and][0], _EL[np.logical_or][0]):
        r = _vec(_b, 1)(obj(r))
    if keepdims:
        r = np.expand_dims(r, axis)
    return r


def _post(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.shape == ():
            return r[()]
        flat = r.reshape(-1)
        if flat.size and all(isinstance(v, (bool, np.bool_)) for v in flat):
            return r.astype(bool)
        return r.view(SArr) if not isinstance(r, SArr) else r
    if isinstance(r, (list, tuple)) and not hasattr(r, "_fields"):
        return type(r)(_post(x) for x in r)
    return r


def _strip(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(_strip(v) for v in x)
    if isinstance(x, ScalarType):
        return x.np_type
    return x


# ---- array functions with symbolic versions


def _where(cond, *ab):
    if not ab:
        if is_objarr(cond):
            return np.where(conc_index(_to_boolobj(cond)))
        if isinstance(cond, Sym):
            return np.where(bool(_b(cond)))
        return np.where(cond)
    a, b = ab
    if not (has_sym(cond) or has_sym(a) or has_sym(b)):
        return np.where(_strip(cond), _strip(a), _strip(b))
    return _post(_vec(lambda c, x, y: ite(_b(c), x, y), 3)(obj(cond), obj(a), obj(b)))


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """Symbolically: exact equality (tolerances are a floating-point device)."""
    return _post(_vec(lambda x, y: _b(x == y) if (isinstance(x, Sym) or isinstance(y, Sym)) else bool(np.isclose(x, y, rtol=rtol, atol=atol)), 2)(obj(a), obj(b)))


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return np.logical_and.reduce(r.reshape(-1)) if isinstance(r, np.ndarray) else r


def _array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return sand([x == y for x, y in zip(a.reshape(-1), b.reshape(-1))]) if a.size else True


def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = np.maximum(_sarr(r), lo)
    if hi is not None:
        r = np.minimum(_sarr(r), hi)
    return r


def _sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return obj(x).view(SArr)
    return obj(x).view(SArr)


def _any(a, axis=None, **k):
    return np.logical_or.reduce(_sarr(a), axis=axis)


def _all(a, axis=None, **k):
    return np.logical_and.reduce(_sarr(a), axis=axis)


def _sum(a, axis=None, dtype=None, out=None, **k):
    return np.add.reduce(_sarr(a), axis=axis, keepdims=k.get("keepdims", False) is True)


def _take(a, indices, axis=None, **k):
    ix = conc_index(indices)
    return _post(np.take(obj(a), ix, axis=axis))


def _searchsorted(a, v, side="left", sorter=None):
    """Position by counting: stays symbolic."""
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    av = [x for x in obj(a)]

    def pos(x):
        n = 0
        for y in av:
            n = n + core.b2i((y < x) if side == "left" else (y <= x))
        return n

    r = _vec(pos, 1)(obj(v))
    return _post(r) if isinstance(r, np.ndarray) else r


def _full_like(a, fill, dtype=None, **k):
    return _mk(np.shape(a), fill)


def _zeros_like(a, dtype=None, **k):
    if dtype is not None and kind_of(dtype) == "b":
        return np.zeros(np.shape(a), dtype=bool)
    return _mk(np.shape(a), 0)


def _ones_like(a, dtype=None, **k):
    if dtype is not None and kind_of(dtype) == "b":
        return np.ones(np.shape(a), dtype=bool)
    return _mk(np.shape(a), 1)


def _mk(shape, fill):
    out = np.empty(shape, dtype=object)
    out[...] = fill
    return out.view(SArr) if out.shape != () else out.view(SArr)


def _argsort(a, axis=-1, kind=None, order=None, *, stable=None):
    """Stable insertion by comparisons (forks)."""
    if np.ndim(a) != 1:
        raise Unsupported("argsort of a multi-dimensional symbolic array")
    import functools

    v = obj(a)

    def cmp(i, j):
        if bool(v[i] < v[j]):
            return -1
        if bool(v[j] < v[i]):
            return 1
        return -1 if i < j else (1 if i > j else 0)

    return np.array(sorted(range(len(v)), key=functools.cmp_to_key(cmp)), dtype=np.int64)


def _lexsort(keys, axis=-1):
    import functools

    ks = [obj(k) for k in keys][::-1]
    if any(k.ndim != 1 for k in ks):
        raise Unsupported("lexsort of multi-dimensional symbolic arrays")

    def cmp(i, j):
        for v in ks:
            if bool(v[i] < v[j]):
                return -1
            if bool(v[j] < v[i]):
                return 1
        return i - j

    return np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), dtype=np.int64)


def _sort(a, axis=-1, **k):
    v = obj(a)
    return _post(v[_argsort(v)])


def _unique(a, *args, **k):
    if args or k:
        a = [int(v) for v in obj(a).reshape(-1)]
        return np.unique(np.array(a, dtype=np.int64), *args, **k)
    v = _sort(obj(a).reshape(-1))
    keep = [x for i, x in enumerate(v) if i == 0 or not bool(x == v[i - 1])]
    return _post(np.array(keep, dtype=object))


def _hist(*a, **k):
    raise Unsupported("histogram on symbolic data")


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm options")
    v = obj(x).reshape(-1)
    return core.ssum([y * y for y in v]).sqrt()


def _isin(a, b, **k):
    bv = list(obj(b).reshape(-1))
    return _post(_vec(lambda x: sor([x == y for y in bv]) if bv else False, 1)(obj(a)))


def _dot(a, b):
    return _post(np.dot(obj(a), obj(b)))


_AF = {
    np.where: _where, np.isclose: _isclose, np.allclose: _allclose, np.array_equal: _array_equal, np.clip: _clip,
    np.any: _any, np.all: _all, np.sum: _sum, np.take: _take, np.searchsorted: _searchsorted,
    np.zeros_like: _zeros_like, np.ones_like: _ones_like, np.empty_like: _zeros_like, np.full_like: _full_like,
    np.argsort: _argsort, np.lexsort: _lexsort, np.sort: _sort, np.unique: _unique, np.isin: _isin, np.linalg.norm: _norm,
    np.histogram: _hist, np.histogram2d: _hist, np.histogramdd: _hist,
    np.max: lambda a, axis=None, **k: np.maximum.reduce(_sarr(a), axis=axis, **k),
    np.min: lambda a, axis=None, **k: np.minimum.reduce(_sarr(a), axis=axis, **k),
    np.mean: lambda a, axis=None, **k: _sarr(a).mean(axis=axis),
}


class ScalarType:
    """Stands for np.float32 / np.int32 / ... in code under test."""

    def __init__(self, np_type):
        self.np_type = np_type
        self.dtype = np.dtype(np_type)
        self.__name__ = np_type.__name__

    def __call__(self, v=0):
        v = _u(v)
        if isinstance(v, Sym) or is_literal(v):
            return cast_scalar(v, self.np_type)
        if is_objarr(v):
            return _sarr(v).astype(self.np_type)
        return self.np_type(v)

    def __eq__(self, o):
        if isinstance(o, ScalarType):
            return self.np_type is o.np_type
        return self.np_type == o

    def __hash__(self):
        return hash(self.np_type)

    def __instancecheck__(self, x):
        return isinstance(x, self.np_type)

    def __repr__(self):
        return f"proxy({self.np_type.__name__})"


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, v=0.0):
        v = _u(v)
        if isinstance(v, SymNum):
            return SymReal(v.as_real())
        if isinstance(v, SymBool):
            return SymReal(v.as_real())
        return builtins.float(v)


class SymFloatType(metaclass=_FloatMeta):
    """`float` as seen by code under test."""


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, v=0, *a):
        v = _u(v)
        if isinstance(v, SymNum):
            return v.trunc_int()
        if isinstance(v, SymBool):
            return v.as_int()
        if is_literal(v):
            return literal(v, "i")
        return builtins.int(v, *a)


class SymIntType(metaclass=_IntMeta):
    """`int` as seen by code under test."""


class _Reduce:
    def __init__(self, uf):
        self.uf = uf

    def __call__(self, *a, **k):
        if any(has_sym(x) or is_objarr(x) for x in a) and not any(hasattr(x, "units") for x in a):
            return self.uf(*[_sarr(x) if not hasattr(x, "units") else x for x in a], **k)
        return self.uf(*a, **k)

    def reduce(self, a, axis=0, **k):
        if isinstance(a, (list, tuple)):
            if has_sym(a) or any(is_objarr(x) for x in a):
                a = obj([list(obj(x)) if isinstance(x, np.ndarray) and np.ndim(x) else x for x in a])
        if is_objarr(a):
            return self.uf.reduce(_sarr(np.asarray(a)), axis=axis, **k)
        return self.uf.reduce(a, axis=axis, **k)

    def __getattr__(self, n):
        return getattr(self.uf, n)


class _Linalg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if n == "norm":
            return lambda x, *a, **k: _norm(x, *a, **k) if has_sym(x) else np.linalg.norm(x, *a, **k)
        return f


_SC = {n: ScalarType(getattr(np, n)) for n in ("float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")}


class NpProxy:
    """`np` as seen by code under test. Falls back to numpy for everything else."""

    linalg = _Linalg()

    def __init__(self, objectify=True):
        self._objectify = objectify  # creation functions return object arrays

    def __getattr__(self, n):
        if n in _SC and self._objectify:
            return _SC[n]
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            return _Reduce(v)
        if v in _AF if isinstance(v, types.FunctionType) or hasattr(v, "__wrapped__") or callable(v) and v.__hash__ else False:
            h = _AF[v]

            def f(*a, **k):
                if any(has_sym(x) or is_objarr(x) for x in a) and not any(hasattr(x, "units") for x in a):
                    return h(*a, **k)
                return v(*_strip(a), **{kk: _strip(x) for kk, x in k.items()})

            return f
        return v

    # creation
    def _new(self, shape, dtype, fill):
        shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list, np.ndarray)) else int(shape)
        k = kind_of(dtype) if dtype is not None else "f"
        if k in ("f", "i", "u") and self._objectify:
            return _mk(shape, fill if k == "f" else int(fill))
        dt = real_dtype(dtype)
        r = np.full(shape, fill, dtype=dt if dt is not None else float)
        return r.view(BArr) if k == "b" else r

    def zeros(self, shape, dtype=None, **k):
        return self._new(shape, dtype, 0.0)

    def empty(self, shape, dtype=None, **k):
        if self._objectify and (dtype is None or kind_of(dtype) in ("f", "i", "u")):
            r = self._new(shape, dtype, 0.0)
            r[...] = UNINIT
            if dtype is not None and isinstance(r, SArr):
                t = np.dtype(real_dtype(dtype))  # the type a real array would have
                if not t.isnative and core.active():
                    r = r.view(NArr)
                r._rdt = t
            return r
        return self._new(shape, dtype, 0)

    def ones(self, shape, dtype=None, **k):
        return self._new(shape, dtype, 1.0)

    def full(self, shape, fill_value, dtype=None, **k):
        if has_sym(fill_value):
            return _mk(tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else int(shape), fill_value)
        return np.full(shape, fill_value, dtype=real_dtype(dtype))

    def _arr(self, x, dtype, copy):
        if isinstance(x, (list, tuple)) and dtype is not None and LITERALS and is_literal(x):
            deep = lambda y: [deep(z) for z in y] if isinstance(y, (list, tuple)) else cast_scalar(y, dtype)  # noqa: E731
            x = deep(x)
        if hasattr(x, "units"):
            return (np.array if copy else np.asarray)(x, dtype=real_dtype(dtype))
        if isinstance(x, SArr) or has_sym(x) or is_objarr(x):
            if isinstance(x, (list, tuple)):
                x = [list(obj(v)) if isinstance(v, np.ndarray) and v.ndim else v for v in x]
            r = np.array(obj(x)) if copy else obj(x)
            r = r.view(SArr)
            if dtype is not None and kind_of(dtype) in ("i", "u", "f", "b"):
                r = r.astype(dtype)
            return r
        return (np.array if copy else np.asarray)(x, dtype=real_dtype(dtype))

    def array(self, x, dtype=None, copy=True, **k):
        return self._arr(x, dtype, True)

    def asarray(self, x, dtype=None, **k):
        return self._arr(x, dtype, False)

    asanyarray = ascontiguousarray = asarray

    def copy(self, x, order="K", subok=False, **k):
        if subok and isinstance(x, np.ndarray) and type(x) not in (np.ndarray, SArr):
            return np.copy(x, order=order, subok=True)
        return self._arr(x, None, True)

    def dtype(self, x, *a, **k):
        return np.dtype(real_dtype(x), *a, **k)

    def arange(self, *a, dtype=None, **k):
        if any(isinstance(_u(x), Sym) for x in a):
            a = [x.__index__() if isinstance(_u(x), Sym) else x for x in a]
        return np.arange(*a, dtype=real_dtype(dtype), **k)

    def issubdtype(self, a, b):
        return np.issubdtype(real_dtype(a), real_dtype(b))


class _Uninit:
    """Content of np.empty: reading it in arithmetic is an engine-visible error."""

    def __repr__(self):
        return "UNINIT"

    def __deepcopy__(self, m):
        return self


UNINIT = _Uninit()


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        return math_fn(n)


def math_fn(n):
    f = getattr(_math, n)
    if not callable(f):
        return f

    def g(*a):
        a = [_u(x) for x in a]
        if not any(isinstance(x, Sym) for x in a):
            return f(*a)
        x = a[0]
        if n in ("floor", "ceil", "trunc"):
            return getattr(x, f"__{n}__")()
        if n == "fabs":
            return abs(x)
        if n == "pow":
            return x ** a[1]
        if n in ("isnan", "isinf"):
            return False
        if n == "isfinite":
            return True
        return getattr(x, {"atan2": "arctan2", "asin": "arcsin", "acos": "arccos", "atan": "arctan"}.get(n, n))(*a[1:])

    return g
