"""Lets unyt/cosmo_array carry symbolic elements (object arrays of Sym) in the
symbolic process, so that the real cosmo_array code runs on them."""

import builtins
import numbers

import numpy as np
import sympy
import z3

from . import core, npshim
from .core import Sym, SymBool, SymNum, SymReal
from .npshim import NpProxy, SArr, ScalarType, has_sym, is_objarr, kind_of, obj

numbers.Number.register(SymNum)

_TERMS = {}  # sympy symbol name -> (Sym)


def _to_sympy(self):
    e = z3.simplify(self.e)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
        return sympy.Rational(f.numerator, f.denominator)
    n = f"z3_{e.get_id()}"
    _TERMS[n] = (self, e)
    return sympy.Symbol(n, positive=True)


SymNum._sympy_ = _to_sympy


def lower(expr):
    """sympy expression over registered symbols -> Sym or number."""
    if isinstance(expr, sympy.Symbol):
        if expr.name in _TERMS:
            return _TERMS[expr.name][0]
        raise TypeError(f"Cannot convert expression to float: {expr}")
    if expr.is_number:
        if isinstance(expr, sympy.Rational):
            import fractions

            f = fractions.Fraction(int(expr.p), int(expr.q))
            return float(f)
        return builtins.float(expr)
    if isinstance(expr, sympy.Pow):
        b, p = expr.args
        if not p.is_number:
            raise core.Unsupported("symbolic exponent")
        p = builtins.int(p) if p.is_Integer else builtins.float(p)
        return lower(b) ** p
    if isinstance(expr, sympy.Mul):
        r = 1
        for x in expr.args:
            r = r * lower(x)
        return r
    if isinstance(expr, sympy.Add):
        r = 0
        for x in expr.args:
            r = r + lower(x)
        return r
    raise core.Unsupported(f"sympy {type(expr)}")


class _FloatMeta2(npshim._FloatMeta):
    def __call__(cls, v=0.0):
        if isinstance(v, sympy.Basic):
            if any(s.name in _TERMS for s in v.free_symbols):
                r = lower(v)
                return SymReal(r.as_real()) if isinstance(r, SymNum) else r
            return builtins.float(v)
        if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
            v = v.view(np.ndarray).reshape(-1)[0]
        return npshim._FloatMeta.__call__(cls, v)


class SymFloat2(npshim.SymFloatType, metaclass=_FloatMeta2):
    """`float` as seen by the code that evaluates scale-factor expressions."""


class _NotObject:
    """Stands for `object` in `dtype != object`: symbolic arrays count as numbers."""

    def __ne__(self, o):
        return True

    def __eq__(self, o):
        return False

    __hash__ = None


def strip_units(x):
    """unyt object arrays -> SArr (so that symbolic comparison/logic applies)."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(SArr)
    return x


class UfuncMethod:
    """A ufunc method that keeps symbolic results symbolic."""

    def __init__(self, uf, name):
        self.uf, self.name = uf, name

    def __call__(self, *a, **k):
        if not any(is_objarr(x) or isinstance(x, Sym) for x in a):
            if self.name == "__call__":
                return self.uf(*a, **k)
            return getattr(self.uf, self.name)(*a, **k)
        a = [strip_units(x) if isinstance(x, np.ndarray) else (obj(x).view(SArr) if isinstance(x, Sym) else x) for x in a]
        out = k.pop("out", None)
        k = {kk: v for kk, v in k.items() if v is not None or kk == "axis"}
        w = k.get("where", True)
        if w is True:
            k.pop("where", None)
        i = k.get("initial", np._NoValue)
        if i is np._NoValue:
            k.pop("initial", None)
        if self.uf in (np.modf, np.frexp) and self.name == "__call__":
            if self.uf is np.frexp:
                raise core.Unsupported("frexp")
            ip = np.trunc(a[0])
            r = (a[0] - ip, ip)
        elif self.uf is np.divmod:
            q = np.floor_divide(*a)
            r = (q, np.asarray(a[0]).view(SArr) - q * a[1])
        elif self.uf is np.vecdot:
            r = (a[0] * a[1]).sum(axis=-1)
        else:
            f = self.uf if self.name == "__call__" else getattr(self.uf, self.name)
            r = f(*a, **k)
        if out is not None and not (isinstance(out, tuple) and all(o is None for o in out)):
            outs = out if isinstance(out, tuple) else (out,)
            rs = r if isinstance(r, tuple) else (r,)
            for o, v in zip(outs, rs):
                o = o.view(np.ndarray)
                o[...] = v.view(np.ndarray) if isinstance(v, np.ndarray) else v
            r = out
        if isinstance(r, tuple):
            return tuple(_keep_arr(x) for x in r)
        return _keep_arr(r)


def _keep_arr(r):
    if isinstance(r, Sym):
        return obj(r).view(SArr)
    return r


def sym_getattr(o, n, *d):
    if isinstance(o, np.ufunc) and n in ("__call__", "reduce", "accumulate", "outer", "reduceat", "at"):
        return UfuncMethod(o, n)
    return builtins.getattr(o, n, *d)


class _Impl:
    """np.<function> that also offers ._implementation."""

    def __init__(self, f, h):
        self.f, self.h = f, h
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        if has_sym_any(a, k) and not any(hasattr(x, "units") for x in a):
            return self.h(*a, **k)
        return self.f(*a, **k)

    def _implementation(self, *a, **k):
        if has_sym_any(a, k):
            return self.h(*[strip_deep(x) for x in a], **{kk: strip_deep(x) for kk, x in k.items()})
        return self.f._implementation(*a, **k)

    def __hash__(self):
        return hash(self.f)

    def __eq__(self, o):
        return o is self.f or (isinstance(o, _Impl) and o.f is self.f)


def strip_deep(x):
    if isinstance(x, np.ndarray):
        return strip_units(x)
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(strip_deep(v) for v in x)
    return x


def has_sym_any(a, k):
    return any(_hs(x) for x in a) or any(_hs(x) for x in k.values())


def _hs(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_hs(v) for v in x)
    return isinstance(x, Sym)


class _Linalg:
    def __getattr__(self, n):
        from . import afuncs

        v = getattr(np.linalg, n)
        h = afuncs.LINALG.get(n) or npshim._AF.get(v)
        return _Impl(v, h) if h else v


class _Fft:
    def __getattr__(self, n):
        from . import afuncs

        v = getattr(np.fft, n)
        h = afuncs.FFT.get(n)
        return _Impl(v, h) if h else v


class UnytNp(NpProxy):
    """`np` for unyt and cosmo_array code: keeps object arrays object."""

    def __init__(self, extra=None, objectify=False):
        super().__init__(objectify)
        self._extra = extra or {}

    def __getattr__(self, n):
        if n in self._extra:
            return _Impl(getattr(np, n), self._extra[n])
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            return v if self._raw_ufuncs else npshim._Reduce(v)
        try:
            h = npshim._AF.get(v)
        except TypeError:
            h = None
        if h is not None:
            return _Impl(v, h)
        return v

    _raw_ufuncs = True

    def _arr(self, x, dtype, copy):
        r = self._arr0(x, dtype, copy)
        if dtype is not None and npshim.kind_of(dtype) in ("i", "u") and is_objarr(r):
            # the cast a real array of that type would make (a copy, as in numpy)
            r = r.view(SArr).copy()
            f = r.view(np.ndarray).reshape(-1)
            for i in range(f.size):
                f[i] = npshim.cast_scalar(f[i], dtype)
        return r

    def _arr0(self, x, dtype, copy):
        x0 = x
        if isinstance(x, (list, tuple)) and _hs(x):
            x = [obj(v) if isinstance(v, np.ndarray) else v for v in x]
            if all(isinstance(v, np.ndarray) for v in x) and x:
                if all(v.shape == () for v in x):
                    r = np.empty(len(x), dtype=object)
                    for i, v in enumerate(x):
                        r[i] = v[()]
                else:
                    r = np.array([v.tolist() for v in x], dtype=object) if len({v.shape for v in x}) == 1 else np.array(x, dtype=object)
                return r.view(SArr)
            return obj(x).view(SArr)
        if is_objarr(x) or isinstance(x, Sym):
            r = np.array(x.view(np.ndarray)) if copy and is_objarr(x) else obj(x)
            return r.view(SArr)
        if dtype is not None:
            dtype = npshim.real_dtype(dtype)
        return (np.array if copy else np.asarray)(x0, dtype=dtype)

    def array(self, x, dtype=None, copy=True, **k):
        return self._arr(x, dtype, copy is True)

    def asarray(self, x, dtype=None, **k):
        return self._arr(x, dtype, False)

    def asanyarray(self, x, dtype=None, **k):
        return x if isinstance(x, np.ndarray) else self._arr(x, dtype, False)

    linalg = _Linalg()
    fft = _Fft()
    concatenate = _Impl(np.concatenate, lambda *a, **k: npshim._post(np.concatenate(*a, **k)))


class UnytNp2(UnytNp):
    """`np` for ordinary swiftsimio modules that handle cosmo arrays."""

    _raw_ufuncs = False

    def __init__(self):
        from . import afuncs

        super().__init__(afuncs.EXTRA)


def _sym_astype(real):
    """astype of symbolic unyt arrays: the real method for the attributes, then the
    casts element by element."""

    def astype(self, dt, *a, **k):
        if self.dtype != object or npshim.kind_of(dt) not in ("i", "u"):
            return real(self, dt, *a, **k)
        r = real(self, object, *a, **k)
        f = r.view(np.ndarray).reshape(-1)
        for i in range(f.size):
            f[i] = npshim.cast_scalar(f[i], dt)
        return r

    return astype


def install(array_functions=True):
    """Patch unyt and swiftsimio's cosmo array modules in this process."""
    import unyt.array as ua
    import unyt._array_functions as uf

    from . import afuncs

    extra = afuncs.EXTRA
    ua.DISALLOWED_DTYPES = tuple(c for c in ua.DISALLOWED_DTYPES if c != "O")
    ua.np = UnytNp(extra)
    ua.getattr = sym_getattr
    ua.float = SymFloat2
    uf.np = UnytNp(extra)
    uf.float = SymFloat2
    import swiftsimio.objects as so
    import swiftsimio._array_functions as sa

    so.np = UnytNp(extra)
    so.float = SymFloat2
    so.object = _NotObject()
    sa.np = UnytNp(extra)
    so.cosmo_array.astype = _sym_astype(so.cosmo_array.astype)
    # functions that swiftsimio/unyt leave to numpy
    umul = ua.Unit.__mul__

    def unit_mul(self, u):
        if isinstance(u, np.ndarray) and u.dtype == object and not isinstance(u, so.cosmo_array):
            un = getattr(u, "units", None)
            un = un * self if un is not None else self
            return (ua.unyt_quantity if u.shape == () else ua.unyt_array)(np.array(u.view(np.ndarray)), un, bypass_validation=True)
        return umul(self, u)

    ua.Unit.__mul__ = unit_mul
    brc = ua._get_binary_op_return_class

    def plain(c):
        return np.ndarray if c is SArr else c

    ua._get_binary_op_return_class = lambda a, b: brc(plain(a), plain(b))
    orig = so.cosmo_array.__array_function__

    def af(self, func, types, args, kwargs):
        from swiftsimio._array_functions import _HANDLED_FUNCTIONS
        from unyt._array_functions import _HANDLED_FUNCTIONS as U, _UNSUPPORTED_FUNCTIONS as N

        if func not in _HANDLED_FUNCTIONS and func not in U and func not in N and func.__name__ in extra and has_sym_any(args, kwargs):
            if all(issubclass(t, so.cosmo_array) or t in (np.ndarray, SArr) for t in types):
                return extra[func.__name__](*args, **kwargs)
        types = tuple(np.ndarray if t is SArr else t for t in types)
        return orig(self, func, types, args, kwargs)

    so.cosmo_array.__array_function__ = af
    oaf = ua.unyt_array.__array_function__

    def uaf(self, func, types, args, kwargs):
        return oaf(self, func, tuple(np.ndarray if t is SArr else t for t in types), args, kwargs)

    ua.unyt_array.__array_function__ = uaf
    for cls in (ua.unyt_array, so.cosmo_array):
        gi, si = cls.__getitem__, cls.__setitem__
        cls.__getitem__ = lambda self, ix, gi=gi: gi(self, npshim.conc_index(ix))
        cls.__setitem__ = lambda self, ix, v, si=si: si(self, npshim.conc_index(ix), v)
    real = np.ndarray.real
    ua.unyt_array.real = property(lambda self: self if self.dtype == object else real.__get__(self), lambda self, v: real.__set__(self, v))
