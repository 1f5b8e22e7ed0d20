"""Symbolic values over z3 and a depth-first path explorer.

The real Python code of /repo is run by CPython on these proxy values.  Every
branch on a symbolic condition asks z3 which sides are feasible and explores all
of them; every use of a symbolic integer as a machine index/loop bound is split
over all its feasible values (z3 decides when there are no more).
"""

import fractions
import itertools
import math
import time

import numpy as np
import z3

z3.set_param("parallel.enable", False)


class Inconclusive(BaseException):
    """Solver said unknown / budget exhausted: path steering, not an Exception."""


class Infeasible(BaseException):
    """The current path was cut by an assumption."""


class Unsupported(Exception):
    """The engine cannot represent an operation symbolically."""


class PathEnd(BaseException):
    """Stop this path (e.g. after a violated obligation)."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX


def active():
    return CTX is not None


# --------------------------------------------------------------------------
# term helpers


def frac(v):
    """Exact rational of a Python/numpy number."""
    if isinstance(v, (bool, np.bool_)):
        return fractions.Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return fractions.Fraction(int(v))
    if isinstance(v, fractions.Fraction):
        return v
    v = float(v)
    if math.isinf(v) or math.isnan(v):
        raise Unsupported("inf/nan mixed with a symbolic value")
    return fractions.Fraction(v)


def rv(v):
    f = frac(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def to_real(v):
    if isinstance(v, Sym):
        return v.as_real()
    return rv(v)


def is_num(v):
    return isinstance(v, (int, float, np.integer, np.floating, bool, np.bool_, fractions.Fraction))


def _unwrap(v):
    if isinstance(v, np.ndarray) and v.shape == () and not hasattr(v, "units"):
        return v[()]
    return v


class Sym:
    """Common behaviour; mimics a 0-d numpy scalar where libraries probe for it."""

    __slots__ = ("e",)
    shape = ()
    ndim = 0
    size = 1
    nbytes = 8
    dtype = np.dtype(object)
    # ndarray op Sym is left to numpy (elementwise on object arrays)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<{self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def item(self, *a):
        return self

    def squeeze(self, *a, **k):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def view(self, *a, **k):
        r = np.empty((), dtype=object)
        r[()] = self
        return r

    def astype(self, dt, *a, **k):
        from .npshim import cast_scalar

        return cast_scalar(self, dt)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self


def quantity(v, unit):
    """Symbolic scalar times a unyt unit."""
    from unyt import unyt_quantity

    a = np.empty((), dtype=object)
    a[()] = v
    return unyt_quantity(a, unit, bypass_validation=True)


def _coerce(o):
    o = _unwrap(o)
    if isinstance(o, Sym):
        return o
    if isinstance(o, (bool, np.bool_)):
        return SymBool(z3.BoolVal(bool(o)))
    if isinstance(o, (int, np.integer)):
        return SymInt(z3.IntVal(int(o)))
    if isinstance(o, (float, np.floating, fractions.Fraction)):
        return SymReal(rv(o))
    return None


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def as_real(self):
        return z3.If(self.e, z3.RealVal(1), z3.RealVal(0))

    def as_bool(self):
        return self.e

    def _b(self, o):
        o = _unwrap(o)
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        if isinstance(o, (int, np.integer)) and int(o) in (0, 1):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            return SymBool(self.e == b)
        return self.as_int() == o

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = Sym.__hash__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self.as_int()

    def _arith(name):  # noqa: N805
        def f(self, o):
            return getattr(self.as_int(), name)(o)

        return f

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "lt", "le", "gt", "ge", "pow"):
        locals()[f"__{_n}__"] = _arith(f"__{_n}__")
    del _n, _arith

    def __neg__(self):
        return -self.as_int()


class SymNum(Sym):
    __slots__ = ()

    # --- comparisons
    def _cmp(self, o, op):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if isinstance(c, SymBool):
            c = c.as_int()
        if isinstance(self, SymInt) and isinstance(c, SymInt):
            a, b = self.e, c.e
        else:
            a, b = self.as_real(), c.as_real()
        return SymBool(z3.simplify(op(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().branch(self.e != 0)

    # --- arithmetic
    def _bin(self, o, op, force_real=False, swap=False):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if isinstance(c, SymBool):
            c = c.as_int()
        if isinstance(self, SymInt) and isinstance(c, SymInt) and not force_real:
            a, b = self.e, c.e
            if swap:
                a, b = b, a
            return SymInt(z3.simplify(op(a, b)))
        a, b = self.as_real(), c.as_real()
        if swap:
            a, b = b, a
        return SymReal(z3.simplify(op(a, b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, swap=True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, swap=True)

    def __mul__(self, o):
        if getattr(o, "is_Unit", False):
            return quantity(self, o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if getattr(o, "is_Unit", False):
            return quantity(self, o)
        return self._bin(o, lambda a, b: a * b, swap=True)

    @staticmethod
    def _nz(d):
        """Fork on a zero divisor."""
        d = z3.simplify(d)
        if z3.is_int_value(d) or z3.is_rational_value(d):
            if (d.as_long() if z3.is_int_value(d) else d.as_fraction()) == 0:
                raise ZeroDivisionError("division by zero")
            return
        if ctx().branch(d == 0):
            raise ZeroDivisionError("division by zero")

    def __truediv__(self, o):
        if getattr(o, "is_Unit", False):
            return quantity(self, o**-1)
        c = _coerce(o)
        if c is None:
            return NotImplemented
        b = c.as_real()
        if EXPAND[0] and not z3.is_rational_value(b):
            b = z3.simplify(b, som=True)
        self._nz(b)
        return SymReal(z3.simplify(self.as_real() / b))

    def __rtruediv__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        b = self.as_real()
        self._nz(b)
        return SymReal(z3.simplify(c.as_real() / b))

    @classmethod
    def _floordiv(cls, x, y):
        if isinstance(x, SymBool):
            x = x.as_int()
        if isinstance(y, SymBool):
            y = y.as_int()
        if isinstance(x, SymInt) and isinstance(y, SymInt):
            cls._nz(y.e)
            yv = z3.simplify(y.e)
            if z3.is_int_value(yv):
                n = yv.as_long()
                return SymInt(z3.simplify(x.e / yv if n > 0 else (-x.e) / z3.IntVal(-n)))
            return SymInt(z3.If(y.e > 0, x.e / y.e, (-x.e) / (-y.e)))
        b = y.as_real()
        cls._nz(b)
        return SymReal(z3.ToReal(z3.ToInt(x.as_real() / b)))

    def __floordiv__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else self._floordiv(self, c)

    def __rfloordiv__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else self._floordiv(c, self)

    def __mod__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else self - self._floordiv(self, c) * c

    def __rmod__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else c - self._floordiv(c, self) * self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return type(self)(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    absolute = fabs = __abs__

    def __pow__(self, p, mod=None):
        p = _unwrap(p)
        if isinstance(p, Sym):
            raise Unsupported("symbolic exponent")
        f = frac(p).limit_denominator(10**6)
        if f.denominator == 1:
            n = f.numerator
            if n == 0:
                return SymInt(z3.IntVal(1)) if isinstance(self, SymInt) and isinstance(p, int) else SymReal(z3.RealVal(1))
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            if isinstance(p, (float, np.floating)):
                r = SymReal(r.as_real())
            return r if n > 0 else 1 / r
        if f.denominator == 2:
            s = self.sqrt()
            return s ** f.numerator
        # k-th root of a positive number
        root = ctx().root(self.as_real(), f.denominator)
        return SymReal(root) ** f.numerator

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def sqrt(self):
        return SymReal(ctx().root(self.as_real(), 2))

    def cbrt(self):
        return SymReal(ctx().root(self.as_real(), 3))

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.as_real())))

    def ceil(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.as_real())))

    def trunc(self):
        return SymReal(z3.ToReal(self.trunc_int().e))

    def rint(self):
        """Round half to even."""
        x = self.as_real()
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        r = z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SymReal(z3.ToReal(r))

    def trunc_int(self):
        if isinstance(self, SymInt):
            return self
        x = self.e
        return SymInt(z3.simplify(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))))

    def __trunc__(self):
        return self.trunc_int()

    def __floor__(self):
        return SymInt(z3.ToInt(self.as_real()))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.as_real()))

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round to digits")
        r = self.rint()
        return SymInt(z3.ToInt(r.e)) if n is None else r

    def _uf(name):  # noqa: N805
        def f(self):
            return SymReal(ctx().uf(name)(self.as_real()))

        return f

    for _n in ("exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh"):
        locals()[_n] = _uf(_n)
    del _n, _uf

    def arctan2(self, o):
        if not (isinstance(o, Sym) and ctx().branch(to_real(o) <= 0)) and not (not isinstance(o, Sym) and o <= 0):
            return (self / o).arctan()
        return SymReal(ctx().uf("arctan2", 2)(self.as_real(), to_real(o)))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def isnan(self):
        return False

    isinf = isnan

    def isfinite(self):
        return True

    def sign(self):
        return type(self)(z3.If(self.e > 0, 1, z3.If(self.e < 0, -1, 0)))

    def is_integer(self):
        return SymBool(z3.IsInt(self.as_real()))

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    max = mean = min


class SymInt(SymNum):
    __slots__ = ()

    def as_real(self):
        if z3.is_int_value(self.e):
            return z3.RealVal(self.e.as_long())
        return z3.ToReal(self.e)

    def __index__(self):
        return ctx().concretise(self.e)

    __int__ = __index__

    def __float__(self):
        return float(ctx().concretise(self.e))

    def _bits(self, o, fn):
        a = self.__index__()
        b = o.__index__()
        return fn(a, b)

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))


# whether denominators are expanded first (some sums are constants)
EXPAND = [False]


class SymReal(SymNum):
    __slots__ = ()

    def as_real(self):
        return self.e

    def __int__(self):
        return ctx().concretise(self.trunc_int().e)

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return float(f)
        return ctx().pin_real(e)


def ite(c, a, b):
    """Merge without forking."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if a is b:
        return a
    x, y = _coerce(a), _coerce(b)
    if x is None or y is None:
        return a if c else b
    ce = c.e
    if isinstance(x, SymBool) and isinstance(y, SymBool):
        return SymBool(z3.If(ce, x.e, y.e))
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(y, SymBool):
        y = y.as_int()
    if isinstance(x, SymInt) and isinstance(y, SymInt):
        return SymInt(z3.If(ce, x.e, y.e))
    return SymReal(z3.If(ce, x.as_real(), y.as_real()))


def smin(*args):
    if len(args) == 1:
        args = tuple(args[0])
    r = args[0]
    for x in args[1:]:
        if isinstance(r, Sym) or isinstance(x, Sym):
            r = ite(_b(x < r), x, r)
        else:
            r = min(r, x)
    return r


def smax(*args):
    if len(args) == 1:
        args = tuple(args[0])
    r = args[0]
    for x in args[1:]:
        if isinstance(r, Sym) or isinstance(x, Sym):
            r = ite(_b(x > r), x, r)
        else:
            r = max(r, x)
    return r


def _b(v):
    """Anything truthy -> bool or SymBool, no fork."""
    v = _unwrap(v)
    if isinstance(v, SymBool):
        return v
    if isinstance(v, SymNum):
        return v != 0
    if isinstance(v, np.ndarray) and v.size == 1:
        return _b(v.reshape(-1).view(np.ndarray)[0])
    return bool(v)


def sand(*args):
    vals = [_b(a) for a in (args[0] if len(args) == 1 and not isinstance(args[0], (Sym, bool, np.bool_)) else args)]
    if any(v is False for v in vals):
        return False
    s = [v.e for v in vals if isinstance(v, SymBool)]
    if not s:
        return True
    return SymBool(z3.And(*s)) if len(s) > 1 else SymBool(s[0])


def sor(*args):
    vals = [_b(a) for a in (args[0] if len(args) == 1 and not isinstance(args[0], (Sym, bool, np.bool_)) else args)]
    if any(v is True for v in vals):
        return True
    s = [v.e for v in vals if isinstance(v, SymBool)]
    if not s:
        return False
    return SymBool(z3.Or(*s)) if len(s) > 1 else SymBool(s[0])


def snot(v):
    v = _b(v)
    return SymBool(z3.Not(v.e)) if isinstance(v, SymBool) else (not v)


def implies(a, b):
    return sor(snot(a), b)


def iff(a, b):
    a, b = _b(a), _b(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else snot(b)
    if isinstance(b, bool):
        return a if b else snot(a)
    return SymBool(a.e == b.e)


def ssum(vals, start=0):
    r = start
    for v in vals:
        if isinstance(v, SymBool):
            v = v.as_int()
        r = r + v
    return r


def b2i(v):
    v = _b(v)
    return v.as_int() if isinstance(v, SymBool) else int(v)


# --------------------------------------------------------------------------


class Path:
    """One execution of a harness along one decision sequence."""

    def __init__(self, engine, trail):
        self.engine = engine
        self.trail = trail  # list of dict(kind, val, alts)
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.query_timeout_ms)
        self.inputs = {}  # name -> z3 expr
        self.fresh = itertools.count()
        self.roots = {}
        self.ufs = {}
        self.forks = 0
        self.dirty = True
        self.model = None
        self.pinned = False
        self.pc_len = 0

    # -- constraints
    def add(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.solver.add(c)
        self.pc_len += 1
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def query(self, *extra):
        self.engine.check_budget()
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.engine.stats["queries"] += 1
        self.engine.stats["solver_s"] += dt
        if dt > self.engine.stats["max_query_s"]:
            self.engine.stats["max_query_s"] = dt
        if r == z3.unknown:
            r = self.engine.second_opinion(self.solver, extra)
            if r is None:
                self.engine.stats["unknown"] += 1
                raise Inconclusive(f"solver unknown: {self.solver.reason_unknown()}")
            return r
        if r == z3.sat:
            self.last_model = self.solver.model()
        return r

    def feasible(self, c):
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(c, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        r = self.query(c)
        if r == z3.sat:
            self.model = self.last_model
            return True
        return False

    def get_model(self):
        if self.model is None:
            if self.query() != z3.sat:
                raise Infeasible()
            self.model = self.last_model
        return self.model

    # -- decisions
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            v = d["val"]
            if d["kind"] != "b":
                raise RuntimeError("non-deterministic replay of a path (branch)")
            self.add(cond if v else z3.Not(cond))
            return v
        neg = z3.Not(cond)
        t = self.feasible(cond)
        if t:
            m = self.model
            f = self.feasible(neg)
            if m is not None:
                self.model = m
        else:
            f = True
        if not t and not f:
            raise Infeasible()
        d = {"kind": "b", "val": bool(t), "alts": [False] if (t and f) else []}
        self.trail.append(d)
        self.pos += 1
        if t and f:
            self.forks += 1
            self.engine.stats["forks"] += 1
        self.add(cond if t else neg)
        return bool(t)

    def concretise(self, e):
        """Split over every feasible value of the integer e."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            if d["kind"] != "c":
                raise RuntimeError("non-deterministic replay of a path (value)")
            v = d["val"]
            if v is None:
                # previous values are exhausted: pick the next one not in seen
                if self.query(*[e != s for s in d["seen"]]) != z3.sat:
                    raise Infeasible()
                v = self.last_model.eval(e, model_completion=True).as_long()
                d["val"] = v
                d["seen"].append(v)
                d["alts"] = [None] if self.query(*[e != s for s in d["seen"]]) == z3.sat else []
                self.engine.stats["forks"] += 1
                if len(d["seen"]) > self.engine.max_values:
                    raise Inconclusive("too many values for one integer")
            self.add(e == v)
            return v
        m = self.get_model()
        v = m.eval(e, model_completion=True).as_long()
        d = {"kind": "c", "val": v, "seen": [v], "alts": []}
        if self.query(e != v) == z3.sat:
            d["alts"] = [None]
        self.trail.append(d)
        self.pos += 1
        self.add(e == v)
        return v

    def pin_real(self, e):
        """Under-approximation: fix a real to one value (recorded)."""
        m = self.get_model()
        v = m.eval(e, model_completion=True)
        if not z3.is_rational_value(v):
            v = v.approx(20) if hasattr(v, "approx") else v
        if not z3.is_rational_value(v):
            raise Unsupported("cannot pin a real value")
        self.add(e == v)
        self.pinned = True
        self.engine.stats["pinned"] += 1
        return float(v.as_fraction())

    # -- derived symbols
    def root(self, x, k):
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            f = x.as_fraction()
            if f >= 0:
                n = round(f.numerator ** (1.0 / k))
                d = round(f.denominator ** (1.0 / k))
                if n**k == f.numerator and d**k == f.denominator:
                    return z3.RealVal(f"{n}/{d}")
        key = (x.get_id(), k)
        if key in self.roots:
            return self.roots[key][0]
        if self.branch(x < 0):
            if k % 2:
                return -self.root(-x, k)
            raise Unsupported("root of a negative number (nan)")
        r = z3.Real(f"root{k}!{next(self.fresh)}")
        self.roots[key] = (r, x)
        p = r
        for _ in range(k - 1):
            p = p * r
        self.add(r >= 0)
        self.add(p == x)
        return r

    def uf(self, name, n=1):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return self.ufs[name]

    def fresh_real(self, name="f"):
        return SymReal(z3.Real(f"{name}!{next(self.fresh)}"))


class Engine:
    def __init__(self, budget_s=300, max_paths=10**6, query_timeout_ms=30000, max_values=512, seed=1):
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.query_timeout_ms = query_timeout_ms
        self.max_values = max_values
        self.seed = seed
        self.stats = dict(paths=0, forks=0, queries=0, solver_s=0.0, max_query_s=0.0, unknown=0, pinned=0,
                          obligations=0, discharged=0, trivially_true=0, infeasible=0)
        self.t0 = None
        self.complete = False
        self.notes = []

    def check_budget(self):
        if time.time() - self.t0 > self.budget_s:
            raise TimeoutError_("time budget")

    def second_opinion(self, solver, extra):
        """Retry with the nlsat tactic (helps on non-linear reals)."""
        try:
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", self.query_timeout_ms)
            s.add(*solver.assertions())
            s.add(*extra)
            t = time.time()
            r = s.check()
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t
            if r == z3.unknown:
                return None
            if r == z3.sat:
                self._current.last_model = s.model()
            return r
        except z3.Z3Exception:
            return None

    def explore(self, fn):
        """fn(path) runs one path. Yields nothing; fn records results itself."""
        global CTX
        self.t0 = time.time()
        trail = []
        self.complete = True
        while True:
            p = Path(self, trail)
            self._current = p
            CTX = p
            try:
                fn(p)
                self.stats["paths"] += 1
            except Infeasible:
                self.stats["infeasible"] += 1
            except PathEnd:
                self.stats["paths"] += 1
            except Inconclusive as e:
                self.complete = False
                self.stats["paths"] += 1
                self.notes.append(f"inconclusive: {e}")
            except TimeoutError_ as e:
                self.complete = False
                self.notes.append(f"stopped: {e}")
                return
            finally:
                CTX = None
            # backtrack: drop unconsumed tail (can happen if fn stopped early)
            del trail[p.pos:]
            while trail and not trail[-1]["alts"]:
                trail.pop()
            if not trail:
                return
            d = trail[-1]
            d["val"] = d["alts"].pop()
            if self.stats["paths"] + self.stats["infeasible"] >= self.max_paths:
                self.complete = False
                self.notes.append("stopped: path budget")
                return


class TimeoutError_(BaseException):
    pass
