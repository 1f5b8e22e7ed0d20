"""What a harness sees: the same harness text runs symbolically and, for replay,
concretely on the unpatched code."""

import fractions
import math
import random
import time

import numpy as np
import z3

from . import core
from .core import Infeasible, Sym, SymBool, SymInt, SymReal, _b, sand


class CheckFailed(Exception):
    pass


class Base:
    def all(self, *c):
        return sand(*c) if len(c) != 1 else sand(list(c[0]) if not isinstance(c[0], (Sym, bool, np.bool_)) else [c[0]])


class SymSession(Base):
    symbolic = True

    def __init__(self, path, rec, tier):
        self.p = path
        self.rec = rec
        self.tier = tier
        self.labels = []

    # inputs -----------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.p.inputs[name] = v
        if lo is not None:
            self.p.add(v >= _term(lo))
        if hi is not None:
            self.p.add(v <= _term(hi))
        return SymInt(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = z3.Real(name)
        self.p.inputs[name] = v
        if lo is not None:
            lo = core.to_real(lo)
            self.p.add(v > lo if lo_open else v >= lo)
        if hi is not None:
            hi = core.to_real(hi)
            self.p.add(v < hi if hi_open else v <= hi)
        return SymReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.p.inputs[name] = v
        return SymBool(v)

    def choice(self, name, options):
        """A configuration choice: split over all of them."""
        i = self.int(name, 0, len(options) - 1).__index__()
        return options[i]

    def split(self, x):
        """Case-split a symbolic int/bool."""
        if isinstance(x, SymBool):
            return bool(x)
        return x.__index__()

    def scale_factor(self, name="a", hi="31/32"):
        """A symbolic scale factor with a known square root (for half exponents)."""
        b = z3.Real("sqrt_" + name)
        self.p.inputs["sqrt_" + name] = b
        self.p.add(z3.And(b >= z3.RealVal("1/4"), b <= z3.RealVal(hi)))
        a = z3.simplify(b * b)
        self.p.roots[(a.get_id(), 2)] = (b, a)
        return SymReal(a)

    def near(self, a, b, rtol=1e-9):
        """Equal up to a relative error (for unit conversion constants)."""
        a, b = _scalar(a), _scalar(b)
        if not (isinstance(a, Sym) or isinstance(b, Sym)):
            return abs(float(a) - float(b)) <= rtol * max(abs(float(a)), abs(float(b)))
        x, y = core.to_real(a), core.to_real(b)
        d = z3.simplify(x - y)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            return True
        ab = lambda v: z3.If(v >= 0, v, -v)  # noqa: E731
        return SymBool(ab(x - y) <= core.rv(rtol) * ab(y))

    def allnear(self, a, b, rtol=1e-9):
        fa, fb = list(_flat(a)), list(_flat(b))
        if len(fa) != len(fb):
            return False
        return sand([self.near(x, y, rtol) for x, y in zip(fa, fb)]) if fa else True

    # assume/check -----------------------------------------------------
    def assume(self, c):
        c = _b(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return
        if z3.is_false(e) or not self.p.feasible(e):
            raise Infeasible()
        self.p.add(e)

    def check(self, c, label):
        self.rec.obligation(self, c, label)

    def fail(self, label):
        self.check(False, label)

    def note(self, label):
        self.rec.reach(label)

    # data -------------------------------------------------------------
    def arr(self, values, dtype=float, ndim=None):
        from .npshim import SArr, obj

        a = np.empty(np.shape(_skeleton(values)), dtype=object)
        flat = list(_flat(values))
        af = a.reshape(-1)
        for i, v in enumerate(flat):
            if not isinstance(v, (bool, np.bool_)):
                c = core._coerce(v)
                v = c if c is not None else v
            af[i] = v
        return a.view(SArr)

    def eq(self, a, b, scale=1.0):
        a, b = _scalar(a), _scalar(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return _b(a == b)
        return a == b

    def alleq(self, a, b):
        fa, fb = list(_flat(a)), list(_flat(b))
        if len(fa) != len(fb):
            return False
        return sand([self.eq(x, y) for x, y in zip(fa, fb)]) if fa else True

    def le(self, a, b):
        return _b(_scalar(a) <= _scalar(b))

    def lt(self, a, b):
        return _b(_scalar(a) < _scalar(b))


class ConcSession(Base):
    """Concrete replay of one assignment on the real code."""

    symbolic = False
    rtol = 1e-9
    atol = 1e-12

    def __init__(self, inputs, tier):
        self.inputs = inputs
        self.tier = tier
        self.violated = []
        self.checked = 0
        self.cut = False

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._get(name, None)
        if v is None:
            return float(lo if lo is not None else 0.0)
        return float(fractions.Fraction(v))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[self.int(name, 0)]

    def split(self, x):
        return x

    def scale_factor(self, name="a", hi=None):
        return self.real("sqrt_" + name, 0.25) ** 2

    def near(self, a, b, rtol=1e-9):
        if rtol <= self.rtol:
            return self.eq(a, b)
        a, b = float(_scalar(a)), float(_scalar(b))
        return abs(a - b) <= self.atol + 2 * rtol * max(abs(a), abs(b))

    def allnear(self, a, b, rtol=1e-9):
        fa, fb = list(_flat(a)), list(_flat(b))
        return len(fa) == len(fb) and all(self.near(x, y, rtol) for x, y in zip(fa, fb))

    def assume(self, c):
        if not bool(c):
            self.cut = True
            raise Infeasible()

    def check(self, c, label):
        self.checked += 1
        if not bool(c):
            self.violated.append(label)

    def fail(self, label):
        self.check(False, label)

    def note(self, label):
        pass

    def arr(self, values, dtype=float, ndim=None):
        return np.array(values, dtype=dtype)

    def eq(self, a, b, scale=1.0):
        a, b = _scalar(a), _scalar(b)
        if isinstance(a, (int, np.integer, bool, np.bool_)) and isinstance(b, (int, np.integer, bool, np.bool_)):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= self.atol * scale + self.rtol * max(abs(a), abs(b), abs(scale) * 1e-3)

    def alleq(self, a, b):
        fa, fb = list(_flat(a)), list(_flat(b))
        if len(fa) != len(fb):
            return False
        return all(self.eq(x, y) for x, y in zip(fa, fb))

    def le(self, a, b):
        a, b = float(_scalar(a)), float(_scalar(b))
        return a <= b + self.atol + self.rtol * max(abs(a), abs(b))

    def lt(self, a, b):
        return self.le(a, b)


def _term(v):
    return v.e if isinstance(v, SymInt) else z3.IntVal(int(v))


def _scalar(v):
    if hasattr(v, "units") and isinstance(v, np.ndarray):
        v = v.view(np.ndarray)
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise ValueError("scalar expected")
        v = v.view(np.ndarray).reshape(-1)[0]
    return v


def _flat(v):
    if isinstance(v, np.ndarray):
        yield from v.view(np.ndarray).reshape(-1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from _flat(x)
    else:
        yield v


def _skeleton(v):
    if isinstance(v, np.ndarray):
        return np.zeros(v.shape)
    if isinstance(v, (list, tuple)):
        return [_skeleton(x) for x in v]
    return 0


class Recorder:
    """Collects the outcome of all paths of one harness."""

    def __init__(self, engine, max_cex=4, n_samples=3):
        self.engine = engine
        self.cex = []
        self.cex_labels = {}
        self.max_cex = max_cex
        self.reached = {}
        self.samples = []
        self.n_samples = n_samples
        self.unsupported = []
        self.label_stats = {}
        self.generic_s = 0.0

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def obligation(self, S, c, label):
        st = self.engine.stats
        st["obligations"] += 1
        self.reach(label)
        c = _b(c)
        p = S.p
        if c is True:
            st["discharged"] += 1
            st["trivially_true"] += 1
            return
        neg = z3.BoolVal(True) if c is False else z3.simplify(z3.Not(c.e))
        if z3.is_false(neg):
            st["discharged"] += 1
            st["trivially_true"] += 1
            return
        try:
            r = p.query(neg)
        except core.Inconclusive as e:
            self.engine.complete = False
            self.engine.notes.append(f"unknown on obligation '{label}': {e}")
            return
        if r == z3.unsat:
            st["discharged"] += 1
            p.add(z3.Not(neg))
            return
        model = p.last_model
        if self.cex_labels.get(label, 0) < self.max_cex:
            self.cex_labels[label] = self.cex_labels.get(label, 0) + 1
            self.cex.append(dict(label=label, inputs=self.models(p, neg, model, generic=self.cex_labels[label] <= 2)))
        if c is False:
            raise core.PathEnd()
        # go on under the property, so that later obligations are judged too
        pos = z3.Not(neg)
        if not p.feasible(pos):
            raise core.PathEnd()
        p.add(pos)

    def models(self, p, extra, model, generic=False):
        """Candidate assignments: dyadic ones first (exact in floating point)."""
        out = []
        reals = [v for v in p.inputs.values() if z3.is_real(v)]
        if reals:
            for bits, bound in ((5, 64), (12, 4096), (30, 10**6)):
                try:
                    s = z3.Solver()
                    s.set("timeout", 8000)
                    s.add(*p.solver.assertions())
                    s.add(extra)
                    for i, v in enumerate(reals):
                        k = z3.Int(f"dy!{i}")
                        s.add(v * (2**bits) == z3.ToReal(k))
                        s.add(v <= bound, v >= -bound)
                    if s.check() == z3.sat:
                        out.append(self.values(p, s.model()))
                        break
                except z3.Z3Exception:
                    pass
        out.append(self.values(p, model))
        if generic:
            out += self.generic(p, extra, reals)
        return out

    def generic(self, p, extra, reals, n=3, seconds=20):
        """More counterexamples, with as many inputs as possible at unremarkable values (a solver
        likes corners, where a difference may drown in the rounding of the real code)."""
        out = []
        end = time.time() + min(seconds, max(0, 60 - self.generic_s))
        t0 = time.time()
        for k in range(n):
            rnd = random.Random(k)
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*p.solver.assertions())
            s.add(extra)
            got = None
            for v in rnd.sample(reals, len(reals)):
                for q in (rnd.randrange(-64, 65) / 16, rnd.randrange(1, 64) / 16, rnd.randrange(1, 16) / 16, rnd.randrange(1, 32) / 256):
                    if time.time() > end:
                        self.generic_s += time.time() - t0
                        return out
                    s.push()
                    s.add(v == z3.Q(int(q * 256), 256))
                    try:
                        ok = s.check() == z3.sat
                        if ok:
                            got = s.model()
                    except z3.Z3Exception:
                        ok = False
                    if ok:
                        break
                    s.pop()
            if got is not None:
                out.append(self.values(p, got))
        self.generic_s += time.time() - t0
        return out

    def values(self, p, model):
        r = {}
        for n, v in p.inputs.items():
            x = model.eval(v, model_completion=True)
            if z3.is_int_value(x):
                r[n] = x.as_long()
            elif z3.is_true(x) or z3.is_false(x):
                r[n] = z3.is_true(x)
            elif z3.is_rational_value(x):
                f = x.as_fraction()
                r[n] = f"{f.numerator}/{f.denominator}"
            else:
                try:
                    f = x.approx(20).as_fraction()
                    r[n] = f"{f.numerator}/{f.denominator}"
                except Exception:
                    r[n] = "0"
        return r

    def sample(self, p):
        if not p.inputs:
            return
        if p.query() == z3.sat:
            self.samples.append(self.models(p, z3.BoolVal(True), p.last_model)[0])
