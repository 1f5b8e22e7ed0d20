"""Shared by the cosmology-array harnesses (C11-C16)."""

import warnings

import numpy as np

EXPS = [0, 1, -2, 0.5]


def setup():
    from symex import unytsym

    unytsym.install()
    warnings.simplefilter("ignore")


def concrete_setup():
    warnings.simplefilter("ignore")


def fresh(S):
    """Symbols of an earlier path must not be reused."""
    if S.symbolic:
        from symex import unytsym

        unytsym._TERMS.clear()
    other_snapshot()


def other_snapshot():
    """What happened before: data of another snapshot, at another scale factor, was converted."""
    from swiftsimio.objects import cosmo_factor, cosmo_quantity

    try:
        for p in (1, -1, 2, -2, -3, 3, 0.5):
            cf = cosmo_factor.create(0.75, p)
            cf.a_factor, cf.redshift
            x = cosmo_quantity(3.0, "Mpc", comoving=True, cosmo_factor=cf)
            x.to_physical(), x.to_physical().to_comoving(), x + x.to_physical(), x * x
    except Exception:  # noqa: BLE001 -- judged by the checks themselves
        pass


def exponent(cf):
    """Power of a in a cosmo_factor, read off its expression (not through the code under test)."""
    if cf is None or cf.expr is None:
        return None
    import math

    if cf.expr == 1:
        return 0.0
    (sym,) = cf.expr.free_symbols
    e = math.log2(float(cf.expr.subs(sym, 2)))
    return round(e, 9) + 0.0


def apow(a, p):
    """a**p for (half-)integer p."""
    if p == 0:
        return 1
    k = round(2 * p)
    if k % 2 == 0:
        return a ** int(k // 2)
    r = a.sqrt() if hasattr(a, "sqrt") else np.sqrt(a)
    return r**k


class In:
    """One symbolic input: what the user passes (x) and the physical values it stands for."""

    def __init__(self, S, name, shape, p, frame, a, unit="Mpc", lo=-4, hi=4, lo_open=False, vals=None, **kw):
        from swiftsimio.objects import cosmo_array, cosmo_quantity

        n = int(np.prod(shape)) if shape != () else 1
        if vals is None:
            vals = [S.real(f"{name}{i}", lo, hi, lo_open=lo_open) for i in range(n)]
        self.S, self.p, self.frame, self.a, self.shape = S, p, frame, a, shape
        self.raw = S.arr(vals).reshape(shape)
        f = apow(a, p) if frame else 1
        self.phys = plain(S, [v * f for v in vals], shape)
        self.com = plain(S, [v if frame else v / apow(a, p) for v in vals], shape)
        self.unit = unit
        cls = cosmo_array
        d = self.raw.copy()
        if shape == ():
            cls = cosmo_quantity
        self.x = cls(d, unit, comoving=frame, scale_factor=a, scale_exponent=p, **kw)

    def intact(self, label="the inputs are left unmodified"):
        S, x = self.S, self.x
        S.check(S.alleq(vals_of(x), flat(self.raw)), label)
        S.check(x.comoving is self.frame and exponent(x.cosmo_factor) == self.p and str(x.units) == str(self.unit), label)


def plain(S, vals, shape):
    return S.arr(vals).reshape(shape)


def flat(x):
    """Elements of an array as a plain list."""
    if isinstance(x, np.ndarray):
        return list(x.view(np.ndarray).reshape(-1))
    return [x]


vals_of = flat


def physical(S, r, a):
    """Physical values a result stands for, read from its frame and exponent."""
    p = exponent(getattr(r, "cosmo_factor", None))
    f = apow(a, p) if (getattr(r, "comoving", None) and p) else 1
    return [v * f for v in flat(r)]
