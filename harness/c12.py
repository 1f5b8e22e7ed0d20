"""C12: arithmetic gives the same physics in either frame."""

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "Two-element arrays and scalars with any values in [-4, 4] (positive where the operation needs it); scale factor any real in [1/16, 0.94]; exponents from a stated list.",
    "Rounding operations (floor, ceil, trunc, rint) act on the numbers as stored, so only their labels are checked.",
    "exp, log and trigonometric functions are uninterpreted functions of the physical argument.",
]
A, Q = (2,), ()


def U(name):
    import numpy as np

    return getattr(np, name)


def kinds(two):
    return [(A, A), (A, Q), (Q, A)] if two else [(A,), (Q,)]


# name -> (numpy function, positive values needed, same exponent needed, exponent of the result from p, q, unit power of the result)
def same(p, q):
    return p


def none(p, q):
    return None


BINARY = {
    "add": ("same", same), "subtract": ("same", same), "multiply": ("any", lambda p, q: p + q), "divide": ("any", lambda p, q: p - q),
    "hypot": ("same", same), "maximum": ("same", same), "minimum": ("same", same), "fmax": ("same", same), "fmin": ("same", same),
    "remainder": ("same", same), "fmod": ("same", same), "floor_divide": ("same", lambda p, q: 0), "arctan2": ("same", lambda p, q: 0),
    "greater": ("same", none), "greater_equal": ("same", none), "less": ("same", none), "less_equal": ("same", none), "equal": ("same", none), "not_equal": ("same", none),
    "copysign": ("same", same), "vecdot": ("any", lambda p, q: p + q), "matmul": ("any", lambda p, q: p + q), "heaviside": ("same", same),
}
UNITS = {"multiply": "Mpc**2", "divide": "dimensionless", "floor_divide": "dimensionless", "arctan2": None, "vecdot": "Mpc**2", "matmul": "Mpc**2"}
POS = {"divide", "floor_divide", "remainder", "fmod", "arctan2"}
UNARY = {
    "negative": lambda p: p, "absolute": lambda p: p, "fabs": lambda p: p, "positive": lambda p: p, "conjugate": lambda p: p, "sqrt": lambda p: p / 2,
    "square": lambda p: 2 * p, "reciprocal": lambda p: -p, "sign": lambda p: None, "isfinite": lambda p: None, "isnan": lambda p: None,
}


def result(S, r, want, a, exp, unit, label, frame=0):
    """The result's frame, exponent and numbers stand for the wanted physical values."""
    import numpy as np

    S.check(S.allnear(cl.physical(S, r, a), cl.flat(want)), f"{label}: physical values")
    S.check(np.shape(r) == np.shape(want), f"{label}: shape")
    got = cl.exponent(getattr(r, "cosmo_factor", None))
    if exp is None:
        S.check(got in (None, 0.0), f"{label}: no scale-factor dependence")
    elif hasattr(r, "units"):
        S.check((got or 0.0) == exp, f"{label}: exponent")
        if exp:
            S.check(S.eq(r.cosmo_factor.scale_factor, a), f"{label}: scale factor")
    else:
        S.check(exp == 0, f"{label}: exponent")
    if unit is not None and exp is not None:
        import unyt

        S.check(getattr(r, "units", unyt.dimensionless) == unyt.Unit(unit), f"{label}: units")
    if frame != 0 and exp is not None and hasattr(r, "comoving"):
        S.check(r.comoving is frame, f"{label}: frame")


def out_frame(fx, fy):
    """Both the same: that frame. Mixed: either, as long as the numbers agree with it."""
    return fx if fx is fy else 0


def binary(S, names, exps, ks):
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    op = S.choice("op", names)
    kx, ky = S.choice("kinds", ks)
    if op in ("vecdot", "matmul") and (kx, ky) != (A, A):
        return
    p = S.choice("p", exps)
    rule, exp = BINARY[op]
    q = p if rule == "same" else S.choice("q", exps)
    fx, fy = S.choice("fx", [True, False]), S.choice("fy", [True, False])
    pos = op in POS
    x = cl.In(S, "x", kx, p, fx, a, lo=0 if pos else -4, lo_open=pos)
    y = cl.In(S, "y", ky, q, fy, a, lo=0 if pos else -4, lo_open=pos)
    if op in ("remainder", "fmod", "floor_divide", "copysign"):
        # exact boundaries flip under rounding: stay off them
        ex, ey = cl.flat(x.phys), cl.flat(y.phys)
        for i in range(max(len(ex), len(ey))):
            u, v = ex[i % len(ex)], ey[i % len(ey)]
            if op == "copysign":
                S.assume((v > 0.01) | (v < -0.01))
                continue
            S.assume(u / v < 6)
            k = (u / v)
            fl = k.__floor__() if S.symbolic else np.floor(k)
            S.assume((k - fl > 0.001) & (k - fl < 0.999))
    if op in ("greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "maximum", "minimum", "fmax", "fmin") and fx is not fy:
        ex, ey = cl.flat(x.phys), cl.flat(y.phys)
        for i in range(max(len(ex), len(ey))):
            u, v = ex[i % len(ex)], ey[i % len(ey)]
            S.assume((u - v > 0.001) | (v - u > 0.001))
    if op == "heaviside":
        for u in cl.flat(x.raw):
            S.assume((u > 0.001) | (u < -0.001))
    f = U(op)
    with np.errstate(all="ignore"):
        r = f(x.x, y.x)
        want = ref(S, op, x.phys, y.phys)
    result(S, r, want, a, exp(p, q), UNITS.get(op, "Mpc"), op, out_frame(fx, fy))
    x.intact()
    y.intact()


def ref(S, op, *vs):
    """numpy itself on plain physical numbers."""
    import numpy as np

    vs = [v if np.ndim(v) else v for v in vs]
    if S.symbolic:
        from symex.npshim import SArr

        vs = [np.asarray(v).view(SArr) for v in vs]
        if op == "vecdot":
            return (vs[0] * vs[1]).sum(axis=-1)
        if op == "matmul":
            return (vs[0] * vs[1]).sum()
        if op == "heaviside":
            from symex.npshim import _vec
        return getattr(np, op)(*vs)
    return getattr(np, op)(*vs)


def unary(S, names, exps):
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    op = S.choice("op", names)
    k = S.choice("kinds", [A, Q])
    p = S.choice("p", exps)
    f = S.choice("fx", [True, False])
    pos = op in ("sqrt", "reciprocal")
    x = cl.In(S, "x", k, p, f, a, lo=0 if pos else -4, lo_open=pos)
    r = U(op)(x.x)
    want = ref(S, op, x.phys)
    unit = {"sqrt": "Mpc**0.5", "square": "Mpc**2", "reciprocal": "1/Mpc"}.get(op, "Mpc")
    result(S, r, want, a, UNARY[op](p), unit, op, f)
    x.intact()


def power(S, exps, pw):
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    k = S.choice("kinds", [A, Q])
    n = S.choice("power", pw)
    p = S.choice("p", exps)
    f = S.choice("fx", [True, False])
    x = cl.In(S, "x", k, p, f, a, lo=0, lo_open=True)
    form = S.choice("form", ["operator", "np.power", "quantity", "quantity in unit", "number with unit", "percent", "ratio of lengths", "ratio of comoving lengths", "array"])
    r = x.x ** exponent(S, form, n, f, a, k) if form != "np.power" else np.power(x.x, n)
    want = S.arr([_pow(v, n) for v in cl.flat(x.phys)]).reshape(k)
    result(S, r, want, a, p * n, f"Mpc**{n}" if n else "dimensionless", f"power {n}", f)
    x.intact()


def exponent(S, form, n, f, a, k):
    """The number n in the forms an exponent comes in."""
    import numpy as np
    import unyt

    from swiftsimio.objects import cosmo_quantity

    def cq(v, u, e=0):
        return cosmo_quantity(v, u, comoving=f, scale_factor=a, scale_exponent=e)

    if form == "quantity":
        return cq(n, "dimensionless")
    if form == "quantity in unit":
        return cq(n, unyt.dimensionless)
    if form == "number with unit":
        return unyt.unyt_quantity(n, unyt.dimensionless)
    if form == "percent":
        return unyt.unyt_quantity(100 * n, "percent")
    if form == "ratio of lengths":
        return unyt.unyt_quantity(n, "Mpc") / unyt.unyt_quantity(1000.0, "kpc")
    if form == "ratio of comoving lengths":
        return cq(2.0 * n, unyt.Mpc, 1) / cq(2.0, unyt.Mpc, 1)
    if form == "array":
        return np.full(k, n)
    return n


def powers(S, pw):
    """Different exponents for different elements of data that do not scale."""
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    f = S.choice("fx", [True, False])
    x = cl.In(S, "x", A, 0, f, a, lo=0, lo_open=True, unit="dimensionless")
    m, n = S.choice("powers", pw)
    r = x.x ** np.array([m, n])
    S.check(not isinstance(r.cosmo_factor, np.ndarray), "one cosmo_factor for the array")
    want = S.arr([_pow(v, e) for v, e in zip(cl.flat(x.phys), (m, n))])
    S.check(S.allnear(cl.physical(S, r, a), cl.flat(want)), "powers of pure numbers")
    x.intact()


def _pow(v, n):
    if n == 0.5:
        return v.sqrt() if hasattr(v, "sqrt") else v**0.5
    return v**n


def numbers(S, exps):
    """Arithmetic with plain numbers, plain arrays and units."""
    import numpy as np
    import unyt

    cl.fresh(S)
    a = S.scale_factor("a")
    k = S.choice("kinds", [A, Q])
    p = S.choice("p", exps)
    f = S.choice("fx", [True, False])
    x = cl.In(S, "x", k, p, f, a, lo=0, lo_open=True)
    c = S.choice("constant", [2, 0.5, "array", "Mpc", "s"])
    form = S.choice("form", ["mul", "rmul", "div", "rdiv", "imul", "idiv"])
    n = np.array([2.0, 4.0]) if c == "array" else unyt.Unit(c) if isinstance(c, str) else c
    if c == "array" and k == Q:
        return
    num = cl.plain(S, [2.0, 4.0], A) if c == "array" else 1 if isinstance(c, str) else c
    ph = x.phys
    unit = unyt.Unit("Mpc")
    u2 = n if isinstance(c, str) and c != "array" else unyt.dimensionless
    X = x.x
    keep = True
    if form == "mul":
        r, want, e, u = X * n, ph * num, p, unit * u2
    elif form == "rmul":
        r, want, e, u = n * X, ph * num, p, unit * u2
    elif form == "div":
        r, want, e, u = X / n, ph / num, p, unit / u2
    elif form == "rdiv":
        if c in ("Mpc", "s"):
            return
        r, want, e, u = n / X, num / ph, -p, u2 / unit
    else:
        if c in ("Mpc", "s"):
            return
        r = X
        if form == "imul":
            r *= n
            want = ph * num
        else:
            r /= n
            want = ph / num
        e, u, keep = p, unit, False
        if k == A:
            S.check(r is X, "in-place arithmetic stays in place")
    result(S, r, want, a, e, str(u), f"{form} by {c}", f)
    if keep:
        x.intact()


def inplace(S, exps):
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    op = S.choice("op", ["add", "subtract", "multiply", "divide", "maximum"])
    p = S.choice("p", exps)
    q = S.choice("q", exps) if op in ("multiply", "divide") else p
    fx, fy = S.choice("fx", [True, False]), S.choice("fy", [True, False])
    x = cl.In(S, "x", A, p, fx, a)
    y = cl.In(S, "y", A, q, fy, a, lo=0, lo_open=True)
    form = S.choice("form", ["out", "operator"])
    X = x.x
    if op == "maximum" and fx is not fy:
        for u, v in zip(cl.flat(x.phys), cl.flat(y.phys)):
            S.assume((u - v > 0.001) | (v - u > 0.001))
    if form == "out":
        z = cl.In(S, "z", A, 1, True, a).x
        r = U(op)(X, y.x, out=z)
        S.check(r is z or S.alleq(cl.flat(r), cl.flat(z)), f"out of {op} is returned")
        res = z
        x.intact()
    else:
        if op == "add":
            X += y.x
        elif op == "subtract":
            X -= y.x
        elif op == "multiply":
            X *= y.x
        elif op == "divide":
            X /= y.x
        else:
            return
        res = X
    want = ref(S, op, x.phys, y.phys)
    e = BINARY[op][1](p, q)
    result(S, res, want, a, e, UNITS.get(op, "Mpc"), f"in-place {op}", out_frame(fx, fy))
    y.intact()


def modes(S, exps):
    """reduce, accumulate and outer forms, and the array methods built on them."""
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    p = S.choice("p", exps)
    f = S.choice("fx", [True, False])
    op = S.choice("op", ["add.reduce", "sum", "mean", "max", "min", "maximum.reduce", "add.accumulate", "cumsum", "multiply.reduce", "prod", "prod axis", "multiply.outer", "add.outer", "dot", "divmod"])
    x = cl.In(S, "x", A, p, f, a)
    X, v = x.x, x.phys
    e0, e1 = cl.flat(v)
    unit, e = "Mpc", p
    arr = lambda vals, shape=(): S.arr(vals).reshape(shape)  # noqa: E731
    if op in ("add.reduce", "sum"):
        r = np.add.reduce(X) if op == "add.reduce" else X.sum()
        want = arr([e0 + e1])
    elif op == "mean":
        r, want = X.mean(), arr([(e0 + e1) / 2])
    elif op in ("max", "maximum.reduce"):
        r = X.max() if op == "max" else np.maximum.reduce(X)
        want = arr([e0 if bool(cl.flat(x.raw)[0] >= cl.flat(x.raw)[1]) else e1])
    elif op == "min":
        r = X.min()
        want = arr([e0 if bool(cl.flat(x.raw)[0] <= cl.flat(x.raw)[1]) else e1])
    elif op in ("add.accumulate", "cumsum"):
        r = np.add.accumulate(X) if op == "add.accumulate" else X.cumsum()
        want = arr([e0, e0 + e1], A)
    elif op in ("multiply.reduce", "prod", "prod axis"):
        r = np.multiply.reduce(X) if op == "multiply.reduce" else X.prod() if op == "prod" else X.prod(axis=0)
        want, unit, e = arr([e0 * e1]), "Mpc**2", 2 * p
    elif op in ("multiply.outer", "add.outer"):
        q = S.choice("q", exps) if op == "multiply.outer" else p
        y = cl.In(S, "y", A, q, S.choice("fy", [True, False]), a)
        u = cl.flat(y.phys)
        if op == "multiply.outer":
            r, want, unit, e = np.multiply.outer(X, y.x), arr([e0 * u[0], e0 * u[1], e1 * u[0], e1 * u[1]], (2, 2)), "Mpc**2", p + q
        else:
            r, want = np.add.outer(X, y.x), arr([e0 + u[0], e0 + u[1], e1 + u[0], e1 + u[1]], (2, 2))
        y.intact()
    elif op == "divmod":
        y = cl.In(S, "y", A, p, f, a, lo=1, hi=2)
        u = cl.flat(y.raw)
        for s_, t in zip(cl.flat(x.raw), u):
            k = s_ / t
            fl = k.__floor__() if S.symbolic else np.floor(k)
            S.assume((k - fl > 0.001) & (k - fl < 0.999))
        qq, rr = divmod(X, y.x)
        w = [s_ / t for s_, t in zip(cl.flat(x.raw), u)]
        fl = [k.__floor__() if S.symbolic else np.floor(k) for k in w]
        result(S, qq, arr(fl, A), a, 0, None, "divmod quotient")
        result(S, rr, arr([(s_ - t * k) * (cl.apow(a, p) if f else 1) for s_, t, k in zip(cl.flat(x.raw), u, fl)], A), a, p, "Mpc", "divmod remainder")
        y.intact()
        x.intact()
        return
    elif op == "dot":
        q = S.choice("q", exps)
        y = cl.In(S, "y", A, q, S.choice("fy", [True, False]), a)
        u = cl.flat(y.phys)
        r, want, unit, e = X.dot(y.x), arr([e0 * u[0] + e1 * u[1]]), "Mpc**2", p + q
        y.intact()
    else:
        return
    result(S, r, want, a, e, unit, op)
    x.intact()


def dimensionless(S, names):
    """Functions of dimensionless, frame-independent arguments."""
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    op = S.choice("op", names)
    f = S.choice("fx", [True, False])
    x = cl.In(S, "x", A, 0, f, a, unit="dimensionless", lo=0.125, lo_open=True, hi=0.875)
    r = U(op)(x.x)
    want = ref(S, op, x.phys)
    result(S, r, want, a, None, None, op)
    x.intact()


K = dict(setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(300, 1200))
E1 = [0, 1, -2, 0.5]
LIN = ["add", "subtract"]
CMP = ["greater", "greater_equal", "less", "less_equal", "equal", "not_equal"]
HARNESSES = [
    H("additive", binary, "add, subtract", dict(names=LIN, exps=E1, ks=kinds(2)), **K),
    H("products", binary, "multiply, divide", dict(names=["multiply", "divide"], exps=E1, ks=kinds(2)), **K),
    H("comparisons", binary, "comparisons", dict(names=CMP, exps=[1, -2], ks=[(A, Q)]), dict(names=CMP, exps=E1, ks=kinds(2)), **K),
    H("extrema", binary, "maximum, minimum, fmax, fmin", dict(names=["maximum", "minimum", "fmax", "fmin"], exps=[0, 1, -2], ks=[(A, Q)]), dict(names=["maximum", "minimum", "fmax", "fmin"], exps=E1, ks=kinds(2)), **K),
    H("modulo", binary, "remainder, fmod, floor_divide, arctan2, copysign, hypot", dict(names=["remainder", "fmod", "floor_divide", "arctan2", "copysign", "hypot"], exps=[1], ks=[(Q, Q)]), dict(names=["remainder", "fmod", "floor_divide", "arctan2", "copysign", "hypot"], exps=[1, -2], ks=[(Q, Q), (A, Q)]), **K),
    H("matmul", binary, "vecdot, matmul", dict(names=["vecdot", "matmul"], exps=[0, 1, -2], ks=[(A, A)]), **K),
    H("unary", unary, "one-argument functions", dict(names=list(UNARY), exps=[0, 1, -2, 2, 3]), **K),
    H("power", power, "powers", dict(exps=[0, 1, -2, 2], pw=[2, 3, -1, 0, 0.5]), **K),
    H("powers", powers, "elements to different powers", dict(pw=[(2, 3), (1, 2), (2, -1)]), **K),
    H("numbers", numbers, "plain numbers, arrays and units", dict(exps=E1), **K),
    H("inplace", inplace, "in-place operators and out=", dict(exps=E1[:3]), **K),
    H("modes", modes, "reductions, accumulations, outer products, methods", dict(exps=E1[:3]), **K),
    H("dimensionless", dimensionless, "functions of pure numbers", dict(names=["exp", "log", "log10", "sin", "cos", "tan", "arcsin", "arctan", "sinh", "cosh", "tanh", "exp2", "log2", "log1p", "expm1"]), **K),
]
