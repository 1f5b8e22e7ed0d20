"""C14: incompatible scale-factor dependences are rejected."""

import operator

from symex.core import Unsupported
from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "Two-element arrays and scalars with any values in [-4, 4] (unconvertible data: [1/8, 4]); scale factors any real in [1/16, 1]; different scale factors differ by more than 1e-3 (nearly equal ones are treated as equal by design); exponents from {0, 1, -2, 0.5}.",
    "Any exception counts as a rejection.",
]
A, Q, M = (2,), (), (2, 2)
N = "np"


def np_():
    import numpy

    return numpy


np = np_()


def uf(n):
    return lambda x, y: getattr(np, n)(x, y)


def iop(f):
    def g(x, y):
        z = x.copy()
        return f(z, y)

    return g


# combining data that must share a dimension: name -> (call, shapes)
SAME = {n: (uf(n), (A, A)) for n in ("add", "subtract", "maximum", "minimum", "fmax", "fmin", "remainder", "fmod", "hypot", "arctan2", "copysign", "heaviside", "greater", "greater_equal", "less", "less_equal", "equal", "not_equal")}
SAME.update({
    "+": (operator.add, (A, Q)), "-": (operator.sub, (Q, A)), "<": (operator.lt, (A, Q)), "==": (operator.eq, (A, A)), "!=": (operator.ne, (A, Q)), ">=": (operator.ge, (Q, A)),
    "+=": (iop(operator.iadd), (A, A)), "-=": (iop(operator.isub), (A, A)),
})
FUNCS = {
    "concatenate": (lambda x, y: np.concatenate([x, y]), (A, A)), "concatenate third": (lambda x, y: np.concatenate([x, x, y]), (A, A)), "vstack": (lambda x, y: np.vstack([x, y]), (A, A)),
    "hstack": (lambda x, y: np.hstack([x, y]), (A, A)), "dstack": (lambda x, y: np.dstack([x, y]), (A, A)), "column_stack": (lambda x, y: np.column_stack([x, y]), (A, A)), "stack": (lambda x, y: np.stack([x, y]), (A, A)),
    "append": (lambda x, y: np.append(x, y), (A, A)), "block": (lambda x, y: np.block([x, y]), (A, A)), "block nested": (lambda x, y: np.block([[x, x], [x, y]]), (A, A)), "linspace": (lambda x, y: np.linspace(x, y, 3), (Q, Q)),
    "where": (lambda x, y: np.where([True, False], x, y), (A, A)), "select": (lambda x, y: np.select([[True, False], [False, True]], [x, y], default=x[0]), (A, A)), "select default": (lambda x, y: np.select([[True, False]], [x], default=y), (A, Q)), "choose": (lambda x, y: np.choose([1, 0], [x, y]), (A, A)),
    "insert": (lambda x, y: np.insert(x, 1, y), (A, Q)), "diff prepend": (lambda x, y: np.diff(x, prepend=y), (A, Q)), "ediff1d to_end": (lambda x, y: np.ediff1d(x, to_end=y), (A, Q)), "pad": (lambda x, y: np.pad(x, 1, constant_values=y), (A, Q)),
    "union1d": (lambda x, y: np.union1d(x, y), (A, A)), "intersect1d": (lambda x, y: np.intersect1d(x, y), (A, A)), "setdiff1d": (lambda x, y: np.setdiff1d(x, y), (A, A)), "clip low": (lambda x, y: np.clip(x, y, x[0]), (A, Q)), "clip high": (lambda x, y: np.clip(x, x[0], y), (A, Q)),
    "isin": (lambda x, y: np.isin(x, y), (A, A)), "searchsorted": (lambda x, y: np.searchsorted(x, y), (A, Q)), "array_equal": (lambda x, y: np.array_equal(x, y), (A, A)), "array_equiv": (lambda x, y: np.array_equiv(x, y), (A, A)),
    "isclose": (lambda x, y: np.isclose(x, y), (A, A)), "allclose": (lambda x, y: np.allclose(x, y), (A, A)), "digitize": (lambda x, y: np.digitize(x, y), (A, A)),
    "max initial": (lambda x, y: np.max(x, initial=y), (A, Q)), "sum initial": (lambda x, y: np.sum(x, initial=y), (A, Q)),
    "interp": (lambda x, y: np.interp(x, y, [1.0, 2.0]), (A, A)), "interp x": (lambda x, y: np.interp(x[0], y, x), (A, A)), "histogram": (lambda x, y: np.histogram(x, bins=y), (A, A)), "histogram2d": (lambda x, y: np.histogram2d(x, x, bins=(x, y)), (A, A)),
    "histogram2d x": (lambda x, y: np.histogram2d(x, x, bins=(y, x)), (A, A)), "histogramdd": (lambda x, y: np.histogramdd((x, x), bins=(x, y)), (A, A)), "histogramdd density": (lambda x, y: np.histogramdd((x, x), bins=(x, y), density=True), (A, A)), "histogram2d density": (lambda x, y: np.histogram2d(x, x, bins=(x, y), density=True), (A, A)),
    "put": (lambda x, y: np.put(x, [0, 1], y), (A, A)), "place": (lambda x, y: np.place(x, np.array([True, False]), y), (A, A)), "putmask": (lambda x, y: np.putmask(x, np.array([True, False]), y), (A, A)), "put_along_axis": (lambda x, y: np.put_along_axis(x, np.array([1, 0]), y, 0), (A, A)),
    "setitem": (lambda x, y: x.__setitem__(np.s_[:], y), (A, A)), "setitem one": (lambda x, y: x.__setitem__(0, y), (A, Q)), "setitem mask": (lambda x, y: x.__setitem__(np.array([False, True]), y), (A, Q)),
    "copyto": (lambda x, y: np.copyto(x, y), (A, A)), "fill_diagonal": (lambda x, y: np.fill_diagonal(x, y), (M, Q)),
}
# the same with the second array given by keyword
KEYWORDS = {
    "interp left": (lambda x, y: np.interp(x[0], x, x, left=y), (A, Q)), "interp right": (lambda x, y: np.interp(x[0], x, x, right=y), (A, Q)),
    "clip keywords": (lambda x, y: np.clip(x, a_min=y, a_max=None), (A, Q)), "clip max keyword": (lambda x, y: np.clip(x, a_min=x[0], a_max=y), (A, Q)), "append keyword": (lambda x, y: np.append(x, values=y), (A, A)), "insert keyword": (lambda x, y: np.insert(x, 1, values=y), (A, Q)),
    "linspace keyword": (lambda x, y: np.linspace(x, stop=y, num=3), (Q, Q)), "union1d keyword": (lambda x, y: np.union1d(x, ar2=y), (A, A)), "setdiff1d keyword": (lambda x, y: np.setdiff1d(x, ar2=y), (A, A)), "intersect1d keyword": (lambda x, y: np.intersect1d(x, ar2=y), (A, A)),
    "isclose keyword": (lambda x, y: np.isclose(x, b=y), (A, A)), "isin keyword": (lambda x, y: np.isin(x, test_elements=y), (A, A)), "array_equal keyword": (lambda x, y: np.array_equal(x, a2=y), (A, A)), "allclose keyword": (lambda x, y: np.allclose(x, b=y), (A, A)),
    "searchsorted keyword": (lambda x, y: np.searchsorted(x, v=y), (A, Q)), "digitize keyword": (lambda x, y: np.digitize(x, bins=y), (A, A)), "choose keyword": (lambda x, y: np.choose([1, 0], choices=[x, y]), (A, A)), 
    "put keyword": (lambda x, y: np.put(x, [0, 1], v=y), (A, A)), "place keyword": (lambda x, y: np.place(x, np.array([True, False]), vals=y), (A, A)), "putmask keyword": (lambda x, y: np.putmask(x, np.array([True, False]), values=y), (A, A)), "copyto keyword": (lambda x, y: np.copyto(x, src=y), (A, A)), "fill_diagonal keyword": (lambda x, y: np.fill_diagonal(x, val=y), (M, Q)),
    "put_along_axis keyword": (lambda x, y: np.put_along_axis(x, np.array([1, 0]), values=y, axis=0), (A, A)), "diff append": (lambda x, y: np.diff(x, append=y), (A, Q)), "diff both": (lambda x, y: np.diff(x, prepend=x[0], append=y), (A, Q)), "ediff1d to_begin": (lambda x, y: np.ediff1d(x, to_begin=y), (A, Q)), "pad ends": (lambda x, y: np.pad(x, 1, mode="linear_ramp", end_values=y), (A, Q)),
}
PRODUCT_KEYWORDS = {
    "dot keyword": (lambda x, y: np.dot(x, b=y), (A, A)), "outer keyword": (lambda x, y: np.outer(x, b=y), (A, A)), "kron keyword": (lambda x, y: np.kron(x, b=y), (A, A)), "inner positional": (lambda x, y: np.inner(x, y), (A, A)), "correlate keyword": (lambda x, y: np.correlate(x, v=y), (A, A)), "convolve keyword": (lambda x, y: np.convolve(x, v=y), (A, A)),
    "tensordot keyword": (lambda x, y: np.tensordot(x, b=y, axes=1), (A, A)), "cross keyword": (lambda x, y: np.cross(x, b=y), ((3,), (3,))), "solve keyword": (lambda x, y: np.linalg.solve(x, b=y), ((1, 1), (1,))), "trapezoid keyword": (lambda x, y: np.trapezoid(x, dx=y), (A, Q)),
}
# products: the scale factors must agree, the exponents need not
PRODUCTS = {
    "*": (operator.mul, (A, A)), "/": (operator.truediv, (A, Q)), "scalar *": (operator.mul, (Q, A)), "*=": (iop(operator.imul), (A, A)), "/=": (iop(operator.itruediv), (A, A)), "matmul": (lambda x, y: np.matmul(x, y), (M, A)), "@": (operator.matmul, (A, A)), "vecdot": (lambda x, y: np.vecdot(x, y), (A, A)),
    "dot": (lambda x, y: np.dot(x, y), (A, A)), "dot method": (lambda x, y: x.dot(y), (A, A)), "vdot": (lambda x, y: np.vdot(x, y), (A, A)), "inner": (lambda x, y: np.inner(x, y), (A, A)), "outer": (lambda x, y: np.outer(x, y), (A, A)), "linalg.outer": (lambda x, y: np.linalg.outer(x, y), (A, A)),
    "kron": (lambda x, y: np.kron(x, y), (A, A)), "convolve": (lambda x, y: np.convolve(x, y), (A, A)), "correlate": (lambda x, y: np.correlate(x, y), (A, A)), "tensordot": (lambda x, y: np.tensordot(x, y, axes=1), (A, A)), "cross": (lambda x, y: np.cross(x, y), ((3,), (3,))),
    "trapezoid": (lambda x, y: np.trapezoid(x, x=y), (A, A)), "trapezoid dx": (lambda x, y: np.trapezoid(x, dx=y), (A, Q)), "einsum": (lambda x, y: np.einsum("i,i", x, y), (A, A)), "solve": (lambda x, y: np.linalg.solve(x, y), ((1, 1), (1,))),
    "histogram density weights": (lambda x, y: np.histogram(x, bins=x, weights=y, density=True), (A, A)), "floor_divide": (operator.floordiv, (A, A)), "divmod product": (lambda x, y: np.divmod(x, y), (A, A)),
}


def rejected(f, *args):
    """True when the call raises; engine limits pass through."""
    try:
        with np.errstate(all="ignore"):
            f(*args)
    except Unsupported:
        raise
    except Exception:
        return True
    return False


def mismatch(S, table, names, exps, which, lo=-4):
    cl.fresh(S)
    name = S.choice("operation", names)
    f, shapes = table[name]
    a = S.scale_factor("a", "1")
    fx, fy = S.choice("fx", [True, False]), S.choice("fy", [True, False])
    p = S.choice("p", exps)
    swap = S.choice("swap", [False, True]) if shapes[0] == shapes[1] else False
    if which == "exponent":
        q, b = S.choice("q", exps), a
        if q == p:
            return
    else:
        q, b = p if table is not PRODUCTS else S.choice("q", exps), S.scale_factor("b", "1")
        S.assume((a - b > 0.001) | (b - a > 0.001))
    x = cl.In(S, "x", shapes[0], p, fx, a, lo=lo)
    y = cl.In(S, "y", shapes[1], q, fy, b, lo=lo)
    u, v = (x.x, y.x)
    if swap:
        u, v = v, u
    if name in ("histogram density weights", "histogram", "digitize", "digitize keyword", "interp", "interp x", "interp left", "interp right"):
        w = cl.flat(x.raw) + []
        S.assume(w[1] - w[0] > 0.125)
        w = cl.flat(y.raw)
        if len(w) > 1:
            S.assume(w[1] - w[0] > 0.125)
    S.check(rejected(f, u, v), f"{name} of data with different {which}s raises")


# data that cannot be converted between frames, combined with data in the other frame
def fixed(S, table, names, exps):
    cl.fresh(S)
    name = S.choice("operation", names)
    f, shapes = table[name]
    a = S.scale_factor("a")
    p = S.choice("p", exps)
    vx, vy = S.choice("convertible", [(False, True), (True, False), (False, False)])
    fx, fy = S.choice("fx", [True, False]), S.choice("fy", [True, False])
    # data that cannot be converted are physical
    if (not vx and fx) or (not vy and fy):
        return
    x = cl.In(S, "x", shapes[0], p, fx, a, lo=0.125, valid_transform=vx)
    y = cl.In(S, "y", shapes[1], p, fy, a, lo=0.125, valid_transform=vy)
    for w in (cl.flat(x.phys), cl.flat(y.phys)):
        if len(w) == 2:
            S.assume(w[1] - w[0] > 0.125 * cl.apow(a, p))
    for s in cl.flat(x.phys):
        for t in cl.flat(y.phys):
            d = s - t
            S.assume((d > 0.0009765625) | (d < -0.0009765625))
    inplace = name.split(" ")[0] in ("put", "place", "putmask", "put_along_axis", "copyto", "fill_diagonal", "setitem")
    try:
        with np.errstate(all="ignore"):
            r = f(x.x, y.x)
    except Unsupported:
        raise
    except Exception:
        S.check(x.x.comoving is fx and (inplace or S.alleq(cl.flat(x.x), cl.flat(x.raw))), f"{name}: a rejected operation leaves the data alone")
        return
    from .c13 import sarr

    X = sarr(S, x.phys)
    with np.errstate(all="ignore"):
        want = f(X, sarr(S, y.phys))
    if inplace:
        r, want = x.x, X
    for r1, w1 in zip(*((r, want) if isinstance(r, (tuple, list)) else ([r], [want]))):
        S.check(S.allnear(cl.physical(S, r1, a), cl.flat(w1)), f"{name}: values keep their physical meaning")
        # (writing into an array changes its numbers, not what it is)
        if not inplace and name != "max initial" and hasattr(r1, "valid_transform") and getattr(r1, "comoving", None) is not None and cl.exponent(r1.cosmo_factor):
            S.check(not r1.comoving and r1.valid_transform is False, f"{name}: the result of unconvertible data stays unconvertible and physical")


K = dict(setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(200, 900))


def exponents(S):
    """Raising to a power: exponents must be pure numbers, and scale every element alike."""
    import unyt

    from swiftsimio.objects import cosmo_array, cosmo_quantity

    cl.fresh(S)
    a = S.scale_factor("a")
    f, g = S.choice("fx", [True, False]), S.choice("fe", [True, False])
    p = S.choice("p", [0, 1, -2, 0.5])
    unit = S.choice("unit", ["Mpc", "dimensionless"])
    x = cl.In(S, "x", A, p, f, a, unit=unit, lo=0.125)
    form = S.choice("exponent", ["scales", "scales array", "length", "differs", "differs a little", "differs with scaling"])
    v = S.choice("value", [2.0, 0.5])
    little = [v, v + 0.25]
    if form == "scales":
        e = cosmo_quantity(v, unyt.dimensionless, comoving=g, scale_factor=a, scale_exponent=1)
    elif form == "scales array":
        e = cosmo_array([v, v], unyt.dimensionless, comoving=g, scale_factor=a, scale_exponent=-2)
    elif form == "length":
        e = cosmo_quantity(v, unyt.Mpc, comoving=g, scale_factor=a, scale_exponent=0)
    elif form == "differs":
        if p == 0 and unit == "dimensionless":
            return
        e = np.array([v, 3 * v])
    elif form == "differs a little":
        if p == 0 and unit == "dimensionless":
            return
        e = np.array(little)
    else:
        if p == 0 and unit == "dimensionless":
            return
        e = cosmo_array([v, 3 * v], unyt.dimensionless, comoving=g, scale_factor=a, scale_exponent=0)
    S.check(rejected(operator.pow, x.x, e), f"power with an exponent that {form} raises")
    x.intact()


def parts(t, n):
    k = list(t)
    return [k[i:i + n] for i in range(0, len(k), n)]


E4, E2 = [0, 1, -2, 0.5], [0, 1, -2]
HARNESSES = []
for t, tn, n in ((SAME, "arithmetic", 13), (FUNCS, "functions", 9)):
    for i, names in enumerate(parts(t, n)):
        HARNESSES.append(H(f"{tn}_exponents{i}", lambda S, names, exps, t=t: mismatch(S, t, names, exps, "exponent"), f"different exponents: {', '.join(names)}", dict(names=names, exps=E2), dict(names=names, exps=E4), **K))
        HARNESSES.append(H(f"{tn}_scale{i}", lambda S, names, exps, t=t: mismatch(S, t, names, exps, "scale factor"), f"different scale factors: {', '.join(names)}", dict(names=names, exps=[1, -2]), dict(names=names, exps=[1, -2, 0.5]), **K))
HARNESSES.append(H("products_scale", lambda S, names, exps: mismatch(S, PRODUCTS, names, exps, "scale factor"), "different scale factors: " + ", ".join(PRODUCTS), dict(names=list(PRODUCTS), exps=[1, -2]), **K))
NOFIX = ("hstack", "histogram2d", "histogram2d x", "histogramdd", "histogramdd density", "histogram2d density", "sum initial", "interp", "interp x", "histogram")
for t, tn, n in ((SAME, "arithmetic", 13), ({k: v for k, v in FUNCS.items() if k not in NOFIX}, "functions", 12), ({k: v for k, v in PRODUCTS.items() if k != "divmod product"}, "products", 13)):
    for i, names in enumerate(parts(t, n)):
        HARNESSES.append(H(f"{tn}_fixed{i}", lambda S, names, exps, t=t: fixed(S, t, names, exps), f"data that cannot be converted: {', '.join(names)}", dict(names=names, exps=[1]), dict(names=names, exps=E2), **K))
for i, names in enumerate(parts(KEYWORDS, 9)):
    HARNESSES.append(H(f"keywords_exponents{i}", lambda S, names, exps: mismatch(S, KEYWORDS, names, exps, "exponent"), f"different exponents: {', '.join(names)}", dict(names=names, exps=[0, 1]), dict(names=names, exps=E4), **K))
    HARNESSES.append(H(f"keywords_scale{i}", lambda S, names, exps: mismatch(S, KEYWORDS, names, exps, "scale factor"), f"different scale factors: {', '.join(names)}", dict(names=names, exps=[1]), dict(names=names, exps=[1, -2, 0.5]), **K))
for i, names in enumerate(parts([k for k in KEYWORDS if k not in ("interp left", "interp right")], 9)):
    HARNESSES.append(H(f"keywords_fixed{i}", lambda S, names, exps: fixed(S, KEYWORDS, names, exps), f"data that cannot be converted: {', '.join(names)}", dict(names=names, exps=[1]), dict(names=names, exps=E2), **K))
HARNESSES.append(H("product_keywords_scale", lambda S, names, exps: mismatch(S, PRODUCT_KEYWORDS, names, exps, "scale factor"), "different scale factors: " + ", ".join(PRODUCT_KEYWORDS), dict(names=list(PRODUCT_KEYWORDS), exps=[1, -2]), **K))
HARNESSES.append(H("product_keywords_fixed", lambda S, names, exps: fixed(S, PRODUCT_KEYWORDS, names, exps), "data that cannot be converted: " + ", ".join(PRODUCT_KEYWORDS), dict(names=list(PRODUCT_KEYWORDS), exps=[1]), dict(names=list(PRODUCT_KEYWORDS), exps=E2), **K))
HARNESSES.append(H("powers", exponents, "exponents that scale, have a dimension, or differ between elements", {}, **K))
