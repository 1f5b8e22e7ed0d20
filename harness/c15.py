"""C15: scale-factor bookkeeping obeys exponent algebra."""

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "Scale factors are any real number in [1/16, 0.94] (so that different exponents give different factors); exponents come from a stated list.",
]
EXPS = [0, 1, 2, -1, -2, 0.5, -1.5, 3]


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def algebra(S, exps, p):
    from swiftsimio.objects import InvalidScaleFactor, cosmo_factor

    cl.fresh(S)
    a = S.scale_factor("a")
    f = cosmo_factor.create(a, p)
    S.check(S.near(f.a_factor, cl.apow(a, p)), "a_factor is a to the exponent")
    S.check(S.near((f.redshift + 1) * a, 1), "redshift is 1/a - 1")
    q = S.choice("q", exps)
    g = cosmo_factor.create(a, q)
    same = p == q
    for name, r, want in (("product", f * g, p + q), ("quotient", f / g, p - q), ("reflected product", f.__rmul__(g), p + q), ("reflected quotient", f.__rtruediv__(g), q - p)):
        S.check(cl.exponent(r.__class__(r.expr, 1)) == want, f"{name}: exponents combine")
        S.check(S.near(r.a_factor, cl.apow(a, want)), f"{name}: factor is a to the combined exponent")
        S.check(S.eq(r.scale_factor, a), f"{name}: keeps the scale factor")
    S.check(cl.exponent(f) == p and cl.exponent(g) == q, "operands are unchanged")
    for name, op in (("sum", lambda: f + g), ("difference", lambda: f - g), ("reflected sum", lambda: f.__radd__(g)), ("reflected difference", lambda: f.__rsub__(g))):
        if same:
            r = op()
            S.check(cl.exponent(r) == p, f"{name}: exponent kept")
            S.check(S.near(r.a_factor, cl.apow(a, p)), f"{name}: factor kept")
        else:
            S.check(raises(InvalidScaleFactor, op), f"{name} of different exponents is refused")
    S.check(bool(f == g) == same, "equal exactly when exponents agree")
    S.check(bool(f != g) == (not same), "unequal exactly when exponents differ")
    # a < 1: the larger exponent gives the smaller factor
    S.check(bool(f < g) == (p > q), "order <")
    S.check(bool(f > g) == (p < q), "order >")
    S.check(bool(f <= g) == (p >= q), "order <=")
    S.check(bool(f >= g) == (p <= q), "order >=")
    for k in (2, -1, 3, 0, 0.5):
        if (2 * p * k) % 1:
            continue
        r = f**k
        S.check(cl.exponent(r) == p * k, "power scales the exponent")
        S.check(S.near(r.a_factor, cl.apow(a, p * k)), "power: factor")
        S.check(S.eq(r.scale_factor, a), "power keeps the scale factor")


def unknown(S, exps):
    """Factors whose dependence is not known never become known."""
    from swiftsimio.objects import InvalidScaleFactor, cosmo_factor

    cl.fresh(S)
    a = S.scale_factor("a")
    p = S.choice("p", exps)
    f, g, h = cosmo_factor.create(a, p), cosmo_factor(None, a), cosmo_factor(None, a)
    S.check(g.a_factor is None, "an unknown dependence has no factor")
    for name, op in (("product", lambda: f * g), ("quotient", lambda: f / g), ("product the other way round", lambda: g * f), ("quotient the other way round", lambda: g / f), ("reflected product", lambda: f.__rmul__(g)), ("reflected quotient", lambda: f.__rtruediv__(g)), ("sum", lambda: f + g), ("sum the other way round", lambda: g + f), ("difference", lambda: f - g)):
        S.check(raises(InvalidScaleFactor, op), f"{name} of known and unknown is refused")
    for name, op in (("product", lambda: g * h), ("quotient", lambda: g / h), ("sum", lambda: g + h), ("difference", lambda: g - h), ("power", lambda: g**2)):
        r = op()
        S.check(r.expr is None and r.a_factor is None, f"{name} of unknowns is unknown")
        S.check(S.eq(r.scale_factor, a), f"{name} of unknowns keeps the scale factor")
    S.check(not bool(f == g) and bool(f != g), "known and unknown differ")
    S.check(bool(g == h), "unknowns agree")


def mixed(S, exps):
    from swiftsimio.objects import InvalidScaleFactor, cosmo_factor

    cl.fresh(S)
    a, b = S.scale_factor("a"), S.scale_factor("b")
    p, q = S.choice("p", exps), S.choice("q", exps)
    S.assume(a < b)
    f, g = cosmo_factor.create(a, p), cosmo_factor.create(b, q)
    for name, op in (("sum", lambda: f + g), ("difference", lambda: f - g), ("product", lambda: f * g), ("quotient", lambda: f / g),
                     ("reflected sum", lambda: f.__radd__(g)), ("reflected difference", lambda: f.__rsub__(g)),
                     ("reflected product", lambda: f.__rmul__(g)), ("reflected quotient", lambda: f.__rtruediv__(g))):
        S.check(raises(InvalidScaleFactor, op), f"{name} at different scale factors is refused")
    S.check(not bool(f == g), "different scale factors are not equal")
    S.check(bool(f != g), "different scale factors are unequal")


def rules(S, p):
    """The rules array functions use to derive the scaling of their result (if they are still separate functions)."""
    from swiftsimio import _array_functions as af
    from swiftsimio.objects import cosmo_factor

    cl.fresh(S)
    a = S.scale_factor("a")
    for n in ("multiply", "divide", "reciprocal", "square", "sqrt", "cbrt", "power", "preserve", "passthrough", "arctan2"):
        if not hasattr(af, f"_{n}_cosmo_factor"):
            S.check(True, "no separate rule functions")
            return
    f = cosmo_factor.create(a, p)
    q = S.choice("q", EXPS)
    g = cosmo_factor.create(a, q)

    def ok(r, want, label):
        S.check(cl.exponent(r) == want, label)
        S.check(S.near(r.a_factor, cl.apow(a, want)), label + " (factor)")

    ok(af._multiply_cosmo_factor(f, g), p + q, "product rule")
    ok(af._multiply_cosmo_factor(f, g, f), 2 * p + q, "triple product rule")
    ok(af._multiply_cosmo_factor(f, None), p, "product with a pure number")
    ok(af._multiply_cosmo_factor(None, f), p, "product of a pure number")
    ok(af._divide_cosmo_factor(f, g), p - q, "quotient rule")
    ok(af._divide_cosmo_factor(f, None), p, "quotient by a pure number")
    ok(af._divide_cosmo_factor(None, g), -q, "quotient of a pure number")
    ok(af._reciprocal_cosmo_factor(f), -p, "reciprocal rule")
    ok(af._square_cosmo_factor(f), 2 * p, "square rule")
    if (p * 2) % 2 == 0:
        ok(af._sqrt_cosmo_factor(f), p / 2, "square root rule")
    r3 = af._cbrt_cosmo_factor(f)
    S.check(abs(cl.exponent(r3) - p / 3) < 1e-8, "cube root rule")
    ok(af._power_cosmo_factor(f, None, power=3), 3 * p, "power rule")
    same = p == q
    S.note("rules")
    for name, fn in (("preserve", lambda: af._preserve_cosmo_factor(f, g)), ("pass through", lambda: af._passthrough_cosmo_factor(f, g)),
                     ("angle", lambda: af._arctan2_cosmo_factor(f, g))):
        if same:
            r = fn()
            want = {"preserve": p, "pass through": p, "comparison": None, "angle": 0}[name]
            S.check((cl.exponent(r) if r is not None else None) == want, f"{name} rule")
        else:
            S.check(raises(Exception, fn), f"{name} rule refuses different exponents")


HARNESSES = [
    H(f"algebra{str(p).replace('-', 'm').replace('.', '_')}", algebra, f"cosmo_factor with exponent {p} and any exponent in {EXPS}, any a",
      dict(exps=EXPS, p=p), setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(200, 800), expect=("product: exponents combine",)) for p in EXPS
] + [
    H("unknown", unknown, f"Factors without a known dependence, with any exponent in {EXPS}, any a", dict(exps=EXPS), setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(200, 800)),
    H("mixed", mixed, "Two factors at any two different scale factors", dict(exps=[0, 1, -2, 0.5]), dict(exps=EXPS), setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(200, 800)),
] + [
    H(f"rules{str(p).replace('-', 'm').replace('.', '_')}", rules, f"Result-scaling rules for exponent {p} with any exponent in {EXPS}, any a", dict(p=p), setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(200, 800)) for p in (0, 1, -2, 0.5)
]
