"""C31: constructing cosmology arrays from other data."""

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "Two-element arrays and scalars, lists of two arrays or quantities, any values in [-4, 4]; scale factors any real in [1/16, 1] (different ones differ by more than 1e-3); units Mpc and kpc; exponents from a stated list.",
    "Explicit units, or an explicit scale-factor dependence, are not combined with input that already has its own (the classes then follow unyt in taking one of the two); nested lists of quantities are left out (unyt drops their units), and so are numpy object arrays of quantities.",
    "Symbolic numbers cannot live in astropy or pint quantities: they are stand-ins with the attributes the conversion reads.",
]

P = "physical values are kept"
F = "the result is in the frame asked for, or that of the input"
D = "scale-factor dependence of the result"
V = "data that cannot be converted stay that way"
I = "the inputs are left unmodified"
R = "refused exactly when the frame asked for cannot be had"


def phys(S, r, a):
    k = {"Mpc": 1000, "kpc": 1}[str(r.units)]
    return [v * k for v in cl.physical(S, r, a)]


def request(S):
    kw = {}
    c = S.choice("ask", [None, True, False])
    if c is not None:
        kw["comoving"] = c
    if S.choice("ask_vt", [True, False]) is False:
        kw["valid_transform"] = False
    if S.choice("ask_comp", [False, True]):
        kw["compression"] = "Given"
    return kw


STATES = [(True, True), (False, True), (False, False)]


def expected(kw, states):
    """(refused, frame, convertibility) for known input frames."""
    ask = kw.get("comoving")
    frames = [f for f, _ in states]
    vt = all(v for _, v in states) and kw.get("valid_transform", True)
    if ask is None:
        frame = frames[0] if len(set(frames)) == 1 else all(v for _, v in states)
    else:
        frame = ask
    refused = any(frame and not v for f, v in states) or (frame and not vt)
    return refused, frame, vt


def outcome(S, f, kw, states, ins, a, p, shape, comp):
    from swiftsimio.objects import InvalidConversionError, cosmo_array, cosmo_quantity
    import numpy as np

    refused, frame, vt = expected(kw, states)
    try:
        r = f()
    except InvalidConversionError:
        r = None
    S.check((r is None) == refused, R)
    for x in ins:
        x.intact(I)
        S.check(x.x.valid_transform is x.vt and x.x.compression == x.comp, I)
    if r is None:
        return None
    want = [v * (1000 if x.unit == "Mpc" else 1) for x in ins for v in cl.flat(x.phys)]
    S.check(S.allnear(phys(S, r, a), want), P)
    S.check(r.comoving is frame, F)
    S.check(cl.exponent(r.cosmo_factor) == p and S.eq(r.cosmo_factor.scale_factor, a), D)
    S.check(r.valid_transform is vt, V)
    S.check(np.shape(r) == shape and isinstance(r, cosmo_array), "shape and type of the result")
    S.check(r.compression == (kw.get("compression") or comp), "compression record of the result")
    return r


def make(S, name, shape, p, a, unit="Mpc", state=None, comp="Some"):
    f, vt = state if state is not None else S.choice(f"{name}_state", STATES)
    x = cl.In(S, name, shape, p, f, a, unit=unit, valid_transform=vt, compression=comp)
    x.vt, x.comp = vt, comp
    return x


def single(S, kind, p):
    from swiftsimio.objects import cosmo_array, cosmo_quantity

    cl.fresh(S)
    a = S.scale_factor("a")
    kw = request(S)
    shape = (2,) if kind == "array" else ()
    x = make(S, "x", shape, p, a)
    f = cosmo_quantity if kind == "quantity" else cosmo_array
    r = outcome(S, lambda: f(x.x, **kw), kw, [(x.frame, x.vt)], [x], a, p, shape, "Some")
    if r is not None:
        S.check(isinstance(r, cosmo_quantity) == (kind == "quantity"), "class of the result")


def unknown(S, kind):
    """Data whose frame is unknown stay so unless a frame is given."""
    from swiftsimio.objects import InvalidConversionError, cosmo_array, cosmo_factor, cosmo_quantity, NULL_CF

    cl.fresh(S)
    a = S.scale_factor("a")
    p = S.choice("p", [None, 1])
    cls = cosmo_array if kind == "array" else cosmo_quantity
    shape = (2,) if kind == "array" else ()
    raw = S.arr([S.real(f"x{i}", -4, 4) for i in range(2 if shape else 1)]).reshape(shape)
    x = cls(raw.copy(), "Mpc", comoving=None, valid_transform=False, cosmo_factor=NULL_CF if p is None else cosmo_factor.create(a, p))
    comp = S.choice("comp", [None, "Given"])
    r = cls(x, compression=comp)
    S.check(S.alleq(cl.flat(r), cl.flat(raw)) and str(r.units) == "Mpc", P)
    S.check(r.comoving is None and r.valid_transform is False, "an unknown frame stays unknown")
    S.check(cl.exponent(r.cosmo_factor) == p, D)
    S.check(x.comoving is None and x.valid_transform is False and x.compression is None, I)


def dependence(S, kind):
    """A dependence given for data that have none is taken."""
    from swiftsimio.objects import cosmo_array, cosmo_factor, cosmo_quantity

    cl.fresh(S)
    a = S.scale_factor("a")
    p = S.choice("p", [1, -2])
    frame = S.choice("comoving", [True, False])
    cls = cosmo_array if kind == "array" else cosmo_quantity
    shape = (2,) if kind == "array" else ()
    raw = S.arr([S.real(f"x{i}", -4, 4) for i in range(2 if shape else 1)]).reshape(shape)
    x = cls(raw.copy(), "Mpc", comoving=frame)
    how = S.choice("how", ["cosmo_factor", "scale"])
    kw = dict(cosmo_factor=cosmo_factor.create(a, p)) if how == "cosmo_factor" else dict(scale_factor=a, scale_exponent=p)
    r = cls(x, **kw)
    S.check(S.alleq(cl.flat(r), cl.flat(raw)) and r.comoving is frame, P)
    S.check(cl.exponent(r.cosmo_factor) == p and S.eq(r.cosmo_factor.scale_factor, a), D)
    S.check(cl.exponent(x.cosmo_factor) is None, I)


def listed(S, kind, p, units=("Mpc", "Mpc"), form="list"):
    """A list of arrays or quantities."""
    from swiftsimio.objects import cosmo_array
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    kw = request(S)
    shape = (2,) if kind == "array" else ()
    comps = S.choice("comps", [("Some", "Some"), ("Some", "Other")])
    xs = [make(S, n, shape, p, a, u, comp=c) for n, u, c in zip("xy", units, comps)]
    items = [x.x for x in xs]
    if form == "tuple":
        items = tuple(items)
    outcome(S, lambda: cosmo_array(items, **kw), kw, [(x.frame, x.vt) for x in xs], xs, a, p, (2,) + shape, comps[0] if comps[0] == comps[1] else None)


def differing(S, kind):
    """Lists of data that scale differently are refused."""
    from swiftsimio.objects import cosmo_array

    cl.fresh(S)
    a = S.scale_factor("a")
    kw = request(S)
    shape = (2,) if kind == "array" else ()
    pair = S.choice("exponents", [(1, 2), (0, 1), (-2, 2), (1, 1), (-2, -2)])
    b = a
    if pair[0] == pair[1]:
        b = S.scale_factor("b")
        S.assume((b > a + 1e-3) if S.symbolic else b > a + 1e-3)
    x, y = make(S, "x", shape, pair[0], a), make(S, "y", shape, pair[1], b)
    S.check(_raises(lambda: cosmo_array([x.x, y.x], **kw)), "data that scale differently are refused")
    x.intact(I)
    y.intact(I)


def _raises(f):
    from symex.core import Unsupported

    try:
        f()
    except Unsupported:
        raise
    except Exception:
        return True
    return False


def plain(S, source):
    """Numbers and unyt arrays get exactly what they are given."""
    from swiftsimio.objects import InvalidConversionError, cosmo_array, cosmo_factor, cosmo_quantity
    import unyt

    cl.fresh(S)
    a = S.scale_factor("a")
    p = S.choice("p", [None, 1, -2])
    how = S.choice("how", ["cosmo_factor", "scale", "both"]) if p is not None else None
    frame = S.choice("comoving", [None, True, False])
    vt = S.choice("vt", [None, False])
    comp = S.choice("compression", [None, "Given"])
    vals = [S.real(f"x{i}", -4, 4) for i in range(1 if source in ("scalar", "unyt_quantity", "astropy_quantity", "pint_quantity", "bypass_quantity") else 2)]
    kw = {}
    if p is not None:
        if how in ("cosmo_factor", "both"):
            kw["cosmo_factor"] = cosmo_factor.create(a, p)
        if how in ("scale", "both"):
            kw.update(scale_factor=a, scale_exponent=p)
    if frame is not None:
        kw["comoving"] = frame
    if vt is not None:
        kw["valid_transform"] = vt
    if comp is not None:
        kw["compression"] = comp
    convertible = frame is not None and vt is None
    refused = frame is True and vt is False
    data = S.arr(vals)
    if source == "ndarray":
        make = lambda: cosmo_array(data, "Mpc", **kw)  # noqa: E731
    elif source == "list":
        make = lambda: cosmo_array(list(vals), "Mpc", **kw)  # noqa: E731
    elif source == "tuple":
        make = lambda: cosmo_array(tuple(vals), unyt.Mpc, **kw)  # noqa: E731
    elif source == "unyt_array":
        u = unyt.unyt_array(data, "Mpc")
        make = lambda: cosmo_array(u, **kw)  # noqa: E731
    elif source == "unyt_list":
        u = unyt.unyt_array(data, "Mpc")
        make = lambda: cosmo_array([u[0], u[1]], **kw)  # noqa: E731
    elif source == "unyt_quantity":
        u = unyt.unyt_array(data, "Mpc")[0]
        make = lambda: cosmo_quantity(u, **kw)  # noqa: E731
    elif source == "scalar":
        make = lambda: cosmo_quantity(S.arr(vals).reshape(()) if S.symbolic else vals[0], "Mpc", **kw)  # noqa: E731
    elif source in ("bypass", "bypass_quantity"):
        if not convertible and not (frame is not True and vt is False):
            return  # the caller vouches for the combination
        cls, d = (cosmo_array, data) if source == "bypass" else (cosmo_quantity, data.reshape(()))
        make = lambda: cls(d, unyt.Mpc, bypass_validation=True, **kw)  # noqa: E731
    else:
        if how in ("scale", "both"):
            return  # these only take a cosmo_factor
        q = _Astropy(data if source.endswith("array") else vals[0]) if source.startswith("astropy") else _Pint(data if source.endswith("array") else vals[0])
        m = "from_astropy" if source.startswith("astropy") else "from_pint"
        cls = cosmo_array if source.endswith("array") else cosmo_quantity
        make = lambda: getattr(cls, m)(q, **kw)  # noqa: E731
    try:
        r = make()
    except InvalidConversionError:
        r = None
    S.check((r is None) == refused, R)
    if r is None:
        return
    S.check(S.alleq(cl.flat(r), vals), "numbers are kept")
    S.check(str(r.units) == "Mpc", "units are kept")
    S.check(r.comoving is frame, "the frame is the one given")
    S.check(cl.exponent(r.cosmo_factor) == p and (p is None or S.eq(r.cosmo_factor.scale_factor, a)), D)
    S.check(r.valid_transform is convertible, "convertible only when the frame is known and nothing else is said")
    S.check(r.compression == comp, "compression record of the result")
    S.check(isinstance(r, cosmo_array), "class of the result")


class _Base:
    def to_string(self):
        return "Mpc"


class _AUnit:
    bases = [_Base()]
    powers = [1]


class _Astropy:
    def __init__(self, v):
        self.value, self.unit = v, _AUnit()
        self.shape = getattr(v, "shape", ())


class _Pint:
    def __init__(self, v):
        self.magnitude, self._units = v, {"megaparsec": 1}


def ambiguous(S):
    """Contradictory or incomplete dependences are refused."""
    from swiftsimio.objects import cosmo_array, cosmo_factor, cosmo_quantity

    cl.fresh(S)
    a = S.scale_factor("a")
    case = S.choice("case", ["half", "other half", "exponents", "scales"])
    source = S.choice("source", ["ndarray", "list", "quantity", "array"])
    frame = S.choice("comoving", [True, False])
    v = [S.real("x0", -4, 4), S.real("x1", -4, 4)]
    if case in ("half", "other half"):
        kw = dict(scale_factor=a) if case == "half" else dict(scale_exponent=1)
        given = {}
    else:
        b = S.scale_factor("b") if case == "scales" else a
        if case == "scales":
            S.assume(b > a + 1e-3)
        kw = dict(scale_factor=b, scale_exponent=1 if case == "scales" else 2)
        given = dict(cosmo_factor=cosmo_factor.create(a, 1))
    if source == "array":
        x = cosmo_array(S.arr(v), "Mpc", comoving=frame, **given)
        f = lambda: cosmo_array(x, **kw)  # noqa: E731
    elif source == "ndarray":
        f = lambda: cosmo_array(S.arr(v), "Mpc", comoving=frame, **given, **kw)  # noqa: E731
    elif source == "list":
        f = lambda: cosmo_array(list(v), "Mpc", comoving=frame, **given, **kw)  # noqa: E731
    else:
        f = lambda: cosmo_quantity(S.arr(v[:1]).reshape(()), "Mpc", comoving=frame, **given, **kw)  # noqa: E731
    S.check(_raises(f), "contradictory or incomplete dependences are refused")


def N(p):
    return str(p).replace("-", "m").replace(".", "_")


K = dict(setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(200, 900))
EX = (P, F, D, V, I, R)
EXL = EX
EXP = (R, "numbers are kept", "the frame is the one given")
HARNESSES = (
    [H(f"{k}{N(p)}", single, f"{d} with exponent {p}, in either frame, convertible or not, any request", dict(kind=k, p=p), expect=EX, **K)
     for k, d in (("array", "cosmo_array from a cosmo_array"), ("quantity", "cosmo_quantity from a cosmo_quantity"), ("promoted", "cosmo_array from a cosmo_quantity")) for p in (0, 1, -2, 0.5)]
    + [H(f"unknown_{k}", unknown, f"{k} of unknown frame", dict(kind=k), expect=("an unknown frame stays unknown",), **K) for k in ("array", "quantity")]
    + [H(f"dependence_{k}", dependence, f"{k} without a dependence, given one", dict(kind=k), expect=(D,), **K) for k in ("array", "quantity")]
    + [H(f"list_{k}s{N(p)}", listed, f"list of two {k}s with exponent {p}, each in either frame, convertible or not, any request", dict(kind=k, p=p), expect=EXL, **K) for k, p in (("quantity", 1), ("quantity", -2), ("array", 1), ("array", 0))]
    + [H("tuple_units", listed, "tuple of two quantities in Mpc and kpc", dict(kind="quantity", p=1, units=("Mpc", "kpc"), form="tuple"), expect=EXL, **K)]
    + [H(f"differing_{k}s", differing, f"lists of two {k}s with different exponents or scale factors", dict(kind=k), expect=("data that scale differently are refused",), **K) for k in ("quantity", "array")]
    + [H(f"plain_{s}", plain, f"{s}: every combination of frame, dependence, convertibility and compression", dict(source=s), expect=EXP if "bypass" not in s else EXP[1:], **K)
       for s in ("ndarray", "list", "tuple", "unyt_array", "unyt_list", "unyt_quantity", "scalar", "bypass", "bypass_quantity", "astropy_array", "astropy_quantity", "pint_array", "pint_quantity")]
    + [H("ambiguous", ambiguous, "a dependence given twice or half", expect=("contradictory or incomplete dependences are refused",), **K)]
)
