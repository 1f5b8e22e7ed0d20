"""C11: comoving and physical frames differ by exactly the power of a."""

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "Lengths in Mpc or kpc, times and masses likewise exact multiples; two-element arrays and scalars; any values in [-4, 4]; scale factor any real in [1/16, 0.94].",
]
METHODS = ["to_comoving", "to_physical", "to_c", "to_p", "to_none", "to_comoving_value", "to_physical_value", "to_value_c", "to_value_p", "construct_c", "construct_p", "inplace_c", "inplace_p"]


def target(method, frame):
    if method in ("to_none",):
        return frame
    return method in ("to_comoving", "to_c", "to_comoving_value", "to_value_c", "construct_c", "inplace_c")


def apply(x, method, unit):
    from swiftsimio.objects import cosmo_array

    k = {} if unit is None else {"units": unit}
    if method == "to_comoving":
        return x.to_comoving(**k)
    if method == "to_physical":
        return x.to_physical(**k)
    if method == "to_c":
        return x.to(unit, comoving=True)
    if method == "to_p":
        return x.to(unit, comoving=False)
    if method == "to_none":
        return x.to(unit)
    if method == "to_comoving_value":
        return x.to_comoving_value(unit or str(x.units))
    if method == "to_physical_value":
        return x.to_physical_value(unit or str(x.units))
    if method == "to_value_c":
        return x.to_value(unit, comoving=True)
    if method == "to_value_p":
        return x.to_value(unit, comoving=False)
    if method == "construct_c":
        return cosmo_array(x, comoving=True)
    if method == "construct_p":
        return cosmo_array(x, comoving=False)
    if method == "inplace_c":
        x.convert_to_comoving(**k)
        return x
    if method == "inplace_p":
        x.convert_to_physical(**k)
        return x


def convert(S, p, shape, methods):
    cl.fresh(S)
    a = S.scale_factor("a")
    frame = S.choice("comoving", [True, False])
    m = S.choice("method", methods)
    unit = S.choice("unit", [None, "kpc"])
    x = cl.In(S, "x", shape, p, frame, a, compression="SomeFilter")
    if m.startswith("construct") and (unit is not None or shape == ()):
        return
    r = apply(x.x, m, unit)
    tf = target(m, frame)
    k = 1000 if unit == "kpc" else 1
    want = [v * k for v in cl.flat(x.com if tf else x.phys)]
    S.check(S.allnear(cl.flat(r), want), "values differ by exactly the power of a")
    if "value" in m:
        S.check(not hasattr(r, "units"), "value methods return plain numbers")
    else:
        S.check(r.comoving is tf, "frame of the result")
        S.check(cl.exponent(r.cosmo_factor) == p, "exponent of the result")
        S.check(S.eq(r.cosmo_factor.scale_factor, a), "scale factor of the result")
        S.check(str(r.units) == (unit or "Mpc"), "units of the result")
        S.check(r.shape == shape and r.valid_transform is True and (r.compression == "SomeFilter"), "other attributes of the result")
    if not m.startswith("inplace"):
        x.intact("copying conversions leave their input alone")
        # writing into the copy must not reach the original
        if hasattr(r, "units") and shape != () and not m.startswith("construct"):
            r[0] = r[1] + r[1]
            x.intact("the result does not share memory with the input")


def roundtrip(S, p, shape):
    cl.fresh(S)
    a = S.scale_factor("a")
    frame = S.choice("comoving", [True, False])
    x = cl.In(S, "x", shape, p, frame, a)
    r = x.x.to_physical().to_comoving()
    S.check(S.allnear(cl.flat(r), cl.flat(x.com)) and r.comoving is True, "physical and back to comoving")
    r = x.x.to_comoving().to_physical()
    S.check(S.allnear(cl.flat(r), cl.flat(x.phys)) and r.comoving is False, "comoving and back to physical")
    r = x.x.to_comoving().to("kpc").to_physical().to("Mpc")
    S.check(S.allnear(cl.flat(r), cl.flat(x.phys)) and r.comoving is False, "unit and frame conversions commute")
    x.x.convert_to_physical()
    x.x.convert_to_physical()
    S.check(S.allnear(cl.flat(x.x), cl.flat(x.phys)) and x.x.comoving is False, "converting twice is converting once")
    x.x.convert_to_comoving()
    x.x.convert_to_comoving()
    S.check(S.allnear(cl.flat(x.x), cl.flat(x.com)) and x.x.comoving is True, "in-place conversion there and back")
    S.check(cl.exponent(x.x.cosmo_factor) == p, "exponent after conversions")


def refused(S, p, shape):
    """Data that cannot be converted is never converted."""
    import numpy as np
    from swiftsimio.objects import InvalidConversionError

    cl.fresh(S)
    a = S.scale_factor("a")
    frame = S.choice("comoving", [False, None])
    m = S.choice("method", METHODS)
    unit = S.choice("unit", [None, "kpc"])
    if m.startswith("construct"):
        if shape == () or unit is not None:
            return
    x = cl.In(S, "x", shape, p, frame, a, valid_transform=False)
    tf = target(m, frame)
    should = tf is True or (frame is None and m != "to_none")
    if m in ("to_none",):
        should = False
    try:
        r = apply(x.x, m, unit)
        got = False
    except InvalidConversionError:
        got = True
    S.check(got == should, "unconvertible data is refused exactly when a conversion is needed")
    if not got:
        k = 1000 if unit == "kpc" else 1
        S.check(S.allnear(cl.flat(r), [v * k for v in cl.flat(x.raw)]), "values are not converted")
    else:
        k = 1000 if str(x.x.units) == "kpc" else 1
        S.check(S.allnear(cl.flat(x.x), [v * k for v in cl.flat(x.raw)]), "a refused conversion leaves the values alone")
        S.check(x.x.comoving is frame, "a refused conversion leaves the frame alone")


def compat(S, p):
    cl.fresh(S)
    a = S.scale_factor("a")
    frame = S.choice("comoving", [True, False])
    x = cl.In(S, "x", (2,), p, frame, a)
    one = p == 0
    S.check(bool(x.x.compatible_with_comoving()) == (frame or one), "compatible with comoving")
    S.check(bool(x.x.compatible_with_physical()) == ((not frame) or one), "compatible with physical")


def N(p):
    return str(p).replace("-", "m").replace(".", "_")


K = dict(setup=cl.setup, concrete_setup=cl.concrete_setup)
EXPS = [0, 1, -2, 0.5, 2, -1.5]
HARNESSES = (
    [H(f"convert{N(p)}", convert, f"exponent {p}, two-element array, every conversion method, with and without units", dict(p=p, shape=(2,), methods=METHODS), budget=(250, 900), expect=("values differ by exactly the power of a",), **K) for p in EXPS]
    + [H(f"scalar{N(p)}", convert, f"exponent {p}, scalar", dict(p=p, shape=(), methods=METHODS), budget=(250, 900), **K) for p in (1, -2)]
    + [H(f"roundtrip{N(p)}", roundtrip, f"exponent {p}, two-element array", dict(p=p, shape=(2,)), budget=(250, 900), **K) for p in EXPS]
    + [H("refused1", refused, "exponent 1, data that cannot be converted", dict(p=1, shape=(2,)), budget=(250, 900), **K)]
    + [H("refused_scalar", refused, "exponent -2, scalar that cannot be converted", dict(p=-2, shape=()), budget=(250, 900), **K)]
    + [H(f"compat{N(p)}", compat, f"exponent {p}", dict(p=p), budget=(100, 300), **K) for p in (0, 1, -2)]
)
