"""C16: cosmology attributes survive copying, slicing and serialisation."""

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "Arrays of shape (2, 3), (4,) and scalars, with any values in [-4, 4]; every combination of frame and convertibility that is legal, with and without a scale-factor dependence.",
    "Pickling is decided through the object's reduce/setstate protocol (what pickle and copyreg call); the byte encoding itself is Python's.",
    "byteswap and astype to another precision act on machine representations and are outside the encoding (astype is checked for attributes only, on concrete replays).",
]


def reduce_roundtrip(x):
    r = x.__reduce__()
    y = r[0](*r[1])
    y.__setstate__(r[2])
    return y


def ops():
    import copy

    import numpy as np

    any_ = {
        "copy": (lambda x: x.copy(), lambda v: v.copy(), True),
        "copy.copy": (copy.copy, lambda v: v.copy(), True),
        "copy.deepcopy": (copy.deepcopy, lambda v: v.copy(), True),
        "np.copy": (lambda x: np.copy(x, subok=True), lambda v: v.copy(), True),
        "view": (lambda x: x.view(), lambda v: v, False),
        "reduce/setstate": (reduce_roundtrip, lambda v: v.copy(), True),
        "in_units": (lambda x: x.in_units("Mpc"), lambda v: v.copy(), True),
        "to": (lambda x: x.to("Mpc"), lambda v: v.copy(), True),
        "to default": (lambda x: x.to(), lambda v: v.copy(), True),
        "constructor": (lambda x: type(x)(x, valid_transform=x.valid_transform), lambda v: v, False),
        "ellipsis": (lambda x: x[...], lambda v: v, False),
        "flatten": (lambda x: x.flatten(), lambda v: v.flatten(), True),
        "ravel": (lambda x: x.ravel(), lambda v: v.ravel(), False),
        "T": (lambda x: x.T, lambda v: v.T, False),
        "reshape -1": (lambda x: x.reshape(-1), lambda v: v.reshape(-1), False),
        "squeeze": (lambda x: x.squeeze(), lambda v: v.squeeze(), False),
    }
    one = {
        "slice": (lambda x: x[1:3], lambda v: v[1:3], False),
        "strided": (lambda x: x[::-2], lambda v: v[::-2], False),
        "element": (lambda x: x[2], lambda v: v[2], None),
        "negative element": (lambda x: x[-1], lambda v: v[-1], None),
        "fancy": (lambda x: x[[3, 0]], lambda v: v[[3, 0]], True),
        "fancy array": (lambda x: x[np.array([1])], lambda v: v[np.array([1])], True),
        "boolean": (lambda x: x[np.array([True, False, True, True])], lambda v: v[np.array([True, False, True, True])], True),
        "empty": (lambda x: x[0:0], lambda v: v[0:0], None),
        "newaxis": (lambda x: x[None, :], lambda v: v[None, :], False),
        "iterate": (lambda x: [y for y in x][1], lambda v: v[1], None),
        "reshape": (lambda x: x.reshape((2, 2)), lambda v: v.reshape((2, 2)), False),
        "reshape args": (lambda x: x.reshape(2, 2), lambda v: v.reshape((2, 2)), False),
        "np.reshape": (lambda x: np.reshape(x, (2, 2)), lambda v: v.reshape((2, 2)), False),
        "repeat": (lambda x: x.repeat(2), lambda v: v.repeat(2), True),
        "take": (lambda x: x.take([1, 3]), lambda v: v[[1, 3]], True),
        "take one": (lambda x: x.take(1), lambda v: v[1], None),
        "compress": (lambda x: x.compress([True, False, True]), lambda v: v[[0, 2]], True),
        "np.atleast_2d": (lambda x: np.atleast_2d(x), lambda v: v.reshape(1, 4), False),
        "np.roll": (lambda x: np.roll(x, 1), lambda v: np.roll(v, 1), True),
        "np.tile": (lambda x: np.tile(x, 2), lambda v: np.tile(v, 2), True),
        "np.split": (lambda x: np.split(x, 2)[1], lambda v: v[2:], False),
        "np.flip": (lambda x: np.flip(x), lambda v: v[::-1], False),
        "np.delete": (lambda x: np.delete(x, 1), lambda v: v[[0, 2, 3]], True),
        "np.broadcast_to": (lambda x: np.broadcast_to(x, (2, 4), subok=True), lambda v: np.broadcast_to(v, (2, 4)), None),
    }
    two = {
        "row": (lambda x: x[1], lambda v: v[1], False),
        "column": (lambda x: x[:, 1], lambda v: v[:, 1], False),
        "element": (lambda x: x[1, 2], lambda v: v[1, 2], None),
        "tuple element": (lambda x: x[1][2], lambda v: v[1, 2], None),
        "transpose": (lambda x: x.transpose(), lambda v: v.T, False),
        "transpose axes": (lambda x: x.transpose(1, 0), lambda v: v.T, False),
        "np.transpose": (lambda x: np.transpose(x), lambda v: v.T, False),
        "swapaxes": (lambda x: x.swapaxes(0, 1), lambda v: v.T, False),
        "diagonal": (lambda x: x.diagonal(), lambda v: v.diagonal(), None),
        "np.moveaxis": (lambda x: np.moveaxis(x, 0, 1), lambda v: v.T, False),
        "np.expand_dims": (lambda x: np.expand_dims(x, 0), lambda v: v[None], False),
        "boolean rows": (lambda x: x[np.array([False, True])], lambda v: v[1:], True),
        "fancy pairs": (lambda x: x[[0, 1], [2, 1]], lambda v: v[[0, 1], [2, 1]], True),
    }
    return dict(any=any_, one=one, two=two)


def scalar_ok(n):
    return n != "constructor"


CONFIGS = [(True, True, 1), (False, True, -2), (False, False, 1), (None, False, 0), (None, False, None), (True, True, 0.5), (False, False, None)]


def attributes(S, kind, shape, names):
    import numpy as np
    from swiftsimio.objects import NULL_CF, cosmo_array, cosmo_factor, cosmo_quantity

    cl.fresh(S)
    a = S.scale_factor("a")
    frame, vt, p = S.choice("config", CONFIGS)
    comp = S.choice("compression", [None, "Filter"])
    op = S.choice("op", names)
    f, ref, copies = ops()[kind][op]
    n = int(np.prod(shape)) if shape else 1
    vals = [S.real(f"x{i}", -4, 4) for i in range(n)]
    raw = S.arr(vals).reshape(shape)
    cf = NULL_CF if p is None else cosmo_factor.create(a, p)
    cls = cosmo_quantity if shape == () else cosmo_array
    x = cls(raw.copy(), "Mpc", comoving=frame, cosmo_factor=cf, valid_transform=vt, compression=comp)
    r = f(x)
    want = ref(raw)
    S.check(S.alleq(cl.flat(r), cl.flat(want)), f"values after {op}")
    S.check(np.shape(r) == np.shape(want), f"shape after {op}")
    S.check(isinstance(r, cosmo_array) and isinstance(r, cosmo_quantity) == (np.shape(want) == ()), f"type after {op}")
    S.check(str(r.units) == "Mpc", f"units after {op}")
    S.check(r.comoving is frame, f"frame after {op}")
    S.check(cl.exponent(r.cosmo_factor) == p and (p is None or S.eq(r.cosmo_factor.scale_factor, a)), f"scale-factor dependence after {op}")
    S.check(r.valid_transform is vt, f"convertibility after {op}")
    S.check(r.compression == comp, f"compression record after {op}")
    if copies:
        flatr = r.view(np.ndarray).reshape(-1) if r.shape != () else None
        r *= 0
        S.check(S.alleq(cl.flat(x), cl.flat(raw)), f"changing the result of {op} leaves the original unchanged")
        r.comoving = False
        r.units = "s"
        S.check(x.comoving is frame and str(x.units) == "Mpc", f"relabelling the result of {op} leaves the original unchanged")


K = dict(setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(250, 900))


def chunks(d, n):
    d = list(d)
    return [d[i:i + n] for i in range(0, len(d), n)]


_O = ops()
HARNESSES = (
    [H(f"any1_{i}", attributes, f"shape (4,): {c}", dict(kind="any", shape=(4,), names=c), **K) for i, c in enumerate(chunks(_O["any"], 9))]
    + [H(f"any2_{i}", attributes, f"shape (2, 3): {c}", dict(kind="any", shape=(2, 3), names=c), **K) for i, c in enumerate(chunks(_O["any"], 9))]
    + [H("scalar", attributes, "scalars", dict(kind="any", shape=(), names=[n for n in _O["any"] if scalar_ok(n)]), **K)]
    + [H(f"one{i}", attributes, f"shape (4,): {c}", dict(kind="one", shape=(4,), names=c), **K) for i, c in enumerate(chunks(_O["one"], 9))]
    + [H(f"two{i}", attributes, f"shape (2, 3): {c}", dict(kind="two", shape=(2, 3), names=c), **K) for i, c in enumerate(chunks(_O["two"], 9))]
)
