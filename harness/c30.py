"""C30: smoothing lengths are generated for every particle."""

import importlib
import types

import numpy as np

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "The neighbour tree of scipy is a stand-in in the symbolic run: it returns the exact sorted periodic distances of collinear points (replays use scipy's tree).",
    "The block size (65536) is set to 3 for the check, so that block boundaries are within reach of the particle numbers tried; the scale factor is 0.5.",
]
MOD = "swiftsimio.visualisation.smoothing_length.generate"
OWN = "each particle gets the scaled distance to its own neighbour"
SHAPE = "one smoothing length per particle"
LABEL = "the result has the units, frame and scale-factor exponent of the coordinates"


def mod():
    return importlib.import_module(MOD)


def inner(f, name, seen=None):
    """The function under its decorators."""
    seen = seen or set()
    if id(f) in seen:
        return None
    seen.add(id(f))
    if isinstance(f, types.FunctionType):
        if f.__code__.co_name == name:
            return f
        for c in f.__closure__ or ():
            r = inner(c.cell_contents, name, seen) if callable(c.cell_contents) else None
            if r is not None:
                return r
    return None


def reduce_blocks(m, size):
    f = inner(m.generate_smoothing_lengths, "generate_smoothing_lengths")
    if f is not None:
        big = lambda c: type(c) is int and c >= 1024
        f.__code__ = f.__code__.replace(co_consts=tuple(size if big(c) else c for c in f.__code__.co_consts))
    for k, v in list(vars(m).items()):
        if type(v) is int and v >= 1024:
            setattr(m, k, size)


class Tree:
    """Brute-force stand-in for scipy's KDTree on the line y = z = 0 in a periodic box."""

    def __init__(self, data, boxsize=None, **kw):
        self.p = np.asarray(data, dtype=object).reshape(-1, 3)
        self.L = np.asarray(boxsize, dtype=object).reshape(-1)[0] if boxsize is not None else None

    def query(self, x, k=1, workers=1, **kw):
        from symex.core import smax, smin, ite

        if kw:
            raise TypeError(f"unexpected arguments {kw}")
        q = np.asarray(x, dtype=object).reshape(-1, 3)
        want = [int(i) for i in k] if np.iterable(k) else list(range(1, int(k) + 1))
        out = np.empty((len(q), len(want)), dtype=object)
        for i, pt in enumerate(q):
            d = kth(distances(pt[0], [r[0] for r in self.p], self.L))
            for j, w in enumerate(want):
                out[i, j] = d[w - 1] if w <= len(d) else np.inf
        if not np.iterable(k) and int(k) == 1:
            out = out[:, 0]
        return out, np.zeros(out.shape, dtype=int)


def distances(x, others, L):
    from symex.core import smax, smin

    r = []
    for o in others:
        d = smax(x - o, o - x)
        r.append(smin(d, L - d) if L is not None else d)
    return r


def kth(d):
    """Sorting network."""
    from symex.core import smax, smin

    d = list(d)
    for i in range(len(d)):
        for j in range(len(d) - 1 - i):
            d[j], d[j + 1] = smin(d[j], d[j + 1]), smax(d[j], d[j + 1])
    return d


def setup():
    from symex import unytsym

    cl.setup()
    m = mod()
    m.np = unytsym.UnytNp2()
    m.KDTree = Tree
    m.TREE_AVAILABLE = True
    reduce_blocks(m, 3)


def concrete_setup():
    cl.concrete_setup()
    reduce_blocks(mod(), 3)


def gen(S, n, neighbours, speedup, dim, frames=True, fixed=False):
    import unyt

    from swiftsimio.objects import cosmo_array

    cl.fresh(S)
    m = mod()
    a = 0.5
    # None: a plain unyt_array
    cf = S.choice("coordinates_comoving", [True, False, None] if fixed else [True, False]) if frames else True
    bf = S.choice("box_comoving", [True, False, None] if fixed else [True, False]) if frames else True
    unit = S.choice("box_unit", ["Mpc", "kpc"]) if fixed else "Mpc"
    L = 16.0 if fixed else S.real("L", 1, 8)  # in the frame of the coordinates
    gamma = S.real("kernel_gamma", 1, 3)
    x = [i * i / 16 for i in range(n)] if fixed else [S.real(f"x{i}", 0, 8) for i in range(n)]
    for v in x:
        S.assume(v * 1.001 < L)
    k = neighbours // speedup
    pos = S.arr([[v, 0.0, 0.0] for v in x]) if n else np.zeros((0, 3))

    def length(v, u, frame):
        if frame is None:
            return unyt.unyt_array(v, u)
        return cosmo_array(v, u, comoving=frame, scale_factor=a, scale_exponent=1)

    co = length(pos.reshape(n, 3), "Mpc", cf)
    Lb = L * (1.0 if bf == cf or None in (bf, cf) else (2.0 if bf else 0.5)) * (1 if unit == "Mpc" else 1000)
    box = length(S.arr([Lb, Lb, Lb]), unit, bf)
    keep = list(cl.flat(co))
    out = m.generate_smoothing_lengths(co, box, gamma, neighbours=neighbours, speedup_fac=speedup, dimension=dim)
    S.check(tuple(out.shape) == (n,), SHAPE)
    if cf is None:
        S.check(isinstance(out, unyt.unyt_array) and not isinstance(out, cosmo_array) and str(out.units) == "Mpc", LABEL)
    else:
        S.check(out.comoving is cf and cl.exponent(out.cosmo_factor) == 1 and str(out.units) == "Mpc" and isinstance(out, cosmo_array), LABEL)
    S.check(S.alleq(cl.flat(co), keep), "the coordinates are left as they were")
    fac = speedup ** (1.0 / dim)
    got = cl.flat(out)
    for i in range(min(n, len(got))):
        if S.symbolic:
            d = kth(distances(x[i], x, L))[k - 1]
        else:
            d = sorted(min(abs(x[i] - o), L - abs(x[i] - o)) for o in x)[k - 1]
        e = got[i] * gamma - d * fac
        tol = 1e-6 if S.symbolic else 1e-4
        S.check((e <= tol) & (e >= -tol), OWN)


def B(n, nb, sp, d):
    return f"{n} particles anywhere on a line of a periodic box of any size, blocks of 3, {nb} neighbours, speed-up {sp}, {d} dimensions, both frames for coordinates and box, any kernel gamma"


HARNESSES = [H(f"n{n}_k{nb}_{sp}_{d}d", gen, B(n, nb, sp, d), dict(n=n, neighbours=nb, speedup=sp, dim=d), setup=setup, concrete_setup=concrete_setup, expect=(OWN, SHAPE, LABEL) if n else (SHAPE, LABEL))
             for n, nb, sp, d in ((1, 1, 1, 3), (2, 4, 2, 3), (3, 3, 1, 3), (3, 2, 2, 2), (4, 4, 2, 3), (4, 9, 4, 2), (5, 7, 3, 3), (0, 4, 2, 3))]
HARNESSES += [H(f"fixed_n{n}", gen, f"{n} particles at fixed positions, blocks of 3, 6 neighbours, speed-up 2, both frames (or none) for coordinates and box, box in Mpc or kpc, any kernel gamma", dict(n=n, neighbours=6, speedup=2, dim=3, fixed=True), setup=setup, concrete_setup=concrete_setup, expect=(OWN, SHAPE, LABEL))
              for n in (6, 7, 8, 9, 10)]
