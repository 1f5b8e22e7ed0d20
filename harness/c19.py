"""C19: parallel rendering uses every particle exactly once."""

import itertools

from symex.registry import H
from . import vislib as vl
from .c21 import run
from .c22 import dim

ASSUMPTIONS = [
    vl.ASSUME_KERNEL, vl.ASSUME_JIT,
    "The thread loop is executed in order: that numba adds the threads' images without losing an update (its array reduction) is taken for granted.",
    "The number of threads is set in the module under test; machine-code replays would fix it at compile time, so replays run the Python source.",
]
LAB = "the parallel image is the serial image"


def alike(S, u, v):
    """The same sum in another order (every term is positive)."""
    if S.symbolic:
        return vl.same(S, u, v)
    u, v = float(u), float(v)
    return abs(u - v) <= 1e-4 * max(abs(u), abs(v))


def parts(S, name, n):
    out = []
    for i in range(n):
        q = (2 * i + 1) / 16
        pos = [q, 1 - q, (q * 3) % 1][: dim(name)]
        m = S.real(f"m{i}", 0.5, 8)
        h = (0.05, 0.2, 0.11, 0.3)[i % 4] / 4 * (5 if name == "reference" else 1)
        out.append((*pos, m, h))
    return out


def threads(S, tmax):
    t = S.split(S.int("threads", 1, tmax))
    for m in vl.modules().values():
        if hasattr(m, "NUM_THREADS"):
            m.NUM_THREADS = t
    return t


def image(S, name, nmax, tmax, box):
    n = S.split(S.int("particles", 0, nmax))
    threads(S, tmax)
    res = 4
    if name == "reference":
        res = 8
    b = (box,) * 3
    p = parts(S, name, n)
    zs = 0.5
    ser = run(S, name, p, res, b, zs)
    par = run(S, name, p, res, b, zs, parallel=True)
    S.check(par.shape == ser.shape, "same shape as the serial image")
    if par.shape != ser.shape:
        return
    for k in itertools.product(*[range(n) for n in ser.shape]):
        S.check(alike(S, par[k], ser[k]), LAB)


def sides(S, name, nmax, tmax, box, zs):
    """Periods that differ from axis to axis, with particles that reach across every edge."""
    n = S.split(S.int("particles", 1, nmax))
    threads(S, tmax)
    res = 8 if name == "reference" else 4
    p = []
    for i in range(n):
        q = (1 / 16, 15 / 16, 3 / 16)
        pos = [box[k] * q[(i + k) % 3 if k else i % 2] for k in range(dim(name))]
        if name == "slice":
            pos[2] = box[2] * (15 / 16, 1 / 16)[i % 2]
        p.append((*pos, S.real(f"m{i}", 0.5, 8), (0.07, 0.05, 0.06, 0.04)[i % 4] * (2 if name == "reference" else 1)))
    ser = run(S, name, p, res, box, zs)
    par = run(S, name, p, res, box, zs, parallel=True)
    S.check(par.shape == ser.shape, "same shape as the serial image")
    if par.shape != ser.shape:
        return
    for k in itertools.product(*[range(n) for n in ser.shape]):
        S.check(alike(S, par[k], ser[k]), LAB)


def uneven(S, nmax, tmax):
    """A slice image that is not square."""
    n = S.split(S.int("particles", 0, nmax))
    threads(S, tmax)
    p = parts(S, "slice", n)
    for res in ((4, 2), (2, 4)):
        ser = vl.slice_(S, p, res, 0.5)
        par = vl.slice_(S, p, res, 0.5, parallel=True)
        S.check(par.shape == ser.shape == res, "same shape as the serial image")
        for k in itertools.product(*[range(n) for n in res]):
            S.check(alike(S, par[k], ser[k]), LAB)


def mesh(S, nmax, tmax):
    n = S.split(S.int("particles", 0, nmax))
    threads(S, tmax)
    m = vl.modules()["power"]
    p = parts(S, "volume", n)
    a = [vl.vec(S, [q[i] for q in p]) for i in range(4)]
    kw = dict(x=a[0], y=a[1], z=a[2], m=a[3], res=4, fold=2.0, box_x=1.0, box_y=0.75, box_z=1.5)
    ser, par = m.deposit(**kw), m.deposit_parallel(**kw)
    S.check(par.shape == ser.shape, "same shape as the serial image")
    for k in itertools.product(*[range(n) for n in ser.shape]):
        S.check(alike(S, par[k], ser[k]), LAB)


Q, T = dict(nmax=5, tmax=4), dict(nmax=9, tmax=8)
B = "every number of particles up to {} and of threads up to {}, any masses, positions and smoothing lengths fixed (different for every particle)"
HARNESSES = [H(b + w, image, f"{b}{' in a periodic box' if w else ''}: " + B.format(5, 4), dict(name=b, box=box, **Q), dict(name=b, box=box, **T), setup=vl.setup, concrete_setup=vl.concrete_python, bounds_thorough=b + ": " + B.format(9, 8), expect=(LAB,))
             for b in vl.PROJ + ["slice", "volume", "limited"] for w, box in (("", 0.0), ("_periodic", 1.0))]
BOX = (0.75, 0.5, 0.625)
HARNESSES += [H(b + "_sides", sides, f"{b} in a periodic box of {BOX}, particles next to every edge: every number of particles from 1 to 4 and of threads up to 3, any masses", dict(name=b, nmax=4, tmax=3, box=BOX, zs=1 / 64), dict(name=b, nmax=6, tmax=8, box=BOX, zs=1 / 64), setup=vl.setup, concrete_setup=vl.concrete_python, bounds_thorough=b + ": 1-6 particles, up to 8 threads", expect=(LAB,))
             for b in vl.PROJ + ["slice", "volume", "limited"]]
HARNESSES += [
    H("slice_uneven", uneven, "slice images of 4x2 and 2x4 pixels: " + B.format(5, 4), Q, T, setup=vl.setup, concrete_setup=vl.concrete_python, expect=(LAB,)),
    H("deposit", mesh, "deposition on a mesh: " + B.format(5, 4), Q, T, setup=vl.setup, concrete_setup=vl.concrete_python, expect=(LAB,)),
]
