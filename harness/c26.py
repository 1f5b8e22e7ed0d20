"""C26: density deposition for power spectra conserves mass."""

import itertools
import types

import numpy as np

from symex.registry import H
from . import cosmolib as cl
from . import vislib as vl

ASSUMPTIONS = [
    vl.ASSUME_JIT,
    "Reals stand for floats: nothing is claimed for positions within rounding error of a cell edge.",
]
CELL = "the whole mass goes into the cell of the folded position and nowhere else"
MASS = "the mesh times its cell volume is the total mass"


def setup():
    vl.setup()
    cl.setup()


def concrete_setup():
    cl.concrete_setup()


def cell(S, pos, L, fold, res):
    """Cell of a position folded into L/fold."""
    s = pos * (fold * res / L)
    return vl.floor(S, s) % res


def one(S, res, fold, L, axes, lo=-4.0, hi=4.0, shift=False):
    m = vl.modules()["power"]
    pos = [S.real("xyz"[a], lo, hi) if a in axes else (0.3, 0.7, 1.1)[a] for a in range(3)]
    for a in axes:
        if not S.symbolic:  # stay clear of cell edges, where rounding decides
            f = (pos[a] * (fold * res / L[a])) % 1
            if min(f, 1 - f) < 1e-9:
                return
    mass = [S.real("m0", 0, 8), S.real("m1", 0, 8)]
    other = (0.6, 0.2, 0.9)
    kw = dict(res=res, fold=float(fold), box_x=L[0], box_y=L[1], box_z=L[2])
    img = m.deposit(**{c: vl.vec(S, [pos[a], other[a]]) for a, c in enumerate("xyz")}, m=vl.vec(S, mass), **kw)
    S.check(img.shape == (res, res, res), "the mesh has the shape of the resolution")
    inv = float(res**3 * fold**3)
    cells = [tuple(cell(S, p[a], L[a], fold, res) for a in range(3)) for p in (pos, other)]
    tot = 0.0
    for k in itertools.product(range(res), repeat=3):
        want = 0.0
        for c, w in zip(cells, mass):
            if all(bool(i == j) for i, j in zip(c, k)):
                want = want + w * inv
        S.check(vl.same(S, img[k], want, inv), CELL)
        tot = tot + img[k]
    S.check(vl.same(S, tot, (mass[0] + mass[1]) * inv, inv), MASS)
    if shift:
        n = S.split(S.int("boxes", -3, 3))
        im2 = m.deposit(**{c: vl.vec(S, [pos[a] + n * L[a] / fold, other[a]]) for a, c in enumerate("xyz")}, m=vl.vec(S, mass), **kw)
        for k in itertools.product(range(res), repeat=3):
            S.check(vl.same(S, im2[k], img[k], inv), "unchanged when a particle moves by whole (folded) boxes")


def near(S, a, b):
    """Unit conversions are float arithmetic also in the symbolic run."""
    d = a - b
    tol = 1e-9 if S.symbolic else 1e-4
    return (d <= tol) & (d >= -tol)


def labelled(S, res, folding, parallel, p):
    """render_to_deposit: physical mass per physical cell volume, whatever the frames."""
    cl.fresh(S)
    a = 0.5
    fr = {n: S.choice(n + "_comoving", [True, False]) for n in ("pos", "mass", "box")}
    x = S.real("x", -2, 2)
    mass = [S.real("m0", 0.5, 8), S.real("m1", 0.5, 8)]
    pp = cl.In(S, "p", (2, 3), 1, fr["pos"], a, vals=[x, 0.3, 0.4, 0.1, 0.2, 0.45])
    mm = cl.In(S, "m", (2,), p, fr["mass"], a, unit="Msun", vals=mass)
    L = (2.0, 1.0, 4.0)
    from swiftsimio.objects import cosmo_array

    box = cosmo_array(np.array(L), "Mpc", comoving=fr["box"], scale_factor=a, scale_exponent=1)
    if not S.symbolic:
        Lx = 2.0 * (a if fr["box"] else 1) / (a if fr["pos"] else 1)
        f = (x * 2**folding * res / Lx) % 1
        if min(f, 1 - f) < 1e-9:
            return
    m = vl.modules()["power"]
    if hasattr(m, "NUM_THREADS") and S.symbolic:
        m.NUM_THREADS = 2
    data = types.SimpleNamespace(coordinates=pp.x, masses=mm.x, metadata=types.SimpleNamespace(boxsize=box))
    try:
        img = m.render_to_deposit(data, res, folding=folding, parallel=parallel)
    except AttributeError:
        S.check(p != 0 and fr["mass"] != fr["pos"], "refuses only quantities that are not in the frame of the positions")
        return
    S.check(img.shape == (res, res, res), "the mesh has the shape of the resolution")
    f = 2.0**folding
    # physical sizes in Mpc
    Lp = [v * (a if fr["box"] else 1) for v in L]
    vol = Lp[0] * Lp[1] * Lp[2] / f**3 / res**3
    vals = cl.physical(S, img.to("Msun/Mpc**3"), a)
    tot = 0.0
    for v in vals:
        tot = tot + v * vol
    want = sum(cl.flat(mm.phys)[1:], cl.flat(mm.phys)[0])
    S.check(near(S, tot, want), MASS + " (physical, from units, frame and scale exponent)")
    px = [(q[0] * (a if fr["pos"] else 1), q[1] * (a if fr["pos"] else 1), q[2] * (a if fr["pos"] else 1)) for q in ((x, 0.3, 0.4), (0.1, 0.2, 0.45))]
    cells = [tuple(cell(S, q[i], Lp[i], f, res) for i in range(3)) for q in px]
    k = 0
    for idx in itertools.product(range(res), repeat=3):
        w = 0.0
        for c, mv in zip(cells, cl.flat(mm.phys)):
            if all(bool(i == j) for i, j in zip(c, idx)):
                w = w + mv
        S.check(near(S, vals[k] * vol, w), CELL)
        k += 1
    pp.intact()
    mm.intact()
    S.check(list(box.v) == list(L) and box.comoving is fr["box"], "the inputs are left unmodified")


HARNESSES = []
for fold in (1, 2, 4):
    for a in range(3):
        HARNESSES.append(H(f"deposit_{'xyz'[a]}_fold{fold}", one, f"two particles, {'xyz'[a]} of one anywhere in [-4, 4], any masses, box 2 x 1 x 4, 4 cells a side, {fold} folds a side; also moved by up to 3 boxes",
                           dict(res=4, fold=fold, L=(2.0, 1.0, 4.0), axes=(a,), shift=True), setup=setup, concrete_setup=concrete_setup, expect=(CELL, MASS)))
HARNESSES.append(H("deposit_xyz", one, "two particles, one anywhere in [-1, 1]^3, any masses, box 2 x 1 x 4, 2 cells a side, 2 folds", dict(res=2, fold=2, L=(2.0, 1.0, 4.0), axes=(0, 1, 2), lo=-1.0, hi=1.0), setup=setup, concrete_setup=concrete_setup, expect=(CELL, MASS)))
HARNESSES += [H(f"render_fold{f}{'_par' if par else ''}_a{p}", labelled, f"render_to_deposit of two particles, x of one in [-2, 2], any masses scaling as a^{p}; positions, masses and box each comoving or physical, a = 0.5, {2**f} folds, 2 cells a side",
                dict(res=2, folding=f, parallel=par, p=p), setup=setup, concrete_setup=concrete_setup, expect=(CELL, MASS + " (physical, from units, frame and scale exponent)")) for f in (0, 1) for par in (False, True) for p in (0, 1)]
