"""C24: visualisation maps the requested region onto the image."""

import importlib
import types
import warnings

import numpy as np

from symex.registry import H
from . import cosmolib as cl

ASSUMPTIONS = [
    "The backends are replaced by recorders that return an arbitrary image, so this is about what the front end hands over and what it does with the image; C19-C23 decide the backends.",
    "Two particles, one with symbolic coordinates; region corners symbolic, region widths, box size (2 x 1 x 4), scale factor (1/2) and rotation matrices fixed multiples of powers of two.",
    "Reals stand for floats. The smoothing-length and nearest-neighbour searches and the gpu backend are not encoded.",
]
L = (2.0, 1.0, 4.0)
A = 0.5
MODS = ["_vistools", "projection", "slice", "volume_render"]


def mods():
    return {n: importlib.import_module("swiftsimio.visualisation." + n) for n in MODS}


def setup():
    from symex import shim, unytsym

    cl.setup()
    # take arrays through the symbolic numpy in the modules under test
    for m in mods().values():
        shim.install(m)
        m.np = VisNp()


def VisNp():
    from symex import unytsym
    from symex.npshim import is_objarr

    class P(unytsym.UnytNp2):
        def logical_and(self, x, y):
            if x is Ellipsis:
                x = True
            return np.logical_and(x, y)

    return P()


def concrete_setup():
    cl.concrete_setup()


class Rec(dict):
    def fn(self, S, shape):
        def backend(**kw):
            self.update(kw)
            self["calls"] = self.get("calls", 0) + 1
            n = int(np.prod(shape))
            self["pix"] = [S.real(f"I{i}", 0, 8) for i in range(n)]
            return S.arr(self["pix"]).reshape(shape)

        return backend


def data(S, fr, p, n=2, lo=-0.5, hi=1.5):
    """A particle group: positions drifted a little out of the box, masses scaling as a^p."""
    pos = [S.real("xyz"[i], lo * L[i], hi * L[i]) for i in range(3)] + [0.375, 0.3125, 1.75]
    crd = cl.In(S, "p", (n, 3), 1, fr["pos"], A, vals=pos)
    mass = cl.In(S, "m", (n,), p, fr["mass"], A, unit="Msun", lo=0.5)
    h = cl.In(S, "h", (n,), 1, fr["h"], A, lo=0, hi=1, lo_open=True)
    from swiftsimio.objects import cosmo_array

    box = cosmo_array(np.array([v / (1 if fr["box"] else 1 / A) for v in L]), "Mpc", comoving=fr["box"], scale_factor=A, scale_exponent=1)
    d = types.SimpleNamespace(coordinates=crd.x, masses=mass.x, smoothing_lengths=h.x, metadata=types.SimpleNamespace(boxsize=box), group_name="gas")
    return d, crd, mass, h, box


def frames(S, which):
    fr = {"pos": True, "mass": True, "h": True, "box": True, "region": True}
    for k in which:
        fr[k] = S.choice(k + "_comoving", [True, False])
    return fr


def phys(v, comoving):
    return v * A if comoving else v


def isint(S, v):
    """v is a whole number"""
    if S.symbolic:
        return v == vfloor(S, v + 0.5)
    return abs(v - np.floor(v + 0.5)) < 1e-6


def vfloor(S, v):
    from symex.core import SymNum

    return v.__floor__() if isinstance(v, SymNum) else int(np.floor(v))


def eq(S, a, b):
    d = a - b
    t = 1e-9 if S.symbolic else 1e-5
    return (d <= t) & (d >= -t)


def pl(v):
    return cl.flat(v)


def check_positions(S, rec, axes, idx, crd, origin, s, boxes, periodic):
    for a in axes:
        got = pl(rec["xyz"[a]])
        S.check(len(got) == len(idx), "exactly the selected particles are drawn")
        if len(got) != len(idx):
            return False
        for g, i in zip(got, idx):
            want = (crd[3 * i + a] - origin[a]) / s
            if periodic:
                b = boxes[a] / s
                S.check(isint(S, (g - want) / b), "positions are relative to the region, up to whole boxes")
                S.check((g >= -1e-12) & (g < b + 1e-12), "positions are wrapped into the box")
            else:
                S.check(eq(S, g, want), "positions are relative to the region")
    return True


def check_rest(S, rec, axes, idx, mass, h, s, boxes, periodic):
    got, gm = pl(rec["h"]), pl(rec["m"])
    S.check(len(got) == len(idx) and len(gm) == len(idx), "exactly the selected particles are drawn")
    for g, i in zip(got, idx):
        S.check(eq(S, g * s, cl.flat(h.phys)[i]), "smoothing lengths are relative to the region")
    for g, i in zip(gm, idx):
        S.check(eq(S, g, cl.flat(mass.raw)[i]), "the quantity is handed over unchanged")
    for a in axes:
        b = rec["box_" + "xyz"[a]]
        b = float(np.asarray(b).item()) if not S.symbolic else pl(np.asarray(b))[0]
        S.check(eq(S, b, boxes[a] / s if periodic else 0.0), "box sizes are relative to the region")


def check_image(S, img, rec, mass, s, dim, crop, shape, p):
    S.check(tuple(img.shape) == tuple(crop), "the image has the aspect ratio of the region")
    if tuple(img.shape) != tuple(crop):
        return
    u = "Msun/Mpc**%d" % dim
    try:
        out = img.to(u)
    except Exception as e:
        if type(e).__name__ == "Unsupported":
            raise
        S.check(False, "units are those of the quantity per area or volume")
        return
    got = cl.physical(S, out, A)
    S.check(img.comoving is mass.frame and cl.exponent(img.cosmo_factor) == p - dim, "frame and scale exponent are those of the quantity per area or volume")
    f = cl.apow(A, p) if mass.frame else 1
    full = np.array(rec["pix"], dtype=object).reshape(shape)[tuple(slice(0, c) for c in crop)].reshape(-1)
    for g, w in zip(got, full):
        S.check(eq(S, g * s**dim, w * f), "values are those of the quantity per area or volume")


def region(S, fr, kind, widths, zkind):
    """(region as passed, physical origin, physical widths of image, z range or None)"""
    from swiftsimio.objects import cosmo_array

    c = fr["region"]
    if kind == "none":
        o = [0.0, 0.0, 0.0]
        w = [v * A for v in L]
        return None, o, w, None
    x0 = S.real("rx", -1, 2)
    y0 = S.real("ry", -0.5, 1) if kind == "xy" else 0.25
    v = [x0, x0 + widths[0], y0, y0 + widths[1]]
    o = [phys(x0, c), phys(y0, c), 0.0]
    w = [phys(k, c) for k in widths] + [L[2] * A]
    z = None
    if zkind is not None:
        z0 = S.real("rz", -4, 4)
        v += [z0, z0 + zkind]
        o[2] = phys(z0, c)
        w[2] = phys(zkind, c)
        z = (phys(z0, c), phys(z0 + zkind, c))
    r = cosmo_array(S.arr(v), "Mpc", comoving=c, scale_factor=A, scale_exponent=1)
    return r, o, w, z


def select(S, masked, z, zs, boxz, periodic):
    """Numbers of the particles to be drawn, and the mask passed."""
    m = S.choice("mask", [None, 1, 2, 3]) if masked else None
    keep = [True, True] if m is None else [bool(m & 1), bool(m & 2)]
    idx = []
    for i in range(2):
        k = keep[i]
        if k and z is not None:
            if periodic:
                c = None
                for n in range(-5, 6):
                    t = (zs[i] + n * boxz >= z[0]) & (zs[i] + n * boxz <= z[1])
                    c = t if c is None else c | t
            else:
                c = (zs[i] >= z[0]) & (zs[i] <= z[1])
            k = bool(c)
        if k:
            idx.append(i)
    return (None if m is None else np.array(keep)), idx


def untouched(S, crd, mass, h, box, fr, r, r0):
    crd.intact("the user's data are left as they were")
    mass.intact("the user's data are left as they were")
    h.intact("the user's data are left as they were")
    S.check(list(box.v) == [v / (1 if fr["box"] else 1 / A) for v in L] and box.comoving is fr["box"], "the user's data are left as they were")
    if r is not None:
        S.check(r.comoving is fr["region"] and len(r) == len(r0) and S.alleq(cl.flat(r), r0), "the user's data are left as they were")


def rot(kind, fr):
    from swiftsimio.objects import cosmo_array

    if kind is None:
        return None, None
    R = {"z90": [[0, -1, 0], [1, 0, 0], [0, 0, 1]], "mix": [[0.5, 0.25, 0], [0, 1, 0.5], [-1, 0, 0.25]]}[kind]
    c = cosmo_array(np.array([0.5, 0.25, 1.0]), "Mpc", comoving=fr.get("centre", True), scale_factor=A, scale_exponent=1)
    return np.array(R, dtype=float), c


def rotated(S, crd, kind, fr):
    """Physical coordinates after the rotation."""
    v = cl.flat(crd.phys)
    if kind is None:
        return v
    R, c = rot(kind, fr)
    c = [phys(float(q), fr.get("centre", True)) for q in c.v]
    out = []
    for i in range(2):
        d = [v[3 * i + k] - c[k] for k in range(3)]
        out += [R[k][0] * d[0] + R[k][1] * d[1] + R[k][2] * d[2] + c[k] for k in range(3)]
    return out


def image(S, what, periodic, widths=(1.0, 1.0), kind="x", zkind=None, masked=False, which=(), p=0, rotation=None, parallel=False):
    warnings.simplefilter("ignore")
    cl.fresh(S)
    fr = frames(S, which)
    if rotation:
        fr["centre"] = S.choice("centre_comoving", [True, False])
    d, crd, mass, h, box = data(S, fr, p)
    r, o, w, z = region(S, fr, kind, widths, zkind)
    r0 = None if r is None else list(cl.flat(r.copy()))
    R, c = rot(rotation, fr)
    s = max(w[0], w[1])
    boxes = [v * A for v in L]
    res = 4
    pos = rotated(S, crd, rotation, fr)
    mask, idx = select(S, masked, z if what == "projection" else None, [pos[2], pos[5]], boxes[2], periodic)
    rec = Rec()
    m = mods()
    kw = dict(project="masses", region=r, mask=mask, rotation_matrix=R, rotation_center=c, periodic=periodic, parallel=parallel)
    crop = [int(np.ceil(res * k / s)) for k in w[:2]]
    if what == "projection":
        shape, dim, axes = (res, res), 2, (0, 1)
    elif what == "slice":
        shape, dim, axes = tuple(crop), 3, (0, 1, 2)
    else:
        shape, dim, axes, crop = (res,) * 3, 3, (0, 1, 2), [res] * 3
    mod = m[{"projection": "projection", "slice": "slice", "volume": "volume_render"}[what]]
    table = "backends_parallel" if parallel else "backends"
    name = {"projection": "fast", "slice": "sph", "volume": "scatter"}[what]
    keep = getattr(mod, table)
    setattr(mod, table, {name: rec.fn(S, shape)})
    zsl = None
    try:
        if what == "projection":
            img = mod.project_pixel_grid(d, res, backend="fast", **kw)
        elif what == "slice":
            zs = S.choice("zslice", ["none", "comoving", "physical"])
            if zs != "none":
                zsl = cl.In(S, "zs", (), 1, zs == "comoving", A, lo=-1, hi=3)
            img = mod.slice_pixel_grid(d, res, z_slice=None if zsl is None else zsl.x, **kw)
        else:
            img = mod.render_voxel_grid(d, res, **kw)
    finally:
        setattr(mod, table, keep)
    S.check(rec.get("calls") == 1, "the backend is called once")
    if rec.get("calls") != 1:
        return
    res_ok = rec.get("res") == res if what != "slice" else (rec["xres"], rec["yres"]) == tuple(crop)
    S.check(res_ok, "the backend gets the requested resolution")
    org = list(o)
    if what == "slice":
        org[2] = 0.0
    if check_positions(S, rec, axes, idx, pos, org, s, boxes, periodic):
        check_rest(S, rec, axes, idx, mass, h, s, boxes, periodic)
    if what == "slice":
        g = rec["z_slice"]
        g = pl(np.asarray(g))[0]
        want = (cl.flat(zsl.phys)[0] if zsl is not None else 0.0) + (phys(1.0, fr["centre"]) if rotation else 0.0)
        if periodic:
            S.check(isint(S, (g - want / s) / (boxes[2] / s)), "the slice lies at the requested depth, up to whole boxes")
            S.check((g >= -1e-12) & (g < boxes[2] / s + 1e-12), "the slice is wrapped into the box")
        else:
            S.check(eq(S, g, want / s), "the slice lies at the requested depth")
        if zsl is not None:
            zsl.intact("the user's data are left as they were")
    check_image(S, img, rec, mass, s, dim, crop, shape, p)
    untouched(S, crd, mass, h, box, fr, r, r0)


def _h(name, text, **kw):
    return H(name, image, text, kw, setup=setup, concrete_setup=concrete_setup, expect=("values are those of the quantity per area or volume",))


HARNESSES = []
for per in (True, False):
    t = "periodic" if per else "not_periodic"
    for w in ((1.0, 1.0), (2.0, 1.0), (0.5, 2.0)):
        HARNESSES.append(_h(f"projection_{t}_{w[0]:g}x{w[1]:g}", f"projection, {t}: region {w[0]} x {w[1]} with any corner in [-1, 2] x [-1/2, 1], any mask", what="projection", periodic=per, widths=w, kind="xy", masked=True))
        HARNESSES.append(_h(f"slice_{t}_{w[0]:g}x{w[1]:g}", f"slice, {t}: region {w[0]} x {w[1]} with any corner, any depth in either frame, any mask", what="slice", periodic=per, widths=w, kind="x", masked=w[0] == 1))
    for zk in (0.5, 1.5, 4.0):
        HARNESSES.append(_h(f"depth_{t}_{zk:g}", f"projection, {t}: depth {zk} with any front in [-4, 4], any mask", what="projection", periodic=per, zkind=zk, masked=True))
    HARNESSES.append(_h(f"volume_{t}", f"volume render, {t}: cube of side 1 with any corner, any mask", what="volume", periodic=per, kind="xy", zkind=1.0, masked=True))
    for k in ("projection", "slice"):
        HARNESSES.append(_h(f"{k}_{t}_whole", f"{k}, {t}: no region given", what=k, periodic=per, kind="none"))
for k, z in (("projection", 0.5), ("slice", None), ("volume", 1.0)):
    for p in (0, 1):
        HARNESSES.append(_h(f"{k}_frames_{p}", f"{k}: positions, quantity (scaling as a^{p}), smoothing lengths, box and region each comoving or physical", what=k, periodic=True, zkind=z, which=("pos", "mass", "h", "box", "region"), p=p))
    for R in ("z90", "mix"):
        HARNESSES.append(_h(f"{k}_rotated_{R}", f"{k} rotated about a point by a fixed matrix ({R}), centre, positions and region each comoving or physical", what=k, periodic=False, zkind=z, which=("pos", "region"), rotation=R))
    HARNESSES.append(_h(f"{k}_parallel", f"{k} with the parallel backends", what=k, periodic=True, zkind=z, parallel=True))
