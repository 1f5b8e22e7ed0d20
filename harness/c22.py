"""C22: deposition is linear, non-negative and local."""

import itertools

from symex.registry import H
from . import vislib as vl

ASSUMPTIONS = [vl.ASSUME_KERNEL, vl.ASSUME_JIT]
ALL = "every pixel gets mass times kernel, a small particle goes whole into its pixel"


def gam(name):
    return vl.gamma("volume" if name in ("volume", "limited") else "slice" if name == "slice" else name)


def dim(name):
    return 3 if name in ("slice", "volume", "limited") else 2


def run(S, name, parts, res, zs=None):
    if name == "slice":
        return vl.slice_(S, parts, (res, res), zs)
    if name == "volume":
        return vl.volume(S, parts, res)
    if name == "limited":
        return vl.volume(S, parts, res, ratio=2)
    return vl.project(S, name, parts, res)


def shape(name, res):
    return (res, res) if dim(name) == 2 or name == "slice" else (res, res, res if name == "volume" else res // 2)


def part(S, name, i, res, lo, hi, cells, hmin=0.0, **fix):
    """(x, y, [z,] m, h): anywhere in [lo, hi], kernel radius below `cells` pixels."""
    pos = [fix[c] if c in fix else S.real(f"{c}{i}", lo, hi) for c in "xyz"[: dim(name)]]
    m = S.real(f"m{i}", 0, 8, lo_open=True)
    h = S.real(f"h{i}", 0, 4, lo_open=True)
    S.assume(h * (gam(name) * res) < cells)
    if hmin:
        S.assume(h * (gam(name) * res) > hmin)
    return (*pos, m, h)


def expected(S, name, p, res, zs=None):
    """What one particle must add to every pixel of a point-sampled image."""
    *pos, m, h = p
    Hk = gam(name) * h
    nz = res if name == "volume" else res // 2
    # a kernel smaller than this (in pixels) is not resolved
    if name in ("fast", "histogram"):
        small = True if name == "histogram" else bool(S.lt(Hk * res, 1))
    elif name == "volume":
        small = bool(Hk * res < 0.5)
    elif name == "limited":
        small = bool(Hk * res < 0.5) or bool(Hk * nz < 0.5)
    else:
        small = False
    n = (res, res) if dim(name) == 2 or name == "slice" else (res, res, nz)
    kn = {"limited": "volume"}.get(name, name)
    if small:
        cell = [vl.floor(S, c * k) for c, k in zip(pos, n)]
    out = {}
    for ix in itertools.product(*[range(k) for k in n]):
        if small:
            here = all(bool(c == i) for c, i in zip(cell, ix))
            vol = 1
            for k in n:
                vol *= k
            out[ix] = m * vol if here else 0.0
        else:
            ds = [(i + 0.5) / k - c for i, k, c in zip(ix, n, pos)]
            if name == "slice":
                ds.append(pos[2] - zs)
            out[ix] = m * vl.kern(S, kn, tuple(ds), Hk)
    return out


def sampled(S, name, res, n, cells, lo=-0.25, hi=1.25, hmin=0, hmin2=0):
    """Point-sampled backends: every pixel is the sum over particles of mass times kernel."""
    zs = S.real("zs", 0, 1) if name == "slice" else None
    parts = [part(S, name, 0, res, lo, hi, cells, hmin)]
    for i in range(1, n):
        q = 0.375 / (1 if res == 2 else 2) + 0.25 * i
        parts.append(part(S, name, i, res, lo, hi, cells, hmin, **{c: q for c in "xyz"}))
    img = run(S, name, parts, res, zs)
    S.check(img.shape == shape(name, res), "the image has the shape of the resolution")
    want = {}
    for p in parts:
        for k, v in expected(S, name, p, res, zs).items():
            want[k] = want.get(k, 0.0) + v
    sc = float(res ** len(shape(name, res)))
    for k, v in want.items():
        S.check(vl.same(S, img[k], v, sc), ALL)
        S.check(vl.nonneg(S, img[k]), "no negative contribution")


def relations(S, name, res, cells, what, lo=-0.25, hi=1.25, hmin=0):
    """Relations that every backend must satisfy."""
    zs = S.real("zs", 0, 1) if name == "slice" else None
    p = part(S, name, 0, res, lo, hi, cells, hmin)
    img = run(S, name, [p], res, zs)
    pix = list(itertools.product(*[range(k) for k in shape(name, res)]))
    sc = float(res ** len(shape(name, res)))
    S.check(img.shape == shape(name, res), "the image has the shape of the resolution")
    *pos, m, h = p
    Hk = gam(name) * h
    if what == "linear":
        two = run(S, name, [(*pos, m * 4, h)], res, zs)
        for k in pix:
            S.check(vl.same(S, two[k], img[k] * 4, sc), "linear in the deposited quantity")
            S.check(vl.nonneg(S, img[k]), "no negative contribution")
    elif what == "reach":
        one = bool(Hk * res < 0.25)
        n = shape(name, res)
        for k in pix:
            # the whole pixel lies beyond the kernel's reach along some axis
            conds = [(c - Hk > (i + 1) / r) | (c + Hk < i / r) for i, r, c in zip(k, n, pos)]
            anyfar = conds[0]
            for c in conds[1:]:
                anyfar = anyfar | c
            if bool(anyfar) and name != "histogram":
                # unresolved particles belong to the pixel of their position
                own = [vl.floor(S, c * r) for c, r in zip(pos, n)]
                if all(bool(o == i) for o, i in zip(own, k)):
                    continue
                S.check(vl.same(S, img[k], 0.0, 0.0), "nothing beyond the kernel's reach")
        if one and name.startswith("subsampled") or name == "histogram":
            inside = True
            for c in pos:
                inside = inside and bool(c - Hk > 0) and bool(c + Hk < 1)
            if inside:
                S.check(vl.same(S, sum(img[k] for k in pix), m * (res * res), sc), "an unresolved particle inside the image is deposited whole")
    elif what == "shift":
        d = 1.0 / res
        two = run(S, name, [(pos[0] + d, *pos[1:], m, h)], res, zs)
        for k in pix:
            if k[0] + 1 < res:
                S.check(vl.same(S, two[(k[0] + 1, *k[1:])], img[k], sc), "moving a particle by one pixel moves its image by one pixel (x)")
        two = run(S, name, [(pos[0], pos[1] + d, *pos[2:], m, h)], res, zs)
        for k in pix:
            if k[1] + 1 < res:
                S.check(vl.same(S, two[(k[0], k[1] + 1, *k[2:])], img[k], sc), "moving a particle by one pixel moves its image by one pixel (y)")
    elif what == "swap":
        two = run(S, name, [(pos[1], pos[0], *pos[2:], m, h)], res, zs)
        for k in pix:
            S.check(vl.same(S, two[(k[1], k[0], *k[2:])], img[k], sc), "exchanging x and y transposes the image")


def mirror(S, name, res, cells, hmin=0):
    """No direction is preferred: the mirror image of a particle gives the mirrored image."""
    zs = S.real("zs", 0, 1) if name == "slice" else None
    p = part(S, name, 0, res, 0, 1, cells, hmin)
    *pos, m, h = p
    for c in pos:  # stay clear of pixel edges, which belong to one side
        f = vl.floor(S, c * (res * 2))
        S.assume(c * (res * 2) - f > 1 / 64)
        S.assume(c * (res * 2) - f < 63 / 64)
    img = run(S, name, [p], res, zs)
    two = run(S, name, [(1 - pos[0], *pos[1:], m, h)], res, zs)
    sc = float(res ** len(shape(name, res)))
    for k in itertools.product(*[range(k) for k in shape(name, res)]):
        S.check(vl.same(S, two[(res - 1 - k[0], *k[1:])], img[k], sc), "mirrored particles give the mirrored image")


def additive(S, name, res, cells, hmin=0):
    """Two particles give the sum of their images, in either order."""
    zs = S.real("zs", 0, 1) if name == "slice" else None
    p = part(S, name, 0, res, 0, 1, cells, hmin, **({"z": 0.3125} if dim(name) == 3 else {}))
    q = part(S, name, 1, res, 0, 1, cells, hmin, x=0.3125, y=0.6875, z=0.1875)
    one, two = run(S, name, [p], res, zs), run(S, name, [q], res, zs)
    both, rev = run(S, name, [p, q], res, zs), run(S, name, [q, p], res, zs)
    none = run(S, name, [], res, zs)
    sc = float(res ** len(shape(name, res)))
    for k in itertools.product(*[range(k) for k in shape(name, res)]):
        S.check(vl.same(S, both[k], one[k] + two[k], sc), "additive over particles")
        S.check(vl.same(S, both[k], rev[k], sc), "independent of the order of particles")
        S.check(vl.same(S, none[k], 0.0, 0.0), "no particles, no image")


def renorm(S, res, cells):
    """The renormalised backend: proportional to the kernel and conserving mass."""
    name = "renormalised"
    p = part(S, name, 0, res, 0, 1, cells)
    x, y, m, h = p
    Hk = gam(name) * h
    img = run(S, name, [p], res)
    ks = {(i, j): vl.kern(S, name, ((i + 0.5) / res - x, (j + 0.5) / res - y), Hk) for i in range(res) for j in range(res)}
    small = bool(Hk * res < 1)
    if small:
        for (i, j), v in expected(S, "histogram", p, res).items():
            S.check(vl.same(S, img[i, j], v, res * res), "an unresolved particle is deposited whole into its pixel")
        return
    for k in ks:
        S.check(vl.nonneg(S, img[k]), "no negative contribution")
    inside = bool(x - Hk > 0) and bool(x + Hk < 1) and bool(y - Hk > 0) and bool(y + Hk < 1)
    if inside:
        ktot = sum(ks[k] for k in ks)
        for k in ks:
            S.check(vl.same(S, img[k] * ktot, m * (res * res) * ks[k], res * res * 8.0), "pixels share the mass in proportion to the kernel")


def _h(hname, fn, what, q, t=None, tb=None, **kw):
    return H(hname, fn, what, q, t, setup=vl.setup_eager if hname.startswith("renorm") else vl.setup, bounds_thorough=tb, **kw)


P2 = "one particle anywhere in [-1/4, 5/4]^2, any mass, any kernel radius up to {} pixels, {}x{} pixels"
HARNESSES = []
for b in ("fast", "reference", "histogram"):
    hm = 2 if b == "reference" else 0
    c = 3.5 if b == "reference" else 2.5
    HARNESSES.append(_h(b + "1", sampled, b + ": " + P2.format(c, 4, 4), dict(name=b, res=4, n=1, cells=c, hmin=hm), dict(name=b, res=8, n=1, cells=4.5, hmin=hm), b + ": as quick with 8x8 pixels and radius up to 4.5", expect=(ALL,)))
for b in ("fast", "histogram"):
    HARNESSES.append(_h(b + "2", sampled, b + ": as " + b + "1 with a second particle at a fixed place with any mass and radius", dict(name=b, res=4, n=2, cells=2.5), expect=(ALL,)))
HARNESSES += [
    _h("slice1", sampled, "slice: one particle anywhere in [-1/4, 5/4]^3, any slice height, mass and radius up to 1.5 pixels, 2x2 pixels", dict(name="slice", res=2, n=1, cells=1.5), dict(name="slice", res=4, n=1, cells=2.5), "as quick with 4x4 pixels, radius up to 2.5", expect=(ALL,)),
    _h("volume1", sampled, "volume rendering: one particle anywhere in [-1/4, 5/4]^3, any mass and radius up to 1.5 voxels, 2^3 voxels", dict(name="volume", res=2, n=1, cells=1.5), dict(name="volume", res=4, n=1, cells=2.5, lo=0, hi=1), "4^3 voxels, position in the unit cube, radius up to 2.5", expect=(ALL,)),
    _h("limited1", sampled, "volume rendering with half as many voxels in z: one particle anywhere in [-1/4, 5/4]^3, any mass and radius up to 1.5 voxels, 4x4x2 voxels", dict(name="limited", res=4, n=1, cells=1.5, lo=0, hi=1), expect=(ALL,)),
    _h("renormalised", renorm, "renormalised: one particle anywhere in the unit square, any mass and radius up to 2 pixels, 4x4 pixels", dict(res=4, cells=2), dict(res=8, cells=2.5), "8x8 pixels, radius up to 2.5"),
]
for b in vl.PROJ + ["slice", "volume", "limited"]:
    res = 4 if dim(b) == 2 or b == "limited" else 2
    cells = {"reference": 3.5, "subsampled": 1.5, "subsampled_extreme": 1.5, "renormalised": 1.5}.get(b, 2.5 if dim(b) == 2 else 1.5)
    hm = 2 if b == "reference" else 0
    kw = dict(lo=0, hi=1) if dim(b) == 3 else {}
    for w in ("linear", "reach", "shift", "swap"):
        if w == "reach" and b not in ("renormalised", "subsampled", "subsampled_extreme", "histogram"):
            continue  # decided by the exact comparison above
        if w == "linear" and b in ("fast", "histogram", "slice", "volume", "limited"):
            continue
        HARNESSES.append(_h(f"{b}_{w}", relations, f"{b}, {w}: one particle anywhere around the image, any mass and radius up to {cells} pixels, {res} pixels a side", dict(name=b, res=res, cells=cells, what=w, hmin=hm, **kw)))
    if b not in ("subsampled", "subsampled_extreme"):
        HARNESSES.append(_h(f"{b}_mirror", mirror, f"{b}: one particle in the unit {'square' if dim(b) == 2 else 'cube'} (at least 1/128 pixel from pixel edges), any mass and radius up to {cells} pixels, {res} pixels a side", dict(name=b, res=res, cells=cells, hmin=hm)))
    HARNESSES.append(_h(f"{b}_additive", additive, f"{b}: one particle anywhere in the image and one at a fixed place, any masses and radii up to {cells} pixels", dict(name=b, res=res, cells=cells, hmin=hm)))
