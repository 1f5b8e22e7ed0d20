"""C21: images respect periodic boundaries."""

import itertools

from symex.registry import H
from . import vislib as vl
from .c22 import dim, gam, shape

ASSUMPTIONS = [
    vl.ASSUME_KERNEL, vl.ASSUME_JIT,
    "Positions lie in [0, box) on periodic axes (C24: the front end wraps them there) and the kernel radius is at most the box size on periodic axes.",
]
LAB = "a periodic image is the sum of the images of all periodic copies"


def run(S, name, parts, res, box, zs, parallel=False):
    if name == "slice":
        return vl.slice_(S, parts, (res, res), zs, box, parallel)
    if name == "volume":
        return vl.volume(S, parts, res, box, parallel=parallel)
    if name == "limited":
        return vl.volume(S, parts, res, box, ratio=2, parallel=parallel)
    return vl.project(S, name, parts, res, box[:2], parallel)


def copies(S, name, res, cells, axes, box, hmin=0, y=None, z=None):
    """box: 'unit' (the image is the box), 'zoom' (image smaller than box), 'wide' (image
    larger than the box) on the axes listed, not periodic on the others."""
    d = dim(name)
    zs = S.real("zs", 0, 1) if name == "slice" else None
    if box == "unit":
        L = 1.0
    elif box == "zoom":
        L = S.real("box", 1, 3)
    else:
        L = S.real("box", 0.5, 1)
    S_box = [L if a in axes else 0.0 for a in range(3)]
    fix = {1: y, 2: z}
    pos = []
    for a in range(d):
        if fix.get(a) is not None:
            pos.append(fix[a])
            continue
        c = S.real("xyz"[a] + "0", 0, 1.25 if S_box[a] is not L or box != "zoom" else 3)
        if a in axes:
            S.assume(c < L)
        pos.append(c)
    m = S.real("m0", 0, 8, lo_open=True)
    h = S.real("h0", 0, 4, lo_open=True)
    Hk = gam(name) * h
    S.assume(Hk * res < cells)
    if hmin:
        S.assume(Hk * res > hmin)
    S.assume(Hk <= L)
    img = run(S, name, [(*pos, m, h)], res, S_box, zs)
    S.check(img.shape == shape(name, res), "the image has the shape of the resolution")
    # every copy s with -radius < x + s*L < 1 + radius has -2 < s < 5 for L >= 1/2
    top = {"unit": 2, "zoom": 2, "wide": 4}[box]
    total = {}
    for s in itertools.product(*[range(-2, top + 1) if a in axes else (0,) for a in range(d)]):
        if all(k == 0 for k in s):
            p = pos
        else:
            p = [c + k * L if k else c for c, k in zip(pos, s)]
        one = run(S, name, [(*p, m, h)], res, (0.0, 0.0, 0.0), zs)
        for k in itertools.product(*[range(n) for n in img.shape]):
            total[k] = total.get(k, 0.0) + one[k]
    sc = float(res ** img.ndim)
    for k, v in total.items():
        S.check(vl.same(S, img[k], v, sc), LAB)


def _h(b, res, cells, axes, box, **kw):
    nm = f"{b}_{''.join('xyz'[a] for a in axes)}_{box}"
    hm = kw.get("hmin", 0)
    fixed = " and ".join(f"{c} = {kw[c]}" for c in "yz" if c in kw)
    B = {"unit": "box of the size of the image", "zoom": "any box 1 to 3 times the image", "wide": "any box half to once the image"}[box]
    return H(nm, copies, f"{b}, periodic along {', '.join('xyz'[a] for a in axes)}: {B}, one particle anywhere in the box{' with ' + fixed if fixed else ''}, any mass and any radius {'above 2 and ' if hm else ''}up to {cells} pixels, {res} pixels a side",
             dict(name=b, res=res, cells=cells, axes=axes, box=box, **kw), setup=vl.setup_eager if b == "renormalised" else vl.setup, expect=(LAB,))


HARNESSES = []
for b in ("fast", "histogram"):
    HARNESSES += [_h(b, 4, 2.5, (0, 1), "unit"), _h(b, 2, 1.5, (0, 1), "zoom"), _h(b, 2, 1.0, (0, 1), "wide")]
for b in ("renormalised", "subsampled", "subsampled_extreme"):
    HARNESSES += [_h(b, 2, 1.5, (0, 1), "unit"), _h(b, 2, 1.5, (0,), "zoom", y=0.3125), _h(b, 2, 1.0, (1,), "wide")]
HARNESSES += [_h("reference", 4, 3.5, (0, 1), "unit", hmin=2), _h("reference", 4, 3.5, (0,), "zoom", hmin=2)]
for b in ("slice", "volume", "limited"):
    r = 4 if b == "limited" else 2
    HARNESSES += [_h(b, r, 1.5, (0, 1, 2), "unit"), _h(b, r, 1.5, (0,), "zoom", y=0.3125), _h(b, r, 1.5, (1,), "zoom", z=0.3125), _h(b, r, 1.5, (2,), "zoom", y=0.3125),
                  *[_h(b, r, 1.75 if b == "limited" else 1.0, a, "wide", **k) for a, k in (((0,), dict(y=0.3125)), ((1,), dict(z=0.3125)), ((2,), dict(y=0.3125)))]]
