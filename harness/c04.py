"""C04: spatial masks read only cells that can reach the region."""

from symex.registry import H
from . import masklib
from .c03 import G1, G2, P3, box_for, region_for, run_mask, to_cosmo

ASSUMPTIONS = [
    "A cell's extent is its recorded extent together with its nominal volume, or its nominal volume plus the configured padding.",
    "Overlap is judged with a relative rounding margin of 1e-9 of the box.",
]


def overlaps(S, lo_c, hi_c, reg, box):
    """Closed overlap of a cell extent with any periodic image of the region."""
    from symex.core import sand, sor

    conds = []
    for d in range(3):
        if reg[d] is None:
            continue
        lo, hi = reg[d]
        B = box[d]
        eps = B * 2.0**-30
        ok = []
        for k in (-3, -2, -1, 0, 1, 2, 3):
            l, h = lo_c[d] + k * B - eps, hi_c[d] + k * B + eps
            ok.append(sand(lo <= hi, l <= hi, lo <= h))
            ok.append(sand(hi <= lo, l <= hi + B, lo <= h))
        conds.append(sor(hi - lo > B - eps, lo - hi > B - eps, sor(ok)))
    return sand(conds) if conds else True


def exact(S, **kw):
    from symex.core import sand, sor, implies, smin, smax

    groups = kw["groups"]
    m, cells, regs, box, order, pad = run_mask(S, **kw)
    padv = {True: 0.1, False: 0.0}.get(pad, pad) if isinstance(pad, bool) else pad
    if kw.get("output_type") in ("SOAP", "FOF"):
        padv = 0.0
    for g in groups:
        ranges = [(r[0], r[1]) for r in getattr(m, g)]
        row = S.int(f"row_{g}", 0, 5000)
        owners = []
        for c in range(cells.n):
            lo, hi = [], []
            for d in range(3):
                h = cells.size[d] / 2
                cl, ch = cells.centres[c][d] - h, cells.centres[c][d] + h
                if cells.extents is not None:
                    l, u = cells.extents[g][c]
                    lo.append(smin(cl, l[d]))
                    hi.append(smax(ch, u[d]))
                else:
                    lo.append(cl - cells.size[d] * padv)
                    hi.append(ch + cells.size[d] * padv)
            o, n = cells.offsets[g][c], cells.counts[g][c]
            owners.append(sand(o <= row, row < o + n, sor([overlaps(S, lo, hi, reg, box) for reg in regs])))
        sel = sor([sand(a <= row, row < b) for a, b in ranges]) if ranges else False
        S.check(implies(sel, sor(owners)), "a selected row belongs to a cell that reaches the region")
        prev = None
        for a, b in ranges:
            S.check(a <= b, "ranges run forwards")
            if prev is not None:
                S.check(prev <= a, "ranges are in file order and do not overlap")
            prev = b
        size = getattr(m, f"{g}_size")
        total = 0
        for a, b in ranges:
            total = total + (b - a)
        S.check(size == total, "advertised size is the number of selected rows")


def refused(S, axis, frame="comoving"):
    """Bounds outside [-L/2, 3L/2] are refused; bounds inside are not."""
    from symex.core import sand, sor

    a = 0.5
    box = [4.0, 4.0, 4.0]
    box[axis] = S.real("box", 1, 16)
    B = box[axis]
    cells = masklib.Cells(S, (1, 1, 1), G1, {"gas": [S.int("count", 0, 100)]}, [0], box)
    m, md, h = masklib.make_mask(S, cells, a)
    lo, hi = S.real("lo", -100, 100), S.real("hi", -100, 100)
    reg = [None, None, None]
    reg[axis] = (lo, hi)
    eps = B * 2.0**-30
    bad = sor([sor(v < -B / 2 - eps, v > 3 * B / 2 + eps) for v in (lo, hi)])
    good = sand([sand(v > -B / 2 + eps, v < 3 * B / 2 - eps) for v in (lo, hi)])
    before = [(r[0], r[1]) for r in m.gas]
    try:
        m.constrain_spatial(to_cosmo(S, reg, a, frame))
    except ValueError:
        S.check(~_b(good), "bounds inside the allowed interval are accepted")
        S.check(m.constrained is None, "a refused region leaves the mask unconstrained")
        after = [(r[0], r[1]) for r in m.gas]
        S.check(S.alleq(before, after), "a refused region leaves the selection unchanged")
        return
    S.check(~_b(bad), "bounds outside the allowed interval are refused")


def _b(x):
    import numpy as np

    return np.bool_(x) if isinstance(x, (bool, np.bool_)) else x


EX = ("a selected row belongs to a cell that reaches the region",)
HARNESSES = [
    H("recorded_x", exact, "2 cells along x, recorded extents any interval up to a quarter box outside the box, any region on x, any L in [1,16], any counts up to 1000, both file orders",
      quick=dict(dims=(2, 1, 1), axes=(0,), groups=G1, recorded=True, orders=[[0, 1], [1, 0]]), thorough=dict(dims=(3, 1, 1), axes=(0,), groups=G1, recorded=True, orders=P3), setup=masklib.setup, expect=EX, bounds_thorough="3 cells along x, three file orders"),
    H("recorded_types", exact, "2 particle types with independent extents, 1 cell, regions on y", quick=dict(dims=(1, 1, 1), axes=(1,), groups=G2, recorded=True),
      thorough=dict(dims=(1, 2, 1), axes=(1,), groups=G2, recorded=True), setup=masklib.setup, expect=EX),
    H("padded_z", exact, "no recorded extents: 2 cells along z, padding 0, 1/4, on and off, any region on z", quick=dict(dims=(1, 1, 2), axes=(2,), groups=G1, recorded=False, padding="sym"),
      thorough=dict(dims=(1, 1, 3), axes=(2,), groups=G1, recorded=False, padding="sym", orders=P3), setup=masklib.setup, expect=EX),
    H("order_types", exact, "2 types with any counts (also none in a cell), 2 cells along x in either file order, no recorded extents", quick=dict(dims=(2, 1, 1), axes=(0,), groups=G2, recorded=False, fixed_box=True, orders=[[0, 1], [1, 0]]), setup=masklib.setup, expect=EX),
    H("padded_two_axes", exact, "ordered regions on x and z at once, 2 cells along x, no recorded extents", quick=dict(dims=(2, 1, 1), axes=(0, 2), groups=G1, recorded=False, fixed_box=True, shapes="ordered"),
      setup=masklib.setup, expect=EX, budget=(400, 1500)),
    H("physical_region", exact, "region bounds in physical units at any scale factor, 1 cell, recorded extents", quick=dict(dims=(1, 1, 1), axes=(0,), groups=G1, recorded=True, frame="physical", fixed_box=True), setup=masklib.setup, expect=EX),
    H("catalogue", exact, "group catalogue: 3 cells along x, any region on x", quick=dict(dims=(3, 1, 1), axes=(0,), groups=["gas"], recorded=False, output_type="SOAP"), setup=masklib.setup, expect=EX),
    H("union", exact, "union of two regions on x, 2 cells, no recorded extents, box of 4", quick=dict(dims=(2, 1, 1), axes=(0,), groups=G1, recorded=False, nreg=2, fixed_box=True), setup=masklib.setup, expect=EX, budget=(400, 1500)),
] + [
    H(f"refused_{n}", refused, f"any bounds on the {n} axis in [-100, 100], any L in [1, 16]", quick=dict(axis=i), setup=masklib.setup, expect=("bounds outside the allowed interval are refused",))
    for i, n in enumerate("xyz")
]
