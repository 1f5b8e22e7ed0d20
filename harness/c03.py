"""C03: spatial masks never lose a particle inside the region."""

from symex.registry import H
from . import masklib

ASSUMPTIONS = [
    "The cell table really bounds the particles: recorded extents contain them, or (none recorded) they are within the configured padding of their cell; padding below half a box.",
    "A particle exactly on the region's face is not required to be selected.",
    "Cells are stored in the same file order for every particle type.",
]


def region_for(S, box, axes, shapes):
    """One [lo, hi] per constrained axis within the allowed interval, None elsewhere."""
    reg = []
    for d in range(3):
        if d not in axes:
            reg.append(None)
            continue
        lo = S.real(f"lo{d}")
        hi = S.real(f"hi{d}")
        B = box[d]
        for v in (lo, hi):
            S.assume(S.all(-B / 2 <= v, v <= 3 * B / 2))
        if shapes == "ordered":
            S.assume(lo <= hi)
        elif shapes == "reversed":
            S.assume(hi < lo)
        reg.append((lo, hi))
    return reg


def to_cosmo(S, reg, a, frame="comoving", units="Mpc"):
    from swiftsimio.objects import cosmo_array, cosmo_quantity

    out = []
    for r in reg:
        if r is None:
            out.append(None)
        elif frame == "comoving":
            out.append(cosmo_array(S.arr(list(r)), units, comoving=True, scale_factor=a, scale_exponent=1))
        elif frame == "physical":
            out.append(cosmo_array(S.arr([x * a for x in r]), units, comoving=False, scale_factor=a, scale_exponent=1))
        elif frame == "quantities":
            out.append([cosmo_quantity(x, units, comoving=True, scale_factor=a, scale_exponent=1) for x in r])
    return out


def inside(S, p, reg, box):
    """Position p (3 reals) in the periodic region (strictly)."""
    from symex.core import sand, sor

    conds = []
    for d in range(3):
        if reg[d] is None:
            continue
        lo, hi = reg[d]
        B = box[d]
        width_all = sor(hi - lo > B, lo - hi > B)
        ok = []
        for k in (-3, -2, -1, 0, 1, 2, 3):
            x = p[d] + k * B
            ok.append(sand(lo < x, x < hi))
            # upper bound below lower: the region wraps around the box
            ok.append(sand(hi < lo, lo < x, x < hi + B))
        conds.append(sor(width_all, sor(ok)))
    return sand(conds) if conds else True


def make_extents(S, cells_dims, box, groups, axes, drift):
    """Recorded extents: any interval on the constrained axes, the cell itself elsewhere."""
    n = cells_dims[0] * cells_dims[1] * cells_dims[2]
    ext = {}
    idx = [(i, j, k) for i in range(cells_dims[0]) for j in range(cells_dims[1]) for k in range(cells_dims[2])]
    for g in groups:
        rows = []
        for c in range(n):
            lo, hi = [], []
            for d in range(3):
                B = box[d]
                size = B / cells_dims[d]
                if d in axes:
                    l = S.real(f"min_{g}_{c}_{d}")
                    h = S.real(f"max_{g}_{c}_{d}")
                    S.assume(S.all(-B * drift <= l, l <= h, h <= B * (1 + drift)))
                else:
                    l, h = idx[c][d] * size, (idx[c][d] + 1) * size
                lo.append(l)
                hi.append(h)
            rows.append((lo, hi))
        ext[g] = rows
    return ext


def box_for(S, axes, fixed=False):
    return [S.real(f"box{d}", 1, 16) if (d in axes and not fixed) else 4.0 for d in range(3)]


def run_mask(S, dims, axes, groups, recorded, shapes="any", frame="comoving", output_type="FULLBOX", orders=None, padding=0.1, fixed_box=False, nreg=1, union_form="plain", drift=0.25):
    a = 0.5 if frame != "physical" else S.scale_factor("a")
    n = dims[0] * dims[1] * dims[2]
    order = S.choice("order", orders) if orders else list(range(n))
    if output_type in ("SOAP", "FOF"):
        cc = [S.int(f"count_{c}", 0, 1000) for c in range(n)]
        counts = {g: cc for g in groups}
    else:
        counts = {g: [S.int(f"count_{g}_{c}", 0, 1000) for c in range(n)] for g in groups}
    box = box_for(S, axes, fixed_box)
    ext = make_extents(S, dims, box, groups, axes, drift) if recorded else None
    pad = padding if padding != "sym" else S.choice("padding", [0.0, 0.25, True, False])
    cells = masklib.Cells(S, dims, groups, counts, order, box, ext)
    shared = None
    tree_kw = {}
    if output_type in ("SOAP", "FOF"):
        shared = "Subhalos" if output_type == "SOAP" else "Groups"
        tree_kw = dict(counts_key=lambda g: shared)
    m, md, h = masklib.make_mask(S, cells, a, padding=pad, output_type=output_type, shared=shared, tree_kw=tree_kw)
    regs = []
    for r in range(nreg):
        reg = region_for(_Pfx(S, f"r{r}_") if nreg > 1 else S, box, axes, shapes)
        regs.append(reg)
        m.constrain_spatial(to_cosmo(S, reg, a, frame), union=r > 0)
    return m, cells, regs, box, order, pad


class _Pfx:
    """Session with prefixed input names."""

    def __init__(self, S, p):
        self.S, self.pfx = S, p

    def real(self, n, *a, **k):
        return self.S.real(self.pfx + n, *a, **k)

    def __getattr__(self, n):
        return getattr(self.S, n)


def cell_selected(S, m, cells, g, c):
    """All rows of the cell are in the selection."""
    from symex.core import sand, sor, implies

    o, n = cells.offsets[g][c], cells.counts[g][c]
    rs = [(r[0], r[1]) for r in getattr(m, g)]
    return sor([sand(r0 <= o, o + n <= r1) for r0, r1 in rs] + [n == 0]) if rs else n == 0


def conservative(S, **kw):
    from symex.core import sand, sor, implies

    dims, axes, groups = kw["dims"], kw["axes"], kw["groups"]
    m, cells, regs, box, order, pad = run_mask(S, **kw)
    padv = {True: 0.1, False: 0.0}.get(pad, pad) if isinstance(pad, bool) else pad
    if kw.get("output_type") in ("SOAP", "FOF"):
        padv = 0.0
    for gi, g in enumerate(groups):
        for c in range(cells.n):
            p = []
            inb = []
            for d in range(3):
                if d not in axes:
                    p.append(cells.centres[c][d])
                    continue
                x = S.real(f"p_{g}_{c}_{d}")
                if cells.extents is not None:
                    lo, hi = cells.extents[g][c]
                    inb.append(sand(lo[d] <= x, x <= hi[d]))
                else:
                    w = cells.size[d] * ((0.5 + padv) * (1 - 2.0**-20))  # rounding margin
                    inb.append(sand(cells.centres[c][d] - w <= x, x <= cells.centres[c][d] + w))
                p.append(x)
            hit = sor([inside(S, p, reg, box) for reg in regs])
            S.check(implies(sand(sand(inb) if inb else True, hit, cells.counts[g][c] > 0), cell_selected(S, m, cells, g, c)),
                    "a particle inside the region is selected")


G1 = ["gas"]
G2 = ["gas", "dark_matter"]
P3 = [[0, 1, 2], [1, 2, 0], [2, 1, 0]]
HARNESSES = [
    H("recorded_x", conservative, "2 cells along x, recorded extents any interval up to a quarter box outside the box, 1 type, any region on x in [-L/2, 3L/2] (either order), any L in [1,16], any counts up to 1000, both file orders",
      quick=dict(dims=(2, 1, 1), axes=(0,), groups=G1, recorded=True, orders=[[0, 1], [1, 0]]), thorough=dict(dims=(3, 1, 1), axes=(0,), groups=G1, recorded=True, orders=P3),
      bounds_thorough="3 cells along x, three file orders", setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("recorded_types", conservative, "2 particle types with independent extents in 1 cell along y, regions on y", quick=dict(dims=(1, 1, 1), axes=(1,), groups=G2, recorded=True),
      thorough=dict(dims=(1, 2, 1), axes=(1,), groups=G2, recorded=True), setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("padded_z", conservative, "no recorded extents: 2 cells along z, padding 0, 1/4 of a cell, on and off, any region on z", quick=dict(dims=(1, 1, 2), axes=(2,), groups=G1, recorded=False, padding="sym"),
      thorough=dict(dims=(1, 1, 3), axes=(2,), groups=G1, recorded=False, padding="sym", orders=P3), setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("order_types", conservative, "2 types with any counts (also none in a cell), 2 cells along x in either file order, no recorded extents", quick=dict(dims=(2, 1, 1), axes=(0,), groups=G2, recorded=False, fixed_box=True, orders=[[0, 1], [1, 0]]),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("padded_types", conservative, "no recorded extents, 2 types, 3 cells along x", quick=dict(dims=(3, 1, 1), axes=(0,), groups=G2, recorded=False),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("two_axes", conservative, "ordered regions on x and y at once, 1 cell with recorded extents", quick=dict(dims=(1, 1, 1), axes=(0, 1), groups=G1, recorded=True, fixed_box=True, shapes="ordered"),
      thorough=dict(dims=(2, 1, 1), axes=(0, 1), groups=G1, recorded=True, fixed_box=True), setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("three_axes", conservative, "ordered regions on x, y and z at once, 1 cell, no recorded extents", quick=dict(dims=(1, 1, 1), axes=(0, 1, 2), groups=G1, recorded=False, fixed_box=True, shapes="ordered"),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("physical_region", conservative, "region bounds given in physical units at any scale factor, 1 cell, recorded extents", quick=dict(dims=(1, 1, 1), axes=(0,), groups=G1, recorded=True, frame="physical", fixed_box=True),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("quantities_region", conservative, "region bounds given as pairs of quantities, 2 cells, no recorded extents", quick=dict(dims=(2, 1, 1), axes=(0,), groups=G1, recorded=False, frame="quantities"),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("catalogue", conservative, "group catalogue (shared counts): 3 cells along x, any region on x", quick=dict(dims=(3, 1, 1), axes=(0,), groups=["gas", "dark_matter"], recorded=False, output_type="SOAP"),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
    H("union", conservative, "union of two regions on x, 2 cells, no recorded extents, box of 4", quick=dict(dims=(2, 1, 1), axes=(0,), groups=G1, recorded=False, nreg=2, fixed_box=True),
      setup=masklib.setup, expect=("a particle inside the region is selected",)),
]
