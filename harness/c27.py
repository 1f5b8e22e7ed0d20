"""C27: two-dimensional colour maps stay in range."""

import importlib
import itertools

import numpy as np

from symex.registry import H

ASSUMPTIONS = [
    "Colour grids of up to 8 x 5 points instead of 256 x 256 (the module's own grid size is set for the check); colours symbolic, defining coordinates fixed.",
    "Conversion from HSV to RGB (matplotlib) is replaced by the identity, so for HSV maps the statement is about hue, saturation and value; maps read from image files are not encoded. Values that are not numbers are excluded.",
]
MOD = "swiftsimio.visualisation.tools.cmaps"
NEAR = "the colour is that of the grid point within one cell of the values, clamped to the edge"
RANGE = "every grid colour lies between the map's extremes"
DEF = "the defining colour is returned at its defining point"


def mod():
    return importlib.import_module(MOD)


def setup():
    from symex import shim

    shim.install(mod())


def lookup(S, nx, ny, form):
    """Grid whose colours are the column and row numbers."""
    m = mod()
    grid = np.zeros((ny, nx, 4), dtype=np.float32)
    for r, c in itertools.product(range(ny), range(nx)):
        grid[r, c] = (c, r, 0.5, 1.0)
    cm = m.Cmap2D()
    cm._color_map_grid = grid
    h = [S.real(f"h{i}", -2, 3) for i in range(2)]
    v = [S.real(f"v{i}", -2, 3) for i in range(2)]
    if form == "array":
        a, b, sh = S.arr(h), S.arr(v), (2,)
    elif form == "grid":
        a, b, sh = S.arr(h).reshape(2, 1), S.arr(v).reshape(2, 1), (2, 1)
    else:
        a, b, sh = (list if form == "list" else tuple)(h), (list if form == "list" else tuple)(v), (2,)
    out = cm(a, b)
    S.check(tuple(np.shape(out)) == (*sh, 4), "one RGBA colour per pair of values")
    out = np.asarray(out, dtype=object).reshape(-1, 4)
    tol = 0 if S.symbolic else 1e-5
    for i in range(2):
        for got, val, n in ((out[i, 0], h[i], nx - 1), (out[i, 1], v[i], ny - 1)):
            lo, hi = val < 0, val > 1
            if bool(lo):
                S.check(got == 0, NEAR)
            elif bool(hi):
                S.check(got == n, NEAR)
            else:
                S.check((got - val * n < 1 + tol) & (got - val * n > -1 - tol), NEAR)
        S.check((out[i, 2] == 0.5) & (out[i, 3] == 1), NEAR)


SETS = {
    "corners": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]],
    "middle": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.5, 0.25]],
    "inner": [[0.25, 0.25], [0.75, 0.5]],
}


def generated(S, cls, points, n, rgb):
    m = mod()
    m.COLOR_MAP_GRID_SIZE = n
    coords = SETS[points]
    ch = 3 if rgb else 4
    cols = [[S.real(f"c{i}_{k}", 0, 1) for k in range(ch)] for i in range(len(coords))]
    if cls == "LinearSegmentedCmap2DHSV":
        m.rgb_to_hsv = m.hsv_to_rgb = lambda x: x
    cm = getattr(m, cls)(colors=cols, coordinates=coords)
    cm.generate_color_map_grid()
    g = cm.color_map_grid
    S.check(tuple(np.shape(g)) == (n, n, 4), "a square grid of RGBA colours")
    full = [[*c, 1.0] if rgb else c for c in cols]
    for r, c in itertools.product(range(n), repeat=2):
        for k in range(4):
            above = below = False
            for col in full:
                above = (g[r, c, k] >= col[k] - 2e-4) | above
                below = (g[r, c, k] <= col[k] + 2e-4) | below
            S.check(above & below, RANGE)
    if points == "corners":
        for q, col in zip(coords, full):
            if S.symbolic:
                out = cm(S.arr([q[0]]), S.arr([q[1]]))
            else:
                out = cm(np.array([q[0]]), np.array([q[1]]))
            out = np.asarray(out, dtype=object).reshape(-1)
            for k in range(4):
                d = out[k] - col[k]
                S.check((d <= 2e-4) & (d >= -2e-4), DEF)


HARNESSES = [H(f"lookup_{f}_{nx}x{ny}", lookup, f"two pairs of values anywhere in [-2, 3], given as {f}, grid of {nx} columns and {ny} rows", dict(nx=nx, ny=ny, form=f), setup=setup, expect=(NEAR,))
             for f, nx, ny in (("array", 3, 5), ("array", 5, 2), ("grid", 3, 5), ("list", 3, 5), ("tuple", 3, 5))]
for cls, s in (("LinearSegmentedCmap2D", "rgb"), ("LinearSegmentedCmap2DHSV", "hsv")):
    for pts in SETS:
        for rgb in (True, False):
            HARNESSES.append(H(f"{s}_{pts}_{'opaque' if rgb else 'alpha'}", generated, f"{cls}, defining points {SETS[pts]}, any {'RGB' if rgb else 'RGBA'} colours, 5 x 5 grid", dict(cls=cls, points=pts, n=5, rgb=rgb), setup=setup, expect=(RANGE,) + ((DEF,) if pts == "corners" else ())))
