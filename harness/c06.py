"""C06: property constraints keep exactly the rows with lower < value <= upper."""

from symex.registry import H
from . import masklib
from .c05 import attrs, props

ASSUMPTIONS = [
    "Where a unit or frame conversion is involved, values within a relative 1e-6 of a bound are left out (rounding).",
]


def prop(S, n, stored, bounds, unit_l, unit_u, exp, start="all", convertible=True, exact=False, integers=False):
    """stored: 'comoving'/'physical'; bounds: pair of frames; exp: a-exponent."""
    import numpy as np
    from swiftsimio.objects import cosmo_quantity
    from symex.core import iff, sand, sor
    from symex.h5fake import D, G

    groups = ["gas", "dark_matter"]
    nf = stored != "comoving" or any(b != "comoving" for b in bounds)
    a = S.scale_factor("a") if nf else 0.5
    n0 = n // 2 if start == "region" else n
    counts = {"gas": [n0, n - n0], "dark_matter": [1, 1]}
    cells = masklib.Cells(S, (2, 1, 1), groups, counts, [0, 1], [4.0, 4.0, 4.0])
    vals = [S.int(f"v{i}", -1000, 1000) if integers else S.real(f"v{i}", -1000 if exact else 0.125, 1000) for i in range(n)]
    extra = {
        "PartType0": G({"F": D(S.arr(vals, dtype=int), dtype="i8", carry=True, attrs=attrs(S, {"L": 1}, exp, stored == "physical")) if integers else D(S.arr(vals), attrs=attrs(S, {"L": 1}, exp, stored == "physical"))}),
        "PartType1": G({"F": D(S.arr([1.0, 1.0]), attrs=attrs(S, {"L": 1}, exp, stored == "physical"))}),
    }
    m, md, h = masklib.make_mask(S, cells, a, padding=0.0, tree_kw=dict(extra=extra), props={g: props(f"{masklib.GROUPS[g]}/F") for g in groups})
    sel = [True] * n
    if start == "region":
        from .c03 import to_cosmo

        m.constrain_spatial(to_cosmo(S, [(2.5, 3.5), None, None], a))
        sel = [i >= n0 for i in range(n)]
    least = -2000 if exact else 0.0625
    lw, up = S.real("lower", least, 2000), S.real("upper", least, 2000)
    fac = {"Mpc": 1.0, "kpc": 1000.0}

    def mk(v, unit, frame):
        # v is the bound in the stored units, comoving
        x = v * fac[unit]
        if frame == "physical":
            x = x * a**exp
        return cosmo_quantity(x, unit, comoving=frame == "comoving", scale_factor=a, scale_exponent=exp)

    # bounds in the stored frame and units
    stored_vals = vals
    if stored == "physical":
        com = [v / a**exp for v in vals]
    else:
        com = vals
    if not exact:
        for v in com:
            for b in (lw, up):
                S.assume(sor(v < b * (1 - 2.0**-20), v > b * (1 + 2.0**-20)))
    q_l, q_u = mk(lw, unit_l, bounds[0]), mk(up, unit_u, bounds[1])
    m.constrain_property("gas", "f", q_l, q_u) if False else _call(m, q_l, q_u)
    got = masklib.rows_of(S, m, "gas")
    for i in range(n):
        S.check(iff(i in got, sand(sel[i], lw < com[i], com[i] <= up)), "a row is kept exactly when lower < value <= upper")
    S.check(masklib.rows_of(S, m, "dark_matter") == [0, 1] if start == "all" else True, "other particle types are not affected")
    # bounds were not touched
    S.check(str(q_l.units) == unit_l and q_l.comoving == (bounds[0] == "comoving"), "the bounds are left as given")


def _call(m, lo, hi):
    m.metadata.gas_properties.field_names = ["other", "f"]
    m.metadata.gas_properties.field_paths = ["PartType0/Nonexistent", "PartType0/F"]
    m.constrain_property("gas", "f", lo, hi)


EX = ("a row is kept exactly when lower < value <= upper",)
C, P = "comoving", "physical"
HARNESSES = [
    H("plain", prop, "3 rows of any value, any bounds in the stored units and frame (boundaries exact)", quick=dict(n=3, stored=C, bounds=(C, C), unit_l="Mpc", unit_u="Mpc", exp=1, exact=True), thorough=dict(n=5, stored=C, bounds=(C, C), unit_l="Mpc", unit_u="Mpc", exp=1, exact=True), setup=masklib.setup, expect=EX, bounds_thorough="5 rows"),
    H("integers", prop, "3 rows of any whole numbers (as counts and identities are stored), any bounds, not only whole ones", quick=dict(n=3, stored=C, bounds=(C, C), unit_l="Mpc", unit_u="Mpc", exp=0, exact=True, integers=True), setup=masklib.setup, expect=EX),
    H("plain_physical", prop, "2 rows stored as physical, physical bounds, exponent -1", quick=dict(n=2, stored=P, bounds=(P, P), unit_l="Mpc", unit_u="Mpc", exp=-1), setup=masklib.setup, expect=EX),
    H("after_region", prop, "4 rows in 2 cells after a spatial constraint that keeps one cell", quick=dict(n=4, stored=C, bounds=(C, C), unit_l="Mpc", unit_u="Mpc", exp=0, start="region", exact=True), setup=masklib.setup, expect=EX),
    H("units", prop, "2 rows, bounds in other units", quick=dict(n=2, stored=C, bounds=(C, C), unit_l="kpc", unit_u="Mpc", exp=1), setup=masklib.setup, expect=EX),
    H("physical_bounds", prop, "2 rows stored comoving, physical bounds in other units, any scale factor", quick=dict(n=2, stored=C, bounds=(P, P), unit_l="kpc", unit_u="kpc", exp=1), setup=masklib.setup, expect=EX),
    H("mixed_bounds", prop, "2 rows stored comoving, one bound in each frame, exponent 2", quick=dict(n=2, stored=C, bounds=(C, P), unit_l="Mpc", unit_u="Mpc", exp=2), setup=masklib.setup, expect=EX),
    H("stored_physical", prop, "2 rows stored as physical, bounds comoving", quick=dict(n=2, stored=P, bounds=(C, C), unit_l="Mpc", unit_u="Mpc", exp=1), setup=masklib.setup, expect=EX),
    H("stored_physical_mixed", prop, "1 row stored as physical, one bound in each frame, exponent -3", quick=dict(n=1, stored=P, bounds=(P, C), unit_l="Mpc", unit_u="kpc", exp=-3), setup=masklib.setup, expect=EX),
]
