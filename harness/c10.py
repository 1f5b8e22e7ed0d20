"""C10: loaded fields carry the values, units, a-exponent and frame the file states."""

import warnings

from symex.registry import H
from . import cosmolib as cl
from . import filelib, masklib

ASSUMPTIONS = [
    "Base units of the file and stored unit exponents are concrete (several combinations), values, scale factor, flags, row numbers, selections and the order of accesses are not; base units may be rounded to five significant figures, as documented.",
]

BASES = {  # cgs values of mass, length, time, and what they are
    "cosmo": dict(M=1e10 * filelib.MSUN, L=filelib.MPC, t=filelib.GYR),
    "cgs": dict(M=1.0, L=1.0, t=1.0),
    "mixed": dict(M=1000.0, L=filelib.MPC / 1000, t=3.15576e13, T=2.0, I=3.0),
}


def field_attrs(S, exps, p, physical, convertible, given=True):
    import numpy as np

    d = {f"U_{k} exponent": np.array([float(exps.get(k, 0.0))]) for k in ("I", "L", "M", "T", "t")}
    if given:
        d["a-scale exponent"] = np.array([float(p)])
        d["Value stored as physical"] = S.arr([physical], dtype=int)
        d["Property can be converted to comoving"] = S.arr([convertible], dtype=int)
    d["Description"] = b"a field"
    return d


def cgs_of(u):
    """Value of a unit in cgs base units."""
    return float(u.base_value) * float(_cgs_factor(u))


def _cgs_factor(u):
    from unyt import dimensions as dm

    # base_value is in mks
    d = u.dimensions.as_powers_dict() if hasattr(u.dimensions, "as_powers_dict") else {}
    f = 1.0
    for k, v in d.items():
        f *= {dm.length: 100.0, dm.mass: 1000.0}.get(k, 1.0) ** float(v)
    return f


def dims_of(u):
    from unyt import dimensions as dm

    names = {dm.length: "L", dm.mass: "M", dm.time: "t", dm.temperature: "T", dm.current_mks: "I"}
    d = u.dimensions.as_powers_dict() if hasattr(u.dimensions, "as_powers_dict") else {}
    return {names[k]: float(v) for k, v in d.items() if k in names and v != 0}


FIELDS = {  # dataset: (row shape, unit exponents)
    "Masses": ((), {"M": 1}),
    "Coordinates": ((3,), {"L": 1}),
    "Pressures": ((), {"M": 1, "L": -1, "t": -2}),
    "MagneticFluxDensities": ((2,), {"M": 1, "t": -2, "I": -1}),
    "Roots": ((), {"L": 0.5, "T": 1}),
    "ElementMassFractions": ((3,), {}),
    "Fluxes": ((2,), {"L": 2}),
    "Tensors": ((2, 2), {"t": -1}),
}
NAMED = {"ElementMassFractions": [b"Hydrogen", b"Helium", b"Carbon"], "Fluxes": [b"HII", b"CIIx"]}
COLUMNS = {"ElementMassFractions": ["hydrogen", "helium", "carbon"], "Fluxes": ["HII", "CIIx"]}


def snake(n):
    import re

    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", n).lower()


def build(S, a, names, n, base, p, given=True, other=("Masses",), cells=None, box=4.0, chunk=None, free=None):
    import numpy as np
    from symex.h5fake import D, G

    spec = {}

    def vals(tag, sh):
        return S.real(tag, -1000, 1000) if not sh else [vals(f"{tag}_{j}", sh[1:]) for j in range(sh[0])]

    def group(g, names):
        items = {}
        for name in names:
            sh, exps = FIELDS[name]
            own = free is None or (g, name) in free
            phys = S.int(f"physical_{g}_{name}", 0, 1) if own else int(g == "gas")
            conv = S.int(f"convertible_{g}_{name}", 0, 1) if own else int(g != "gas")
            if given:
                S.assume((phys == 1) | (conv == 1) if S.symbolic else (phys == 1 or conv == 1))  # comoving data can be converted
            rows = [vals(f"{g}{name}{i}", sh) for i in range(n)]
            items[name] = D(S.arr(rows), dtype="f8", chunks=(min(chunk, n), *sh) if chunk else None, attrs=field_attrs(S, exps, p, phys, conv, given))
            spec[g, name] = (rows, sh, exps, phys if given else 0, conv if given else 1, p if given else 0.0)
        return G(items)

    tree = cells.tree(S) if cells is not None else G({})
    tree.items.update({
        "Header": filelib.header(S, a, [n, n, 0, 0, 0, 0, 0], box=(box,) * 3),
        "Code": G({}, {"Code": b"SWIFT"}),
        "Units": filelib.units_group(S, **{**BASES[base]}),
        "SubgridScheme": G({"NamedColumns": G({k: D(np.array(v)) for k, v in NAMED.items()})}),
        "PartType0": group("gas", names),
        "PartType1": group("dark_matter", list(other)),
    })
    return tree, spec


def verify(S, got, a, spec, rows, base, column=None, label="field"):
    """The loaded array against what the file states."""
    import numpy as np
    from swiftsimio.objects import cosmo_array

    vals, sh, exps, phys, conv, p = spec
    S.check(isinstance(got, cosmo_array), "loaded fields are cosmo arrays")
    want = [vals[r] if column is None else vals[r][column] for r in rows]
    sh = sh if column is None else sh[1:]
    S.check(tuple(got.shape) == (len(rows), *sh), "one row per selected row")
    S.check(S.alleq(cl.flat(got), flat(want)), "the values are those stored")
    phys, conv = S.split(phys), S.split(conv)
    S.check(got.comoving is (phys != 1), "the frame is the one the file states")
    S.check(bool(got.valid_transform) is (conv == 1), "the convertibility is the one the file states")
    e = cl.exponent(got.cosmo_factor)
    S.check(e == float(p), "the scale-factor exponent is the one stored")
    S.check(S.eq(got.cosmo_factor.scale_factor, a), "the scale factor is that of the file")
    S.check(dims_of(got.units) == {k: float(v) for k, v in exps.items()}, "the dimensions follow the stored exponents")
    B = {"I": 1.0, "T": 1.0, **BASES[base]}
    f = 1.0
    for k, v in exps.items():
        f *= B[k] ** float(v)
    S.check(abs(cgs_of(got.units) / f - 1) < 2e-4, "the units are the product of base units to the stored exponents")


def flat(x):
    import numpy as np

    return [v for y in x for v in flat(y)] if isinstance(x, (list, tuple, np.ndarray)) else [x]


def load(S, name, base="cosmo", n=2, exps=(0, 1, -2, -0.5), given=True, masked=False, chunk=None, reuse=False):
    """One field of any shape: values, units, exponent, frame; read again, deleted and
    read again, after other fields."""
    import swiftsimio

    cl.fresh(S)
    a = S.scale_factor("a")
    p = S.choice("p", list(exps)) if given else 0
    cells = None
    counts = None
    if masked:
        counts = {"gas": [S.split(S.int("count0", 0, n)), None], "dark_matter": [1, n - 1]}
        counts["gas"][1] = n - counts["gas"][0]
        cells = masklib.Cells(S, (2, 1, 1), ["gas", "dark_matter"], counts, [0, 1], [4.0] * 3)
    names = [name, "Masses"] if name != "Masses" else ["Masses", "Pressures"]
    tree, spec = build(S, a, names, n, base, p, given, cells=cells, chunk=chunk, free=[("gas", name)] if masked else None)
    fn = filelib.put(S, tree)
    rows = {g: list(range(n)) for g in ("gas", "dark_matter")}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if masked:
            m = swiftsimio.mask(fn, safe_padding=0.0)
            m.convert_masks_to_bool()
            keep = [S.bool(f"keep{i}") for i in range(n)]
            for i in range(n):
                m.gas[i] = keep[i]
            rows["gas"] = masklib.rows_of(S, m, "gas")
            data = swiftsimio.load(fn, mask=m)
        else:
            data = swiftsimio.load(fn)
    order = S.choice("order", ["first", "last", "again", "deleted"] if not masked else ["last", "deleted"])
    if order == "last":
        for x in names[1:]:
            getattr(data.gas, snake(x))
        data.dark_matter.masses
    cols = COLUMNS.get(name)
    if cols:
        c = S.choice("column", list(range(len(cols))))
        own = getattr(data.gas, snake(name))
        get = lambda: getattr(own, cols[c])  # noqa: E731
        S.check(len(own) == len(cols) and own.named_columns == cols, "the columns are those the file names")
    else:
        c = None
        get = lambda: getattr(data.gas, snake(name))  # noqa: E731
    got = get()
    if order == "again":
        other = getattr(data.gas, snake(names[1]))
        S.check(get() is got, "reading again returns the array read before")
        verify(S, other, a, spec["gas", names[1]], rows["gas"], base)
    if order == "deleted":
        if cols:
            delattr(own, cols[c])
        else:
            delattr(data.gas, snake(name))
        first, got = got, get()
        S.check(got is not first, "a deleted field is read again")
    verify(S, got, a, spec["gas", name], rows["gas"], base, c)
    verify(S, data.dark_matter.masses, a, spec["dark_matter", "Masses"], rows["dark_matter"], base)


def columns(S, masked):
    """Every column of a field is its own, also when several are held at once."""
    import swiftsimio

    cl.fresh(S)
    n = 2
    cells = masklib.Cells(S, (1, 1, 1), ["gas", "dark_matter"], {"gas": [n], "dark_matter": [n]}, [0], [4.0] * 3)
    tree, spec = build(S, 0.5, ["ElementMassFractions", "Fluxes", "Masses"], n, "cosmo", 0, cells=cells)
    fn = filelib.put(S, tree)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rows = list(range(n))
        if masked:
            m = swiftsimio.mask(fn, safe_padding=0.0)
            m.convert_masks_to_bool()
            m.gas[0] = S.bool("keep0")
            rows = masklib.rows_of(S, m, "gas")
            data = swiftsimio.load(fn, mask=m)
        else:
            data = swiftsimio.load(fn)
        twin = swiftsimio.load(fn)
    first = S.choice("first", [("ElementMassFractions", 0), ("ElementMassFractions", 2), ("Fluxes", 1)])
    get = lambda d, f, c: getattr(getattr(d.gas, snake(f)), COLUMNS[f][c])  # noqa: E731
    get(data, *first)
    for f, cols in COLUMNS.items():
        for c in range(len(cols)):
            verify(S, get(data, f, c), 0.5, spec["gas", f], rows, "cosmo", c)
            verify(S, get(twin, f, c), 0.5, spec["gas", f], list(range(n)), "cosmo", c)
    S.check(get(data, *first) is not get(twin, *first), "datasets do not share fields")


def setup():
    filelib.setup()


def hs():
    out = []
    for name in FIELDS:
        if name in ("Fluxes",):
            continue
        base = {"Masses": "cosmo", "Coordinates": "mixed", "Pressures": "mixed", "MagneticFluxDensities": "mixed", "Roots": "cgs"}.get(name, "cosmo")
        out.append(H("load_" + snake(name), load, f"2 rows of {name} {FIELDS[name][0]} in {base} base units, any values, 4 exponents of a, any flags, any scale factor, read first, after others, twice, after deletion",
                     quick=dict(name=name, base=base), thorough=dict(name=name, base=base, n=3), setup=setup, concrete_setup=cl.concrete_setup, expect=("the values are those stored",)))
        out.append(H("mask_" + snake(name), load, f"the same through a mask with any pattern over 3 rows in 2 cells" + (", chunked" if name in ("Coordinates", "Tensors", "Roots") else ""),
                     quick=dict(name=name, base=base, n=3, masked=True, exps=(1,), chunk=2 if name in ("Coordinates", "Tensors", "Roots") else None), setup=setup, concrete_setup=cl.concrete_setup, expect=("the values are those stored",)))
    out.append(H("no_attributes", load, "fields that state no exponent or flags: comoving, exponent 0, convertible", quick=dict(name="Masses", given=False), setup=setup, concrete_setup=cl.concrete_setup, expect=("the values are those stored",)))
    out.append(H("columns", columns, "all columns of two fields of one file, two datasets open at once", quick=dict(masked=False), setup=setup, concrete_setup=cl.concrete_setup, expect=("datasets do not share fields",)))
    out.append(H("columns_masked", columns, "the same, one of them through a mask", quick=dict(masked=True), setup=setup, concrete_setup=cl.concrete_setup, expect=("datasets do not share fields",)))
    return out


HARNESSES = hs()
