"""C09: a subset file holds the same data a masked load would give."""

from symex.registry import H
from . import masklib, subsetlib

ASSUMPTIONS = [
    "Two top-level cells with at most two rows each (three rows of gas at most where the mask is any pattern); attributes and contents of metadata groups are concrete, contents of masked datasets symbolic.",
]


def rows(S, tag, n, sh):
    def one(t, sh):
        return S.real(t, -1000, 1000) if not sh else [one(f"{t}_{j}", sh[1:]) for j in range(sh[0])]

    return [one(f"{tag}{i}", sh) for i in range(n)]


def table(S, tag, n, sh=(), dtype="f8", chunk=None, attrs=None):
    import numpy as np
    from symex.h5fake import D

    integer = np.dtype(dtype).kind in "iu"
    vals = rows(S, tag, n, sh) if not integer else [7 * i + 1 if not sh else [7 * i + 1] * sh[0] for i in range(n)]
    data = S.arr(vals, dtype=int if integer else None) if n else np.zeros((0, *sh))
    d = D(data, dtype=dtype, chunks=None if chunk is None or not n else (min(chunk, n), *sh), attrs=attrs or {})
    d.rows, d.sh = vals, sh
    return d


def flat(x):
    import numpy as np

    return [v for y in x for v in flat(y)] if isinstance(x, (list, tuple, np.ndarray)) else [x]


def same(S, a, b, label):
    """Two HDF5 objects (groups or datasets) are the same, attributes included."""
    import numpy as np

    S.check(sorted(a.attrs.keys()) == sorted(b.attrs.keys()), label + ": attributes")
    for k in a.attrs.keys():
        same_attr(S, a.attrs[k], b.attrs[k], label)
    if hasattr(a, "keys"):
        S.check(sorted(a.keys()) == sorted(b.keys()), label + ": members")
        for k in a.keys():
            if k in b.keys():
                same(S, a[k], b[k], label)
    else:
        S.check(tuple(a.shape) == tuple(b.shape) and np.dtype(a.dtype) == np.dtype(b.dtype), label + ": shape and type")
        S.check(S.alleq(flat(list(a[...])), flat(list(b[...]))) if a.dtype.kind != "S" else list(a[...]) == list(b[...]), label + ": values")


def same_attr(S, x, y, label):
    import numpy as np

    if isinstance(x, (bytes, str)) or isinstance(y, (bytes, str)):
        text = lambda v: v.decode() if isinstance(v, bytes) else v  # noqa: E731
        S.check(text(x) == text(y), label + ": attribute values")
    else:
        S.check(np.shape(x) == np.shape(y) and S.alleq(flat(np.atleast_1d(x)), flat(np.atleast_1d(y))), label + ": attribute values")


def source(S, kind, maxcount, output_type, empty):
    import numpy as np
    from symex.h5fake import D, G, L

    catalogue = output_type in ("SOAP", "SOAPSubset", "FOF", "FOFSubset")
    groups = ["gas", "dark_matter"]
    if catalogue:
        cc = [S.int(f"count_{c}", 0, maxcount) for c in range(2)]
        counts = {g: cc for g in groups}
        names = {"gas": "BoundSubhalo", "dark_matter": "SO/200_crit"}
    else:
        counts = {"gas": [S.int("count_gas0", 0, maxcount), S.int("count_gas1", 0, 1)], "dark_matter": [1, 1]}
        names = masklib.GROUPS
    if empty:
        counts["gas"] = [0, 0]
    cells = masklib.Cells(S, (2, 1, 1), groups, counts, [0, 1], [4.0, 4.0, 4.0])
    n = {g: S.split(cells.total[g]) for g in groups}
    at = subsetlib.attrs(S, {"M": 1}, 0.0, False)
    dsets = {
        names["gas"]: {
            "Masses": table(S, "m", n["gas"], attrs={**at, "Description": b"masses", "Odd": np.array([1.5, 2.5])}),
            "Coordinates": table(S, "x", n["gas"], (3,), attrs=at),
            "Single": table(S, "s", n["gas"], (1,), "f4"),
            "Tensor": table(S, "t", n["gas"], (2, 2), chunk=2),
            "ParticleIDs": table(S, "id", n["gas"], (), "i8", chunk=1),
            "CellsVisited": table(S, "v", n["gas"], (), "i4"),
            "SubgridSchemeTag": table(S, "g", n["gas"], (), "f4", chunk=2),
        },
        names["dark_matter"]: {
            "Masses": table(S, "dm", n["dark_matter"], attrs=at),
            "DMLinkTag": table(S, "dl", n["dark_matter"], (), "u1"),
        },
    }
    tree = {k: G(dict(v)) for k, v in dsets.items()}
    if catalogue:
        tree.pop("SO/200_crit")
        tree["SO"] = G({"200_crit": G(dict(dsets["SO/200_crit"]))})
    tree["Header"] = subsetlib.header(S, cells, output_type)
    tree["Header"].items["PartTypeNames"] = D(np.array([b"Gas", b"DM"]))
    tree["Parameters"] = G({}, {"Scheduler:max_top_level_cells": b"2", "Number": np.array([3])})
    tree["Units"] = G({}, {"Unit mass in cgs (U_M)": np.array([2.0e43])})
    tree["Cosmology"] = G({"Table": D(np.array([1.0, 2.0, 3.0]), dtype="f8")}, {"h": np.array([0.7])})
    tree["SubgridScheme"] = G({"NamedColumns": G({"ElementMassFractions": D(np.array([b"Hydrogen", b"Helium"]))})}, {"Cooling": b"none"})
    tree["SOAPInfo" if catalogue else "PartTypesInfo"] = G({"Edges": D(np.array([0.5, 1.5]), dtype="f8")}, {"Version": b"3"})
    links = {}
    if kind == "links":
        first, second = names["gas"], names["dark_matter"]
        links = {"DMLink": "/" + second, f"{first}/OtherMasses": f"/{second}/Masses", "Cosmology/Mine": "/Cosmology/Table", "Nowhere": "/Missing"}
        for k, v in links.items():
            if "/" in k:
                g, nm = k.rsplit("/", 1)
                tree[g].items[nm] = L(v)
            else:
                tree[k] = L(v)
    return cells, names, dsets, tree, links, n


def subset(S, how, kind="plain", maxcount=2, output_type="FullVolume", empty=False):
    import numpy as np
    import h5py

    cells, names, dsets, tree, links, n = source(S, kind, maxcount, output_type, empty)
    catalogue = output_type not in ("FullVolume", "VolumeSubset", None)
    groups = ["gas", "dark_matter"]
    tk = dict(extra=tree)
    kw = dict(tree_kw=tk, filenames=names)
    if catalogue:
        shared = "Groups" if output_type.startswith("FOF") else "Subhalos"
        tk["counts_key"] = lambda g: shared
        kw.update(shared=shared, output_type=output_type)
    m, md, h = masklib.make_mask(S, cells, 0.5, padding=0.0, **kw)
    if how == "region":
        subsetlib.region(S, m, 0.5)
    else:
        subsetlib.pattern(S, m, cells, ["gas"])
    want = {g: masklib.rows_of(S, m, g) for g in groups}
    out = subsetlib.write(S, m)
    top = {"Cells", "Header", "Parameters", "Units", "Cosmology", "SubgridScheme", "SOAPInfo" if catalogue else "PartTypesInfo"}
    top |= {v.split("/")[0] for v in names.values() if not isinstance(v, dict)} if catalogue else {names[g] for g in groups}
    top |= {k for k in links if "/" not in k}
    S.check(set(out.keys()) == top, "the same groups and links at the top level")
    for g in groups:
        r = want[g]
        S.check(set(out[names[g]].keys()) == set(dsets[names[g]]) | {k.rsplit("/", 1)[1] for k in links if k.startswith(names[g] + "/")}, "every dataset and link is there, and no other")
        for name, d in dsets[names[g]].items():
            ds = out[f"{names[g]}/{name}"]
            S.check(tuple(int(x) for x in ds.shape) == (len(r), *d.sh), "one row per selected row, trailing dimensions kept")
            S.check(np.dtype(ds.dtype) == np.dtype(d.dtype), "the type is kept")
            S.check(S.alleq(flat(list(ds[...])), flat([d.rows[i] for i in r])), "the selected rows in order")
            S.check(sorted(ds.attrs.keys()) == sorted(d.attrs), "dataset attributes are kept")
            for k, v in d.attrs.items():
                same_attr(S, ds.attrs[k], v, "dataset")
    for k, v in links.items():
        l = out.get(k, getlink=True)
        S.check(isinstance(l, h5py.SoftLink) and l.path == v, "links are recreated")
    for k in ("Parameters", "Units", "Cosmology", "SubgridScheme", "SOAPInfo" if catalogue else "PartTypesInfo"):
        same(S, h[k], out[k], "metadata groups are copied unchanged")
    S.check(sorted(h["Header"].keys()) == sorted(out["Header"].keys()), "datasets in the header are kept")
    for k in h["Header"].keys():
        same(S, h["Header"][k], out["Header"][k], "datasets in the header")
    a, b = h["Header"].attrs, out["Header"].attrs
    S.check(sorted(a.keys()) == sorted(b.keys()), "the header has the same entries")
    for k in a.keys():
        if k in ("NumPart_ThisFile", "NumSubhalos_ThisFile"):
            num = [int(S.split(x)) for x in b[k]]
            exp = [len(want["gas"])]
            if k == "NumPart_ThisFile":
                exp = [0] * 7
                for g in groups:
                    exp[int(names[g][-1])] = len(want[g])
            S.check(num == exp, "the header states the number of rows of every type")
        elif k == "OutputType":
            S.check(b[k] in ("VolumeSubset", "SOAPSubset", "FOFSubset") and b[k].replace("Volume", "")[:3] == str(a[k]).replace("FullVolume", "").replace("Volume", "")[:3] or b[k] == "VolumeSubset", "the header says it is a subset")
        else:
            same_attr(S, a[k], b[k], "other header entries are kept")


def unconstrained(S):
    """A mask without constraints is refused unless a full copy is asked for."""
    cells, names, dsets, tree, links, n = source(S, "plain", 1, "FullVolume", False)
    m, md, h = masklib.make_mask(S, cells, 0.5, padding=0.0, tree_kw=dict(extra=tree), filenames=names)
    if S.choice("allow", [False, True]):
        out = subsetlib.write(S, m, allow_unconstrained=True)
        for g in ("gas", "dark_matter"):
            for name, d in dsets[names[g]].items():
                S.check(S.alleq(flat(list(out[f"{names[g]}/{name}"][...])), flat(d.rows)), "a full copy has every row")
        return
    try:
        subsetlib.write(S, m)
    except ValueError:
        S.check(True, "refused")
        return
    S.fail("writing a subset with an unconstrained mask must be refused")


R = "any region on x"
P = "any boolean pattern over the gas rows"
EX = ("the selected rows in order", "links are recreated")
HARNESSES = [
    H("snapshot_region", subset, "snapshot, 2 cells with 0..2 and 0..1 gas rows, " + R + ": 1-D, 2-D, single-column, 3-D, chunked, integer datasets, metadata groups", quick=dict(how="region"), thorough=dict(how="region", maxcount=3), setup=subsetlib.setup, expect=EX[:1]),
    H("snapshot_pattern", subset, "the same with " + P, quick=dict(how="pattern", output_type="VolumeSubset"), thorough=dict(how="pattern", output_type="VolumeSubset", maxcount=4), setup=subsetlib.setup, expect=EX[:1]),
    H("snapshot_links", subset, "snapshot with links at the top level, inside groups, dangling, " + P, quick=dict(how="pattern", kind="links", maxcount=1), setup=subsetlib.setup, expect=EX),
    H("snapshot_empty", subset, "snapshot that has a group for a type without particles, " + R, quick=dict(how="region", empty=True, output_type=None), setup=subsetlib.setup, expect=EX[:1]),
    H("soap", subset, "catalogue with nested groups, 2 cells with 0..2 objects, " + P, quick=dict(how="pattern", output_type="SOAP"), setup=subsetlib.setup, expect=EX[:1]),
    H("soap_links", subset, "catalogue subset with links, " + R, quick=dict(how="region", output_type="SOAPSubset", kind="links", maxcount=1), setup=subsetlib.setup, expect=EX),
    H("unconstrained", unconstrained, "unconstrained masks, full copy asked for or not", setup=subsetlib.setup, expect=("refused", "a full copy has every row")),
]
