"""C05: mask constraints compose as documented, or are refused."""

from symex.registry import H
from . import masklib

ASSUMPTIONS = [
    "Two top-level cells with one row each and a field with values 1 and 2; regions are half a length unit wide anywhere in the box, property limits are any lower limit below a fixed upper one.",
]

SNAP_OPS = ["spatial", "union", "property", "bool", "ranges"]
CAT_OPS = ["spatial", "union", "property", "indices", "index", "bool", "ranges"]


def props(path, names=("masses",)):
    import types

    return types.SimpleNamespace(field_names=list(names), field_paths=[path])


def attrs(S, exps, a_exp, physical, convertible=True):
    import numpy as np

    d = {f"U_{k} exponent": np.array([float(exps.get(k, 0.0))]) for k in ("I", "L", "M", "T", "t")}
    d["a-scale exponent"] = np.array([float(a_exp)])
    d["Value stored as physical"] = np.array([1 if physical else 0])
    d["Property can be converted to comoving"] = np.array([1 if convertible else 0])
    return d


def build(S, catalogue):
    from symex.h5fake import D, G

    box = [4.0, 4.0, 4.0]
    groups = ["gas", "dark_matter"]
    cells = masklib.Cells(S, (2, 1, 1), groups, {g: [1, 1] for g in groups}, [0, 1], box)
    vals = [1.0, 2.0]
    extra = {masklib.GROUPS[g]: G({"Masses": D(S.arr(vals), attrs=attrs(S, {"M": 1}, 0.0, False))}) for g in groups}
    kw = dict(tree_kw=dict(extra=extra))
    if catalogue:
        kw = dict(tree_kw=dict(extra=extra, counts_key=lambda g: "Subhalos"), shared="Subhalos", output_type="SOAP")
    kw["props"] = {g: props(f"{masklib.GROUPS[g]}/Masses") for g in groups}
    return masklib.make_mask(S, cells, 0.5, padding=0.0, **kw)


def compose(S, first, length, catalogue):
    from symex.core import iff, sand, sor
    from swiftsimio.objects import cosmo_array, cosmo_quantity

    m, md, h = build(S, catalogue)
    ops = CAT_OPS if catalogue else SNAP_OPS
    groups = ["gas", "dark_matter"]
    vals = [1.0, 2.0]
    sel = {g: [True, True] for g in groups}
    constrained = None
    for step in range(length):
        op = first if step == 0 else S.choice(f"op{step}", ops)
        error = None
        new = {g: list(sel[g]) for g in groups}
        nconst = constrained
        if op in ("spatial", "union"):
            lo = S.real(f"lo{step}", 0, 3.5)
            hi = lo + 0.5
            for e in (lo, hi):
                S.assume(S.all(e != 0, e != 2, e != 4))
            hit = [lo < 2, hi > 2]
            for g in groups:
                if constrained is None:
                    new[g] = hit
                elif constrained == "constrain_spatial" and op == "union":
                    new[g] = [sor(x, y) for x, y in zip(sel[g], hit)]
                else:
                    error = RuntimeError
            nconst = "constrain_spatial"
            call = lambda: m.constrain_spatial([cosmo_array(S.arr([lo, hi]), "Mpc", comoving=True, scale_factor=0.5, scale_exponent=1), None, None], union=op == "union")  # noqa: E731
        elif op == "property":
            lw = S.real(f"lower{step}", 0, 3)
            S.assume(S.all(lw != 1, lw != 2))
            q = lambda v: cosmo_quantity(v, "Msun", comoving=True, scale_factor=0.5, scale_exponent=0)  # noqa: E731
            for g in groups if catalogue else ["gas"]:
                new[g] = [sand(s, lw < v) for s, v in zip(sel[g], vals)]
            nconst = "constrain_property"
            call = lambda: m.constrain_property("gas", "masses", q(lw), q(5.0))  # noqa: E731
        elif op in ("indices", "index"):
            r = S.int(f"row{step}", 0, 1)
            if constrained is None:
                for g in groups:
                    new[g] = [r == 0, r == 1]
            else:
                error = RuntimeError
            nconst = "constrain_" + op
            call = (lambda: m.constrain_index(r)) if op == "index" else (lambda: m.constrain_indices([r]))  # noqa: E731
        elif op == "bool":
            call = m.convert_masks_to_bool
        else:
            call = m.convert_masks_to_ranges
        raised = False
        try:
            call()
        except RuntimeError:
            raised = True
        S.check(raised == (error is not None), "combinations that are not documented are refused, documented ones are accepted")
        if not raised:
            sel, constrained = new, nconst
        S.check(m.constrained == constrained, "the mask knows its last constraint")
        for g in groups:
            got = masklib.rows_of(S, m, g)
            S.check(len(set(got)) == len(got) and got == sorted(got), "rows are selected once, in file order")
            S.check(S.all([iff(sel[g][i], i in got) for i in (0, 1)]), "the selection is the documented combination")
            if m.range_mask:
                S.check(S.eq(getattr(m, f"{g}_size"), len(got)), "advertised size is the number of selected rows")


EX = ("the selection is the documented combination",)
HARNESSES = []
for _c in (False, True):
    for _f in CAT_OPS if _c else SNAP_OPS:
        HARNESSES.append(H(
            ("catalogue_" if _c else "snapshot_") + _f, compose,
            f"every sequence of 3 operations starting with '{_f}' on a {'catalogue' if _c else 'snapshot'} mask with 2 cells, 2 groups; any region position, property limit and row",
            quick=dict(first=_f, length=3 if _f in ("spatial", "bool") or not _c else 2, catalogue=_c), thorough=dict(first=_f, length=4 if _c is False else 3, catalogue=_c), setup=masklib.setup, expect=EX,
            bounds_thorough="sequences of 4 (snapshots) or 3 (catalogues) operations", budget=(300, 1800)))
