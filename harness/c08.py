"""C08: the cell tables of a subset file describe the rows it contains."""

from symex.registry import H
from . import masklib, subsetlib

ASSUMPTIONS = [
    "Three top-level cells in a row (two for catalogues); a cell's rows are consecutive in the file and cells follow each other without gaps, in the listed order; numbers of rows per cell are at most two.",
]


def tables(S, how, order, output_type="FullVolume", form="writer", extents=False, maxcount=2, offsets_name="OffsetsInFile"):
    """how: region / pattern / all; form: which form the mask is in when the tables are made."""
    from symex.h5fake import D, G

    catalogue = output_type.startswith("SOAP")
    groups = ["gas", "dark_matter"]
    n = len(order)
    if catalogue:
        cc = [S.int(f"count_{c}", 0, maxcount) for c in range(n)]
        counts = {g: cc for g in groups}
    else:
        counts = {"gas": [S.int(f"count_gas{c}", 0, maxcount) for c in range(n)], "dark_matter": [2] + [0] * (n - 2) + [1]}
    box = [4.0, 4.0, 4.0]
    ext = None
    if extents:
        w = box[0] / n
        ext = {g: [([c * w + 0.125 * (k + 1), 0.25, 0.25], [(c + 1) * w - 0.125 * (k + 1), 3.5, 3.5]) for c in range(n)] for k, g in enumerate(groups)}
    cells = masklib.Cells(S, (n, 1, 1), groups, counts, order, box, ext)
    extra = {"Header": subsetlib.header(S, cells, output_type)}
    total = {g: S.split(cells.total[g]) for g in groups}
    for g in groups:
        extra[masklib.GROUPS[g]] = G({"Masses": D(S.arr([float(i) + 1 for i in range(total[g])]) if total[g] else __import__("numpy").zeros(0), dtype="f8", attrs=subsetlib.attrs(S, {"M": 1}, 0.0, False))})
    tk = dict(extra=extra, offsets_name=offsets_name)
    kw = dict(tree_kw=tk)
    if catalogue:
        tk["counts_key"] = lambda g: "Subhalos"
        kw.update(shared="Subhalos", output_type=output_type)
    m, md, h = masklib.make_mask(S, cells, 0.5, padding=0.0, **kw)
    if how == "region":
        subsetlib.region(S, m, 0.5)
    elif how == "pattern":
        subsetlib.pattern(S, m, cells, ["gas"])
    want = {g: masklib.rows_of(S, m, g) for g in groups}
    if form == "bool":
        m.convert_masks_to_bool()
    if form == "ranges":
        m.convert_masks_to_ranges()
    if form == "writer":
        out = subsetlib.write(S, m, allow_unconstrained=True)
        tab = lambda kind, g: list(out[f"Cells/{kind}/{'Subhalos' if catalogue else masklib.GROUPS[g]}"][...])  # noqa: E731
        cnt = {g: tab("Counts", g) for g in groups}
        off = {g: tab(offsets_name, g) for g in groups}
        cen = [[float(x) for x in row] for row in out["Cells/Centres"][...]]
        src = [cells.centres.index(c) for c in cen]
    else:
        c, o = m._get_masked_counts_offsets()
        key = lambda g: "shared" if catalogue else g  # noqa: E731
        cnt = {g: list(c[key(g)]) for g in groups}
        off = {g: list(o[key(g)]) for g in groups}
        src = [cells.centres.index([float(x) for x in row.to_value("Mpc")]) for row in m.centers]
    S.check(sorted(src) == list(range(n)), "every cell is listed once")
    for g in groups:
        S.check(len(cnt[g]) == n and len(off[g]) == n, "one count and one offset per cell")
        rows = want[g]
        for k, c in enumerate(src):
            a, b = S.split(cells.offsets[g][c]), S.split(cells.offsets[g][c] + cells.counts[g][c])
            mine = [i for i, r in enumerate(rows) if a <= r < b]
            S.check(S.eq(cnt[g][k], len(mine)), "a cell's count is the number of its rows in the subset")
            if mine:
                S.check(S.eq(off[g][k], mine[0]) if mine == list(range(mine[0], mine[0] + len(mine))) else False, "a cell's rows are found at its offset")
            S.check(0 <= off[g][k] and off[g][k] <= len(rows), "offsets stay inside the subset")
        S.check(S.eq(sum(cnt[g]), len(rows)), "the counts add up to the rows")
        if form == "writer":
            stored = out[f"{masklib.GROUPS[g]}/Masses"][...]
            S.check(len(stored) == len(rows), "as many rows written as selected")
            if catalogue:
                num = out["Header"].attrs["NumSubhalos_ThisFile"][0]
            else:
                num = out["Header"].attrs["NumPart_ThisFile"][int(masklib.GROUPS[g][-1])]
            S.check(S.eq(num, len(rows)), "the header states the number of rows")
            if ext:
                lo, hi = (out[f"Cells/{k}/{masklib.GROUPS[g]}"][...] for k in ("MinPositions", "MaxPositions"))
                for k, c in enumerate(src):
                    S.check(S.alleq(list(lo[k]) + list(hi[k]), list(ext[g][c][0]) + list(ext[g][c][1])), "extents are listed in the order of the counts")


R = "any region on x"
P = "any boolean pattern over the gas rows"
CNT = "3 cells with 0..2 gas rows each, "
EXP = ("a cell's count is the number of its rows in the subset",)
EXPW = EXP + ("the header states the number of rows",)
HARNESSES = [
    H("region_write", tables, CNT + R + ", cells in order, whole writer", quick=dict(how="region", order=[0, 1, 2]), setup=subsetlib.setup, expect=EXPW),
    H("region_order", tables, CNT + R + ", cells out of order in the file, whole writer", quick=dict(how="region", order=[2, 0, 1], extents=True), thorough=dict(how="region", order=[2, 0, 3, 1], extents=True), setup=subsetlib.setup, expect=EXPW),
    H("pattern_write", tables, CNT + P + ", cells in order, whole writer", quick=dict(how="pattern", order=[0, 1, 2], offsets_name="Offsets"), setup=subsetlib.setup, expect=EXPW),
    H("pattern_order", tables, CNT + P + ", cells out of order, whole writer", quick=dict(how="pattern", order=[1, 2, 0]), setup=subsetlib.setup, expect=EXPW),
    H("pattern_bool", tables, CNT + P + ", tables made from the boolean form", quick=dict(how="pattern", order=[1, 2, 0], form="bool"), setup=subsetlib.setup, expect=EXP),
    H("region_bool", tables, CNT + R + ", tables made from the boolean form", quick=dict(how="region", order=[2, 1, 0], form="bool"), setup=subsetlib.setup, expect=EXP),
    H("all_ranges", tables, CNT + "unconstrained, tables made from ranges", quick=dict(how="all", order=[1, 0, 2], form="ranges"), setup=subsetlib.setup, expect=EXP),
    H("soap_write", tables, "catalogue, 2 cells with 0..2 objects each, " + P + ", whole writer", quick=dict(how="pattern", order=[1, 0], output_type="SOAP"), setup=subsetlib.setup, expect=EXPW),
    H("soap_region", tables, "catalogue, 3 cells with 0..2 objects each, " + R + ", whole writer", quick=dict(how="region", order=[0, 2, 1], output_type="SOAPSubset"), setup=subsetlib.setup, expect=EXPW),
]
