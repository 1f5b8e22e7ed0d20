"""C02: indices, ranges and boolean masks convert losslessly."""

from symex.registry import H
from . import masklib
from .c01 import RemoteDataset, make_file_dataset
from .c03 import to_cosmo
from .c05 import attrs, build, props

ASSUMPTIONS = ["The 'advertised size' is that of a mask in range form, which is what loading and writing use."]


def encode(S, n, top):
    """ranges_from_array / expand_ranges on any sorted distinct indices."""
    import swiftsimio.accelerated as acc
    from symex.core import iff, sand, sor

    ix = [S.int(f"i{j}", 0, top) for j in range(n)]
    for j in range(1, n):
        S.assume(ix[j - 1] < ix[j])
    rs = acc.ranges_from_array(S.arr(ix, dtype=int))
    rs = [(r[0], r[1]) for r in rs]
    if n == 0:
        S.check(S.all([a == b for a, b in rs]), "an empty list gives an empty selection")
    row = S.int("row", -2, top + 2)
    S.check(iff(sor([sand(a <= row, row < b) for a, b in rs]) if rs else False, sor([row == i for i in ix]) if ix else False), "ranges cover exactly the indices")
    prev = None
    total = 0
    for a, b in rs:
        S.check(a < b if n else a <= b, "ranges are not empty")
        if prev is not None:
            S.check(prev < a, "ranges are ordered, disjoint and not split needlessly")
        prev = b
        total = total + (b - a)
    S.check(total == n, "as many rows as indices")


def roundtrip(S, n, top):
    import swiftsimio.accelerated as acc

    ix = [S.int(f"i{j}", 0, top) for j in range(n)]
    for j in range(1, n):
        S.assume(ix[j - 1] < ix[j])
    rs = acc.ranges_from_array(S.arr(ix, dtype=int))
    back = acc.expand_ranges(rs)
    S.check(len(back) == n, "expanding gives as many indices back")
    S.check(S.alleq(list(back), ix), "expanding the ranges gives the indices back")


def index_read(S, n, k):
    """index_dataset: rows by index list."""
    import swiftsimio.accelerated as acc

    vals = [S.real(f"d{i}", -1000, 1000) for i in range(n)]
    ix = [S.int(f"i{j}", 0, n - 1) for j in range(k)]
    for j in range(1, k):
        S.assume(ix[j - 1] < ix[j])
    ds = make_file_dataset(S, vals, None)
    got = acc.index_dataset(ds, S.arr(ix, dtype=int))
    S.check(len(got) == k, "index_dataset returns one value per index")
    S.check(S.alleq(list(got), [vals[S.split(i)] for i in ix]), "index_dataset returns the rows in order")


def forms(S, steps, start, catalogue=False, order=None, maxcount=2, ncell=2):
    """Any sequence of conversions leaves the selected rows alone."""
    groups = ["gas", "dark_matter"]
    order = order or list(range(ncell))
    if catalogue:
        cc = [S.int(f"count_{c}", 0, maxcount) for c in range(ncell)]
        counts = {g: cc for g in groups}
        kw = dict(tree_kw=dict(counts_key=lambda g: "Subhalos"), shared="Subhalos", output_type="SOAP")
    else:
        counts = {g: [S.int(f"count_{g}_{c}", 0, maxcount) for c in range(ncell)] for g in groups[:2]}
        counts["dark_matter"] = [2] + [1] * (ncell - 1)
        kw = {}
    cells = masklib.Cells(S, (ncell, 1, 1), groups, counts, order, [4.0, 4.0, 4.0])
    m, md, h = masklib.make_mask(S, cells, 0.5, padding=0.0, **kw)
    if start != "all":
        lo = S.real("lo", 0, 3.75)
        hi = lo + 0.25
        m.constrain_spatial(to_cosmo(S, [(lo, hi), None, None], 0.5))
    want = {g: masklib.rows_of(S, m, g) for g in groups}
    for g in groups:
        total = S.split(cells.total[g])
        S.check(all(0 <= r < total for r in want[g]), "selected rows exist")
        if start == "all":
            S.check(sorted(want[g]) == list(range(total)), "an unconstrained mask selects every row")
    for s in range(steps):
        f = S.choice(f"form{s}", ["bool", "ranges"])
        (m.convert_masks_to_bool if f == "bool" else m.convert_masks_to_ranges)()
        S.check(m.range_mask == (f == "ranges"), "the mask is in the form asked for")
        for g in groups:
            S.check(masklib.rows_of(S, m, g) == sorted(want[g]), "conversion keeps the selected rows")
            if m.range_mask:
                S.check(S.eq(getattr(m, f"{g}_size"), len(want[g])), "advertised size is the number of selected rows")
            else:
                S.check(len(getattr(m, g)) == S.split(cells.total[g]), "a boolean mask has one entry per row")


def pattern(S, n):
    """A boolean mask with any pattern (left by property constraints) becomes the right ranges."""
    from symex.core import iff

    groups = ["gas", "dark_matter"]
    cells = masklib.Cells(S, (1, 1, 1), groups, {"gas": [n], "dark_matter": [2]}, [0], [4.0, 4.0, 4.0])
    m, md, h = masklib.make_mask(S, cells, 0.5)
    m.convert_masks_to_bool()
    pat = [S.bool(f"keep{i}") for i in range(n)]
    for i in range(n):
        m.gas[i] = pat[i]
    m.convert_masks_to_ranges()
    rs = [(int(r[0]), int(r[1])) for r in m.gas]
    rows = [i for a, b in rs for i in range(a, b)]
    for i in range(n):
        S.check(iff(pat[i], i in rows), "ranges select exactly the marked rows")
    S.check(len(rows) == len(set(rows)), "each row once")
    S.check(S.eq(m.gas_size, len(rows)), "advertised size is the number of selected rows")
    m.convert_masks_to_bool()
    S.check([bool(v) for v in m.gas] == [i in rows for i in range(n)], "back to the same pattern")


def load(S, remote):
    """A read through the mask yields the advertised number of rows, also none."""
    import numpy as np
    import swiftsimio.accelerated as acc

    cells = masklib.Cells(S, (2, 1, 1), ["gas"], {"gas": [S.int("count0", 0, 2), S.int("count1", 0, 2)]}, [0, 1], [4.0, 4.0, 4.0])
    m, md, h = masklib.make_mask(S, cells, 0.5, padding=0.0)
    lo = S.real("lo", 0, 3.75)
    hi = S.real("hi", 0, 4)
    S.assume(lo <= hi)
    m.constrain_spatial(to_cosmo(S, [(lo, hi), None, None], 0.5))
    if S.choice("via_bool", [False, True]):
        m.convert_masks_to_bool()
        m.convert_masks_to_ranges()
    total = S.split(cells.total["gas"])
    vals = [float(i) + 0.5 for i in range(total)]
    want = [vals[r] for r in masklib.rows_of(S, m, "gas")]
    ds = RemoteDataset(S.arr(vals) if vals else np.zeros(0), S) if remote else make_file_dataset(S, vals, None)
    got = acc.read_ranges_from_file(ds, m.gas, output_shape=m.gas_size, output_type=np.float64)
    S.check(len(got) == len(want), "a load yields the advertised number of rows")
    S.check(S.alleq(list(got), want), "a load yields the selected rows")


HARNESSES = [
    H("encode", encode, "any 5 sorted distinct row numbers below 10^6", quick=dict(n=5, top=10**6), thorough=dict(n=8, top=10**9), setup=masklib.setup, expect=("ranges cover exactly the indices",), bounds_thorough="any 8 sorted distinct row numbers"),
    H("encode_empty", encode, "the empty list", quick=dict(n=0, top=10), setup=masklib.setup, expect=("an empty list gives an empty selection",)),
    H("roundtrip", roundtrip, "any 3 sorted distinct row numbers below 8", quick=dict(n=3, top=7), thorough=dict(n=4, top=9), setup=masklib.setup, expect=("expanding the ranges gives the indices back",)),
    H("index_read", index_read, "any 2 rows of 5", quick=dict(n=5, k=2), thorough=dict(n=6, k=3), setup=masklib.setup, expect=("index_dataset returns the rows in order",)),
    H("forms_all", forms, "unconstrained masks of 2 cells with 0..2 rows each, any 3 conversions", quick=dict(steps=3, start="all"), thorough=dict(steps=4, start="all", maxcount=3), setup=masklib.setup, expect=("conversion keeps the selected rows",)),
    H("forms_region", forms, "spatial masks of 2 cells with 0..2 rows each, any region 1/4 wide, any 2 conversions", quick=dict(steps=2, start="region"), thorough=dict(steps=3, start="region", ncell=3), setup=masklib.setup, expect=("conversion keeps the selected rows",)),
    H("forms_reversed", forms, "same with cells stored in reversed order", quick=dict(steps=2, start="region", order=[1, 0]), setup=masklib.setup, expect=("conversion keeps the selected rows",)),
    H("forms_catalogue", forms, "catalogue masks of 2 cells with 0..2 rows each, any 3 conversions", quick=dict(steps=3, start="region", catalogue=True), setup=masklib.setup, expect=("conversion keeps the selected rows",)),
    H("pattern", pattern, "any boolean pattern over 5 rows", quick=dict(n=5), thorough=dict(n=9), setup=masklib.setup, expect=("ranges select exactly the marked rows",)),
    H("load_file", load, "masked load from a file: 2 cells with 0..2 rows, any ordered region on x", quick=dict(remote=False), setup=masklib.setup, expect=("a load yields the selected rows",)),
    H("load_remote", load, "masked load from a remote file: 2 cells with 0..2 rows, any ordered region on x", quick=dict(remote=True), setup=masklib.setup, expect=("a load yields the selected rows",)),
]
