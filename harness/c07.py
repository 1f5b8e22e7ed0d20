"""C07: row selections of catalogues."""

from symex.registry import H
from . import masklib

ASSUMPTIONS = ["The catalogue's row list is symbolic; rows are distinct unless stated."]


def catalogue(S, n, groups=("gas", "dark_matter"), output_type="SOAP", counts=None):
    box = [4.0, 4.0, 4.0]
    shared = "Subhalos" if output_type == "SOAP" else "Groups"
    cc = counts if counts is not None else [n]
    cells = masklib.Cells(S, (len(cc), 1, 1), list(groups), {g: cc for g in groups}, list(range(len(cc))), box)
    return masklib.make_mask(S, cells, 0.5, output_type=output_type, shared=shared, tree_kw=dict(counts_key=lambda g: shared))


def rows_input(S, k, n, order):
    ix = [S.int(f"i{j}", 0, n - 1) for j in range(k)]
    for j in range(k):
        for l in range(j):
            S.assume(ix[j] != ix[l])
    if order == "sorted":
        for j in range(1, k):
            S.assume(ix[j - 1] < ix[j])
    if order == "middle":
        for j in range(1, k - 1):
            S.assume(ix[0] < ix[j])
            S.assume(ix[j] < ix[k - 1])
    return ix


def select(S, n, k, order="any", boolean=False, single=False, as_list=False, output_type="SOAP"):
    from symex.core import iff, sor
    import numpy as np

    m, md, h = catalogue(S, n, output_type=output_type)
    ix = rows_input(S, k, n, order)
    if boolean:
        m.convert_masks_to_bool()
    if single:
        m.constrain_index(ix[0])
    else:
        m.constrain_indices(list(ix) if as_list else S.arr(ix, dtype=int))
    S.check(m.constrained == ("constrain_index" if single else "constrain_indices"), "the mask knows its last constraint")
    m.convert_masks_to_ranges()
    for g in ("gas", "dark_matter"):
        rs = [(r[0], r[1]) for r in getattr(m, g)]
        prev = None
        total = 0
        for a, b in rs:
            S.check(a <= b, "ranges run forwards")
            if prev is not None:
                S.check(prev <= a, "rows are in ascending order, each once")
            prev = b
            total = total + (b - a)
        row = S.int("row", -2, n + 2)
        from symex.core import sand

        sel = sor([sand(a <= row, row < b) for a, b in rs]) if rs else False
        S.check(iff(sel, sor([row == i for i in ix]) if ix else False), "exactly the requested rows are selected")
        S.check(total == k, "each requested row is loaded once")
        S.check(getattr(m, f"{g}_size") == k, "advertised size is the number of rows loaded")


def refused(S, which):
    m, md, h = catalogue(S, 4)
    md.homogeneous_arrays = False
    r = S.int("i0", 0, 3)
    before = [(x[0], x[1]) for x in m.gas]
    try:
        if which == "index":
            m.constrain_index(r)
        else:
            m.constrain_indices(S.arr([r], dtype=int))
    except RuntimeError:
        S.check(S.alleq(before, [(x[0], x[1]) for x in m.gas]), "refused selection leaves the mask unchanged")
        S.check(m.constrained is None, "refused selection leaves the mask unconstrained")
        return
    S.fail("row selection of groups of different lengths is refused")


def duplicates(S, n, k):
    """The advertised size also counts rows named more than once as they are loaded."""
    from symex.core import iff, sand, sor

    m, md, h = catalogue(S, n)
    ix = [S.int(f"i{j}", 0, n - 1) for j in range(k)]
    S.assume(sor([ix[i] == ix[j] for i in range(k) for j in range(i)]))
    m.constrain_indices(S.arr(ix, dtype=int))
    m.convert_masks_to_ranges()
    total = 0
    for r in m.gas:
        total = total + (r[1] - r[0])
    S.check(m.gas_size == total, "repeated row numbers: advertised size is the number of rows loaded")


EX = ("exactly the requested rows are selected", "advertised size is the number of rows loaded")
HARNESSES = [
    H("any_order", select, "any 3 distinct rows of a 6-row catalogue in any order", quick=dict(n=6, k=3), thorough=dict(n=1000000, k=4), setup=masklib.setup, expect=EX, bounds_thorough="any 4 distinct rows of a million-row catalogue in any order"),
    H("middle", select, "any 4 distinct rows of a million-row catalogue with the smallest first and the largest last", quick=dict(n=10**6, k=4, order="middle"), thorough=dict(n=10**6, k=5, order="middle"), setup=masklib.setup, expect=EX, bounds_thorough="the same for 5 rows"),
    H("middle_list", select, "the same for a Python list of a 7-row catalogue", quick=dict(n=7, k=4, order="middle", as_list=True), setup=masklib.setup, expect=EX),
    H("middle_bool", select, "the same for 4 rows of 5 in boolean form", quick=dict(n=5, k=4, order="middle", boolean=True), setup=masklib.setup, expect=EX),
    H("big", select, "any 3 distinct rows of a million-row catalogue in any order", quick=dict(n=10**6, k=3), setup=masklib.setup, expect=EX),
    H("list", select, "any 2 distinct rows given as a Python list", quick=dict(n=10**4, k=2, as_list=True, output_type="FOF"), setup=masklib.setup, expect=EX),
    H("boolean", select, "any 3 distinct rows of 5, mask in boolean form first", quick=dict(n=5, k=3, boolean=True), thorough=dict(n=6, k=4, boolean=True), setup=masklib.setup, expect=EX),
    H("single", select, "any single row of a million", quick=dict(n=10**6, k=1, single=True), setup=masklib.setup, expect=EX),
    H("single_bool", select, "any single row of 5, boolean form", quick=dict(n=5, k=1, single=True, boolean=True), setup=masklib.setup, expect=EX),
    H("refused_index", refused, "any row of 4", quick=dict(which="index"), setup=masklib.setup, expect=("refused selection leaves the mask unchanged",)),
    H("refused_indices", refused, "any row of 4", quick=dict(which="indices"), setup=masklib.setup, expect=("refused selection leaves the mask unchanged",)),
    H("duplicates", duplicates, "3 row numbers of 6 with at least one repeated", quick=dict(n=6, k=3), setup=masklib.setup, expect=("repeated row numbers: advertised size is the number of rows loaded",)),
]
