"""C01: masked reads return exactly the selected rows."""

from symex.registry import H

ASSUMPTIONS = [
    "The dataset object is a stand-in offering h5py's documented read_direct (both selections the same number of elements) or a remote dataset's request_slices (sorted, disjoint, non-empty slices); row contents are symbolic.",
]


def setup():
    import swiftsimio.accelerated as acc
    import swiftsimio._ordered_slices as osl
    from symex import shim

    shim.install(acc)
    shim.install(osl)


class RemoteDataset:
    """A streamed dataset: serves sorted, non-overlapping slices only."""

    chunks = None

    def __init__(self, data, S, chunks=None):
        self.data = data
        self.S = S
        self.shape = data.shape
        self.ndim = data.ndim
        self.dtype = data.dtype
        self.chunks = chunks

    def __len__(self):
        return self.shape[0]

    def request_slices(self, slices, dest):
        import numpy as np

        S = self.S
        prev = None
        n = 0
        parts = []
        for s in slices:
            rs = s[0] if isinstance(s, tuple) else s
            cs = s[1] if isinstance(s, tuple) else None
            a, b = rs.start, rs.stop
            S.check(a < b, "server is asked for non-empty slices")
            if prev is not None:
                S.check(prev <= a, "server is asked for sorted disjoint slices")
            prev = b
            a, b = int(a), int(b)
            part = self.data[a:b]
            if cs is not None and self.ndim > 1:
                part = part[:, cs]
            parts.append(part)
            n += b - a
        S.check(n == len(dest), "destination has room for exactly the requested rows")
        i = 0
        for p in parts:
            dest[i:i + len(p)] = p
            i += len(p)


def data_for(S, n, cols, lo=-1000):
    if cols is None:
        vals = [S.real(f"d{i}", lo, 1000) for i in range(n)]
    else:
        vals = [[S.real(f"d{i}_{j}", lo, 1000) for j in range(cols)] for i in range(n)]
    return vals


def ranges_for(S, k, n, sorted_=True, allow_empty=True):
    """k ranges inside [0, n]; sorted ones do not overlap."""
    rs = []
    prev = None
    for i in range(k):
        a = S.int(f"start{i}", 0, n)
        b = S.int(f"stop{i}", 0, n)
        S.assume(a <= b if allow_empty else a < b)
        if sorted_ and prev is not None:
            S.assume(prev <= a)
        prev = b
        rs.append((a, b))
    return rs


def make_file_dataset(S, vals, chunk, dtype="f8"):
    import numpy as np

    if S.symbolic:
        from symex.h5fake import FakeDataset

        return FakeDataset(S.arr(vals), dtype=dtype, chunks=None if chunk is None else ((chunk,) if not isinstance(vals[0], list) else (chunk, len(vals[0]))))
    import os
    import h5py

    fn = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"d{len(_KEEP)}.hdf5")
    f = h5py.File(fn, "w", driver="core", backing_store=False)
    kw = {}
    if chunk is not None:
        kw["chunks"] = (int(chunk),) if not isinstance(vals[0], list) else (int(chunk), len(vals[0]))
        kw["maxshape"] = (None,) if not isinstance(vals[0], list) else (None, len(vals[0]))
    ds = f.create_dataset("d", data=np.array(vals, dtype=dtype), **kw)
    _KEEP.append(f)
    return ds


_KEEP = []


def expected_rows(S, ranges, vals, col):
    """Rows in request order. Symbolic ranges are split by the solver."""
    out = []
    for a, b in ranges:
        a, b = S.split(a), S.split(b)
        for i in range(a, b):
            out.append(vals[i] if col is None else vals[i][col])
    return out


def compare(S, got, want, shape, label):
    import numpy as np

    S.check(tuple(np.shape(got)) == shape, label + ": output has one row per selected row")
    S.check(S.alleq(got, want), label + ": rows and order")


def read_case(S, n, k, cols, chunk_mode, entry="auto", dtypes=("f8",)):
    import numpy as np
    import swiftsimio.accelerated as acc

    vals = data_for(S, n, cols, 1 if len(dtypes) > 1 else -1000)
    ranges = ranges_for(S, k, n)
    if chunk_mode == "none":
        chunk = None
    else:
        chunk = S.int("chunk", 1, n + 1)
    dt = dtypes[0] if len(dtypes) == 1 else S.choice("dtype", list(dtypes))
    use_col = S.choice("use_col", [False, True]) if cols else False
    col = S.split(S.int("col", 0, cols - 1)) if use_col else None
    ds = make_file_dataset(S, vals, chunk, dt)
    total = sum(b - a for a, b in ranges)
    shape = (total,) if (cols is None or use_col) else (total, cols)
    out_shape = total if len(shape) == 1 else shape
    rarr = S.arr([[a, b] for a, b in ranges], dtype=int)
    sel = np.s_[:] if col is None else np.s_[col]
    if entry == "unchunked":
        f = acc.read_ranges_from_file_unchunked
    elif entry == "chunked":
        f = acc.read_ranges_from_file_chunked
    else:
        f = acc.read_ranges_from_file
    if entry == "defaults":
        got = acc.read_ranges_from_file(ds, rarr, out_shape)
    else:
        got = f(ds, rarr, output_shape=out_shape, output_type=ds.dtype, columns=sel)
    shape = tuple(S.split(x) for x in shape)
    compare(S, got, expected_rows(S, ranges, vals, col), shape, f"{entry} read")
    S.check(got.dtype.isnative, "result is in native byte order")


def deep_case(S, n, k, shape, remote=False):
    """Rows that are themselves arrays."""
    import numpy as np
    import swiftsimio.accelerated as acc

    def row(tag, sh):
        return S.real("d" + tag, -1000, 1000) if not sh else [row(f"{tag}_{j}", sh[1:]) for j in range(sh[0])]

    vals = [row(str(i), shape) for i in range(n)]
    ranges = ranges_for(S, k, n)
    chunked = S.choice("chunked", [False, True]) if not remote else False
    chunk = S.split(S.int("chunk", 1, n)) if chunked else None
    if remote:
        ds = RemoteDataset(S.arr(vals), S)
    elif S.symbolic:
        from symex.h5fake import FakeDataset

        ds = FakeDataset(S.arr(vals), dtype="f8", chunks=(chunk, *shape) if chunked else None)
    else:
        import os
        import h5py

        f = h5py.File(os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"d{len(_KEEP)}.hdf5"), "w", driver="core", backing_store=False)
        ds = f.create_dataset("d", data=np.array(vals, dtype="f8"), chunks=(chunk, *shape) if chunked else None)
        _KEEP.append(f)
    total = sum(b - a for a, b in ranges)
    rarr = S.arr([[a, b] for a, b in ranges], dtype=int)
    got = acc.read_ranges_from_file(ds, rarr, output_shape=(total, *shape), output_type=ds.dtype)
    want = [vals[i] for a, b in ranges for i in range(S.split(a), S.split(b))]
    S.check(tuple(np.shape(got)) == (S.split(total), *shape), "deep read: output has one row per selected row")
    flat = lambda x: [v for y in x for v in flat(y)] if isinstance(x, (list, np.ndarray)) else [x]  # noqa: E731
    S.check(S.alleq(flat(got), flat(want)), "deep read: rows and order")


def stream_case(S, n, k, cols, dtypes=("f8",)):
    """Ranges in any order, not overlapping, empty ones anywhere."""
    import numpy as np
    import swiftsimio.accelerated as acc

    vals = data_for(S, n, cols, 1 if len(dtypes) > 1 else -1000)
    dt = S.choice("dtype", list(dtypes)) if len(dtypes) > 1 else dtypes[0]
    ranges = ranges_for(S, k, n, sorted_=False)
    from symex.core import sor

    for i in range(k):
        for j in range(i):
            (a, b), (c, d) = ranges[i], ranges[j]
            S.assume(sor(b <= c, d <= a, a == b, c == d))
    use_col = S.choice("use_col", [False, True]) if cols else False
    col = S.split(S.int("col", 0, cols - 1)) if use_col else None
    ds = RemoteDataset(S.arr(vals), S)
    total = sum(b - a for a, b in ranges)
    shape = (total,) if (cols is None or use_col) else (total, cols)
    rarr = S.arr([[a, b] for a, b in ranges], dtype=int)
    sel = np.s_[:] if col is None else np.s_[col]
    got = acc.read_ranges_from_file(ds, rarr, output_shape=total if len(shape) == 1 else shape, output_type=np.dtype(dt), columns=sel)
    shape = tuple(S.split(x) for x in shape)
    compare(S, got, expected_rows(S, ranges, vals, col), shape, "streamed read")
    S.check(got.dtype.isnative, "result is in native byte order")


def stream_overlap(S, n, k):
    """Overlapping ranges are refused, not silently mangled."""
    import numpy as np
    import swiftsimio.accelerated as acc

    vals = data_for(S, n, None)
    ranges = ranges_for(S, k, n, sorted_=False, allow_empty=False)
    from symex.core import sor, sand

    ov = []
    for i in range(k):
        for j in range(i):
            (a, b), (c, d) = ranges[i], ranges[j]
            ov.append(sand(a < d, c < b))
    S.assume(sor(ov))
    ds = RemoteDataset(S.arr(vals), S)
    total = sum(b - a for a, b in ranges)
    rarr = S.arr([[a, b] for a, b in ranges], dtype=int)
    try:
        acc.read_ranges_from_file(ds, rarr, output_shape=total, output_type=np.float64)
    except RuntimeError:
        S.check(True, "overlap refused")
        return
    S.fail("overlapping ranges must be refused")


def chunk_cover(S, k):
    """Unbounded numbers: chunk cover of k sorted ranges, any dataset length."""
    import swiftsimio.accelerated as acc
    from symex.core import sor, sand

    n = S.int("n", 0)
    c = S.int("chunk", 1)
    ranges = ranges_for(S, k, n)
    got = acc.get_chunk_ranges(S.arr([[a, b] for a, b in ranges], dtype=int), c, n)
    got = [(r[0], r[1]) for r in got]
    for a, b in ranges:
        S.check(sor([a == b] + [sand(lo <= a, b <= hi) for lo, hi in got]), "every range lies inside one run of chunks")
    prev = None
    for lo, hi in got:
        S.check(sand(0 <= lo, lo <= hi, hi <= n), "chunk runs stay inside the dataset")
        if prev is not None:
            S.check(prev <= lo, "chunk runs are ordered and disjoint")
        prev = hi


def ordered_slices_unbounded(S, k):
    """OrderedSlices on unbounded numbers: requested slices are sorted, disjoint,
    non-empty and cover exactly the ranges."""
    import swiftsimio._ordered_slices as osl
    from symex.core import sor, sand, iff

    n = S.int("n", 0)
    ranges = ranges_for(S, k, n, sorted_=False)
    for i in range(k):
        for j in range(i):
            (a, b), (c, d) = ranges[i], ranges[j]
            S.assume(sor(b <= c, d <= a, a == b, c == d))
    o = osl.OrderedSlices(S.arr([[a, b] for a, b in ranges], dtype=int), 1)
    sl = [(s.start, s.stop) for s in o.slices]
    p = S.int("row", 0)
    S.check(iff(sor([sand(a <= p, p < b) for a, b in ranges]), sor([sand(a <= p, p < b) for a, b in sl]) if sl else False), "slices cover exactly the requested rows")
    prev = None
    for a, b in sl:
        S.check(a < b, "slices are not empty")
        if prev is not None:
            S.check(prev < a, "slices are sorted, disjoint and merged")
        prev = b


Q2 = dict(n=5, k=2)
HARNESSES = [
    H("file_1d", read_case, "1-D datasets of 5 rows, 2 sorted ranges (any start/stop, empty and adjacent included), every chunk length 1..6, symbolic row values",
      quick=dict(n=5, k=2, cols=None, chunk_mode="sym"), thorough=dict(n=7, k=3, cols=None, chunk_mode="sym"), setup=setup, expect=("auto read: rows and order",),
      bounds_thorough="1-D datasets of 7 rows, 3 ranges, every chunk length 1..8", budget=(400, 3000)),
    H("file_1d_three", read_case, "1-D datasets of 4 rows, 3 sorted ranges, every chunk length 1..5",
      quick=dict(n=4, k=3, cols=None, chunk_mode="sym"), setup=setup, expect=("auto read: rows and order",), budget=(400, 1500)),
    H("file_1d_one", read_case, "1-D datasets of 5 rows (little- or big-endian), a single range, every chunk length 1..6",
      quick=dict(n=5, k=1, cols=None, chunk_mode="sym", dtypes=("f8", ">f8")), setup=setup, expect=("auto read: rows and order",)),
    H("file_2d_one", read_case, "datasets of 3 rows and 2 columns (little- or big-endian), whole rows or any column, a single range, every chunk length 1..4",
      quick=dict(n=3, k=1, cols=2, chunk_mode="sym", dtypes=("f8", ">f8")), setup=setup, expect=("auto read: rows and order",)),
    H("file_2d", read_case, "datasets of 3 rows and 2 columns, whole rows or any single column, 2 ranges, every chunk length 1..4",
      quick=dict(n=3, k=2, cols=2, chunk_mode="sym"), thorough=dict(n=5, k=2, cols=3, chunk_mode="sym"), setup=setup, expect=("auto read: rows and order",), bounds_thorough="5 rows, 3 columns, 2 ranges, chunks 1..6", budget=(400, 3000)),
    H("file_contiguous", read_case, "1-D contiguous (unchunked) datasets of 6 rows, 3 sorted ranges",
      quick=dict(n=6, k=3, cols=None, chunk_mode="none"), setup=setup, expect=("auto read: rows and order",)),
    H("file_contiguous_2d", read_case, "contiguous datasets of 4 rows x 3 columns, whole rows or any column, 2 ranges, big- and little-endian 4/8 byte values",
      quick=dict(n=4, k=2, cols=3, chunk_mode="none", dtypes=("f8", ">f8", "<f4", ">i4")), setup=setup, expect=("auto read: rows and order",)),
    H("file_chunked_entry", read_case, "chunked reader called directly, 1-D, big-endian and little-endian, 4 rows, 2 ranges, chunks 1..5",
      quick=dict(n=4, k=2, cols=None, chunk_mode="sym", entry="chunked", dtypes=("f8", ">f4")), setup=setup, expect=("chunked read: rows and order",)),
    H("file_unchunked_entry", read_case, "unchunked reader on chunked 2-D datasets, 4 rows x 2, 2 ranges",
      quick=dict(n=4, k=2, cols=2, chunk_mode="sym", entry="unchunked"), setup=setup, expect=("unchunked read: rows and order",)),
    H("file_defaults", read_case, "reader called with default type and columns, 4 rows x 2, 2 ranges, chunks 1..5",
      quick=dict(n=4, k=2, cols=None, chunk_mode="sym", entry="defaults"), setup=setup, expect=("defaults read: rows and order",)),
    H("file_3d", deep_case, "datasets of 4 rows each 2 x 2 (3-D), contiguous or chunked with any chunk length, 2 ranges",
      quick=dict(n=4, k=2, shape=(2, 2)), thorough=dict(n=5, k=3, shape=(2, 1, 2)), setup=setup, expect=("deep read: rows and order",), bounds_thorough="5 rows each 2 x 1 x 2, 3 ranges"),
    H("stream_3d", deep_case, "remote datasets of 3 rows each 2 x 2 (3-D), 2 sorted ranges",
      quick=dict(n=3, k=2, shape=(2, 2), remote=True), setup=setup, expect=("deep read: rows and order",)),
    H("chunk_cover", chunk_cover, "any dataset length, any chunk length (unbounded integers), 3 sorted ranges",
      quick=dict(k=2), thorough=dict(k=3), setup=setup, expect=("every range lies inside one run of chunks",), bounds_thorough="unbounded integers, 3 ranges"),
    H("stream_1d", stream_case, "remote 1-D datasets of 5 rows, 3 non-overlapping ranges in any order incl. empty ones",
      quick=dict(n=5, k=3, cols=None), thorough=dict(n=6, k=4, cols=None), setup=setup, expect=("streamed read: rows and order",), budget=(400, 3000), bounds_thorough="6 rows, 4 ranges in any order"),
    H("stream_2d", stream_case, "remote datasets of 3 rows x 2 of little- or big-endian values, whole rows or one column, 2 ranges in any order",
      quick=dict(n=3, k=2, cols=2, dtypes=("f8", ">f8")), thorough=dict(n=4, k=3, cols=2, dtypes=("f8", ">f8")), setup=setup, expect=("streamed read: rows and order",), bounds_thorough="4 rows x 2, 3 ranges"),
    H("stream_overlap", stream_overlap, "remote 1-D datasets of 5 rows, 3 non-empty ranges of which some overlap",
      quick=dict(n=5, k=2), thorough=dict(n=5, k=3), setup=setup, expect=("overlap refused",)),
    H("stream_slices", ordered_slices_unbounded, "any (unbounded) row numbers, 3 non-overlapping ranges in any order",
      quick=dict(k=3), thorough=dict(k=4), setup=setup, expect=("slices cover exactly the requested rows",), bounds_thorough="unbounded, 4 ranges"),
]
