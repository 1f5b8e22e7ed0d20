"""C33: lazy loading is invisible, and files are left as they were found."""

import pathlib
import warnings

from symex.registry import H
from . import cosmolib as cl
from . import filelib, masklib
from .c10 import build, flat, verify

ASSUMPTIONS = [
    "Files of two particle types with two or three rows of any values; sequences of three or four operations from a stated list; scale factor 1/2, exponent 1 (C10 covers the attributes).",
    "Open files are counted through stand-ins in the solver's runs and through the HDF5 library in replays.",
]

NAMES = ["Masses", "Fluxes"]
FIELDS = {"masses": ("gas", "Masses", None), "HII": ("gas", "Fluxes", 0), "CIIx": ("gas", "Fluxes", 1), "other": ("dark_matter", "Masses", None)}


def handles(S):
    """Number of open handles on files."""
    if S.symbolic:
        return sum(1 for f in filelib.OPENED if f)
    import gc

    import h5py

    gc.collect()
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def target(data, f):
    """Object and attribute that hold a field."""
    if f in ("HII", "CIIx"):
        return data.gas.fluxes, f
    return (data.dark_matter if f == "other" else data.gas), "masses"


class View:
    """What one dataset should give."""

    def __init__(self, S, data, spec, rows, a):
        self.S, self.data, self.spec, self.rows, self.a = S, data, spec, rows, a
        self.held, self.changed = {}, {}

    def read(self, f):
        S = self.S
        g, name, col = FIELDS[f]
        o, n = target(self.data, f)
        got = getattr(o, n)
        if f in self.held:
            S.check(got is self.held[f], "a field is the same array until it is deleted")
        if f in self.changed:
            S.check(S.alleq(cl.flat(got), self.changed[f]), "assigned and changed fields stay so")
        else:
            verify(S, got, self.a, self.spec[g, name], self.rows[g], "cosmo", col)
        self.held[f] = got

    def assign(self, f, tag):
        from swiftsimio.objects import cosmo_array

        S = self.S
        v = [S.real(f"{tag}_{i}", -9, 9) for i in range(2)]
        x = cosmo_array(S.arr(v), "kg", comoving=True, scale_factor=0.5, scale_exponent=1)
        o, n = target(self.data, f)
        setattr(o, n, x)
        self.held[f], self.changed[f] = x, v

    def double(self, f):
        o, n = target(self.data, f)
        x = getattr(o, n)
        now = [2 * v for v in cl.flat(x)]
        x *= 2
        self.held[f], self.changed[f] = x, now

    def delete(self, f):
        o, n = target(self.data, f)
        delattr(o, n)
        self.held.pop(f, None)
        self.changed.pop(f, None)


def sequence(S, steps, by, actions, masked=False):
    """Any sequence of operations on a dataset that is loaded lazily."""
    import swiftsimio

    cl.fresh(S)
    filelib.OPENED.clear()
    a, n = 0.5, 3 if masked else 2
    cells = masklib.Cells(S, (2, 1, 1), ["gas", "dark_matter"], {"gas": [1, n - 1], "dark_matter": [1, n - 1]}, [0, 1], [4.0] * 3)
    tree, spec = build(S, a, NAMES, n, "cosmo", 1, cells=cells, free=[])
    fn = filelib.put(S, tree)
    base = handles(S)
    user = None
    if by == "handle":
        user = filelib.contents(S, fn)
        source = user
    else:
        source = pathlib.Path(fn) if by == "path" else fn
    C = "no file stays open but the user's"

    def closed():
        S.check(handles(S) - base == (1 if user else 0), C)

    def new_mask():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return swiftsimio.mask(source, safe_padding=0.0)

    def load(m):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = swiftsimio.load(source, mask=m)
        rows = {g: list(range(n)) if m is None else masklib.rows_of(S, m, g) for g in ("gas", "dark_matter")}
        return View(S, d, spec, rows, a)

    m = None
    if masked:
        m = new_mask()
        closed()
        m.convert_masks_to_bool()
        m.gas[0] = S.bool("keep0")
        m.gas[1] = True
    views = [load(m)]
    closed()
    for i in range(steps):
        act = S.choice(f"do{i}", actions)
        v = views[-1] if act != "first:masses" else views[0]
        if act == "close":
            if not user:
                return
            user.close()
            source = fn
        elif act == "load":
            views.append(load(m))
        elif act == "narrow":
            from swiftsimio.objects import cosmo_quantity

            q = lambda t: cosmo_quantity(t, v.data.metadata.units.mass.units, comoving=False, scale_factor=a, scale_exponent=1)  # noqa: E731
            m.constrain_property("gas", "masses", q(S.real(f"lo{i}", -10, 10)), q(2000.0))
        elif act == "convert":
            if m.range_mask:
                m.convert_masks_to_bool()
            else:
                m.convert_masks_to_ranges()
        else:
            verb, f = act.split(":")
            if verb == "assign":
                v.assign(f, f"new{i}")
            else:
                getattr(v, "read" if verb == "first" else verb)(f)
        closed()
        if user:
            S.check(user["PartType0/Masses"].shape == (n,), "the user's handle stays usable")
    for v in views:
        for f in FIELDS:
            v.read(f)
    closed()
    check_file(S, fn, spec, n)
    if user:
        user.close()


def check_file(S, fn, spec, n):
    """Reading left the file as it was."""
    with filelib.contents(S, fn) as h:
        for (g, name), sp in spec.items():
            d = h[f"{masklib.GROUPS[g]}/{name}"]
            S.check(S.alleq(cl.flat(d[...]), flat(sp[0])), "reading leaves the file as it was")


def subset_and_mask(S, by, fail):
    """Writing subsets, and refusals: nothing of swiftsimio's stays open."""
    import numpy as np
    import swiftsimio
    from swiftsimio.subset_writer import write_subset
    from symex.core import Unsupported

    cl.fresh(S)
    filelib.OPENED.clear()
    n = 2
    cells = masklib.Cells(S, (2, 1, 1), ["gas", "dark_matter"], {"gas": [1, 1], "dark_matter": [1, 1]}, [0, 1], [4.0] * 3)
    tree, spec = build(S, 0.5, NAMES, n, "cosmo", 1, cells=cells, free=[])
    if fail == "no cells":
        del tree.items["Cells"]
    elif fail == "no units":
        del tree.items["Units"]
    elif fail == "no header":
        del tree.items["Header"]
    elif fail == "unknown type":
        tree.items["Header"].attrs["OutputType"] = "Other"
    fn = filelib.put(S, tree)
    base = handles(S)
    user = filelib.contents(S, fn) if by == "handle" else None
    source = user if user else fn
    out = filelib.path("subset")
    what = S.choice("what", ["mask", "load", "validate"] if fail else ["subset", "mask", "validate", "unconstrained"])
    raised = False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what == "load":
                swiftsimio.load(source)
            elif what == "validate":
                swiftsimio.validate_file(source)
            else:
                m = swiftsimio.mask(source, safe_padding=0.0)
                if what == "subset":
                    m.constrain_indices("gas", np.array([1]))
                    write_subset(out, m)
                elif what == "unconstrained":
                    write_subset(out, m)
    except Unsupported:
        raise
    except Exception as e:  # noqa: BLE001
        raised = True
        e.__traceback__ = None
    if what == "unconstrained":
        S.check(raised, "refusals")
    S.check(handles(S) - base == (1 if user else 0), "no file stays open but the user's")
    if user:
        S.check(bool(user) and "PartType0" in list(user.keys()), "the user's handle stays usable")
        user.close()
    if not fail:
        check_file(S, fn, spec, n)


def direct(S, types):
    """The classes used directly, each opening the file by itself."""
    import numpy as np
    import swiftsimio
    from swiftsimio.metadata.objects import _metadata_discriminator

    cl.fresh(S)
    filelib.OPENED.clear()
    n = 2
    cells = masklib.Cells(S, (2, 1, 1), ["gas", "dark_matter"], {"gas": [1, 1], "dark_matter": [1, 1]}, [0, 1], [4.0] * 3)
    tree, spec = build(S, 0.5, NAMES, n, "cosmo", 1, cells=cells, free=[])
    if not types:
        for g in ("PartType0", "PartType1"):
            del tree.items[g]
        tree.items["Header"].attrs["NumPart_ThisFile"] = np.zeros(7, dtype=int)
    fn = filelib.put(S, tree)
    base = handles(S)
    C = "no file stays open but the user's"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u = swiftsimio.SWIFTUnits(fn)
        S.check(handles(S) == base, C)
        md = _metadata_discriminator(fn, u) if S.choice("units", [True, False]) else swiftsimio.SWIFTSnapshotMetadata(fn)
        S.check(handles(S) == base, C)
        m = None
        if S.choice("mask", [True, False]):
            m = swiftsimio.SWIFTMask(fn, metadata=md, safe_padding=0.0)
            S.check(handles(S) == base, C)
        d = swiftsimio.SWIFTDataset(fn, mask=m)
        S.check(handles(S) == base, C)
    if types:
        v = View(S, d, spec, {g: [0, 1] for g in ("gas", "dark_matter")}, 0.5)
        for f in FIELDS:
            v.read(f)
            S.check(handles(S) == base, C)
        check_file(S, fn, spec, n)


def setup():
    filelib.setup()


def hs():
    kw = dict(setup=setup, concrete_setup=cl.concrete_setup)
    e = ("the values are those stored", "no file stays open but the user's", "reading leaves the file as it was")
    R = ["read:masses", "read:HII", "read:other", "assign:masses", "assign:HII", "double:masses", "double:HII", "delete:masses", "delete:HII"]
    out = []
    for by in ("str", "path", "handle"):
        acts = R + (["close"] if by == "handle" else [])
        out.append(H(f"fields_{by}", sequence, f"any sequence of 3 of {acts} on a dataset loaded by {by}", quick=dict(steps=3, by=by, actions=acts), thorough=dict(steps=4, by=by, actions=acts), expect=e, bounds_thorough="4 operations", **kw))
        acts = ["read:masses", "first:masses", "double:masses", "load", "narrow", "convert"] + (["close"] if by == "handle" else [])
        out.append(H(f"masked_{by}", sequence, f"any sequence of 2 of {acts} with a mask, loaded by {by}", quick=dict(steps=2, by=by, actions=acts, masked=True), thorough=dict(steps=3, by=by, actions=acts, masked=True), expect=e, bounds_thorough="3 operations", **kw))
    out.append(H("direct", direct, "units, metadata, masks and datasets made without load and mask", quick=dict(types=True), expect=e, **kw))
    out.append(H("direct_empty", direct, "the same for a file without particles", quick=dict(types=False), expect=e[1:2], **kw))
    for by in ("str", "handle"):
        out.append(H(f"other_{by}", subset_and_mask, f"masks, subsets and validation by {by}", quick=dict(by=by, fail=None), expect=("no file stays open but the user's",), **kw))
        for fail in ("no cells", "no units", "no header", "unknown type"):
            out.append(H(f"broken_{fail.replace(' ', '_')}_{by}", subset_and_mask, f"files with {fail}, by {by}", quick=dict(by=by, fail=fail), expect=("no file stays open but the user's",), **kw))
    return out


HARNESSES = hs()
