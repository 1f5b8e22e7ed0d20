"""Shared pieces of the mask harnesses: a symbolic snapshot cell table, a stand-in
metadata object (attributes only), and a real SWIFTMask over them."""

import contextlib
import os
import types


def setup():
    from symex import shim, unytsym
    import swiftsimio  # noqa: F401

    unytsym.install()
    import swiftsimio.accelerated as acc
    import swiftsimio._ordered_slices as osl
    import swiftsimio.masks as m
    import swiftsimio.metadata.field.attr_reader as ar

    shim.install(acc)
    shim.install(osl)
    m.np = unytsym.UnytNp2()
    m.min, m.max = shim._min, shim._max
    m.float, m.int = unytsym.SymFloat2, __import__("symex.npshim", fromlist=["x"]).SymIntType
    ar.np = unytsym.UnytNp2()


GROUPS = {"gas": "PartType0", "dark_matter": "PartType1", "stars": "PartType4"}
_N = [0]


def open_tree(S, tree, name="mask"):
    """Tree -> file handle (in-memory stand-in, or a real HDF5 file)."""
    if S.symbolic:
        from symex.h5fake import FakeFile

        return FakeFile(f"{name}.hdf5", tree)
    import h5py
    from symex.h5fake import write_real

    _N[0] += 1
    fn = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"{name}{_N[0]}.hdf5")
    write_real(fn, tree)
    return h5py.File(fn, "r")


class Cells:
    """dims: cells per axis.  counts[g][c], file order `order` (list of cell
    indices in file order), offsets follow."""

    def __init__(self, S, dims, groups, counts, order, box, extents=None, widths=None):
        self.dims, self.groups, self.counts, self.order, self.box = dims, groups, counts, order, box
        n = dims[0] * dims[1] * dims[2]
        self.n = n
        self.size = [box[d] / dims[d] for d in range(3)]
        self.centres = []
        for i in range(dims[0]):
            for j in range(dims[1]):
                for k in range(dims[2]):
                    self.centres.append([(x + 0.5) * s for x, s in zip((i, j, k), self.size)])
        self.extents = extents  # {g: [ ([lo]*3,[hi]*3) per cell ]} or None
        self.offsets = {}
        for g in groups:
            off = [None] * n
            run = 0
            for c in order:
                off[c] = run
                run = run + counts[g][c]
            self.offsets[g] = off
        self.total = {g: sum(counts[g]) for g in groups}

    def tree(self, S, filenames=GROUPS, offsets_name="OffsetsInFile", extra=None, counts_key=None):
        from symex.h5fake import D, G

        key = counts_key or (lambda g: filenames[g])
        items = {
            "Centres": D(S.arr(self.centres)),
            "Counts": G({key(g): D(S.arr(self.counts[g], dtype=int), dtype=int) for g in self.groups}),
            offsets_name: G({key(g): D(S.arr(self.offsets[g], dtype=int), dtype=int) for g in self.groups}),
            "Meta-data": G({}, {"size": S.arr(self.size)}),
        }
        if self.extents is not None:
            items["MinPositions"] = G({key(g): D(S.arr([e[0] for e in self.extents[g]])) for g in self.groups})
            items["MaxPositions"] = G({key(g): D(S.arr([e[1] for e in self.extents[g]])) for g in self.groups})
        return G({"Cells": G(items), **(extra or {})})


def make_metadata(S, cells, handle, a, output_type="FULLBOX", shared=None, filenames=GROUPS, numbers=None, props=None):
    import unyt
    from swiftsimio.objects import cosmo_array

    md = types.SimpleNamespace()
    md.units = types.SimpleNamespace(length=unyt.Mpc, mass=unyt.Msun, time=unyt.Gyr, temperature=unyt.K, current=unyt.A)
    md.masking_valid = True
    md.partial_snapshot = False
    md.shared_cell_counts = shared
    md.present_group_names = list(cells.groups)
    md.present_groups = [filenames[g] for g in cells.groups]
    md.output_type = output_type
    md.homogeneous_arrays = output_type in ("FOF", "SOAP")
    md.scale_factor = a
    md.a = a
    md.boxsize = cosmo_array(S.arr(cells.box), unyt.Mpc, comoving=True, scale_factor=a, scale_exponent=1)
    if shared is not None:
        setattr(md, f"n_{shared.lower()}", cells.total[cells.groups[0]])
    for g in cells.groups:
        setattr(md, f"n_{g}", cells.total[g])
    for g, p in (props or {}).items():
        setattr(md, f"{g}_properties", p)

    @contextlib.contextmanager
    def open_file():
        yield handle

    md.open_file = open_file
    return md


def make_mask(S, cells, a, handle=None, padding=0.1, **kw):
    import warnings
    from swiftsimio.masks import SWIFTMask

    tree_kw = kw.pop("tree_kw", {})
    handle = handle if handle is not None else open_tree(S, cells.tree(S, **tree_kw))
    md = make_metadata(S, cells, handle, a, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = SWIFTMask("mask.hdf5", md, safe_padding=padding, handle=handle)
    return m, md, handle


def selected_in(S, ranges, row):
    """Is the (possibly symbolic) row inside one of the ranges?"""
    from symex.core import sand, sor

    out = []
    for r in ranges:
        out.append(sand(r[0] <= row, row < r[1]))
    return sor(out) if out else False


def rows_of(S, m, g):
    """List of selected rows in selection order (splits symbolic numbers)."""
    import numpy as np

    v = getattr(m, g)
    if m.range_mask:
        out = []
        for r in v:
            out.extend(range(S.split(r[0]), S.split(r[1])))
        return [int(x) for x in out]
    return [i for i, x in enumerate(list(v)) if bool(x)]
