"""Shared pieces of the subset-writer harnesses: whole source files (cell table,
datasets, metadata groups, links) as trees, and the writer run on them."""

import os
import types

from . import masklib
from .c05 import attrs

_OUT = []


def setup():
    masklib.setup()
    from symex import shim
    from symex.h5fake import FakeFile
    import h5py
    import swiftsimio.subset_writer as sw

    shim.install(sw)

    def File(name, mode="r", **k):
        _OUT.append(FakeFile(name))
        return _OUT[-1].view()

    sw.h5py = types.SimpleNamespace(File=File, SoftLink=h5py.SoftLink, Group=h5py.Group, Dataset=h5py.Dataset, HardLink=h5py.HardLink)


def write(S, mask, **kw):
    """Run the real writer; the file it wrote."""
    import swiftsimio.subset_writer as sw

    if S.symbolic:
        del _OUT[:]
        sw.write_subset("subset.hdf5", mask, **kw)
        return _OUT[-1].view()
    import h5py

    masklib._N[0] += 1
    fn = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"subset{masklib._N[0]}.hdf5")
    sw.write_subset(fn, mask, **kw)
    return h5py.File(fn, "r")


def header(S, cells, output_type, numbers=None):
    from symex.h5fake import G

    num = [0] * 7
    for g in cells.groups:
        num[int(masklib.GROUPS[g][-1])] = cells.total[g]
    h = {"NumPart_ThisFile": S.arr(num, dtype=int), "Dimension": S.arr([3], dtype=int), "Code": b"SWIFT"}
    if output_type in ("SOAP", "SOAPSubset"):
        h = {"NumSubhalos_ThisFile": S.arr([cells.total[cells.groups[0]]], dtype=int), "Dimension": S.arr([3], dtype=int)}
    if output_type is not None:
        h["OutputType"] = output_type
    return G({}, h)


def region(S, mask, a):
    """Constrain by any region on x (whole box on the other axes)."""
    from .c03 import to_cosmo

    lo = S.real("lo", 0, 3.75)
    hi = S.real("hi", 0.25, 4)
    S.assume(lo <= hi)
    mask.constrain_spatial(to_cosmo(S, [(lo, hi), None, None], a))


def pattern(S, mask, cells, names):
    """Constrain by any boolean pattern over the rows."""
    import warnings

    mask.convert_masks_to_bool()
    keep = {}
    for g in names:
        keep[g] = [S.bool(f"keep_{g}{i}") for i in range(S.split(cells.total[g]))]
        m = getattr(mask, g)
        for i, k in enumerate(keep[g]):
            m[i] = k
    mask.constrained = "constrain_property"
    return keep
