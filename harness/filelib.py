"""Whole files: opened, written and read by swiftsimio itself.  In the solver's runs
h5py.File is an in-memory stand-in (one tree per file name, every opening has its own
handle that is false once closed); in replays the files are real."""

import itertools
import os
import pathlib
import types

_N = itertools.count()
FILES = {}
OPENED = []  # every handle on an in-memory file


def setup():
    from . import subsetlib
    from symex import unytsym
    import h5py

    subsetlib.setup()
    ns = types.SimpleNamespace(File=_open, SoftLink=h5py.SoftLink, HardLink=h5py.HardLink, Group=h5py.Group, Dataset=h5py.Dataset, is_hdf5=h5py.is_hdf5)
    import swiftsimio._handle_provider as hp
    import swiftsimio.metadata.objects as mo
    import swiftsimio.reader as rd
    import swiftsimio.snapshot_writer as wr
    import swiftsimio.subset_writer as sw

    for m in (hp, mo, wr, sw):
        m.h5py = ns
    for m in (mo, rd, wr):
        m.np = unytsym.UnytNp2()
    mo.int = __import__("symex.npshim", fromlist=["x"]).SymIntType
    wr.any = _any
    wr.float = unytsym.SymFloat2


def _any(it):
    for x in it:
        if x:
            return True
    return False


def _open(name, mode="r", **k):
    from symex.h5fake import FakeFile

    key = str(name)
    if mode == "w":
        FILES[key] = FakeFile(key)
        pathlib.Path(key).touch()
    elif key not in FILES:
        raise FileNotFoundError(key)
    OPENED.append(FILES[key].view())
    return OPENED[-1]


def path(tag="file"):
    return os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"{tag}{next(_N)}.hdf5")


def put(S, tree, tag="snap"):
    """Tree -> file name (in-memory, or a real file)."""
    fn = path(tag)
    if S.symbolic:
        from symex.h5fake import FakeFile

        FILES.clear()
        OPENED.clear()
        FILES[fn] = FakeFile(fn, tree)
        pathlib.Path(fn).touch()
    else:
        from symex.h5fake import write_real

        write_real(fn, tree)
    return fn


def contents(S, fn):
    """The file as an open handle."""
    if S.symbolic:
        return _open(fn)
    import h5py

    return h5py.File(fn, "r")


MPC, MSUN, GYR = 3.0856775814913674e24, 1.98841586e33, 3.15576e16


def units_group(S, L=MPC, M=1e10 * MSUN, t=GYR, I=1.0, T=1.0):
    import numpy as np
    from symex.h5fake import G

    return G({}, {"Unit mass in cgs (U_M)": np.array([M]), "Unit length in cgs (U_L)": np.array([L]), "Unit time in cgs (U_t)": np.array([t]), "Unit current in cgs (U_I)": np.array([I]), "Unit temperature in cgs (U_T)": np.array([T])})


def header(S, a, numbers, box=(4.0, 4.0, 4.0), output_type=None, has_type=None, files=1, **kw):
    import numpy as np
    from symex.h5fake import G

    h = {
        "Dimension": np.array([3]), "BoxSize": np.array(box), "Scale-factor": S.arr([a]), "Redshift": S.arr([1 / a - 1]), "Time": np.array([1.0]),
        "NumFilesPerSnapshot": np.array([files]), "MassTable": np.zeros(8), "InitialMassTable": np.zeros(8), "RunName": b"run",
    }
    if numbers is not None:
        h["NumPart_ThisFile"] = S.arr(numbers, dtype=int)
    if output_type is not None:
        h["OutputType"] = output_type
    if has_type is not None:
        h["CanHaveTypes"] = np.array(has_type)
    h.update(kw)
    return G({}, h)
