"""In-memory stand-in for h5py files holding symbolic data, and the writer of the
same tree into a real file for concrete replay."""

import numpy as np

try:
    import h5py
except ImportError:  # pragma: no cover
    h5py = None

from .core import Sym
from .npshim import SArr, carry as npcarry, conc_index, has_sym, real_dtype


class D:
    """Dataset description."""

    def __init__(self, data, dtype=None, chunks=None, attrs=None, carry=False):
        self.data, self.dtype, self.chunks, self.attrs = data, dtype, chunks, dict(attrs or {})
        if carry and isinstance(data, np.ndarray):  # arrays read from it remember dtype
            self.data = npcarry(np.ndarray.view(data, np.ndarray), dtype).view(type(data))


class G:
    """Group description: items is name -> G or D or L."""

    def __init__(self, items=None, attrs=None):
        self.items, self.attrs = dict(items or {}), dict(attrs or {})


class L:
    """Soft link."""

    def __init__(self, path):
        self.path = path


class Attrs(dict):
    def create(self, name, data, **k):
        self[name] = _attr_value(data)

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return v.copy() if isinstance(v, np.ndarray) else v


def _attr_value(data):
    """What h5py stores: the bare numbers (an array, or a scalar)."""
    if isinstance(data, (str, bytes)):
        return data
    if isinstance(data, (list, tuple)):
        data = [_attr_value(x) for x in data]
        data = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in data]
        return _oarr(data)
    if isinstance(data, np.ndarray):
        data = data.view(np.ndarray).copy()
        if data.ndim == 0:
            return data.item()
        return data.view(SArr) if data.dtype == object else data
    return data


def _oarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return x
    if has_sym(x):
        a = np.array(x, dtype=object)
        return a.view(SArr)
    return np.array(x)


class FakeDataset(h5py.Dataset):
    def __init__(self, data, dtype=None, chunks=None, attrs=None, name="", file=None):
        d = dict(
            _data=_oarr(data),
            _dt=np.dtype(real_dtype(dtype)) if dtype is not None else None,
            _chunks=chunks,
            _attrs_=Attrs(attrs or {}),
            _nm=name,
            _fl=file,
        )
        object.__setattr__(self, "_f", d)

    def __getattr__(self, n):
        raise AttributeError(n)

    shape = property(lambda s: s._f["_data"].shape)
    ndim = property(lambda s: s._f["_data"].ndim)
    size = property(lambda s: s._f["_data"].size)
    chunks = property(lambda s: s._f["_chunks"])
    attrs = property(lambda s: s._f["_attrs_"])
    name = property(lambda s: s._f["_nm"])
    file = property(lambda s: s._f["_fl"])
    compression = property(lambda s: None)
    maxshape = shape
    id = property(lambda s: None)

    @property
    def dtype(self):
        d = self._f["_dt"]
        if d is not None:
            return d
        dd = self._f["_data"].dtype
        return np.dtype(float) if dd == object else dd

    def __getitem__(self, ix, **k):
        r = self._f["_data"][conc_index(ix) if not isinstance(ix, (str, bytes)) else ix]
        return r.copy() if isinstance(r, np.ndarray) else _Scalar.of(r, self.dtype)

    def __setitem__(self, ix, v):
        self._f["_data"][conc_index(ix)] = v

    def __array__(self, dtype=None, copy=None):
        return np.array(self._f["_data"].view(np.ndarray))

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        return iter(self._f["_data"])

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<FakeDataset {self.name} {self.shape}>"

    def len(self):
        return self.shape[0]

    def astype(self, dt):
        return self

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        src = self._f["_data"][conc_index(source_sel) if source_sel is not None else Ellipsis]
        dsel = conc_index(dest_sel) if dest_sel is not None else Ellipsis
        d = np.ndarray.__getitem__(dest.view(np.ndarray), dsel)
        # h5py: the two selections must have the same number of elements
        if np.size(src) != np.size(d):
            raise TypeError(f"Can't broadcast {np.shape(src)} -> {np.shape(d)}")
        d[...] = np.asarray(src).reshape(d.shape)

    def write_direct(self, source, source_sel=None, dest_sel=None):
        s = source[source_sel if source_sel is not None else Ellipsis]
        self._f["_data"][dest_sel if dest_sel is not None else Ellipsis] = s


class _Scalar:
    @staticmethod
    def of(v, dt):
        return v


class FakeGroup(h5py.Group):
    def __init__(self, name="/", file=None, attrs=None):
        object.__setattr__(self, "_f", dict(items={}, attrs=Attrs(attrs or {}), name=name, file=file))

    def __getattr__(self, n):
        raise AttributeError(n)

    attrs = property(lambda s: s._f["attrs"])
    name = property(lambda s: s._f["name"])
    file = property(lambda s: s._root())
    id = property(lambda s: None)

    def _root(self):
        f = self._f["file"]
        return self if f is None else f

    def _walk(self, path, create=False):
        node = self
        if path.startswith("/"):
            node = self._root()
        parts = [p for p in path.split("/") if p]
        for p in parts:
            if not isinstance(node, FakeGroup):
                raise KeyError(path)
            it = node._f["items"]
            if p not in it:
                if create:
                    nm = node.name.rstrip("/") + "/" + p
                    it[p] = FakeGroup(nm, self._root())
                else:
                    raise KeyError(f"Unable to open object (object '{p}' doesn't exist)")
            node = it[p]
            if isinstance(node, h5py.SoftLink):
                node = self._root()._walk(node.path)
        return node

    def __getitem__(self, path):
        if isinstance(path, bytes):
            path = path.decode()
        return self._walk(path)

    def get(self, path, default=None, getclass=False, getlink=False):
        try:
            if getlink:
                parts = [p for p in path.split("/") if p]
                parent = self._walk(("/" if path.startswith("/") else "") + "/".join(parts[:-1])) if parts[:-1] or path.startswith("/") else self
                if parts[-1] not in parent._f["items"]:
                    raise KeyError(path)
                x = parent._f["items"][parts[-1]]
                return x if isinstance(x, h5py.SoftLink) else h5py.HardLink()
            return self._walk(path)
        except KeyError:
            return default

    def __setitem__(self, path, v):
        parts = [p for p in path.split("/") if p]
        parent = self._walk(("/" if path.startswith("/") else "") + "/".join(parts[:-1]), create=True)
        nm = parent.name.rstrip("/") + "/" + parts[-1]
        if parts[-1] in parent._f["items"]:
            raise OSError("Unable to create link (name already exists)")
        if isinstance(v, (FakeGroup, FakeDataset, h5py.SoftLink)):
            parent._f["items"][parts[-1]] = v
        else:
            parent._f["items"][parts[-1]] = FakeDataset(np.array(v, dtype=object).view(SArr) if has_sym(v) else v, name=nm, file=self._root())

    def __delitem__(self, p):
        del self._f["items"][p]

    def __contains__(self, path):
        try:
            self._walk(path)
            return True
        except KeyError:
            return False

    def keys(self):
        return list(self._f["items"].keys())

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._f["items"])

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<FakeGroup {self.name}>"

    def create_group(self, path, **k):
        if path in self:
            raise ValueError("Unable to create group (name already exists)")
        return self._walk(path, create=True)

    def require_group(self, path):
        return self._walk(path, create=True)

    def create_dataset(self, name, shape=None, dtype=None, data=None, chunks=None, **k):
        if data is None:
            data = np.zeros(shape, dtype=dtype or float)
        data = _oarr(data)
        if dtype is None:
            dtype = getattr(data, "_rdt", None)
        data = data.view(np.ndarray).copy()
        if data.dtype == object:
            data = data.view(SArr)
        parts = [p for p in name.split("/") if p]
        parent = self._walk(("/" if name.startswith("/") else "") + "/".join(parts[:-1]), create=True)
        ds = FakeDataset(data, dtype=dtype, chunks=chunks, name=parent.name.rstrip("/") + "/" + parts[-1], file=self._root())
        parent[parts[-1]] = ds
        return ds

    def copy(self, source, dest, name=None, **k):
        src = self[source] if isinstance(source, str) else source
        name = name or src.name.split("/")[-1]
        if isinstance(src, FakeDataset):
            x = dest.create_dataset(name, data=src._f["_data"], dtype=src._f["_dt"], chunks=src.chunks)
            x.attrs.update(src.attrs)
        else:
            g = dest.create_group(name)
            g.attrs.update(src.attrs)
            for key, it in src._f["items"].items():
                if isinstance(it, h5py.SoftLink):
                    g[key] = it
                else:
                    src.copy(key, g, name=key)

    def visititems(self, fn):
        for k, v in self.items():
            r = fn(k, v)
            if r is not None:
                return r


class FakeFile(FakeGroup, h5py.File):
    """isinstance h5py.File, but purely in memory."""

    def __init__(self, filename="fake.hdf5", tree=None):
        FakeGroup.__init__(self)
        self._f["filename"] = filename
        self._f["open"] = True
        if tree is not None:
            fill(self, tree)

    filename = property(lambda s: s._f["filename"])
    mode = property(lambda s: "r+")

    def view(self):
        """Another handle on the same file."""
        v = FakeFile.__new__(FakeFile)
        object.__setattr__(v, "_f", {**self._f, "open": True, "file": self._root()})
        return v

    def close(self):
        self._f["open"] = False

    def flush(self):
        pass

    def __bool__(self):
        return self._f["open"]

    def _walk(self, path, create=False):
        if not self._f["open"]:
            raise ValueError("Invalid location identifier (file is closed)")
        return FakeGroup._walk(self, path, create)

    def keys(self):
        if not self._f["open"]:
            raise ValueError("Invalid location identifier (file is closed)")
        return FakeGroup.keys(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class PlainGroup:
    """Not an h5py object (as for remote files): same content by delegation."""


def fill(grp, tree):
    grp.attrs.update(tree.attrs)
    for k, v in tree.items.items():
        if isinstance(v, G):
            parts = k.split("/")
            g = grp._walk("/".join(parts), create=True) if isinstance(grp, FakeGroup) else grp.create_group(k)
            fill(g, v)
        elif isinstance(v, D):
            ds = grp.create_dataset(k, data=v.data, dtype=v.dtype, chunks=v.chunks)
            ds.attrs.update(v.attrs)
        elif isinstance(v, L):
            grp[k] = h5py.SoftLink(v.path)


def write_real(path, tree):
    with h5py.File(path, "w") as f:
        _fill_real(f, tree)


def _fill_real(grp, tree):
    for k, v in tree.attrs.items():
        grp.attrs[k] = v
    for k, v in tree.items.items():
        if isinstance(v, G):
            _fill_real(grp.require_group(k), v)
        elif isinstance(v, D):
            data = np.array(v.data)
            if data.dtype == object:
                data = data.astype(float)
            if v.dtype is not None:
                data = data.astype(v.dtype)
            ds = grp.create_dataset(k, data=data, chunks=v.chunks)
            for a, b in v.attrs.items():
                ds.attrs[a] = b
        elif isinstance(v, L):
            grp[k] = h5py.SoftLink(v.path)
