"""Shared by the visualisation checks: the backends with a symbolic stand-in for the
smoothing kernel, and image arrays that notice every out-of-range access."""

import importlib
import types

import numpy as np
import z3

BASE = "swiftsimio.visualisation."
PROJ = ["fast", "renormalised", "subsampled", "subsampled_extreme", "reference", "histogram"]
EDGE = 0.98  # beyond this fraction of the kernel radius the kernel counts as zero (it is below 1e-6 of its centre)

ASSUME_KERNEL = "The smoothing kernel is a stand-in: an arbitrary positive number that depends on distance and radius only and is zero from 98% of the radius on (the real kernel is below 1e-6 of its central value there; C23 decides the real kernel). Reals stand for floats, so nothing is claimed for positions within rounding error of a pixel edge."
ASSUME_JIT = "The functions are executed from their Python source, not from numba's machine code (replays do run the compiled code, except for index and thread-count replays)."


def modules():
    r = {n: importlib.import_module(BASE + "projection_backends." + n) for n in PROJ}
    r["slice"] = importlib.import_module(BASE + "slice_backends.sph")
    r["volume"] = importlib.import_module(BASE + "volume_render_backends.scatter")
    r["power"] = importlib.import_module(BASE + "power_spectrum")
    return r


# ---------------------------------------------------------------- stand-ins
def _som(e):
    return z3.simplify(e, som=True, sort_sums=True)


def make_lazy_root():
    from symex.core import SymReal, ctx

    class LazyRoot(SymReal):
        """sqrt(d2) whose defining constraint is only added when it is really used."""

        __slots__ = ("d2", "_mat")

        def __init__(self, d2):
            self.d2 = d2
            self._mat = None

        @property
        def e(self):
            if self._mat is None:
                self._mat = ctx().root(self.d2, 2)
            return self._mat

    return LazyRoot


_LAZY = [None]


class Acc:
    """Indices seen by checked images."""

    hook = None


def make_proxy():
    from symex import npshim
    from symex.core import Sym, SymNum, to_real

    _LAZY[0] = make_lazy_root()

    class Grid(npshim.SArr):
        def __getitem__(self, ix):
            _see(self, ix)
            return npshim.SArr.__getitem__(self, ix)

        def __setitem__(self, ix, v):
            _see(self, ix)
            npshim.SArr.__setitem__(self, ix, v)

    class VisProxy(npshim.NpProxy):
        def sqrt(self, x):
            from symex.core import _unwrap

            x = _unwrap(x)
            if isinstance(x, SymNum):
                return _LAZY[0](z3.simplify(x.as_real()))
            return npshim.NpProxy.__getattr__(self, "sqrt")(x)

        def zeros(self, shape, dtype=None, **k):
            r = npshim.NpProxy.zeros(self, shape, dtype, **k)
            return r.view(Grid) if isinstance(r, npshim.SArr) else r

    return VisProxy()


def _see(arr, ix):
    if Acc.hook is None:
        return
    from symex.core import SymNum

    t = ix if isinstance(ix, tuple) else (ix,)
    if len(t) != arr.ndim:
        return
    for i, n in zip(t, arr.shape):
        if isinstance(i, (int, np.integer, SymNum)):
            Acc.hook(i, n)


def kernel_standin(real):
    def kernel(r, H):
        from symex.core import Sym, to_real

        if type(r) is _LAZY[0]:
            Hs = z3.simplify(to_real(H))
            if z3.is_rational_value(r.d2) and z3.is_rational_value(Hs):
                return real(float(np.sqrt(float(r.d2.as_fraction()))), float(Hs.as_fraction()))
            return kvalue(r.d2, to_real(H))
        return real(r, H)

    return kernel


EAGER = [False]  # give the kernel facts to the solver at once (needed where code divides by kernel sums)


def kvalue(d2, H):
    """The kernel at squared distance d2 for radius H: one number per (d2, H)."""
    from symex.core import SymReal, ctx

    p = ctx()
    tab = p.__dict__.setdefault("kernel_table", {})
    sq = squares(d2)
    d2, H = _som(d2), _som(H)
    key = (d2.get_id(), H.get_id())
    if key not in tab:
        tab[key] = (z3.Real(f"kern!{len(tab)}"), d2, H, sq, [False])
        if EAGER[0]:
            kernel_facts()
    return SymReal(tab[key][0])


def squares(e):
    """t1, t2, .. when e is written t1*t1 + t2*t2 + .., plus constants."""
    out = []
    for c in e.children() if z3.is_add(e) else [e]:
        if z3.is_rational_value(c):
            continue
        if z3.is_mul(c) and c.num_args() == 2 and c.arg(0).eq(c.arg(1)):
            out.append(c.arg(0))
        else:
            return None
    return out


def constant_rest(d2, sq):
    """d2 minus the squares, when that is a non-negative constant."""
    if sq is None:
        return None
    r = _som(d2 - sum([t * t for t in sq], z3.RealVal(0)))
    return float(r.as_fraction()) if z3.is_rational_value(r) and r.as_fraction() >= 0 else None


def kernel_facts():
    """Give the solver what is known about the kernel values used so far: non-negative,
    zero from EDGE times the radius on, positive inside; plus linear consequences."""
    from symex.core import ctx, rv

    p = ctx()
    for k, d2, H, sq, done in p.__dict__.get("kernel_table", {}).values():
        if not done[0]:
            done[0] = True
            p.add(k >= 0)
            far = d2 >= rv(EDGE) * rv(EDGE) * H * H
            p.add(z3.If(far, k == 0, k > 0))
            for t in sq or ():
                p.add(z3.Implies(z3.Or(t >= H, -t >= H), k == 0))
            rest = constant_rest(d2, sq)
            if rest is not None:
                ts = [*sq, rv(np.sqrt(rest) * (1 + 1e-9))] if rest else sq
                if 0 < len(ts) <= 3:
                    c = rv({1: 0.97, 2: 0.69, 3: 0.56}[len(ts)]) * H  # len * c^2 < EDGE^2 H^2
                    p.add(z3.Implies(z3.And(*[z3.And(t <= c, -t <= c) for t in ts]), k > 0))


REAL = {}


def known_kernels():
    ks = importlib.import_module(BASE + "projection_backends.kernels")
    sl = importlib.import_module(BASE + "slice_backends.sph")
    out = [v for n, v in vars(ks).items() if n.startswith("kernel") and callable(v)]
    out += [v for n, v in vars(sl).items() if n == "kernel" and callable(v)]
    return [k for k in out if not isinstance(k, np.generic)]


def setup():
    from symex import shim

    kernels = known_kernels()
    proxy = make_proxy()
    for name, m in modules().items():
        shim.install(m)
        g = m.__dict__
        for k, v in list(g.items()):
            if any(v is x for x in kernels):
                g[k] = kernel_standin(v)
        g["np"] = proxy
    # bounds: fewer kernel samples per pixel in the sub-sampling backends
    for name, swap in (("subsampled", {16: 1, 32: 1}), ("subsampled_extreme", {32: 1, 64: 1})):
        m = modules()[name]
        f = m.scatter
        if set(swap) <= {c for c in f.__code__.co_consts if type(c) is int}:
            consts = tuple(swap.get(c, c) if type(c) is int else c for c in f.__code__.co_consts)
            f.__code__ = f.__code__.replace(co_consts=consts)
            REDUCED.add(name)


def setup_eager():
    setup()
    EAGER[0] = True


REDUCED = set()


def nonneg(S, v):
    from symex.core import Sym

    if S.symbolic and isinstance(v, Sym):
        kernel_facts()
    return v >= 0


def need_reduced(S, name):
    if S.symbolic and name.startswith("subsampled") and name not in REDUCED:
        from symex.core import Unsupported

        raise Unsupported("sampling constants of the sub-sampling backend not found")


# ---------------------------------------------------------------- calls
def gamma(name):
    m = modules()
    g = getattr(m[name], "kernel_gamma", None)
    if g is None:
        g = m["slice"].kernel_gamma
    return float(g)


def vec(S, vals, dt=float):
    return S.arr(list(vals), dtype=dt)


def project(S, name, parts, res, box=(0.0, 0.0), parallel=False):
    """parts: list of (x, y, m, h)."""
    need_reduced(S, name)
    m = modules()[name]
    f = m.scatter_parallel if parallel else m.scatter
    a = [vec(S, [p[i] for p in parts]) for i in range(4)]
    return f(x=a[0], y=a[1], m=a[2], h=a[3], res=res, box_x=box[0], box_y=box[1])


def slice_(S, parts, res, zs, box=(0.0, 0.0, 0.0), parallel=False):
    """parts: (x, y, z, m, h); res: (xres, yres)."""
    m = modules()["slice"]
    f = m.slice_scatter_parallel if parallel else m.slice_scatter
    a = [vec(S, [p[i] for p in parts]) for i in range(5)]
    return f(x=a[0], y=a[1], z=a[2], m=a[3], h=a[4], z_slice=zs, xres=res[0], yres=res[1], box_x=box[0], box_y=box[1], box_z=box[2])


def volume(S, parts, res, box=(0.0, 0.0, 0.0), ratio=None, parallel=False):
    m = modules()["volume"]
    a = [vec(S, [p[i] for p in parts]) for i in range(5)]
    kw = dict(x=a[0], y=a[1], z=a[2], m=a[3], h=a[4], res=res, box_x=box[0], box_y=box[1], box_z=box[2])
    if parallel:
        return m.scatter_parallel(res_ratio_z=ratio or 1, **kw)
    if ratio is None:
        return m.scatter(**kw)
    return m.scatter_limited_z(res_ratio_z=ratio, **kw)


def kern(S, name, ds, H):
    """The kernel of the backend at displacement ds (a tuple) for radius H."""
    d2 = sum((d * d for d in ds[1:]), ds[0] * ds[0])
    if S.symbolic:
        from symex.core import to_real

        return kvalue(to_real(d2), to_real(H))
    m = modules()[name]
    f = getattr(m, "kernel", None) or modules()["slice"].kernel
    r = np.sqrt(d2)
    if r >= EDGE * H:
        return 0.0
    return float(f(r, H))


def same(S, a, b, scale=1.0):
    if S.symbolic:
        from symex.core import rv, to_real

        d = z3.simplify(to_real(a) - to_real(b), som=True, sort_sums=True)
        if z3.is_rational_value(d):
            return abs(d.as_fraction()) <= 1e-6 * scale
        kernel_facts()
        return S.eq(a, b)
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-9 * scale + 2e-3 * max(abs(a), abs(b)) + 1e-5 * scale


def floor(S, v):
    if S.symbolic:
        from symex.core import SymNum

        if isinstance(v, SymNum):
            return v.__floor__()
    return int(np.floor(v))


class ConcGrid(np.ndarray):
    def __getitem__(self, ix):
        _see(self, ix)
        return np.ndarray.__getitem__(self, ix)

    def __setitem__(self, ix, v):
        _see(self, ix)
        np.ndarray.__setitem__(self, ix, v)


class ConcProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        return getattr(np, n)

    def zeros(self, *a, **k):
        return np.zeros(*a, **k).view(ConcGrid)


def concrete_python():
    """Replays that look at indices or thread numbers run the Python source."""
    for m in modules().values():
        for n, v in list(vars(m).items()):
            if hasattr(v, "py_func") and not n.startswith("kernel"):
                setattr(m, n, v.py_func)


def concrete_guard():
    concrete_python()
    for m in modules().values():
        m.np = ConcProxy()
