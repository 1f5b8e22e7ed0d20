"""Stand-ins for numpy functions whose C implementation refuses object arrays.
Each follows numpy's documentation; they replace numpy, never swiftsimio code."""

import numpy as np

from . import core, npshim
from .core import Sym
from .npshim import SArr, obj, _post

Unsupported = core.Unsupported


def _ite(c, x, y):
    if isinstance(c, (bool, np.bool_)):
        return x if c else y
    return core.ite(c, x, y)


def _add(vals):
    r = 0
    for v in vals:
        r = r + v
    return r


def _arr(vals, shape=None):
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    return (out if shape is None else out.reshape(shape)).view(SArr)


def _l(x):
    return list(obj(x).reshape(-1))


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xs, fs = _l(xp), _l(fp)
    left = fs[0] if left is None else left
    right = fs[-1] if right is None else right

    def one(v):
        r = _ite(v == xs[-1], fs[-1], right)
        for i in range(len(xs) - 2, -1, -1):
            seg = fs[i] + (fs[i + 1] - fs[i]) / (xs[i + 1] - xs[i]) * (v - xs[i])
            r = _ite(v < xs[i + 1], seg, r)
        return _ite(v < xs[0], left, r)

    o = obj(x)
    r = [one(v) for v in o.reshape(-1)]
    if o.shape == ():
        return r[0]
    return _arr(r, o.shape)


def _edges(a, bins, range_):
    if isinstance(bins, str):
        raise Unsupported("automatic bins")
    if np.ndim(bins) == 1:
        return _l(bins)
    n = int(_l(bins)[0])
    if range_ is not None:
        lo, hi = _l(range_[0])[0], _l(range_[1])[0]
    else:
        vs = _l(a)
        lo = hi = vs[0]
        for v in vs[1:]:
            lo, hi = _ite(v < lo, v, lo), _ite(v > hi, v, hi)
    if bool(lo == hi):
        lo, hi = lo - 0.5, hi + 0.5
    return [lo + (hi - lo) * k / n for k in range(n)] + [hi]


def _inbin(v, e, k):
    last = k == len(e) - 2
    c = (v >= e[k]) & ((v <= e[k + 1]) if last else (v < e[k + 1]))
    return c


def histogram_bin_edges(a, bins=10, range=None, weights=None):
    return _arr(_edges(a, bins, range))


def histogram(a, bins=10, range=None, density=None, weights=None):
    c, e = histogramdd([a], bins=[bins], range=None if range is None else [range], density=density, weights=weights)
    return c, e[0]


def histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    try:
        n = len(bins)
    except TypeError:
        n = 1
    if n != 2 and n != 1:
        bins = [bins, bins]
    if n == 1:
        bins = [bins, bins]
    c, e = histogramdd([x, y], bins=list(bins), range=range, density=density, weights=weights)
    return c, e[0], e[1]


def histogramdd(sample, bins=10, range=None, density=None, weights=None):
    if isinstance(sample, np.ndarray) and sample.ndim == 2:
        sample = [sample[:, i] for i in np.arange(sample.shape[1])]
    D = len(sample)
    if np.ndim(bins) == 0:
        bins = [bins] * D
    es = [_edges(s, b, None if range is None else range[i]) for i, (s, b) in enumerate(zip(sample, bins))]
    vs = [_l(s) for s in sample]
    w = [1] * len(vs[0]) if weights is None else _l(weights)
    shape = tuple(len(e) - 1 for e in es)
    out = []
    for ix in np.ndindex(*shape):
        t = 0
        for j in np.arange(len(vs[0])):
            c = True
            for d in np.arange(D):
                b = _inbin(vs[d][j], es[d], ix[d])
                c = b if c is True else c & b
            t = t + _ite(c, w[j], 0 * w[j])
        out.append(t)
    if density:
        s = _add(out)
        k = 0
        for ix in np.ndindex(*shape):
            vol = 1
            for d in np.arange(D):
                vol = vol * (es[d][ix[d] + 1] - es[d][ix[d]])
            out[k] = out[k] / vol / s
            k += 1
    return _arr(out, shape), [_arr(e) for e in es]


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def _mats(a):
    o = obj(a)
    return o.reshape((-1,) + o.shape[-2:]), o.shape[:-2]


def det(a):
    ms, sh = _mats(a)
    r = [_det([list(x) for x in m]) for m in ms]
    return r[0] if sh == () else _arr(r, sh)


def _inv(m):
    n = len(m)
    d = _det(m)
    if n == 1:
        return [[1 / d]]
    c = [[_det([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]) for j in range(n)] for i in range(n)]
    return [[(c[j][i] if (i + j) % 2 == 0 else -c[j][i]) / d for j in range(n)] for i in range(n)]


def inv(a):
    ms, sh = _mats(a)
    r = [_inv([list(x) for x in m]) for m in ms]
    return _arr([v for m in r for row in m for v in row], obj(a).shape)


def solve(a, b):
    if np.ndim(a) != 2 or np.ndim(b) != 1:
        raise Unsupported("stacked solve")
    m = _inv([list(x) for x in obj(a)])
    bs = _l(b)
    return _arr([_add([row[j] * bs[j] for j in range(len(bs))]) for row in m])


def digitize(x, bins, right=False):
    bs = _l(bins)

    def one(v):
        return _add([_ite((v > b) if right else (v >= b), 1, 0) for b in bs])

    o = obj(x)
    r = [one(v) for v in o.reshape(-1)]
    return r[0] if o.shape == () else _arr(r, o.shape)


def _nan(name):
    """No stand-in value is NaN, so nan-functions are the plain ones."""

    def f(*a, **k):
        return getattr(np, name)(*a, **k)

    return f


EXTRA = {f.__name__: f for f in (interp, histogram, histogram2d, histogramdd, histogram_bin_edges, digitize)}
for _n, _p in (("nansum", "sum"), ("nanmax", "max"), ("nanmin", "min"), ("nanmean", "mean"), ("nanmedian", "median"), ("nanpercentile", "percentile"), ("nanquantile", "quantile"), ("nanstd", "std"), ("nanvar", "var"), ("nanprod", "prod"), ("nancumsum", "cumsum")):
    EXTRA[_n] = _nan(_p)


def _one(a):
    """Matrices of one element, for which LAPACK's decompositions are arithmetic."""
    o = obj(a)
    if o.shape != (1, 1):
        raise Unsupported("decomposition of more than one element")
    return o.reshape(-1)[0]


def pinv(a, rcond=None, hermitian=False, **k):
    return inv(a)  # callers keep away from singular matrices


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    v = _one(a)
    neg = v < 0
    s = _arr([_ite(neg, -v, v)])
    if not compute_uv:
        return s
    return _arr([_ite(neg, -1, 1)], (1, 1)), s, _arr([1], (1, 1))


def eigvals(a, UPLO="L"):
    return _arr([_one(a)])


def eig(a, UPLO="L"):
    return eigvals(a), np.ones((1, 1))


def lstsq(a, b, rcond=None):
    v = _one(a)
    w = obj(b).reshape(-1)
    return _arr([w[0] / v], obj(b).shape), np.zeros(0), 1, svd(a, compute_uv=False)


def tensorinv(a, ind=2):
    return _arr([1 / _one(a)], (1, 1))


def tensorsolve(a, b, axes=None):
    return _arr([obj(b).reshape(-1)[0] / _one(a)], obj(b).shape)


def _dft(scale, axes=None):
    """The transforms of one or two samples along an axis are real."""

    def one(o, ax):
        n = o.shape[ax]
        if n == 1:
            return o
        if n != 2:
            raise Unsupported("transform of more than two samples")
        u, v = np.take(o, [0], axis=ax), np.take(o, [1], axis=ax)
        r = np.concatenate([u + v, u - v], axis=ax)
        return r * 0.5 if scale == "inverse" else r

    def f(a, *args, **k):
        if args or k:
            raise Unsupported("options of a Fourier transform")
        o = np.asarray(obj(a))
        ax = [-1] if axes is None else list(range(o.ndim))[-axes:] if axes else list(range(o.ndim))
        for i in ax:
            o = one(o, i)
        return o.view(npshim.SArr)

    return f


FFT = {}
for _p, _s in (("", "forward"), ("i", "inverse")):
    for _r in ("", "r"):
        for _n, _ax in (("fft", None), ("fft2", 2), ("fftn", 0)):
            FFT[_p + _r + _n] = _dft(_s, _ax)
FFT["hfft"], FFT["ihfft"] = _dft("forward"), _dft("inverse")
for _n, _f in FFT.items():
    npshim._AF[getattr(np.fft, _n)] = _f
LINALG = {"det": det, "inv": inv, "solve": solve, "pinv": pinv, "svd": svd, "eig": eig, "eigh": eig, "eigvals": eigvals, "eigvalsh": eigvals, "lstsq": lstsq, "tensorinv": tensorinv, "tensorsolve": tensorsolve}
for _n, _f in EXTRA.items():
    npshim._AF[getattr(np, _n)] = _f
for _n, _f in LINALG.items():
    npshim._AF[getattr(np.linalg, _n)] = _f
