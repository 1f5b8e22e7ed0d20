"""C34: power spectra measure the fluctuations of the mesh."""

import itertools
import math
import types
from fractions import Fraction

import numpy as np

from symex.registry import H
from . import cosmolib as cl
from . import vislib as vl

ASSUMPTIONS = [
    "The discrete Fourier transform (scipy, C code) is replaced by its definition in the solver's runs, for 2 and 4 cells a side, where its coefficients are exact.",
    "Cells of the mesh are symbolic, in harnesses named so around a stated mean; boxes are cubes of 8 Mpc, a = 1/2, bins a few stated ones that no mode lies on the edge of.",
]
POWER = "the power in a bin is the volume times the mean of |delta_k|^2 over its modes"
COUNT = "the modes in a bin are those with wavenumbers between its edges"
WAVE = "the wavenumber of a bin is the mean over its modes"
LABEL = "power scales as a volume, wavenumbers as an inverse length"
L, A = 8.0, 0.5


class Complex:
    """What a Fourier transform returns in the solver's runs."""

    __array_priority__ = 1e6

    def __init__(self, real, imag):
        self.real, self.imag = real, imag
        self.shape = real.shape

    def conj(self):
        return Complex(self.real, -self.imag)

    conjugate = conj

    def __mul__(self, o):
        if isinstance(o, Complex):
            return Complex(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
        return Complex(self.real * o, self.imag * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Complex(self.real / o, self.imag / o)

    def __pow__(self, n):
        if n != 2:
            return NotImplemented
        return self * self

    def __abs__(self):
        return np.sqrt(self.real * self.real + self.imag * self.imag)

    def __array_ufunc__(self, f, method, *ins, **kw):
        from symex.core import Unsupported

        if method == "__call__" and not kw:
            if f is np.multiply:
                return ins[0] * ins[1] if isinstance(ins[0], Complex) else ins[1] * ins[0]
            if f is np.conjugate:
                return self.conj()
            if f is np.true_divide and ins[0] is self:
                return self / ins[1]
            if f is np.absolute:
                return abs(self)
            if f is np.square:
                return self * self
        raise Unsupported(f"{f.__name__} of complex symbolic data")


UNIT = {2: ((1, 0), (-1, 0)), 4: ((1, 0), (0, -1), (-1, 0), (0, 1))}


def dft(x):
    """The definition, an axis at a time."""
    from symex.npshim import SArr
    from symex.core import Unsupported

    n = x.shape[0]
    if n not in UNIT:
        raise Unsupported("Fourier transform of so many samples")
    re, im = np.array(x.view(np.ndarray)), None
    for ax in range(x.ndim):
        R, I = [], []
        for k in range(n):
            r = i = None
            for j in range(n):
                c, s = UNIT[n][j * k % n]
                u = np.take(re, j, axis=ax)
                v = None if im is None else np.take(im, j, axis=ax)
                for g, w, which in ((c, u, 0), (s, u, 1), (-s, v, 0), (c, v, 1)):
                    if g and w is not None:
                        t = w if g > 0 else -w
                        if which == 0:
                            r = t if r is None else r + t
                        else:
                            i = t if i is None else i + t
            R.append(r)
            I.append(i if i is not None else 0 * r)
        re, im = np.stack(R, axis=ax), np.stack(I, axis=ax)
    return Complex(re.view(SArr), im.view(SArr))


def setup():
    import scipy.fft

    from symex import core

    core.EXPAND[0] = True
    vl.setup()
    cl.setup()
    m = vl.modules()["power"]

    class Fft:
        def __getattr__(self, n):
            return getattr(scipy.fft, n)

        @staticmethod
        def fftn(x, *args, **kw):
            from symex.npshim import obj

            o = obj(x)
            if o.dtype != object or (args and args != (None,)) or any(v is not None for k, v in kw.items() if k != "workers"):
                return scipy.fft.fftn(x, *args, **kw)
            return dft(np.asarray(o))

    m.scipy = types.SimpleNamespace(fft=Fft())


def concrete_setup():
    cl.concrete_setup()


def power():
    return vl.modules()["power"]


def modes(n, fold, length):
    """(index, |k|) of every mode of a mesh of n cells over length/fold."""
    dk = 2 * math.pi * fold / length
    f = [k if k < (n + 1) // 2 else k - n for k in range(n)]
    for i in itertools.product(range(n), repeat=3):
        yield i, math.sqrt(sum(f[k] ** 2 for k in i)) * dk


def fourier(n, x, idx):
    """(Re, Im) of one mode of n^3 samples."""
    re = im = 0.0
    for j, v in zip(itertools.product(range(n), repeat=3), x):
        c, s = UNIT[n][sum(a * b for a, b in zip(j, idx)) % n]
        if c:
            re = re + v if c > 0 else re - v
        if s:
            im = im + v if s > 0 else im - v
    return re, im


def spectrum(n, x, y, mx, my, fold, length, edges):
    """[(power, wavenumber, number of modes)] by the definition."""
    out = []
    d = [(v - mx) * (1 / mx) for v in x]
    e = d if y is None else [(v - my) * (1 / my) for v in y]
    table = list(modes(n, fold, length))
    for b, (lo, hi) in enumerate(zip(edges, edges[1:])):
        last = b == len(edges) - 2
        inside = [(i, k) for i, k in table if lo <= k and (k < hi or last and k <= hi)]
        t = 0.0
        for i, _ in inside:
            u, v = fourier(n, d, i)
            r, s = (u, v) if y is None else fourier(n, e, i)
            t = t + u * r + v * s
        c = len(inside)
        out.append((t * (length**3 / n**6) / max(c, 1), sum(k for _, k in inside) / max(c, 1), c))
    return out


def mesh(S, tag, n, free, mean, p, frame, unit):
    """A mesh with some free cells, around a given mean."""
    N = n**3
    base = [mean + 0.25 * ((7 * i + 3) % 5 - 2) for i in range(N)]
    cells = {}
    pick = [(5 * i + 1) % N for i in range(free)] if N > free else list(range(N - 1))
    tot = 0.0
    for i in pick:
        cells[i] = S.real(f"{tag}{i}", -4, 8)
        tot = tot + (cells[i] - base[i])
    last = next(i for i in range(N - 1, -1, -1) if i not in cells)
    base[last] = base[last] + (mean * N - sum(base))
    vals = [cells.get(i, base[i]) for i in range(N)]
    vals[last] = base[last] - tot
    return cl.In(S, tag, (n, n, n), p, frame, A, unit=unit, vals=vals), vals


def expand(e):
    """An equal z3 term without brackets ({monomial: coefficient} inside), if it is a polynomial."""
    import z3

    names = {}

    def walk(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return {(): Fraction(t.as_long()) if z3.is_int_value(t) else t.as_fraction()}
        k = t.decl().kind()
        c = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for p in map(walk, c):
                for m, v in p.items():
                    r[m] = r.get(m, 0) + v
            return r
        if k in (z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ps = list(map(walk, c))
            r = dict(ps[0]) if k == z3.Z3_OP_SUB else {}
            for p in ps[1:] if k == z3.Z3_OP_SUB else ps:
                for m, v in p.items():
                    r[m] = r.get(m, 0) - v
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(c[1]):
            return {m: v / c[1].as_fraction() for m, v in walk(c[0]).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(c[1]) and c[1].as_fraction() in (1, 2, 3):
            c, k = [c[0]] * int(c[1].as_fraction()), z3.Z3_OP_MUL
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for p in map(walk, c):
                q = {}
                for m, v in r.items():
                    for n, w in p.items():
                        mn = tuple(sorted(m + n))
                        q[mn] = q.get(mn, 0) + v * w
                r = q
            return r
        names[t.get_id()] = t
        return {(t.get_id(),): Fraction(1)}

    out = z3.RealVal(0)
    for m, v in walk(e).items():
        if v:
            t = z3.RealVal(str(v))
            for i in m:
                t = t * names[i]
            out = out + t
    return out


def same(S, u, v, tol=2.0**-20):
    d = u - v
    if S.symbolic:
        from symex.core import SymReal

        if isinstance(d, SymReal):
            return SymReal(expand(d.e)) == 0
        return bool(abs(d) < 1e-9)
    return bool(abs(d) <= tol * max(1.0, abs(v)))


def box_in(frame):
    from swiftsimio.objects import cosmo_array

    return cosmo_array(np.array([L] * 3) * (1 if frame else A), "Mpc", comoving=frame, scale_factor=A, scale_exponent=1)


def k_in(v, frame, unit="1/Mpc"):
    """A comoving wavenumber per Mpc."""
    from swiftsimio.objects import cosmo_quantity

    q = cosmo_quantity(v if frame else v / A, "1/Mpc", comoving=frame, scale_factor=A, scale_exponent=-1)
    return q.to(unit)


def labels(S, k, P, frame):
    if frame is not None:
        S.check(P.comoving is frame and k.comoving is frame, LABEL + ", in the frame of the box and the bins")
    S.check(cl.exponent(P.cosmo_factor) == 3 and cl.exponent(k.cosmo_factor) == -1, LABEL)
    S.check(P.units.dimensions == box_in(True).units.dimensions**3 and (k * box_in(True)[0]).units.is_dimensionless, LABEL)


def verify(S, r, want, frame, noise=0.0):
    k, P, c = r
    labels(S, k, P, frame)
    S.check(P.comoving is not None and k.comoving is not None, LABEL + ", in a known frame")
    S.check([int(v) for v in c] == [w[2] for w in want], COUNT)
    kk, PP = cl.flat(k.to("1/Mpc")), cl.flat(P.to("Mpc**3"))
    f, g = 1.0 if P.comoving else A, 1.0 if k.comoving else A
    for (p, q, n), u, v in zip(want, kk, PP):
        if n:
            S.check(abs(float(u) * g - q) < 1e-9 * q, WAVE)
            S.check(same(S, v, (p - noise) * f**3), POWER)
        else:
            S.check(same(S, v, -noise * f**3), "a bin without modes has no power")
    S.check(len(kk) == len(PP) == len(want), COUNT)


BINS = {None: None, "wide": [0.3, 1.0, 1.5, 4.0], "empty": [0.1, 0.2, 1.0], "high": [1.2, 1.6], "all": [0.1, 20.0]}


def default_edges(n, fold):
    dk = 2 * math.pi * fold / L
    return [(i + 0.5) * dk for i in range(n // 2 + 1) if i + 0.5 < n // 2 + 1]


def one(S, n, free, cross, few=False):
    """deposition_to_power_spectrum against the definition."""
    cl.fresh(S)
    p = S.choice("p", [-3] if few else [-3, 0])
    fb = S.choice("box", [True, False])
    fd = S.choice("mesh", [True, False]) if not few else not fb
    fold = S.choice("folding", [0, 1] if few else [0, 1, 2])
    bins = S.choice("bins", list(BINS)[:3] if few else list(BINS))
    fk = S.choice("k", [True, False]) if BINS[bins] else fb
    noise = S.choice("shots", [None, 16.0])
    mean = S.choice("mean", [1.0, 4.0]) if not few else 4.0
    x, xs = mesh(S, "x", n, free, mean, p, fd, "Msun/Mpc**3" if p else "dimensionless")
    y, ys = (None, None) if not cross else mesh(S, "y", n, free, 2.0, 0, fb, "dimensionless")
    box = box_in(fb)
    kw = {}
    if BINS[bins]:
        from swiftsimio.objects import cosmo_array

        kw["wavenumber_bins"] = cosmo_array([k_in(v, fk) for v in BINS[bins]])
    r = power().deposition_to_power_spectrum(x.x, box, folding=fold, cross_deposition=None if y is None else y.x, shot_noise_norm=noise, **kw)
    want = spectrum(n, xs, ys, mean, 2.0, 2**fold, L, BINS[bins] or default_edges(n, 2**fold))
    verify(S, r, want, fb if fb is fk else None, 0.0 if noise is None else L**3 / noise)
    x.intact()
    if y is not None:
        y.intact()
    S.check(list(box.v) == [L * (1 if fb else A)] * 3 and box.comoving is fb, "the inputs are left unmodified")


def invariance(S, n):
    """Factors and shifts of the mesh do not matter."""
    cl.fresh(S)
    x, xs = mesh(S, "x", n, 3, 2.0, -3, True, "Msun/Mpc**3")
    how = S.choice("change", ["scaled", "shifted", "mirrored", "transposed", "crossed"])
    box = box_in(True)
    f = power().deposition_to_power_spectrum
    r = f(x.x, box)
    if how == "crossed":
        s = f(x.x, box, cross_deposition=x.x)
    else:
        v = np.empty(n**3, dtype=object if S.symbolic else float)
        v[:] = xs
        v = v.reshape(n, n, n)
        if how == "scaled":
            c = S.split(S.int("power", 1, 4)) if S.symbolic else S.int("power", 1, 4)
            v = v * 2.0**c
        elif how == "shifted":
            v = np.roll(v, (S.choice("dx", [0, 1]), S.choice("dy", [0, 1]), n - 1), (0, 1, 2))
        elif how == "mirrored":
            v = v[::-1, :, ::-1]
        else:
            v = v.transpose(S.choice("axes", [(1, 0, 2), (2, 0, 1), (0, 2, 1)]))
        y = cl.In(S, "y", (n, n, n), -3, True, A, unit="Msun/Mpc**3", vals=list(v.reshape(-1)))
        s = f(y.x, box)
    for u, w in zip(cl.flat(r[1]), cl.flat(s[1])):
        S.check(same(S, u, w), f"power of the mesh {how}")


def combined(S, n, free, cross, few=True):
    """Several foldings: each bin comes from the one that measures it with the most modes."""
    cl.fresh(S)
    fb, fk = S.choice("box", [True, False]), S.choice("k", [True, False])
    unit = S.choice("unit", ["1/Mpc", "1/kpc"]) if not few else "1/kpc" if fk else "1/Mpc"
    foldings = S.choice("foldings", [(0, 1), (1,), (2, 0)])
    log = S.choice("log", [True, False])
    least, cut = S.choice("limits", [(0, None), (10, None), (0, 0.5)] + ([] if few else [(10, 0.5)]))
    noise = S.choice("shots", [None, 16.0]) if not few else None if log is fb else 16.0
    lo, hi, nb = S.choice("range", [(0.3, 4.9, 3), (1.9, 4.9, 2)])
    D, X, C, Y = {}, {}, {}, {}
    for f in foldings:
        D[f], X[f] = mesh(S, f"x{f}_", n, free, 2.0, -3, S.choice(f"mesh{f}", [True, False]) if not few else bool(f % 2) is fb, "Msun/Mpc**3")
        if cross:
            C[f], Y[f] = mesh(S, f"y{f}_", n, free, 4.0, 0, True, "dimensionless")
    r = power().folded_depositions_to_power_spectrum({f: d.x for f, d in D.items()}, box_in(fb), nb, cross_depositions={f: d.x for f, d in C.items()} if cross else None, wavenumber_range=(k_in(lo, fk, unit), k_in(hi, fk, unit)), log_wavenumber_bins=log, minimal_sample_modes=least, cutoff_above_wavenumber_fraction=cut, shot_noise_norm=noise)
    edges = [lo * (hi / lo) ** (i / nb) for i in range(nb + 1)] if log else [lo + (hi - lo) * i / nb for i in range(nb + 1)]
    best = [None] * nb
    for f in sorted(foldings):
        w = spectrum(n, X[f], Y.get(f), 2.0, 4.0, 2**f, L, edges)
        use = [c > (least if f != min(foldings) else 0) for _, _, c in w]
        if f != max(foldings):
            limit = 2**f * n / L
            if cut is not None:
                limit = cut * min([limit] + ([max(k for (_, k, _), u in zip(w, use) if u)] if any(use) else []))
            use = [u and k < limit for u, (_, k, _) in zip(use, w)]
        for b in range(nb):
            if use[b] and w[b][2] > (best[b][1] if best[b] else 0):
                best[b] = (f, w[b][2], w[b])
    bins, k, P, tracker = r
    labels(S, k, P, fb if fb is fk else None)
    S.check(cl.exponent(bins.cosmo_factor) == -1, LABEL)
    eb, kk, PP = cl.flat(bins.to("1/Mpc")), cl.flat(k.to("1/Mpc")), cl.flat(P.to("Mpc**3"))
    fP = 1.0 if P.comoving else A
    S.check(len(eb) == nb + 1 and all(abs(float(e) * (1.0 if bins.comoving else A) - w) < 1e-9 * w for e, w in zip(eb, edges)), "the bins cover the range asked for")
    for b in range(nb):
        fk2 = 1.0 if k.comoving else A
        if best[b] is None:
            S.check(same(S, PP[b], 0.0) & (float(tracker[b]) == 1), "bins that no folding measures have no power")
            S.check(abs(float(kk[b]) * fk2 - 0.5 * (edges[b] + edges[b + 1])) < 1e-9 * edges[b], "bins that no folding measures keep their centre")
            continue
        f, _, (p, q, _) = best[b]
        S.check(float(tracker[b]) == 2.0**f, "a bin is taken from the folding with the most modes")
        S.check(abs(float(kk[b]) * fk2 - q) < 1e-9 * q, WAVE)
        S.check(same(S, PP[b], (p - (0.0 if noise is None else L**3 / noise)) * fP**3), POWER)
    for d in list(D.values()) + list(C.values()):
        d.intact()


def refused(S):
    """What cannot be measured is refused."""
    cl.fresh(S)
    what = S.choice("what", ["flat", "not a cube", "other cube", "foldings", "no range"])
    from symex.core import Unsupported

    x, _ = mesh(S, "x", 2, 2, 2.0, -3, True, "Msun/Mpc**3")
    m = power()
    box = box_in(True)
    try:
        if what == "flat":
            m.deposition_to_power_spectrum(x.x.reshape(8), box)
        elif what == "not a cube":
            m.deposition_to_power_spectrum(x.x[:, :, :1], box)
        elif what == "other cube":
            m.deposition_to_power_spectrum(x.x, box, cross_deposition=x.x[:1, :1, :1])
        elif what == "foldings":
            m.folded_depositions_to_power_spectrum({0: x.x}, box, 2, cross_depositions={1: x.x}, wavenumber_range=(k_in(0.5, True), k_in(2.0, True)))
        else:
            m.folded_depositions_to_power_spectrum({0: x.x}, box, 2)
        ok = False
    except Unsupported:
        raise
    except Exception:  # noqa: BLE001
        ok = True
    S.check(ok, "refusals")


K = dict(setup=setup, concrete_setup=concrete_setup)
E = (POWER, COUNT, WAVE, LABEL)
F = (POWER, WAVE, LABEL)
HARNESSES = [
    H("auto2", one, "2 cells a side, 7 of 8 free, mean 1 or 4; folding 0 to 2, five sets of bins, frames of mesh, box and bins, with and without shot noise", dict(n=2, free=7, cross=False), expect=E, **K),
    H("cross2", one, "the same with another mesh", dict(n=2, free=7, cross=True, few=True), dict(n=2, free=7, cross=True), expect=E, **K),
    H("auto4", one, "4 cells a side, 3 of 64 free", dict(n=4, free=3, cross=False, few=True), dict(n=4, free=8, cross=False, few=True), expect=E, **K),
    H("invariance2", invariance, "2 cells a side: scaled, shifted, mirrored, transposed, crossed with itself", dict(n=2), **K),
    H("invariance4", invariance, "4 cells a side", dict(n=4), **K),
    H("combined2", combined, "one or two foldings of 2 cells a side, 3 bins, log or linear, frames, units, minimal modes, cut, shot noise", dict(n=2, free=3, cross=False), dict(n=2, free=7, cross=False, few=False), expect=F, **K),
    H("combined2_cross", combined, "the same with other meshes", dict(n=2, free=3, cross=True), dict(n=2, free=5, cross=True, few=False), expect=F, **K),
    H("combined4", combined, "4 cells a side", dict(n=4, free=1, cross=False), dict(n=4, free=4, cross=False), expect=F, **K),
    H("refused", refused, "flat, non-cubic and mismatched meshes, no range", {}, **K),
]
