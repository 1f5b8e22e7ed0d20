"""C13: array functions give the same physics in either frame."""

from symex.registry import H
from . import cosmolib as cl
from .c12 import result

ASSUMPTIONS = [
    "Arrays of two to four elements (or 2x2 matrices) with any values in [-4, 4]; scale factor any real in [1/16, 0.94]; exponents from {0, 1, -2}; inputs in every combination of frames.",
    "Where a function makes a decision (ordering, equality, bin membership), inputs closer than 1e-3 to a decision boundary are excluded when frames are mixed, because conversion rounds.",
    "Functions numpy implements in C on machine floats (interp, histogram, quantile, linear algebra) are replaced by their documented definition; the swiftsimio and unyt wrappers around them are executed unchanged.",
]
V2, V3, M2, Q = (2,), (3,), (2, 2), ()


def np_():
    import numpy

    return numpy


CASES = {}


def case(name, shapes, exps, call, out, unit="Mpc", units=None, group="misc", margin=False, lo=-4, frame=True, distinct=False, hi=4, increasing=(), inunit="Mpc"):
    """exps: 'p'/'q' per input. out: power of the result from (p, q); list for several results."""
    CASES[name] = dict(shapes=shapes, exps=exps, call=call, out=out, unit=unit, units=units, margin=margin, lo=lo, group=group, distinct=distinct, hi=hi, increasing=increasing, inunit=inunit)


P = lambda p, q: p  # noqa: E731
PQ = lambda p, q: p + q  # noqa: E731
NO = lambda p, q: None  # noqa: E731
np = np_()

# one array, same dimension
for n, f, s in [
    ("sum", lambda x: np.sum(x), V3), ("sum axis", lambda x: np.sum(x, axis=0), M2), ("sum keepdims", lambda x: np.sum(x, axis=1, keepdims=True), M2),
    ("mean", lambda x: np.mean(x), V3), ("mean axis", lambda x: np.mean(x, axis=1), M2), ("cumsum", lambda x: np.cumsum(x), V3),
    ("diff", lambda x: np.diff(x), V3), ("diff n=2", lambda x: np.diff(x, n=2), V3), ("ediff1d", lambda x: np.ediff1d(x), V3),
    ("trace", lambda x: np.trace(x), M2), ("triu", lambda x: np.triu(x), M2), ("tril", lambda x: np.tril(x), M2),
    ("take", lambda x: np.take(x, [1, 0, 1]), V2), ("take axis", lambda x: np.take(x, 1, axis=1), M2), ("roll", lambda x: np.roll(x, 1), V3),
    ("average", lambda x: np.average(x), V3), ("average axis", lambda x: np.average(x, axis=0), M2), ("pad", lambda x: np.pad(x, 1, mode="edge"), V2),
    ("flip", lambda x: np.flip(x), V3), ("fftshift", lambda x: np.fft.fftshift(x), V3), ("ifftshift", lambda x: np.fft.ifftshift(x), V3),
    ("meshgrid", lambda x: np.meshgrid(x, x)[0], V2), ("atleast_3d", lambda x: np.atleast_3d(x), V2), ("append to itself", lambda x: np.append(x, x), V2),
    ("apply_along_axis", lambda x: np.apply_along_axis(np.sum, 0, x), M2), ("apply_over_axes", lambda x: np.apply_over_axes(np.sum, x, [0, 1]), M2), ("nansum", lambda x: np.nansum(x), V2),
    ("gradient-free diff axis", lambda x: np.diff(x, axis=0), M2), ("tile", lambda x: np.tile(x, 2), V2), ("repeat", lambda x: np.repeat(x, 2), V2),
    ("diag", lambda x: np.diag(x), M2), ("diagonal", lambda x: np.diagonal(x), M2), ("delete", lambda x: np.delete(x, 1), V3), ("ravel", lambda x: np.ravel(x), M2),
    ("squeeze", lambda x: np.squeeze(x), (1, 2)), ("split", lambda x: np.split(x, 2)[1], V2), ("array_split", lambda x: np.array_split(x, 2)[0], V3), ("rot90", lambda x: np.rot90(x), M2),
    ("compress", lambda x: np.compress([True, False, True], x), V3), ("extract", lambda x: np.extract([True, False, True], x), V3), ("trim", lambda x: np.resize(x, (3,)), V2),
]:
    case(n, [s], "p", f, P, group="linear")
for n, f, s in [
    ("max", lambda x: np.max(x), V3), ("min", lambda x: np.min(x), V3), ("max axis", lambda x: np.max(x, axis=0), M2), ("ptp", lambda x: np.ptp(x), V3),
    ("sort", lambda x: np.sort(x), V3), ("median", lambda x: np.median(x), V3), ("median even", lambda x: np.median(x), V2), ("percentile", lambda x: np.percentile(x, 25), V3),
    ("quantile", lambda x: np.quantile(x, [0.5, 1.0]), V3), ("partition", lambda x: np.partition(x, 1), V3), ("amax", lambda x: np.amax(x), V3), ("nanmax", lambda x: np.nanmax(x), V2),
    ("norm", lambda x: np.linalg.norm(x), V3), ("std", lambda x: np.std(x), V2), ("unique", lambda x: np.unique(x), V2), ("nanpercentile", lambda x: np.nanpercentile(x, 50), V2), ("nanquantile", lambda x: np.nanquantile(x, 0.25), V2),
]:
    case(n, [s], "p", f, P, group="order", distinct=n in ("unique",))
for n, f, s in [("argmax", lambda x: np.argmax(x), V3), ("argmin", lambda x: np.argmin(x), V3), ("any", lambda x: np.any(x), V2), ("count_nonzero", lambda x: np.count_nonzero(x), V2), ("nonzero", lambda x: np.nonzero(x)[0], V2)]:
    case(n, [s], "p", f, NO, group="order", unit=None, distinct=True)
# powers of one array
case("prod", [V3], "p", lambda x: np.prod(x), lambda p, q: 3 * p, "Mpc**3", group="powers")
case("prod axis 0", [(3, 2)], "p", lambda x: np.prod(x, axis=0), lambda p, q: 3 * p, "Mpc**3", group="powers")
case("prod axis 1", [(3, 2)], "p", lambda x: np.prod(x, axis=1), lambda p, q: 2 * p, "Mpc**2", group="powers")
case("var", [V3], "p", lambda x: np.var(x), lambda p, q: 2 * p, "Mpc**2", group="powers")
case("det", [M2], "p", lambda x: np.linalg.det(x), lambda p, q: 2 * p, "Mpc**2", group="powers")
case("det of one", [(1, 1)], "p", lambda x: np.linalg.det(x), P, group="powers")
case("prod of a matrix", [M2], "p", lambda x: np.prod(x), lambda p, q: 4 * p, "Mpc**4", group="powers")
case("inv", [M2], "p", lambda x: np.linalg.inv(x), lambda p, q: -p, "1/Mpc", group="powers", lo="det")
# products
for n, f, s in [
    ("dot", lambda x, y: np.dot(x, y), (V2, V2)), ("vdot", lambda x, y: np.vdot(x, y), (V2, V2)), ("inner", lambda x, y: np.inner(x, y), (V2, V2)), ("outer", lambda x, y: np.outer(x, y), (V2, V2)),
    ("kron", lambda x, y: np.kron(x, y), (V2, V2)), ("cross", lambda x, y: np.cross(x, y), (V3, V3)), ("convolve", lambda x, y: np.convolve(x, y), (V2, V2)), ("correlate", lambda x, y: np.correlate(x, y), (V2, V2)),
    ("tensordot", lambda x, y: np.tensordot(x, y, axes=1), (V2, V2)), ("linalg.outer", lambda x, y: np.linalg.outer(x, y), (V2, V2)), ("matrix product", lambda x, y: np.dot(x, y), (M2, V2)),
    ("trapezoid", lambda y, x: np.trapezoid(y, x=x), (V2, V2)), ("trapezoid dx", lambda y, d: np.trapezoid(y, dx=d), (V2, Q)),
]:
    case(n, s, "pq", f, PQ, "Mpc**2", group="products")
for n, f in [("einsum", lambda x, y: np.einsum("i,i->i", x, y)), ("einsum scalar", lambda x, y: np.einsum("i,i", x, y))]:
    case(n, [V2, V2], "pq", f, PQ, "dimensionless", group="products", inunit="dimensionless")
case("einsum trace", [M2], "p", lambda x: np.einsum("ii", x), P, group="linear")
case("solve", [(1, 1), (1,)], "pq", lambda x, y: np.linalg.solve(x, y), lambda p, q: q - p, "dimensionless", group="solve", lo=0.125)
# decompositions (of one element, where LAPACK's answer is arithmetic)
O1 = (1, 1)
case("pinv", [O1], "p", lambda x: np.linalg.pinv(x), lambda p, q: -p, "1/Mpc", group="decompose", lo=0.125)
case("tensorinv", [O1], "p", lambda x: np.linalg.tensorinv(x, ind=1), lambda p, q: -p, "1/Mpc", group="solve", lo=0.125)
case("tensorsolve", [O1, (1,)], "pq", lambda x, y: np.linalg.tensorsolve(x, y), lambda p, q: q - p, "dimensionless", group="solve", lo=0.125)
case("lstsq solution", [O1, (1,)], "pq", lambda x, y: np.linalg.lstsq(x, y)[0], lambda p, q: q - p, "dimensionless", group="solve", lo=0.125)
case("lstsq singular values", [O1, (1,)], "pq", lambda x, y: np.linalg.lstsq(x, y)[3], P, group="solve", lo=0.125)
for n, f in [
    ("svd values", lambda x: np.linalg.svd(x)[1]), ("svd values only", lambda x: np.linalg.svd(x, compute_uv=False)), ("eig", lambda x: np.linalg.eig(x)[0].real), ("eigh", lambda x: np.linalg.eigh(x)[0]),
    ("eigvals", lambda x: np.linalg.eigvals(x).real), ("eigvalsh", lambda x: np.linalg.eigvalsh(x)),
]:
    case(n, [O1], "p", f, P, group="decompose", lo=0.125 if "svd" not in n else -4)
# transforms (of two samples, which are real)
for n, f in [(n, (lambda g: lambda x: g(x).real)(getattr(np.fft, n))) for n in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn", "rfft", "rfft2", "rfftn", "irfft", "irfft2", "irfftn", "hfft", "ihfft")]:
    case(n, [M2 if n.endswith("2") and "ir" not in n else V2 if not n.endswith("2") else (1, 2)], "p", f, P, group="fourier")
# joining
for n, f, s in [
    ("concatenate", lambda x, y: np.concatenate([x, y]), (V2, V2)), ("concatenate tuple", lambda x, y: np.concatenate((y, x, y)), (V2, V2)), ("concatenate axis", lambda x, y: np.concatenate([x, y], axis=1), (M2, M2)), ("vstack", lambda x, y: np.vstack([x, y]), (V2, V2)), 
    ("dstack", lambda x, y: np.dstack([x, y]), (V2, V2)), ("column_stack", lambda x, y: np.column_stack([x, y]), (V2, V2)), ("stack", lambda x, y: np.stack([x, y]), (V2, V2)), ("stack axis", lambda x, y: np.stack([x, y], axis=1), (V2, V2)),
    ("append", lambda x, y: np.append(x, y), (V2, V2)), ("block", lambda x, y: np.block([x, y]), (V2, V2)), ("block nested", lambda x, y: np.block([[x, y], [y, x]]), (V2, V2)), ("linspace", lambda x, y: np.linspace(x, y, 3), (Q, Q)), ("linspace arrays", lambda x, y: np.linspace(x, y, 3), (V2, V2)),
    ("where", lambda x, y: np.where([True, False], x, y), (V2, V2)), ("where scalar", lambda x, y: np.where([True, False], x, y), (V2, Q)), ("select", lambda x, y, z: np.select([[True, False], [False, True]], [x, y], default=z), (V2, V2, Q)), ("select default", lambda x, y: np.select([[True, False]], [x], default=y), (V2, Q)), ("choose", lambda x, y: np.choose([1, 0], [x, y]), (V2, V2)), ("insert", lambda x, y: np.insert(x, 1, y), (V2, Q)),
    ("insert two", lambda x, y: np.insert(x, [0, 2], y), (V2, V2)), ("ediff1d ends", lambda x, y: np.ediff1d(x, to_begin=y), (V2, Q)), ("diff prepend", lambda x, y: np.diff(x, prepend=y), (V2, Q)), ("diff append", lambda x, y: np.diff(x, append=y), (V2, Q)), ("pad ends", lambda x, y: np.pad(x, 1, mode="linear_ramp", end_values=y), (V2, Q)), ("pad constant", lambda x, y: np.pad(x, 1, constant_values=y), (V2, Q)),
]:
    case(n, s, "p" * len(s), f, P, group="join")
# decisions between arrays
for n, f, s in [("union1d", lambda x, y: np.union1d(x, y), (V2, V2)), ("intersect1d", lambda x, y: np.intersect1d(x, y), (V2, V2)), ("setdiff1d", lambda x, y: np.setdiff1d(x, y), (V2, V2)), ("clip", lambda x, y, z: np.clip(x, y, z), (V2, Q, Q)), ("clip keywords", lambda x, y, z: np.clip(x, a_min=y, a_max=z), (V2, Q, Q)), ("max initial", lambda x, y: np.max(x, initial=y), (V2, Q))]:
    case(n, s, "p" * len(s), f, P, group="decide", distinct=True)
for n, f, s in [("isin", lambda x, y: np.isin(x, y), (V2, V2)), ("searchsorted", lambda x, y: np.searchsorted(x, y), (V2, Q)), ("array_equal", lambda x, y: np.array_equal(x, y), (V2, V2)), ("array_equiv", lambda x, y: np.array_equiv(x, y), (V2, V2)), ("isclose", lambda x, y: np.isclose(x, y), (V2, V2)), ("allclose", lambda x, y: np.allclose(x, y), (V2, V2)), ("digitize", lambda x, y: np.digitize(y, x), (V2, V2))]:
    case(n, s, "pp", f, NO, unit=None, group="test", distinct=True, increasing=(0,) if n in ("searchsorted", "digitize") else ())
# tables
case("interp", [Q, V2, V2], "ppq", lambda x, xp, fp: np.interp(x, xp, fp), lambda p, q: q, group="tables", distinct=True, increasing=(1,))
case("interp array", [(1,), V2, V2], "ppq", lambda x, xp, fp: np.interp(x, xp, fp), lambda p, q: q, group="tables2", distinct=True, increasing=(1,))
case("histogram counts", [V2, V3], "pp", lambda x, b: np.histogram(x, bins=b)[0], NO, unit=None, group="tables", distinct=True, increasing=(1,))
case("histogram edges", [V2, V3], "pp", lambda x, b: np.histogram(x, bins=b)[1], P, group="tables", distinct=True, increasing=(1,))
case("histogram weights", [V2, V2, V2], "ppq", lambda x, b, w: np.histogram(x, bins=b, weights=w)[0], lambda p, q: q, group="tables2", distinct=True, increasing=(1,))
case("histogram density", [V2, V2], "pp", lambda x, b: np.histogram(x, bins=b, density=True)[0], lambda p, q: -p, "1/Mpc", group="tables2", distinct=True, increasing=(1,), lo="hist")
case("histogram_bin_edges", [V2], "p", lambda x: np.histogram_bin_edges(x, bins=2), P, group="tables", distinct=True)
case("histogram_bin_edges given", [V2, V3], "pp", lambda x, b: np.histogram_bin_edges(x, bins=b), P, group="tables", increasing=(1,), distinct=True)
case("average weights", [V2, V2], "pq", lambda x, w: np.average(x, weights=w), P, group="tables", lo=0.125)
case("average weights returned", [V2, V2], "pq", lambda x, w: np.average(x, weights=w, returned=True)[1], lambda p, q: q, group="tables", lo=0.125)
case("histogram2d weights", [V2, V2, V2, V2, V2], "pqpqp", lambda x, y, b, c, w: np.histogram2d(x, y, bins=(b, c), weights=w)[0], P, group="hist2", distinct=True, increasing=(2, 3))
case("histogram2d density", [(1,), (1,), V2, V2], "pqpq", lambda x, y, b, c: np.histogram2d(x, y, bins=(b, c), density=True)[0], lambda p, q: -p - q, "Mpc**(-2)", group="hist2", distinct=True, increasing=(2, 3), lo="hist2")
case("histogram2d x edges", [(1,), (1,), V2, V2], "pqpq", lambda x, y, b, c: np.histogram2d(x, y, bins=(b, c))[1], lambda p, q: p, group="hist2", distinct=True, increasing=(2, 3))
case("histogram2d y edges", [(1,), (1,), V2, V2], "pqpq", lambda x, y, b, c: np.histogram2d(x, y, bins=(b, c))[2], lambda p, q: q, group="hist2", distinct=True, increasing=(2, 3))
case("histogram2d x edges density", [(1,), (1,), V2, V2], "pqpq", lambda x, y, b, c: np.histogram2d(x, y, bins=(b, c), density=True)[1], lambda p, q: p, group="hist2", distinct=True, increasing=(2, 3), lo="hist2")
case("histogramdd counts weights", [(1,), (1,), V2, V2, (1,)], "pqpqp", lambda x, y, b, c, w: np.histogramdd((x, y), bins=(b, c), weights=w)[0], lambda p, q: p, group="hist2", distinct=True, increasing=(2, 3), lo="hist2")
case("histogramdd density", [(1,), (1,), V2, V2], "pqpq", lambda x, y, b, c: np.histogramdd((x, y), bins=(b, c), density=True)[0], lambda p, q: -p - q, "Mpc**(-2)", group="hist2", distinct=True, increasing=(2, 3), lo="hist2")
case("histogramdd y edges density", [(1,), (1,), V2, V2], "pqpq", lambda x, y, b, c: np.histogramdd((x, y), bins=(b, c), density=True)[1][1], lambda p, q: q, group="hist2", distinct=True, increasing=(2, 3), lo="hist2")


def function(S, names, exps):
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    name = S.choice("function", names)
    c = CASES[name]
    pw = {"p": S.choice("p", exps), "q": S.choice("q", exps) if "q" in c["exps"] else 0}
    frames = [S.choice(f"f{i}", [True, False]) for i in range(len(c["shapes"]))]
    lo = c["lo"] if isinstance(c["lo"], (int, float)) else -4
    ins = [cl.In(S, "xyzbcw"[i], s, pw[c["exps"][i]], frames[i], a, unit=c["inunit"], lo=lo, hi=c["hi"]) for i, s in enumerate(c["shapes"])]
    constrain(S, c, ins)
    with np.errstate(all="ignore"):
        r = c["call"](*[i.x for i in ins])
        want = c["call"](*[sarr(S, i.phys) for i in ins])
    e = c["out"](pw["p"], pw["q"])
    fr = frames[0] if len(set(frames)) == 1 else 0
    result(S, r, want, a, e, c["unit"], name, fr)
    for i in ins:
        i.intact()
    if c["group"] == "linear" and hasattr(r, "units"):
        S.check(r.valid_transform is True, f"{name}: convertibility")


def sarr(S, v):
    import numpy as np

    if not S.symbolic:
        return v
    from symex.npshim import SArr

    return np.asarray(v).view(SArr)


def constrain(S, c, ins):
    """Keep inputs away from decision boundaries and singularities."""
    gap = 2.0**-10
    for i in c["increasing"]:
        v = cl.flat(ins[i].phys)
        for s, t in zip(v, v[1:]):
            S.assume(t - s > 0.125 * (cl.apow(ins[i].a, ins[i].p)))
    if c["lo"] == "det":
        v = cl.flat(ins[0].raw)
        d = v[0] * v[3] - v[1] * v[2]
        S.assume((d > 0.125) | (d < -0.125))
    if c["lo"] in ("hist", "hist2"):
        n = 1 if c["lo"] == "hist" else 2
        for k in range(n):
            b = cl.flat(ins[n + k].phys)
            for v in cl.flat(ins[k].phys)[:1]:
                S.assume((v > b[0]) & (v < b[-1]))
    if c["distinct"]:
        groups = {}
        for i, x in enumerate(ins):
            groups.setdefault(c["exps"][i], []).append(x)
        for g in groups.values():
            vs = [v for x in g for v in cl.flat(x.phys)]
            if len(vs) > 5:
                vs = vs[:5]
            for i in range(len(vs)):
                for j in range(i):
                    d = vs[i] - vs[j]
                    S.assume((d > gap * cl.apow(g[0].a, g[0].p)) | (d < -gap * cl.apow(g[0].a, g[0].p)))


# functions that write into their first argument
INPLACE = ["copyto", "copyto where", "put", "place", "putmask", "put_along_axis", "fill_diagonal", "setitem", "setitem one", "setitem mask", "setitem list"]


def into(S, names, exps):
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    name = S.choice("function", names)
    p = S.choice("p", exps)
    fx, fy = S.choice("fx", [True, False]), S.choice("fy", [True, False])
    shape = M2 if name in ("fill_diagonal",) else V2
    x = cl.In(S, "x", shape, p, fx, a)
    y = cl.In(S, "y", Q if name in ("fill_diagonal",) else V2, p, fy, a)
    u, v = cl.flat(x.phys), cl.flat(y.phys)
    X, Y = x.x, y.x
    if name == "copyto":
        np.copyto(X, Y)
        want = v
    elif name == "copyto where":
        np.copyto(X, Y, where=[False, True])
        want = [u[0], v[1]]
    elif name == "put":
        np.put(X, [1, 0], Y)
        want = [v[1], v[0]]
    elif name == "place":
        np.place(X, np.array([False, True]), Y)
        want = [u[0], v[0]]
    elif name == "putmask":
        np.putmask(X, np.array([False, True]), Y)
        want = [u[0], v[1]]
    elif name == "put_along_axis":
        np.put_along_axis(X, np.array([1, 0]), Y, 0)
        want = [v[1], v[0]]
    elif name == "fill_diagonal":
        np.fill_diagonal(X, Y)
        want = [v[0], u[1], u[2], v[0]]
    elif name == "setitem":
        X[1:] = Y[:1]
        want = [u[0], v[0]]
    elif name == "setitem one":
        X[1] = Y[0]
        want = [u[0], v[0]]
    elif name == "setitem mask":
        X[np.array([True, False])] = Y[1]
        want = [v[1], u[1]]
    elif name == "setitem list":
        X[[1, 0]] = Y
        want = [v[1], v[0]]
    result(S, X, S.arr(want).reshape(shape), a, p, "Mpc", f"{name} into", fx)
    y.intact()


K = dict(setup=cl.setup, concrete_setup=cl.concrete_setup, budget=(300, 1500))


def by(group, n):
    names = [k for k, c in CASES.items() if c["group"] == group]
    return [names[i:i + n] for i in range(0, len(names), n)]


E2, E3 = [0, 1], [0, 1, -2]
HARNESSES = []
for g, n, e in (("linear", 11, E3), ("order", 6, [1, -2]), ("powers", 4, E3), ("products", 4, E3), ("solve", 3, [0, 1]), ("decompose", 7, E3), ("fourier", 7, E3), ("join", 8, E3), ("decide", 2, [1]), ("test", 2, [1]), ("tables", 2, [0, 1]), ("tables2", 1, [0, 1]), ("hist2", 1, [1, -2])):
    for i, names in enumerate(by(g, n)):
        HARNESSES.append(H(f"{g}{i}", function, f"{', '.join(names)}; exponents {e}", dict(names=names, exps=e), dict(names=names, exps=E3 + [0.5]) if g not in ("tables2", "hist2") else None, **K))
HARNESSES.append(H("into", into, "functions that write into their first argument", dict(names=INPLACE, exps=E3), **K))
