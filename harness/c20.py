"""C20: rendering never writes outside the image."""

from symex.registry import H
from . import vislib as vl
from .c22 import dim, gam, run as plain

ASSUMPTIONS = [
    vl.ASSUME_KERNEL, vl.ASSUME_JIT,
    "Integer arithmetic does not wrap around: nothing is claimed for positions or radii beyond 2^31 pixels, or for positions that are not finite.",
    "Reals stand for floats except in the wrapping of mesh positions, where the remainder of a negative number smaller than rounding error is the divisor itself, as in floating point.",
]
LAB = "every pixel accessed lies inside the image"


def watch(S):
    seen = [0]

    def hook(i, n):
        seen[0] += 1
        if S.symbolic:
            S.check((i >= 0) & (i < n), LAB)
        else:
            S.check(bool(0 <= i < n), LAB)

    vl.Acc.hook = hook
    return seen


def render(S, name, res, box, pos, h, zs):
    p = [(*pos, S.real("m0", 0, 8), h)]
    if name == "uneven":
        return vl.slice_(S, p, res, zs, box)
    if name == "slice":
        return vl.slice_(S, p, (res, res), zs, box)
    if name == "volume":
        return vl.volume(S, p, res, box)
    if name == "limited":
        return vl.volume(S, p, res, box, ratio=2)
    return vl.project(S, name, p, res, box[:2])


def inside(S, name, res, cells, axes, periodic=(), lo=-2.0, hi=3.0, lmin=0.5, rest=0.3125, hmin=0.0):
    """axes: the coordinates that are free; periodic: the axes that have a box."""
    k = dim("slice" if name == "uneven" else name)
    L = S.real("box", lmin, 3) if periodic else 0.0
    box = [L if a in periodic else 0.0 for a in range(3)]
    pos = [S.real("xyz"[a], lo, hi) if a in axes else rest for a in range(k)]
    h = S.real("h", 0, 8, lo_open=True)
    r = max(res) if isinstance(res, tuple) else res
    S.assume(h * (gam("slice" if name == "uneven" else name) * r) < cells)
    if hmin:
        S.assume(h * (gam(name) * r) > hmin)
    zs = S.real("zs", 0, 1) if name in ("slice", "uneven") and 2 in axes else 0.5
    seen = watch(S)
    try:
        img = render(S, name, res, box, pos, h, zs)
    except IndexError:
        S.check(False, LAB)
        return
    finally:
        vl.Acc.hook = None
    S.check(all(bool(abs(v) < 1e9) for v in img.ravel()) if not S.symbolic else True, "the image is finite")
    if seen[0]:
        S.check(True, LAB)


def mesh(S, res, fold, axis, L):
    """deposit folds any position, however small or negative, into the mesh."""
    m = vl.modules()["power"]
    v = S.real("pos", -4, 4)
    pos = [0.3, 0.3, 0.3]
    pos[axis] = v
    a = [vl.vec(S, [p]) for p in pos]
    if S.symbolic:
        from symex.core import SymReal

        a[axis][0] = Rounded.make(v)
    seen = watch(S)
    try:
        img = m.deposit(x=a[0], y=a[1], z=a[2], m=vl.vec(S, [S.real("m0", 0, 8)]), res=res, fold=fold, box_x=L, box_y=L, box_z=L)
    except IndexError:
        S.check(False, LAB)
        return
    finally:
        vl.Acc.hook = None
    S.check(seen[0] > 0, LAB)


class Rounded:
    @staticmethod
    def make(v):
        from symex.core import SymReal, to_real, rv
        import z3

        class R(SymReal):
            __slots__ = ()

            def __mod__(self, o):
                r = SymReal(to_real(SymReal.__mod__(self, o)))
                ob = to_real(o)
                e = self.e
                return SymReal(z3.If(z3.And(e < 0, e > -ob * rv(2.0**-55)), ob, r.e))

        return R(to_real(v))


def _n(b, res, cells, axes, periodic=(), tag="", **kw):
    where = "anywhere in [-2, 3]" if not kw.get("lo") else f"in [{kw['lo']}, {kw['hi']}]"
    bt = f"box {kw.get('lmin', 0.5)} to 3 times the image along {', '.join('xyz'[a] for a in periodic)}" if periodic else "no box"
    return H(f"{b}_{''.join('xyz'[a] for a in axes)}{'_box' + ''.join('xyz'[a] for a in periodic) if periodic else ''}{tag}", inside,
             f"{b}: {bt}; {', '.join('xyz'[a] for a in axes)} {where}, the other coordinates fixed; any kernel radius up to {cells} pixels; {res} pixels",
             dict(name=b, res=res, cells=cells, axes=axes, periodic=periodic, **kw), setup=vl.setup_eager if b == "renormalised" else vl.setup, concrete_setup=vl.concrete_guard, expect=(LAB,))


HARNESSES = []
for b in ("fast", "histogram", "subsampled", "subsampled_extreme", "renormalised", "reference"):
    c = 6 if b == "reference" else 2.5
    cb, k = (1.25, dict(lmin=0.75)) if b == "renormalised" else (c, {})
    HARNESSES += [_n(b, 2, c, (0, 1)), _n(b, 2, cb, (0,), (0,), **k), _n(b, 2, cb, (1,), (1,), **k)]
for b, r in (("slice", 2), ("uneven", (2, 4)), ("volume", 2), ("limited", 4)):
    HARNESSES += [_n(b, r, 2.5, (0, 1)), _n(b, r, 2.5, (1, 2))]
    HARNESSES += [_n(b, r, 2.5, (a,), (a,)) for a in range(3)]
HARNESSES += [H(f"deposit_{'xyz'[a]}_{fold}", mesh, f"mesh deposition, {'xyz'[a]} anywhere in [-4, 4] including values below rounding error, box 1.5, folded {fold} times per side, 4 cells",
                dict(res=4, fold=float(fold), axis=a, L=1.5), setup=vl.setup, concrete_setup=vl.concrete_guard, expect=(LAB,)) for a in range(3) for fold in (1, 4)]
