"""C23: smoothing kernels are positive, compact, decreasing and normalised."""

import importlib

import numpy as np

from symex.registry import H

from . import vislib as vl

ASSUMPTIONS = [
    "Reals stand for floats, so the constants are compared within 1e-3 of one.",
    "The normalisation is bounded between sums over 4096 shells, which is exact for decreasing functions; that the kernel decreases between any two distances is decided by the solver.",
]


def kernels():
    P = vl.BASE + "projection_backends.kernels"
    return {
        "single": (P, "kernel_single_precision", 2),
        "double": (P, "kernel_double_precision", 2),
        "slice": (vl.BASE + "slice_backends.sph", "kernel", 3),
        "volume": (vl.BASE + "volume_render_backends.scatter", "kernel", 3),
    }


def get(name):
    m, f, d = kernels()[name]
    return getattr(importlib.import_module(m), f), d


def setup():
    from symex import shim

    for m, _, _ in kernels().values():
        shim.install(importlib.import_module(m))


def num(S, v):
    return float(v)


def shape(S, name):
    k, d = get(name)
    Hk = S.real("H", 0.125, 8)
    r, s = S.real("r", 0, 16), S.real("s", 0, 16)
    S.assume(r <= s)
    a, b = k(r, Hk), k(s, Hk)
    tol = 0 if S.symbolic else 1e-5 * (1 + abs(num(S, a)))
    S.check(a >= 0, "never negative")
    S.check(b <= a + tol, "decreases with distance")
    if bool(r >= Hk):
        S.check(a == 0, "zero at and beyond the support radius")
    if bool(r < Hk * 0.9375):
        S.check(a > 0, "positive inside the support radius")


def scaling(S, name):
    k, d = get(name)
    c = S.real("c", 0.125, 8)
    q = S.real("q", 0, 2)
    Hk = S.real("H", 0.125, 8)
    a = k(q * c * Hk, c * Hk)
    b = k(q * Hk, Hk)
    if S.symbolic:
        S.check(a * c**d == b, "scales with the inverse radius to the power of its dimension")
    else:
        S.check(abs(float(a) * c**d - float(b)) <= 1e-3 * max(float(b), 1e-2 / Hk**d), "scales with the inverse radius to the power of its dimension")


def norm(S, name):
    """Sums over shells bound the integral of a decreasing function from both sides."""
    k, d = get(name)
    n = 4096
    vals = [float(k(i / n, 1.0)) for i in range(n)]
    w = [np.pi * ((i + 1) ** 2 - i**2) / n**2 if d == 2 else 4 * np.pi / 3 * ((i + 1) ** 3 - i**3) / n**3 for i in range(n)]
    hi = sum(v * x for v, x in zip(vals, w))
    lo = sum(v * x for v, x in zip(vals[1:] + [0.0], w))
    # the solver bounds the kernel between neighbouring shells: nothing hides between them
    i = S.int("shell", 0, 63)
    i = S.split(i)
    q = S.real("q", i / 64, (i + 1) / 64)
    a = k(q, 1.0)
    tol = 1e-5 * max(vals)
    S.check((a <= vals[i * 64] + tol) & (a >= (vals[(i + 1) * 64] if i < 63 else 0.0) - tol), "between the values at the edges of its shell")
    S.check(lo <= 1.001 and hi >= 0.999, "integrates to one over its support")


HARNESSES = []
for n in ("single", "double", "slice", "volume"):
    HARNESSES += [
        H("shape_" + n, shape, f"{n} kernel: any two distances up to 16, any radius from 1/8 to 8", dict(name=n), setup=setup,
          expect=("never negative", "decreases with distance", "zero at and beyond the support radius", "positive inside the support radius")),
        H("scaling_" + n, scaling, f"{n} kernel: any distance up to twice the radius, radius from 1/8 to 8, scaled by any factor from 1/8 to 8", dict(name=n), setup=setup, expect=("scales with the inverse radius to the power of its dimension",)),
        H("norm_" + n, norm, f"{n} kernel of radius 1, 4096 shells", dict(name=n), setup=setup, expect=("integrates to one over its support",)),
    ]
