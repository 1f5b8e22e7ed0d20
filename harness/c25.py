"""C25: rotation matrices are proper rotations onto the requested axis."""

import importlib

import numpy as np
import z3

from symex.registry import H

ASSUMPTIONS = [
    "Reals stand for floats; sin(arccos(c)) is taken as the non-negative root of 1 - c^2, which is what it is for c in [-1, 1].",
    "Directions are written as (w p, w q, c) with p^2 + q^2 = w^2 + c^2 = 1 relative to the axis, which reaches every direction; within 1e-6 of the axis the matrix may be off by as much.",
]
MOD = "swiftsimio.visualisation.rotation"
PROPER = "the matrix is orthogonal with determinant one"
MAPS = "the direction is rotated onto the axis"
HINTS = []  # (value, what is known about it)


class Angle:
    def __init__(self, c):
        self.c = c


def make_proxy():
    from symex import npshim
    from symex.core import SymReal, ctx, to_real

    class HRoot(SymReal):
        """A root that is known to equal a simple expression; quotients by it are simplified too."""

        __slots__ = ()

        def __rtruediv__(self, o):
            n = to_real(o)
            for q in QUOT:
                for sg in (1, -1):
                    if proved(n == sg * to_real(q) * self.e):
                        return SymReal(z3.simplify(sg * to_real(q)))
            return SymReal(n) / SymReal(self.e)

    def proved(f):
        if z3.is_eq(f):
            f = reduce(f.arg(0) - f.arg(1)) == 0
        f = z3.simplify(f, som=True)
        if z3.is_true(f):
            return True
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 3000)
        s.add(*IDEAL, z3.Not(f))
        return s.check() == z3.unsat

    def root(e):
        for g in HINTS:
            g = to_real(g)
            if proved(e == g * g) and proved(g >= 0):
                return HRoot(g)
        return SymReal(ctx().root(e, 2))

    class LA:
        def __getattr__(self, n):
            return getattr(np.linalg, n)

        def norm(self, v, *a, **k):
            v = list(np.asarray(v, dtype=object).reshape(-1))
            return root(to_real(sum([x * x for x in v[1:]], v[0] * v[0])))

        def inv(self, m):
            m = np.asarray(m, dtype=object).view(np.ndarray)
            t = m.dot(m.T)
            if all(proved(to_real(t[i, j]) == (1 if i == j else 0)) for i in range(3) for j in range(3)):
                return npshim.obj(m.T.copy()).view(npshim.SArr)
            from symex import afuncs

            return afuncs.inv(npshim.obj(m).view(npshim.SArr))

    class P(npshim.NpProxy):
        linalg = LA()

        def cross(self, a, b):
            a, b = list(a), list(b)
            r = np.empty(3, dtype=object)
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                r[i] = a[j] * b[k] - a[k] * b[j]
            return r.view(npshim.SArr)

        def dot(self, a, b):
            return np.asarray(a, dtype=object).view(np.ndarray).dot(np.asarray(b, dtype=object).view(np.ndarray))

        matmul = dot

        def arccos(self, c):
            return Angle(c)

        def cos(self, t):
            return t.c

        def sin(self, t):
            return root(z3.simplify(to_real(1 - t.c * t.c)))

        def identity(self, n):
            return npshim.obj(np.identity(n)).view(npshim.SArr)

        eye = identity

        def sqrt(self, x):
            return root(to_real(x))

    return P(True)


IDEAL, QUOT = [], []


def reduce(e):
    """The polynomial e with q^2 and w^2 replaced (an identity under the constraints of the direction)."""
    import sympy

    gens = {}

    def conv(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction()
            return sympy.Rational(f.numerator, f.denominator)
        if z3.is_add(t):
            return sum(conv(c) for c in t.children())
        if z3.is_mul(t):
            r = sympy.Integer(1)
            for c in t.children():
                r = r * conv(c)
            return r
        if z3.is_sub(t):
            a, *b = [conv(c) for c in t.children()]
            return a - sum(b)
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return -conv(t.arg(0))
        if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1:
            return conv(t.arg(0)) ** int(t.arg(1).as_fraction())
        if t.num_args() == 0:
            n = t.decl().name()
            gens[n] = t
            return sympy.Symbol(n)
        raise ValueError(t)

    try:
        x = sympy.expand(conv(z3.simplify(e)))
    except ValueError:
        return e
    for sq, o in (("q", "p"), ("w", "c")):
        s = sympy.Symbol(sq)
        x = sympy.expand(sympy.rem(sympy.Poly(x, s), sympy.Poly(s**2 + sympy.Symbol(o) ** 2 - 1, s)).as_expr())

    def back(t):
        if t.is_Rational:
            return z3.RealVal(f"{t.p}/{t.q}")
        if t.is_Symbol:
            return gens.get(t.name, z3.Real(t.name))
        if t.is_Add:
            return z3.Sum([back(a) for a in t.args])
        if t.is_Mul:
            return z3.Product([back(a) for a in t.args])
        if t.is_Pow:
            return z3.Product([back(t.base)] * int(t.exp))
        raise ValueError(t)

    return back(x)


def setup():
    from symex import shim

    m = importlib.import_module(MOD)
    shim.install(m)
    m.np = make_proxy()


def direction(S, near):
    """(p, q, w, c)"""
    p, q = S.real("p", -1, 1), S.real("q", -1, 1)
    w, c = S.real("w", 0, 1), S.real("c", -1, 1)
    if S.symbolic:
        S.assume(p * p + q * q == 1)
        S.assume(w * w + c * c == 1)
    else:
        n = np.hypot(p, q) or 1.0
        p, q = p / n, q / n
        n = np.hypot(w, c) or 1.0
        w, c = w / n, c / n
    if near == "along":
        S.assume(w == 0)
    elif near:
        S.assume(w <= 2.0**-21)
    else:
        S.assume(w >= 2.0**-19)
    return p, q, w, c


def matrix(S, axis, near):
    from symex.core import Sym

    i = "xyz".index(axis)
    j, k = (i + 1) % 3, (i + 2) % 3
    p, q, w, c = direction(S, near)
    r = S.real("length", 0.0078125, 128)
    n = [None] * 3
    n[i], n[j], n[k] = c, w * p, w * q
    if S.symbolic:
        from symex.core import to_real

        HINTS[:] = [r, w, c, -c]
        QUOT[:] = [p, q, 0, *n, w, c]
        IDEAL[:] = [to_real(v) for v in ()]
        P, Q, W, C, R = map(to_real, (p, q, w, c, r))
        IDEAL[:] = [P * P + Q * Q == 1, W * W + C * C == 1, W >= 0, R > 0]
        if near == "along":
            IDEAL.append(W == 0)
        elif not near:
            IDEAL.append(W > 0)
    v = S.arr([r * x for x in n])
    M = importlib.import_module(MOD).rotation_matrix_from_vector(v, axis)
    S.check(np.shape(M) == (3, 3), "a 3x3 matrix")
    M = np.asarray(M, dtype=object).view(np.ndarray)
    tol = (2.0**-18 if near else 0) if S.symbolic else 1e-5

    def eq(a, b):
        d = a - b
        if S.symbolic:
            from symex.core import SymReal, to_real

            d = SymReal(reduce(to_real(d)))
        if tol == 0:
            return d == 0
        return (d <= tol) & (d >= -tol)

    T = M.dot(M.T)
    for a in range(3):
        for b in range(3):
            S.check(eq(T[a, b], 1.0 if a == b else 0.0), PROPER)
    det = sum(M[0, a] * (M[1, (a + 1) % 3] * M[2, (a + 2) % 3] - M[1, (a + 2) % 3] * M[2, (a + 1) % 3]) for a in range(3))
    S.check(eq(det, 1.0), PROPER)
    u = M.dot(np.array(n, dtype=object))
    for a in range(3):
        S.check(eq(u[a], 1.0 if a == i else 0.0), MAPS)


HARNESSES = []
for ax in "xyz":
    for near, t in ((False, "more than 2^-19 away from the axis"), (True, "within 2^-21 of the axis (either way)"), ("along", "exactly along the axis (either way)")):
        HARNESSES.append(H(f"{ax}_{'along' if near == 'along' else 'near' if near else 'general'}", matrix, f"axis {ax}: every direction {t}, any length from 1/128 to 128", dict(axis=ax, near=near), setup=setup, expect=(PROPER, MAPS)))
