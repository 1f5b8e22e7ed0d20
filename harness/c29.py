"""C29: statistics columns hold the values of the file."""

import itertools
import os
import warnings

from symex.registry import H
from . import cosmolib as cl
from . import filelib
from .c10 import cgs_of
from .cosmolib import flat

ASSUMPTIONS = [
    "Parsing one number from its text is taken as given: texts stand for any values (integers below 2**53), and are integers, decimals, exponents, nan or infinite in any order down a column.  Headers are concrete, in the forms SWIFT writes.",
]

_N = itertools.count()
COLUMNS = [  # description, unit line, name over the column, attribute, cgs value and dimensions of the unit
    ("Simulation step", None, "Step", "step", 1.0, {}),
    ("Time since Big Bang in the cosmology of the run", "9.778131e+05 Myr", "Time", "time", 9.778131e5 * 3.15576e13, {"t": 1}),
    ("Scale-factor (no units)", "dimensionless", "a", "a", 1.0, {}),
    ("Total mass in the simulation", "1.988410e+43 g", "Total mass", "total_mass", 1.988410e43, {"M": 1}),
    ("Gas kinetic energy (physical)", "1.5e+43 g*cm**2/s**2", "Kin. Energy", "kin_energy", 1.5e43, {"M": 1, "L": 2, "t": -2}),
]
FORMS = ["int", "decimal", "exp", "bare", "nan", "inf", "-inf"]


def dims_of(u):
    from . import c10

    return c10.dims_of(u)


def text(S, tag, form):
    """A number in one form: its text and its value."""
    if form in ("nan", "inf", "-inf"):
        return form, float(form)
    k = next(_N)
    v = S.int(tag, -(2**53), 2**53) if form == "int" else S.real(tag, -(10**6), 10**6)
    if not S.symbolic:
        t = str(int(v)) if form == "int" else f"{v:.60f}" if form == "decimal" else f"{v:.20e}"
        if form == "bare":  # no decimal point, capital E
            v = round(v * 1000)
            t = f"{v}E-03"
            v = float(t)
        return t, v
    from symex import npshim

    t = {"int": f"7{k:07d}", "decimal": f"7{k:07d}.5", "exp": f"7.{k:07d}5e+02", "bare": f"7{k:07d}E-03"}[form]
    npshim.LITERALS[t] = (form == "int", v)
    return t, v


def write(cols, rows, style):
    fn = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"stats{next(_N)}.txt")
    lines = []
    for i, (desc, unit, *_r) in enumerate(cols):
        lines.append(f"# ({i}) {desc}. ")
        if unit is not None:
            lines.append(f"#     Unit = {unit}")
        if style == "gaps":
            lines.append("# ")
    lines.append("#" + "".join(f"{c[2]:>25}" for c in cols))
    for r in rows:
        lines.append(" " + "".join(f"{t:>90}" if len(t) > 24 else f"{t:>25}" for t in r))
    with open(fn, "w") as f:
        f.write("\n".join(lines) + ("\n" if style != "no_end" else ""))
    return fn


def read(S, pairs, ncols, rows=2):
    """Any numbers in any forms, columns in any order."""
    import math
    import swiftsimio

    cl.fresh(S)
    if S.symbolic:
        from symex import npshim

        npshim.LITERALS.clear()
    first = S.choice("first", list(range(len(COLUMNS))))
    cols = [COLUMNS[(first + i) % len(COLUMNS)] for i in range(ncols)]
    style = S.choice("style", ["plain", "gaps", "no_end"])
    forms = [S.choice(f"forms{j}", list(pairs)) for j in range(ncols)]
    cells = [[text(S, f"v{i}_{j}", forms[j][i % len(forms[j])]) for j in range(ncols)] for i in range(rows)]
    fn = write(cols, [[t for t, _ in r] for r in cells], style)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = swiftsimio.load_statistics(fn)
    for j, (desc, unit, name, attr, c, dims) in enumerate(cols):
        x = getattr(data, attr)
        S.check(len(x) == rows, "one value per row of the file")
        for got, (t, v) in zip(flat(x), [cells[i][j] for i in range(rows)]):
            if isinstance(v, float) and math.isnan(v):
                S.check(isinstance(got, float) and math.isnan(got), "the values are those of the file")
            else:
                S.check(S.eq(got, v), "the values are those of the file")
        u = x.units
        S.check(abs(cgs_of(u) / c - 1) < 1e-6 and dims_of(u) == dims, "the units are those the header gives")
        S.check(x.name == desc.split(".")[0], "columns keep their description")


def setup():
    filelib.setup()


def hs():
    kw = dict(setup=setup, concrete_setup=cl.concrete_setup)
    e = ("the values are those of the file",)
    every = [(a, b) for a in FORMS for b in FORMS]
    return [
        H("one_column", read, "any two numbers in any forms in one column, five kinds of columns", quick=dict(pairs=every, ncols=1), expect=e, **kw),
        H("two_columns", read, "two columns, different forms down the first and second", quick=dict(pairs=[("int", "int"), ("int", "exp"), ("decimal", "int"), ("nan", "decimal"), ("exp", "decimal")], ncols=2), expect=e, **kw),
        H("all_columns", read, "five columns in any cyclic order, three rows", quick=dict(pairs=[("int", "int", "decimal"), ("exp", "decimal", "int")], ncols=5, rows=3), expect=e, **kw),
    ]


HARNESSES = hs()
