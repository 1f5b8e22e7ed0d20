"""C17: writing a snapshot and reading it back preserves the data."""

import warnings

from symex.registry import H
from . import cosmolib as cl
from . import filelib
from .c10 import BASES, cgs_of, dims_of, flat, snake

ASSUMPTIONS = [
    "Array sizes, units and unit systems are concrete (several combinations); values, frames, scale factors, exponents and box sides are not.  Reading back rounds base units to five significant figures, as documented.",
]

# field: (row shape, unit exponents, units it may be given in)
FIELDS = {
    "coordinates": ("d", {"L": 1}, ["Mpc", "kpc", "cm"]),
    "velocities": ("d", {"L": 1, "t": -1}, ["km/s", "Mpc/Gyr", "cm/s"]),
    "masses": ("", {"M": 1}, ["Msun", "g", "kg"]),
    "internal_energy": ("", {"L": 2, "t": -2}, ["km**2/s**2", "J/kg", "cm**2/s**2"]),
    "smoothing_lengths": ("", {"L": 1}, ["kpc", "Mpc", "m"]),
}
HANDLES = {"coordinates": "Coordinates", "velocities": "Velocities", "masses": "Masses", "internal_energy": "InternalEnergy", "smoothing_lengths": "SmoothingLengths", "particle_ids": "ParticleIDs"}
EXP = {"coordinates": 1, "velocities": -1, "masses": 0, "internal_energy": -2, "smoothing_lengths": 1}
TYPES = {
    "gas": (0, ["coordinates", "velocities", "masses", "internal_energy", "smoothing_lengths"]),
    "dark_matter": (1, ["coordinates", "velocities", "masses"]),
    "boundary": (2, ["coordinates", "velocities", "masses"]),
    "sinks": (3, ["coordinates", "velocities", "masses"]),
    "stars": (4, ["coordinates", "velocities", "masses", "smoothing_lengths"]),
    "black_holes": (5, ["coordinates", "velocities", "masses"]),
    "neutrinos": (6, ["coordinates", "velocities", "masses"]),
    "sidm": (7, ["coordinates", "velocities", "masses"]),
}


PC, YR = 3.0856775814913674e18, 3.15576e7
SYSTEMS = {  # grams, cm, s, K, A
    "cosmo": [1.98841586e43, PC * 1e6, PC * 1e6 / 1e5, 1.0, 1.0],
    "cgs": [1.0, 1.0, 1.0, 1.0, 1.0],
    "mks": [1000.0, 100.0, 1.0, 1.0, 1.0],
    "galactic": [1.98841586e33, PC * 1e3, YR * 1e6, 1.0, 1.0],
    "own": [1.98841586e33, PC * 1e3, YR * 1e6, 1.0, 1e-3],
}


def system(name):
    import unyt
    from swiftsimio.metadata.writer.unit_systems import cosmo_units

    if name == "cosmo":
        return cosmo_units
    if name == "own":
        return unyt.UnitSystem("verif_own", "kpc", "Msun", "Myr", temperature_unit="K", current_mks_unit="mA")
    return name  # a registered name


def cgs(unit):
    import unyt

    return cgs_of(unyt.Unit(unit))


def writer(S, a, dim, sysname, box_unit="Mpc", frame_box=None, n_box=None, **kw):
    from swiftsimio import Writer

    fb = S.split(S.bool("box_comoving")) if frame_box is None else frame_box
    box = cl.In(S, "box", (dim if n_box is None else n_box,), 1, fb, a, box_unit, lo=1, hi=64)
    w = Writer(unit_system=system(sysname), boxsize=box.x, dimension=dim, scale_factor=a, **kw)
    box.intact("the box given is left alone")
    return w, box


def fill(S, w, a, ptype, n, dim, units=0, free=None, exps=EXP, skip=(), frame=None):
    """Give every required array; what each stands for."""
    out = {}
    for name in TYPES[ptype][1]:
        if name in skip:
            continue
        sh, e, us = FIELDS[name]
        own = free is None or (ptype, name) in free
        fr = S.split(S.bool(f"comoving_{ptype}_{name}")) if own and frame is None else frame is not False
        x = cl.In(S, f"{ptype}_{name}", (n, dim) if sh else (n,), exps[name], fr, a, us[units % len(us)])
        setattr(getattr(w, ptype), name, x.x)
        out[name] = (x, us[units % len(us)])
    return out


def near(S, got, want, tol, label):
    S.check(len(got) == len(want) and S.allnear(got, want, rtol=tol), label)


def check_file(S, h, w, a, box, box_unit, given, sysname, dim):
    """The file itself, by its own attributes."""
    import numpy as np

    U = {k: float(np.asarray(h["Units"].attrs[v])[0]) for k, v in {"M": "Unit mass in cgs (U_M)", "L": "Unit length in cgs (U_L)", "t": "Unit time in cgs (U_t)", "I": "Unit current in cgs (U_I)", "T": "Unit temperature in cgs (U_T)"}.items()}
    near(S, [U["M"], U["L"], U["t"], U["T"], U["I"]], SYSTEMS[sysname], 1e-6, "the units written are those of the unit system")
    hd = h["Header"].attrs
    n_of = {TYPES[t][0]: len(f["masses"][0].x) for t, f in given.items()}
    numbers = [int(v) for v in hd["NumPart_ThisFile"]]
    S.check(numbers == [n_of.get(i, 0) for i in range(len(numbers))] and len(numbers) >= 8, "the header counts the particles of every type")
    S.check([int(v) for v in hd["NumPart_Total"]] == numbers, "the header counts the particles of every type")
    S.check(int(np.asarray(hd["Dimension"]).reshape(-1)[0]) == dim, "the header holds the dimension")
    S.check(S.eq(flat(np.asarray(hd["Scale-factor"]))[0], a), "the header holds the scale factor")
    near(S, [v * U["L"] * a for v in flat(np.asarray(hd["BoxSize"]))], [v * cgs(box_unit) for v in flat(box.phys)], 1e-9, "the box written is the box given")
    groups = sorted(k for k in h.keys() if k.startswith("PartType"))
    S.check(groups == sorted(f"PartType{i}" for i in n_of), "only the types given are written")
    for t, f in given.items():
        g = h[f"PartType{TYPES[t][0]}"]
        S.check(sorted(g.keys()) == sorted([HANDLES[x] for x in f] + (["ParticleIDs"] if "particle_ids" not in f else [])), "every array given is written under its name")
        for name, (x, unit) in f.items():
            d = g[HANDLES[name]]
            at = d.attrs
            e = {k: float(np.asarray(at[f"U_{k} exponent"])[0]) for k in "ILMTt"}
            S.check({k: v for k, v in e.items() if v} == FIELDS[name][1], "the unit exponents written are those of the field")
            p = float(np.asarray(at["a-scale exponent"])[0])
            S.check(p == float(x.p), "the scale-factor exponent written is that of the array")
            S.check(float(np.asarray(at["h-scale exponent"])[0]) == 0.0, "no factors of h are claimed")
            c = 1.0
            for k, v in e.items():
                c *= U[k] ** v
            near(S, [flat(np.asarray(at["Conversion factor to CGS (not including cosmological corrections)"]))[0]], [c], 1e-6, "the conversion factor written is that of the units")
            near(S, [flat(np.asarray(at["Conversion factor to physical CGS (including cosmological corrections)"]))[0]], [c * cl.apow(a, p)], 1e-6, "the physical conversion factor written is that of the units and scale factor")
            S.check(tuple(d.shape) == tuple(x.shape), "arrays keep their shape")
            near(S, [v * c * cl.apow(a, p) for v in flat(d[...])], [v * cgs(unit) for v in flat(x.phys)], 1e-6, "the values written are those given")


def check_load(S, fn, a, box, box_unit, given):
    """The same through swiftsimio itself."""
    import swiftsimio

    data = swiftsimio.load(fn)
    b = data.metadata.boxsize
    near(S, [v * cgs_of(b.units) for v in cl.physical(S, b, a)], [v * cgs(box_unit) for v in flat(box.phys)], 3e-4, "the box read is the box given")
    S.check(S.eq(data.metadata.a, a), "the scale factor read is the one given")
    S.check(sorted(data.metadata.present_group_names) == sorted(t for t, f in given.items() if len(f["masses"][0].x)), "the types read are those given")
    for t, f in given.items():
        n = len(f["masses"][0].x)
        S.check(int(getattr(data.metadata, f"n_{t}")) == n, "the numbers read are those given")
        if n == 0:
            continue
        for name, (x, unit) in f.items():
            r = getattr(getattr(data, t), {"internal_energy": "internal_energy"}.get(name, name))
            S.check(tuple(r.shape) == tuple(x.shape), "arrays keep their shape")
            S.check(dims_of(r.units) == {k: float(v) for k, v in FIELDS[name][1].items()}, "the dimensions read are those given")
            S.check(cl.exponent(r.cosmo_factor) == float(x.p), "the exponents read are those given")
            near(S, [v * cgs_of(r.units) for v in cl.physical(S, r, a)], [v * cgs(unit) for v in flat(x.phys)], 3e-4, "the values read are those given")


def roundtrip(S, numbers, dim=3, sysname="cosmo", units=0, box_unit="Mpc", free=None, compress=True, exps=EXP, extra=None, frame=None):
    """Every array in any frame, written, then read from the file."""
    cl.fresh(S)
    a = S.scale_factor("a")
    fn = filelib.path("written")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w, box = writer(S, a, dim, sysname, box_unit, compress=compress, extra_header=extra)
        given = {t: fill(S, w, a, t, n, dim, units, free, exps, frame=frame) for t, n in numbers.items()}
        w.write(fn)
    h = filelib.contents(S, fn)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check_file(S, h, w, a, box, box_unit, given, sysname, dim)
        if extra:
            for k, v in extra.items():
                S.check(h["Header"].attrs[k] == v, "extra header items are written")
        h.close()
        check_load(S, fn, a, box, box_unit, given)


def again(S):
    """The same writer writes the same snapshot twice, and replaced arrays replace."""
    cl.fresh(S)
    a = S.scale_factor("a")
    fns = [filelib.path("written") for _ in range(3)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w, box = writer(S, a, 3, "cosmo", frame_box=True)
        given = {"dark_matter": fill(S, w, a, "dark_matter", 2, 3, free=[("dark_matter", "masses")])}
        w.write(fns[0])
        w.write(fns[1])
        x = cl.In(S, "other", (2,), 0, S.split(S.bool("comoving_other")), a, "kg")
        if S.split(S.bool("delete_first")):
            del w.dark_matter.masses
            S.check(w.dark_matter.masses is None, "deleted arrays are gone")
        w.dark_matter.masses = x.x
        w.write(fns[2])
        for fn in fns:
            if fn is fns[2]:
                given["dark_matter"]["masses"] = (x, "kg")
            h = filelib.contents(S, fn)
            check_file(S, h, w, a, box, "Mpc", given, "cosmo", 3)
            h.close()
        check_load(S, fns[2], a, box, "Mpc", given)


def later(S):
    """Arrays handed over and then converted by the user, or given to a second writer."""
    cl.fresh(S)
    a = S.scale_factor("a")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w, box = writer(S, a, 3, "cosmo", frame_box=True)
        given = {"dark_matter": fill(S, w, a, "dark_matter", 2, 3, free=[("dark_matter", "coordinates")])}
        name = S.choice("field", ["coordinates", "velocities", "masses"])
        x = given["dark_matter"][name][0].x
        what = S.choice("what", ["units", "frame", "writer", "scale"])
        w2 = None
        if what == "units":
            x.convert_to_units(FIELDS[name][2][-1])
        elif what == "frame":
            x.convert_to_physical()
        elif what == "writer":
            w2, _ = writer(S, a, 3, "cgs", frame_box=True)
            for f in given["dark_matter"]:
                setattr(w2.dark_matter, f, given["dark_matter"][f][0].x)
        else:
            x.convert_to_units(FIELDS[name][2][1])
            x.convert_to_physical()
        fn = filelib.path("written")
        w.write(fn)
        h = filelib.contents(S, fn)
        check_file(S, h, w, a, box, "Mpc", given, "cosmo", 3)
        h.close()
        check_load(S, fn, a, box, "Mpc", given)
        if w2 is not None:
            fn = filelib.path("written")
            w2.write(fn)
            h = filelib.contents(S, fn)
            check_file(S, h, w2, a, box, "Mpc", given, "cgs", 3)
            h.close()


def lengths(S, n=3, dim=3):
    """Generated smoothing lengths: twice the mean separation, for boxes with equal sides."""
    import numpy as np

    cl.fresh(S)
    a = S.scale_factor("a")
    L = S.real("L", 1, 64)
    sides = [L] * dim if dim == 1 or not S.split(S.bool("unequal")) else [L] * (dim - 1) + [S.real("L2", 1, 64)]
    if dim > 1 and sides[-1] is not L:
        S.assume((sides[-1] > L) | (sides[-1] < L) if S.symbolic else sides[-1] != L)
    from swiftsimio import Writer

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fr = S.split(S.bool("box_comoving"))
        box = cl.In(S, "box", (dim,), 1, fr, a, "kpc", vals=sides)
        w = Writer(unit_system=system("cosmo"), boxsize=box.x, dimension=dim, scale_factor=a)
        t = S.choice("type", ["gas", "stars", "dark_matter"])
        fill(S, w, a, t, n, dim, free=[])
        try:
            getattr(w, t).generate_smoothing_lengths()
            done = True
        except (ValueError, RuntimeError):
            done = False
        S.check(done == (sides[-1] is L and t != "dark_matter"), "smoothing lengths are generated for cubes and types that have them")
        if not done:
            return
        h = getattr(w, t).smoothing_lengths
        S.check(tuple(h.shape) == (n,), "one smoothing length per particle")
        want = 2 * box.phys.view(np.ndarray)[0] * cgs("kpc") / n ** (1.0 / dim)
        near(S, [v * cgs_of(h.units) for v in cl.physical(S, h, a)], [want] * n, 1e-9, "generated smoothing lengths are twice the mean separation")
        fn = filelib.path("written")
        w.write(fn)
        f = filelib.contents(S, fn)
        d = f[f"PartType{TYPES[t][0]}/SmoothingLengths"]
        near(S, [v * cgs("Mpc") * a for v in flat(d[...])], [want] * n, 1e-6, "generated smoothing lengths are twice the mean separation")
        f.close()


def refuse(S, what, ptypes=("gas", "dark_matter", "stars")):
    """Arrays that cannot be part of the snapshot are refused and nothing is written."""
    import os
    import numpy as np
    import unyt
    from swiftsimio.objects import cosmo_array

    cl.fresh(S)
    a = S.scale_factor("a")
    n = 2
    fn = filelib.path("refused")
    t = S.choice("type", list(ptypes))
    name = S.choice("field", TYPES[t][1])
    sh, _, us = FIELDS[name]
    shape = (n, 3) if sh else (n,)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w, box = writer(S, a, 3, "cosmo", frame_box=True)
        for q in ptypes:
            fill(S, w, a, q, n, 3, free=[], frame=True, skip=[name] if q == t else [])
        fr = S.split(S.bool("frame"))
        mk = lambda sh, unit, aa=a, p=EXP[name]: cl.In(S, "bad", sh, p, fr, aa, unit).x  # noqa: E731
        raised = None
        try:
            if what == "size":
                m = S.choice("size", [0, 1, 3])
                setattr(getattr(w, t), name, mk((m, *shape[1:]), us[0]))
            elif what == "columns":
                if not sh:
                    return
                setattr(getattr(w, t), name, mk((n, S.choice("columns", [1, 2, 4])), us[0]))
            elif what == "missing":
                if S.split(S.bool("deleted")):
                    setattr(getattr(w, t), name, mk(shape, us[0]))
                    delattr(getattr(w, t), name)
            elif what == "dimensions":
                u = S.choice("unit", [v for v in ("Mpc", "Msun", "Gyr", "km/s", "K", "km**2", "dimensionless", "km**2/s**2") if unyt.Unit(v).dimensions != unyt.Unit(us[0]).dimensions])
                setattr(getattr(w, t), name, mk(shape, u))
            elif what == "scale_factor":
                b = S.scale_factor("b")
                S.assume((a > b) | (a < b) if S.symbolic else a != b)
                setattr(getattr(w, t), name, mk(shape, us[0], b))
            else:
                x = mk(shape, us[0])
                kind = S.choice("kind", ["array", "unyt", "no_frame"])
                if kind == "array":
                    x = S.arr(flat(x)).reshape(shape)
                elif kind == "unyt":
                    x = unyt.unyt_array(np.ones(shape), us[0])
                else:
                    x = cosmo_array(np.ones(shape), us[0])
                setattr(getattr(w, t), name, x)
            w.write(fn)
        except (AssertionError, AttributeError, TypeError, ValueError, unyt.exceptions.InvalidUnitEquivalence) as e:
            raised = e
    S.check(raised is not None, "what cannot be written is refused")
    S.check(not os.path.exists(fn), "nothing is written when refused")


def setup():
    filelib.setup()


def hs():
    kw = dict(setup=setup, concrete_setup=cl.concrete_setup)
    out = []
    R = lambda name, text, quick, **k: out.append(H(name, roundtrip, text, quick=quick, expect=("the values read are those given",), **kw, **k))  # noqa: E731
    R("gas", "2 gas particles, every array in either frame, any values and scale factor", dict(numbers={"gas": 2}))
    R("two_types", "1 gas and 2 stars, other units", dict(numbers={"gas": 1, "stars": 2}, units=1, box_unit="kpc", free=[("gas", "masses"), ("stars", "coordinates"), ("stars", "velocities")]))
    R("every_type", "1 or 2 particles of each of the eight types", dict(numbers={t: 1 + i % 2 for i, t in enumerate(TYPES)}, units=2, free=[(t, "coordinates") for t in ("sinks", "sidm")], frame=None))
    R("empty_type", "no gas, 1 dark matter particle", dict(numbers={"gas": 0, "dark_matter": 1}, free=[("dark_matter", "coordinates")]))
    for sysname in ("cgs", "mks", "galactic", "own"):
        R("units_" + sysname, f"1 star particle written in {sysname} units, exponents other than the usual", dict(numbers={"stars": 1}, sysname=sysname, units=["cgs", "mks", "galactic", "own"].index(sysname), exps=dict(coordinates=2, velocities=0.5, masses=-3, smoothing_lengths=0), extra=dict(Note="text", Flag_Entropy_ICs=1)))
    for dim in (1, 2):
        R(f"dimension_{dim}", f"2 gas particles in {dim} dimensions", dict(numbers={"gas": 2}, dim=dim, compress=False, free=[("gas", "coordinates"), ("gas", "velocities")]))
    out.append(H("again", again, "one writer used three times, an array replaced or deleted in between", expect=("the values read are those given",), **kw))
    out.append(H("later", later, "arrays converted to other units or the other frame, or given to a second writer, after they were handed over", expect=("the values read are those given",), **kw))
    for dim, n in ((3, 3), (2, 2), (1, 4)):
        out.append(H(f"lengths_{dim}", lengths, f"smoothing lengths for {n} particles in a box with equal or unequal sides, {dim} dimensions", quick=dict(dim=dim, n=n), expect=("smoothing lengths are generated for cubes and types that have them",), **kw))
    for what in ("size", "columns", "missing", "dimensions", "scale_factor", "kind"):
        out.append(H("refuse_" + what, refuse, f"any required array of gas, dark matter or stars with a wrong {what}", quick=dict(what=what), expect=("what cannot be written is refused",), **kw))
    return out


HARNESSES = hs()
