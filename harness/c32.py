"""C32: metadata quantities and the cosmology are those of the file."""

import warnings

from symex.core import iff
from symex.registry import H
from . import cosmolib as cl
from . import filelib
from .c10 import cgs_of, dims_of
from .cosmolib import flat

ASSUMPTIONS = [
    "Values are any reals in the ranges the harnesses state; unit systems from a stated list; degeneracies, effective numbers of relativistic species and neutrino kinds from stated lists.",
    "In the solver's runs astropy's w0waCDM is a recorder of its arguments (the values are symbolic); replays build the real one and read its attributes.",
    "The snapshot date and the descriptive strings put together from several attributes (code_info and the like) are left out.",
]

# length, mass, time in cgs
SYSTEMS = {"cosmo": (filelib.MPC, 1e10 * filelib.MSUN, filelib.GYR), "swift": (3.08567758e24, 1.98841e43, 3.08567758e19), "cgs": (1.0, 1.0, 1.0), "odd": (2.5 * filelib.MPC / 1000, 3.0 * filelib.MSUN, 0.125 * filelib.GYR)}
RTOL = 2e-4  # unit factors keep five digits


def units(S, system):
    L, M, t = SYSTEMS[system]
    return filelib.units_group(S, L=L, M=M, t=t)


def metadata(S, tree, how="load"):
    import swiftsimio
    from swiftsimio.metadata.objects import SWIFTUnits, _metadata_discriminator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn = filelib.put(S, tree)
        if how == "load":
            return swiftsimio.load(fn).metadata
        if how == "mask":
            return swiftsimio.mask(fn, spatial_only=True).metadata
        u = SWIFTUnits(fn)
        return _metadata_discriminator(fn, u)


def in_cgs(q):
    return [v * cgs_of(q.units) for v in flat(q)]


def extra(kind):
    """What each kind of file needs besides the header."""
    import numpy as np
    from symex.h5fake import D, G

    d = {"SOAP": "BoundSubhalo", "FOF": "Groups"}.get(kind)
    return {d: G({"Masses": D(np.array([1.0]), attrs={})})} if d else {}


def kinds(S, tree, kind):
    import numpy as np

    h = tree.items["Header"].attrs
    if kind == "SOAP":
        h.update({"NumSubhalos_ThisFile": np.array([1]), "SubhaloTypes": np.array(["BoundSubhalo"], dtype=object)})
    elif kind == "FOF":
        h.update({"NumGroup_ThisFile": np.array([1])})


def quantities(S, system, kind, how="load", cosmological=True):
    """Numbers of the header, in the units of the file."""
    from symex.h5fake import G

    cl.fresh(S)
    L, _, t = SYSTEMS[system]
    a = S.scale_factor("a")
    time, z, dim = S.real("time", 0, 100), S.real("z", 0, 20), S.choice("dim", [2, 3])
    box = [S.real(f"b{i}", 0.125, 100) for i in range(3)]
    files = S.int("files", 1, 1000)
    hd = filelib.header(S, a, [0] * 7, box=(1, 1, 1), output_type=kind)
    hd.attrs.update({"Time": S.arr([time]), "Redshift": S.arr([z]), "BoxSize": S.arr(box), "Dimension": S.arr([dim], dtype=int), "NumFilesPerSnapshot": S.arr([files], dtype=int)})
    if not cosmological:
        del hd.attrs["Scale-factor"], hd.attrs["Redshift"]
    tree = G({"Header": hd, "Units": units(S, system), **extra(kind)})
    kinds(S, tree, kind)
    m = metadata(S, tree, how)
    T = "times have the value and units of the file"
    for q in (m.time, m.t):
        S.check(dims_of(q.units) == {"t": 1}, T)
        S.check(S.allnear(in_cgs(q), [time * t], rtol=RTOL), T)
    b = m.boxsize
    S.check(dims_of(b.units) == {"L": 1} and len(flat(b)) == 3, "the box has the size and units of the file")
    S.check(S.allnear(in_cgs(b), [x * L for x in box], rtol=RTOL), "the box has the size and units of the file")
    S.check(b.comoving is True and cl.exponent(b.cosmo_factor) == 1, "the box is a comoving length")
    if cosmological:
        S.check(S.eq(m.scale_factor, a) and S.eq(m.a, a) and S.eq(m.redshift, z) and S.eq(m.z, z), "redshift and scale factor are those of the file")
        S.check(S.allnear(cl.physical(S, b, a), [x * a for x in flat(b)], rtol=1e-9), "the box is a comoving length")
    else:
        S.check(m.scale_factor == 1.0 and m.a == 1.0, "without a scale factor in the file it is 1")
    S.check(S.eq(m.dimension, dim), "the dimension is that of the file")
    if kind not in ("SOAP", "FOF"):
        S.check(iff(bool_of(S, m.partial_snapshot), files > 1), "a snapshot is partial exactly when it has several files")


def bool_of(S, x):
    import numpy as np

    x = flat(np.asarray(x))[0] if isinstance(x, np.ndarray) else x
    return x


def radiation(S, system, kind="FullVolume"):
    """Photon groups and the reduced speed of light."""
    import numpy as np
    from symex.h5fake import D, G

    cl.fresh(S)
    L, _, t = SYSTEMS[system]
    edges = [S.real(f"e{i}", 0.5, 1000) for i in range(3)]
    c = S.real("c", 0.125, 1000)
    gamma = S.real("gamma", 1, 2)
    has_e, has_c, has_h = S.split(S.bool("edges")), S.split(S.bool("light")), S.split(S.bool("hydro"))
    hd = filelib.header(S, 0.5, [0] * 7, output_type=kind)
    sub = {}
    if has_e:
        sub["PhotonGroupEdges"] = D(S.arr(edges), dtype="f8")
    if has_c:
        sub["ReducedLightspeed"] = D(S.arr([c]), dtype="f8")
    tree = G({"Header": hd, "Units": units(S, system), "SubgridScheme": G(sub)})
    if has_h:
        tree.items["HydroScheme"] = G({}, {"Adiabatic index": S.arr([gamma])})
    m = metadata(S, tree)
    if has_e:
        q = m.photon_group_edges
        S.check(dims_of(q.units) == {"t": -1} and len(flat(q)) == 3, "photon group edges are frequencies of the file")
        S.check(S.allnear([v * cgs_of(q.units) for v in flat(q)], [e / t for e in edges], rtol=RTOL), "photon group edges are frequencies of the file")
    else:
        S.check(m.photon_group_edges is None, "what the file lacks is None")
    if has_c:
        q = m.reduced_lightspeed
        S.check(S.allnear([v * cgs_of(q.units) for v in flat(q)], [c * L / t], rtol=RTOL), "the reduced speed of light is that of the file")
        S.check(dims_of(q.units) == {"L": 1, "t": -1}, "the reduced speed of light is that of the file")
    else:
        S.check(m.reduced_lightspeed is None, "what the file lacks is None")
    if has_h:
        S.check(S.eq(flat(np.asarray(m.gas_gamma))[0], gamma), "the adiabatic index is that of the file")
    else:
        S.check(m.gas_gamma is None, "what the file lacks is None")


def strings(S):
    """Strings of the header, stored as bytes or as text, or missing."""
    import numpy as np
    from symex.h5fake import G

    cl.fresh(S)
    hd = filelib.header(S, 0.5, [0] * 7)
    want = {}
    for attr, name, v in (("RunName", "run_name", "L0025 run é"), ("System", "system_name", "cosma"), ("SelectOutput", "select_output", "Default")):
        k = S.choice(attr, ["text", "bytes", "none"] if attr != "System" else ["text", "none"])
        hd.attrs.pop(attr, None)
        want[name] = "" if k == "none" else v
        if k != "none":
            hd.attrs[attr] = v if k == "text" else np.bytes_(v.encode("utf-8"))
    m = metadata(S, G({"Header": hd, "Units": units(S, "cosmo")}))
    for k, v in want.items():
        S.check(getattr(m, k) == v, "names and labels are those of the file")


class _Rec:
    """Stand-in for an astropy quantity or unit."""

    __array_ufunc__ = None

    def __init__(self, value, unit):
        self.value, self.unit = value, unit

    def __rmul__(self, o):
        return _Rec(o, self.unit)

    def __truediv__(self, o):
        return _Rec(None, (self.unit, "/", o.unit))

    def __pow__(self, p):
        return _Rec(None, (self.unit, p))

    def to_value(self, unit):
        return self.value


class _Cosmology:
    def __init__(self, **kw):
        self.kw = kw


NAMES = {"H0": "H0 [internal units]", "Om0": "Omega_m", "Ode0": "Omega_lambda", "Ob0": "Omega_b", "w0": "w_0", "wa": "w_a"}


def read_cosmology(S, c):
    """The cosmology's numbers; H0 in 1/s, T in K, neutrino masses in eV."""
    if S.symbolic:
        k = dict(c.kw)
        h = k["H0"]
        k["H0"] = flat(h.value)[0] * cgs_of(h.unit)
        S.check(dims_of(h.unit) == {"t": -1}, "the Hubble constant is that of the file")
        S.check(k["m_nu"].unit == "eV", "neutrino masses are those of the file")
        k["m_nu"] = flat(k["m_nu"].value)
        return k
    k = {n: float(getattr(c, n)) for n in ("Om0", "Ode0", "Ob0", "w0", "wa", "Neff")}
    k["H0"] = c.H0.to_value("1/s")
    k["Tcmb0"] = c.Tcmb0.to_value("K")
    k["m_nu"] = None if c.m_nu is None else [float(v) for v in c.m_nu.to_value("eV")]
    return k


def cosmology(S, system, nu="none", how="load", kind="FullVolume"):
    """Parameters of the cosmology; neutrinos given in different ways."""
    import numpy as np
    from symex.h5fake import G

    cl.fresh(S)
    t = SYSTEMS[system][2]
    # a Hubble time between 1 and 1000 Gyr, as a rate in the units of the file
    v = {"H0": S.real("H0", 0.001, 1) * (t / filelib.GYR), "Om0": S.real("Om0", 0.0625, 1), "Ode0": S.real("Ode0", 0, 1), "Ob0": S.real("Ob0", 0.015625, 0.0625), "w0": S.real("w0", -2, 0), "wa": S.real("wa", -1, 1)}
    omega_r = S.real("Omega_r", 0.00001, 0.0009765625)
    attrs = {NAMES[k]: S.arr([x]) for k, x in v.items()}
    attrs.update({"Cosmological run": np.array([1]), "Omega_r": S.arr([omega_r]), "Omega_k": np.array([0.0]), "h": S.arr([S.real("h", 0.5, 1)])})
    tcmb = S.choice("tcmb", ["given", "zero", "absent"])
    T = S.real("T", 0.125, 10)
    if tcmb != "absent":
        attrs["T_CMB_0 [K]"] = S.arr([T if tcmb == "given" else 0.0])
    neff, masses, ok = None, [0.0, 0.0, 0.0], True
    if nu != "none":
        neff = S.real("Neff", 0.5, 6)
        attrs["N_eff"] = S.arr([neff])
        n_ur = S.choice("N_ur", nu["ur"])
        deg = S.choice("deg", nu["deg"])
        attrs["N_ur"] = np.array([float(n_ur)])
        masses = []
        if deg is not None:
            ms = [S.real(f"m{i}", 0.0625, 1) for i in range(len(deg))]
            attrs["M_nu_eV"], attrs["deg_nu"] = S.arr(ms), np.array([float(d) for d in deg])
            ok = all(d == int(d) for d in deg)
            for d, mm in zip(deg, ms):
                masses += [mm] * int(d)
        masses += [0.0] * int(n_ur)
        ok = ok and bool(S.split(S.eq(floor(S, neff), len(masses))))
    hd = filelib.header(S, 0.5, [0] * 7, output_type=kind)
    tree = G({"Header": hd, "Units": units(S, system), "Cosmology": G({}, attrs), **extra(kind)})
    kinds(S, tree, kind)
    R = "models that cannot be expressed are refused, others are not"
    from symex.core import Unsupported

    try:
        m = metadata(S, tree, how)
        raised = False
    except Unsupported:
        raise
    except AttributeError:
        raised = True
    S.check(raised == (not ok), R)
    if raised:
        return
    for k, x in v.items():
        S.check(S.eq(flat(np.asarray(m.cosmology_raw[NAMES[k]]))[0], x), "the raw parameters are those of the file")
    k = read_cosmology(S, m.cosmology)
    for n in ("Om0", "Ode0", "Ob0", "w0", "wa"):
        S.check(S.allnear([k[n]], [v[n]], rtol=1e-12) if not S.symbolic else S.eq(k[n], v[n]), "density parameters and equation of state are those of the file")
    S.check(S.allnear([k["H0"]], [v["H0"] / t], rtol=RTOL), "the Hubble constant is that of the file")
    if tcmb == "given":
        S.check(S.allnear([k["Tcmb0"]], [T], rtol=1e-12), "the temperature of the background is that of the file")
    else:
        # radiation density: Omega_r rho_c c^2 = a_rad T^4
        G_, c_, arad = 6.6743e-8, 2.99792458e10, 7.565733e-15
        H = v["H0"] / t
        want = omega_r * H * H * (3 / (8 * 3.141592653589793 * G_) * c_ * c_ / arad)
        got = k["Tcmb0"] * k["Tcmb0"] * k["Tcmb0"] * k["Tcmb0"]
        S.check(S.allnear([got], [want], rtol=1e-3), "without a temperature the radiation density is that of the file")
    if neff is not None:
        S.check(S.allnear([k["Neff"]], [neff], rtol=1e-12), "the effective number of neutrinos is that of the file")
    if k["m_nu"] is not None:
        S.check(len(k["m_nu"]) == len(masses) and S.allnear(k["m_nu"], masses, rtol=1e-12), "neutrino masses are those of the file")


def floor(S, x):
    if S.symbolic:
        from symex.npshim import SymIntType

        return SymIntType(x)
    return int(x)


def no_cosmology(S):
    """Runs without cosmology have none."""
    import numpy as np
    from symex.h5fake import G

    cl.fresh(S)
    tree = G({"Header": filelib.header(S, 1.0, [0] * 7), "Units": units(S, "cosmo")})
    flag = S.int("flag", 0, 0)
    if S.split(S.bool("group")):
        tree.items["Cosmology"] = G({}, {"Cosmological run": S.arr([flag], dtype=int)} if S.split(S.bool("flag_given")) else {"h": np.array([0.7])})
    S.check(metadata(S, tree).cosmology is None, "runs without cosmology have none")


def setup():
    import types
    import unyt
    from symex import npshim, unytsym

    filelib.setup()
    import swiftsimio.conversions as cv

    cv.np = unytsym.UnytNp2()
    cv.int = npshim.SymIntType
    cv.w0waCDM = _Cosmology
    cv.astropy_units = types.SimpleNamespace(eV=_Rec(None, "eV"), g=_Rec(None, "g"), cm=_Rec(None, "cm"), Quantity=_Rec)
    unyt.unyt_array.to_astropy = lambda self, **k: _Rec(self.view(__import__("numpy").ndarray), self.units)


def hs():
    kw = dict(setup=setup, concrete_setup=cl.concrete_setup)
    T = "times have the value and units of the file"
    out = [H(f"quantities_{s}_{k}_{how}", quantities, f"any time, redshift, scale factor, box and number of files of a {k} file in {s} units, by {how}", quick=dict(system=s, kind=k, how=how), expect=(T,), **kw)
           for s, k, how in (("cosmo", "FullVolume", "load"), ("swift", "FullVolume", "direct"), ("odd", "FullVolume", "load"), ("cgs", "VolumeSubset", "load"), ("swift", "SOAP", "load"), ("odd", "FOF", "load"), ("odd", "LineOfSight", "direct"))]
    out += [H("not_cosmological", quantities, "files without scale factor and redshift", quick=dict(system="odd", kind="FullVolume", cosmological=False), expect=("without a scale factor in the file it is 1",), **kw)]
    out += [H(f"radiation_{s}", radiation, f"any three photon group edges, reduced speed of light and adiabatic index, each given or not, in {s} units", quick=dict(system=s), expect=("photon group edges are frequencies of the file",), **kw) for s in SYSTEMS]
    out += [H("strings", strings, "names and labels stored as bytes, as text or not at all", expect=("names and labels are those of the file",), **kw)]
    D = "density parameters and equation of state are those of the file"
    out += [H(f"cosmology_{s}_{k}", cosmology, f"any parameters of a {k} file in {s} units, with the background temperature given, zero or absent", quick=dict(system=s, kind=k), expect=(D, "without a temperature the radiation density is that of the file"), **kw)
            for s, k in (("cosmo", "FullVolume"), ("swift", "SOAP"), ("odd", "FOF"), ("cgs", "VolumeSubset"))]
    for n, nu in (("massless", dict(ur=[0, 1, 2.0328, 3.046], deg=[None])), ("massive", dict(ur=[0, 1, 2.0308], deg=[[1], [2], [0], [3]])), ("species", dict(ur=[0, 1.0176], deg=[[1, 1], [1, 2], [2, 1], [1, 1, 1]])), ("fractional", dict(ur=[1, 2], deg=[[0.5], [1, 1.5], [2.0]]))):
        out.append(H(f"neutrinos_{n}", cosmology, f"any effective number of neutrinos and masses, relativistic species and degeneracies from {nu}", quick=dict(system="swift", nu=nu, how="direct"), expect=("neutrino masses are those of the file",), **kw))
    out.append(H("no_cosmology", no_cosmology, "cosmology group missing, without flag or with flag 0", expect=("runs without cosmology have none",), **kw))
    return out


HARNESSES = hs()
