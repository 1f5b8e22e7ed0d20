"""C28: particle and object numbers, and names, are reported as stored."""

import warnings

from symex.registry import H
from . import cosmolib as cl
from . import filelib
from .c10 import cgs_of, field_attrs, snake
from .cosmolib import flat

ASSUMPTIONS = [
    "Counts are any 64-bit integers; names of datasets, columns, groups and types are those of real SWIFT and SOAP files, in any selection; datasets hold one or two rows of any values.",
    "Every type the header lists has its group in the file; without CanHaveTypes the header lists the types with particles.",
]

TYPES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]


def dset(S, tag, n=1):
    from symex.h5fake import D

    v = [S.real(f"{tag}{i}", -100, 100) for i in range(n)]
    return D(S.arr(v), dtype="f8", attrs=field_attrs(S, {"M": 1}, 0, 0, 1)), v


def load(S, tree):
    import swiftsimio

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return swiftsimio.load(filelib.put(S, tree))


def counts(S, length, flags=False, hi=2**62):
    """Any numbers of particles of every type (flags: and any types allowed)."""
    from symex.h5fake import G

    cl.fresh(S)
    a = S.scale_factor("a")
    n = [S.int(f"n{i}", 0, hi) for i in range(length)]
    can = [S.int(f"can{i}", 0, 1) for i in range(length)] if flags else None
    tree = G({"Header": filelib.header(S, a, n), "Units": filelib.units_group(S)})
    if flags:
        tree.items["Header"].attrs["CanHaveTypes"] = S.arr(can, dtype=int)
        for i in range(length):
            S.assume((n[i] == 0) | (can[i] == 1) if S.symbolic else n[i] == 0 or can[i] == 1)
    mt = [S.real(f"m{i}", 0, 100) for i in range(length)]
    im = [S.real(f"i{i}", 0, 100) for i in range(length)]
    tree.items["Header"].attrs["MassTable"] = S.arr(mt)
    tree.items["Header"].attrs["InitialMassTable"] = S.arr(im)
    vals = {}
    for i in range(length):
        d, vals[i] = dset(S, f"v{i}_")
        tree.items[f"PartType{i}"] = G({"Masses": d})
    data = load(S, tree)
    present = [i for i in range(length) if S.split((can[i] == 1) if flags else (n[i] > 0))]
    for i, t in enumerate(TYPES):
        S.check(S.eq(getattr(data.metadata, f"n_{t}"), n[i] if i < length else 0), "the number of particles of every type is the one stored")
        S.check(hasattr(data, t) == (i in present), "exactly the types present are offered")
        S.check(hasattr(data.metadata, f"{t}_properties") == (i in present), "exactly the types present are offered")
        for table, want in ((data.metadata.mass_table, mt), (data.metadata.initial_mass_table, im)):
            m = getattr(table, t)
            if i < length:
                S.check(S.allnear([flat(m)[0] * cgs_of(m.units)], [want[i] * 1e10 * filelib.MSUN], rtol=2e-4), "mass tables hold each type's own mass")
            else:
                S.check(m is None, "mass tables hold each type's own mass")
    S.check(list(data.metadata.present_groups) == [f"PartType{i}" for i in present], "exactly the types present are listed")
    S.check(list(data.metadata.present_group_names) == [TYPES[i] for i in present], "every type has its own name")
    for i in present:
        p = getattr(data.metadata, f"{TYPES[i]}_properties")
        S.check(p.group == f"PartType{i}" and p.group_name == TYPES[i] and list(p.field_paths) == [f"PartType{i}/Masses"], "every type is described by its own group")
        S.check(S.alleq(flat(getattr(data, TYPES[i]).masses), vals[i]), "every type is read from its own group")


# Datasets of SWIFT snapshots, grouped to tempt confusion
NAMES = {
    "similar": ["Masses", "DynamicalMasses", "GasMasses", "MaximalTemperatures", "MaximalTemperatureScaleFactors"],
    "cased": ["FOFGroupIDs", "ParticleIDs", "HIIregionsEndTime", "XrayLuminosities", "LastAGNFeedbackScaleFactors"],
    "columns": ["ElementMassFractions", "SmoothedElementMassFractions", "IronMassFractionsFromSNIa", "SpeciesFractions", "Masses"],
}
NAMED = {"ElementMassFractions": [b"Hydrogen", b"Helium"], "SmoothedElementMassFractions": [b"Helium", b"Hydrogen"], "SpeciesFractions": [b"elec", b"HI", b"HII", b"CIIx"]}
COLS = {"ElementMassFractions": ["hydrogen", "helium"], "SmoothedElementMassFractions": ["helium", "hydrogen"], "SpeciesFractions": ["elec", "HI", "HII", "CIIx"]}


def names(S, kind):
    """Any selection of datasets in two types, each read under its own name."""
    import numpy as np
    from symex.h5fake import D, G

    cl.fresh(S)
    vals, groups = {}, {}
    for g, t in (("PartType0", "gas"), ("PartType4", "stars")):
        items = {}
        for x in NAMES[kind]:
            if t == "gas" and not S.split(S.bool(f"{g}{x}")):
                continue
            if x in NAMED:
                rows = [[S.real(f"{g}{x}{i}_{j}", -9, 9) for j in range(len(NAMED[x]))] for i in range(1)]
                items[x] = D(S.arr(rows), dtype="f8", attrs=field_attrs(S, {}, 0, 0, 1))
                vals[t, x] = rows
            else:
                items[x], vals[t, x] = dset(S, g + x)
        groups[g] = G(items)
    tree = G({"Header": filelib.header(S, 0.5, [1, 0, 0, 0, 1, 0, 0]), "Units": filelib.units_group(S), **groups,
              "SubgridScheme": G({"NamedColumns": G({k: D(np.array(v)) for k, v in NAMED.items()})})})
    data = load(S, tree)
    for t in ("gas", "stars"):
        have = sorted(x for (u, x) in vals if u == t)
        p = getattr(data.metadata, f"{t}_properties")
        grp = "PartType0" if t == "gas" else "PartType4"
        S.check(sorted(p.field_paths) == [f"{grp}/{x}" for x in have] and len(set(p.field_names)) == len(have), "names and datasets correspond one to one")
        S.check(all(n == snake(q.split("/")[1]) for n, q in zip(p.field_names, p.field_paths)), "names are those of the datasets")
        for q in NAMES[kind]:
            S.check(hasattr(type(getattr(data, t)), snake(q)) == (q in have), "only datasets of the type are offered")
        for x in have:
            f = getattr(getattr(data, t), snake(x))
            if x in NAMED:
                S.check(f.named_columns == COLS[x], "the columns are those the file names")
                for j, c in enumerate(COLS[x]):
                    S.check(S.alleq(flat(getattr(f, c)), [r[j] for r in vals[t, x]]), "every name gives its own dataset")
            else:
                S.check(S.alleq(flat(f), vals[t, x]), "every name gives its own dataset")


def mapping(S):
    """Dust-to-element tables: each entry under the names of its row and column."""
    import numpy as np
    from symex.h5fake import D, G

    cl.fresh(S)
    dust, el = ["Graphite", "Silicates"], ["Hydrogen", "Carbon", "Oxygen"]
    v = [[S.real(f"t{i}_{j}", 0, 1) for j in range(3)] for i in range(2)]
    key = S.choice("key", ["DustToElementMapping", "GrainToElementMapping"])
    d, _ = dset(S, "x")
    tree = G({"Header": filelib.header(S, 0.5, [1, 0, 0, 0, 0, 0, 0]), "Units": filelib.units_group(S), "PartType0": G({"Masses": d}),
              "SubgridScheme": G({"NamedColumns": G({"DustMassFractions": D(np.array([x.encode() for x in dust])), "ElementMassFractions": D(np.array([x.encode() for x in el]))}), key: D(S.arr(v), dtype="f8")})})
    m = getattr(load(S, tree).metadata, snake(key))
    for i, x in enumerate(dust):
        for j, y in enumerate(el):
            S.check(S.eq(getattr(m, f"{x.lower()}_to_{y.lower()}"), v[i][j]), "mapping entries are under the names of their row and column")


SOAP = ["BoundSubhalo", "InputHalos", "InputHalos/HBTplus", "SO/200_crit", "SO/200_mean", "InclusiveSphere/100kpc", "ExclusiveSphere/100kpc", "ProjectedAperture/100kpc/projx", "ProjectedAperture/100kpc/projy", "SOAP"]
SOAP_NAMES = ["bound_subhalo", "input_halos", "input_halos_hbtplus", "spherical_overdensity_200_crit", "spherical_overdensity_200_mean", "inclusive_sphere_100kpc", "exclusive_sphere_100kpc", "projected_aperture_100kpc_projx", "projected_aperture_100kpc_projy", "soap"]


def soap(S, which):
    """Any selection of SOAP groups and any number of subhaloes."""
    import numpy as np
    from symex.h5fake import G

    cl.fresh(S)
    a = S.scale_factor("a")
    n = S.int("n", 0, 2**62)
    use = [i for i in which if S.split(S.bool(f"use{i}"))]
    if not use:
        return
    tree = G({"Header": filelib.header(S, a, [0] * 7, output_type="SOAP"), "Units": filelib.units_group(S)})
    tree.items["Header"].attrs.update({"NumSubhalos_ThisFile": S.arr([n], dtype=int), "SubhaloTypes": np.array([SOAP[i] for i in use], dtype=object)})
    vals = {}
    for i in use:
        at = tree
        for part in SOAP[i].split("/"):
            at = at.items.setdefault(part, G({}))
        d, vals[i] = dset(S, f"v{i}_")
        at.items["TotalMass"] = d
    data = load(S, tree)
    S.check(S.eq(data.metadata.n_subhalos, n), "the number of subhaloes is the one stored")
    S.check(list(data.metadata.present_groups) == [SOAP[i] for i in use], "exactly the groups present are listed")
    S.check(list(data.metadata.present_group_names) == [SOAP_NAMES[i] for i in use], "every group has its own name")
    for i, t in enumerate(SOAP_NAMES):
        S.check(hasattr(data, t) == (i in use), "exactly the groups present are offered")
        if i in use:
            p = getattr(data.metadata, f"{t}_properties")
            S.check(f"{SOAP[i]}/TotalMass" in p.field_paths and not any(f"{SOAP[i]}/{SOAP[j].split('/')[-1]}" in p.field_paths for j in use if SOAP[j].startswith(SOAP[i] + "/")), "groups in a group are not its fields")
            S.check(S.alleq(flat(getattr(data, t).total_mass), vals[i]), "every group is read from its own place")


def los(S):
    """Lines of sight: each its own name, positions in comoving lengths, other attributes as stored."""
    import numpy as np
    from symex.h5fake import G

    cl.fresh(S)
    a = S.scale_factor("a")
    ids = [i for i in (0, 1, 2, 10) if S.split(S.bool(f"use{i}"))]
    tree = G({"Header": filelib.header(S, a, [3, 0, 0, 0, 0, 0, 0], output_type=S.choice("kind", ["LineOfSight", b"LineOfSight"])), "Units": filelib.units_group(S, L=filelib.MPC / 1000)})
    vals, pos, num = {}, {}, {}
    for i in ids:
        d, vals[i] = dset(S, f"v{i}_", 2)
        pos[i] = [S.real(f"x{i}_{j}", 0, 9) for j in range(2)]
        num[i] = S.int(f"num{i}", 0, 1000)
        tree.items[f"LOS_{i:04d}"] = G({"Masses": d}, {"Xpos": S.arr([pos[i][0]]), "Ypos": S.arr([pos[i][1]]), "NumParts": S.arr([num[i]], dtype=int)})
    data = load(S, tree)
    S.check(list(data.metadata.present_groups) == [f"LOS_{i:04d}" for i in ids], "exactly the lines of sight present are listed")
    for i in (0, 1, 2, 10):
        t = f"los_{i:04d}"
        S.check(hasattr(data, t) == (i in ids), "exactly the lines of sight present are offered")
        if i in ids:
            g = getattr(data, t)
            S.check(S.alleq(flat(g.masses), vals[i]), "every line of sight is read from its own group")
            for k, x in enumerate((g.xpos, g.ypos)):
                S.check(x.comoving is True and cl.exponent(x.cosmo_factor) == 1, "positions of lines of sight are comoving lengths")
                S.check(S.allnear([flat(x)[0] * cgs_of(x.units)], [pos[i][k] * filelib.MPC / 1000], rtol=2e-4), "positions of lines of sight are those stored")
                S.check(S.allnear(cl.physical(S, x, a), [flat(x)[0] * a], rtol=1e-9), "positions of lines of sight are comoving lengths")
            S.check(S.eq(flat(g.num_parts)[0], num[i]), "attributes of lines of sight are those stored")


def fof(S):
    """Group catalogues."""
    from symex.h5fake import G

    cl.fresh(S)
    n = S.int("n", 0, 2**62)
    d, v = dset(S, "v", 2)
    tree = G({"Header": filelib.header(S, 0.5, [0] * 7, output_type=S.choice("kind", ["FOF", "FOFSubset"])), "Units": filelib.units_group(S), "Groups": G({"Masses": d})})
    tree.items["Header"].attrs["NumGroup_ThisFile"] = S.arr([n], dtype=int)
    data = load(S, tree)
    S.check(S.eq(flat(data.metadata.num_group)[0], n), "the number of groups is the one stored")
    S.check(list(data.metadata.present_group_names) == ["fof_groups"] and S.alleq(flat(data.fof_groups.masses), v), "group catalogues are offered as fof_groups")


def setup():
    filelib.setup()


def hs():
    kw = dict(setup=setup, concrete_setup=cl.concrete_setup)
    e = ("the number of particles of every type is the one stored",)
    out = [H(f"counts_{k}", counts, f"any numbers of particles, {k} types in the header", quick=dict(length=k), expect=e, **kw) for k in (6, 7)]
    out += [
        H("counts_8", counts, "any numbers of particles, 8 types in the header", quick=dict(length=8), expect=e, **kw),
        H("counts_flags", counts, "any numbers of particles and any flags, 6 types in the header", quick=dict(length=6, flags=True), thorough=dict(length=8, flags=True), expect=e, **kw),
        H("mapping", mapping, "any table of 2 dust kinds and 3 elements", expect=("mapping entries are under the names of their row and column",), **kw),
        H("soap", soap, "any selection of six SOAP groups, nested ones included, any number of subhaloes", quick=dict(which=(0, 1, 2, 3, 4, 9)), thorough=dict(which=tuple(range(10))), expect=("every group has its own name",), **kw),
        H("soap_apertures", soap, "the other kinds of SOAP groups", quick=dict(which=(2, 3, 5, 6, 7, 8)), expect=("every group has its own name",), **kw),
        H("los", los, "any selection of four lines of sight", expect=("every line of sight is read from its own group",), **kw),
        H("fof", fof, "any number of groups", expect=("the number of groups is the one stored",), **kw),
    ]
    out += [H("names_" + k, names, f"any selection of the datasets {v} in gas, all of them in stars", quick=dict(kind=k), expect=("every name gives its own dataset",), **kw) for k, v in NAMES.items()]
    return out


HARNESSES = hs()
