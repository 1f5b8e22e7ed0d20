"""C18: particle IDs in written snapshots are positive and unique."""

import os
import warnings

from symex.registry import H
from . import cosmolib as cl
from . import filelib
from .c17 import HANDLES, TYPES, fill, writer
from .c10 import flat

ASSUMPTIONS = ["Numbers of particles are concrete per harness or chosen from a list; IDs are any 64-bit integers."]


def ids_in(S, fn, t):
    h = filelib.contents(S, fn)
    d = h[f"PartType{TYPES[t][0]}/ParticleIDs"]
    out = flat(d[...])
    h.close()
    return out


def distinct(S, vals):
    from symex.core import sand

    vals = list(vals)
    cs = [(x < y) | (x > y) if S.symbolic else x != y for i, x in enumerate(vals) for y in vals[:i]]
    return sand(*cs) if S.symbolic and cs else all(cs)


def generated(S, types, sizes):
    """IDs generated for any numbers of particles of the types present."""
    cl.fresh(S)
    fn = filelib.path("ids")
    n = {t: S.choice(f"n_{t}", list(sizes)) for t in types}
    order = [t for t in TYPES if n.get(t, 0)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = S.scale_factor("a")
        w, _ = writer(S, a, 1, "cosmo", frame_box=True)
        for t in types:
            if n[t]:
                fill(S, w, a, t, n[t], 1, free=[])
        some = S.choice("given_for", ["none", *order[:1], *order[-1:]]) if len(order) > 1 else "none"
        if some != "none":
            getattr(w, some).particle_ids = S.arr([S.int(f"given{i}", 1, 2**62) if i == 0 else 2**62 + i for i in range(n[some])], dtype=int)
        if not order:
            return
        rounds = 2 if S.split(S.bool("twice")) else 1
        for _ in range(rounds):
            w.write(fn)
    got = [v for t in order for v in ids_in(S, fn, t)]
    S.check(all(len(ids_in(S, fn, t)) == n[t] for t in order), "one ID per particle")
    S.check(S.alleq(sorted_(S, got), list(range(1, sum(n.values()) + 1))), "generated IDs start at one and are contiguous across types")


def sorted_(S, v):
    return v if S.symbolic and any(hasattr(x, "z") for x in v) else sorted(v)


def supplied(S, numbers, where="before", lo=-(2**62), hi=2**62, unsigned=()):
    """Any supplied IDs: written unchanged if positive and distinct, refused otherwise."""
    import numpy as np
    from symex.core import sand

    cl.fresh(S)
    fn = filelib.path("ids")
    ids = {t: [S.int(f"id_{t}{i}", lo, hi) for i in range(n)] for t, n in numbers.items()}
    raised = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = S.scale_factor("a")
        w, _ = writer(S, a, 1, "cosmo", frame_box=True)
        for t, n in numbers.items():
            fill(S, w, a, t, n, 1, free=[])
        try:
            for t, n in numbers.items():
                if where == "after":  # filled in by the user after being handed over
                    x = S.arr([2**61 + i for i in range(n)], dtype=int)
                    getattr(w, t).particle_ids = x
                    mine = getattr(w, t).particle_ids
                    for i in range(n):
                        mine[i] = ids[t][i]
                else:
                    getattr(w, t).particle_ids = S.arr(ids[t], dtype=int if S.symbolic or t not in unsigned else np.uint64)
            w.write(fn)
        except ValueError:
            raised = True
    every = [v for t in numbers for v in ids[t]]
    positive = [v > 0 for v in every]
    ok = sand(*positive, distinct(S, every)) if S.symbolic else (all(positive) and distinct(S, every))
    S.check((~ok if S.symbolic else not ok) if raised else ok, "IDs are refused exactly when one is not positive or repeats")
    if raised:
        S.check(not os.path.exists(fn), "nothing is written when refused")
        return
    for t in numbers:
        got = ids_in(S, fn, t)
        S.check(len(got) == numbers[t] and S.alleq(got, ids[t]), "supplied IDs are written unchanged")


def setup():
    filelib.setup()


def hs():
    kw = dict(setup=setup, concrete_setup=cl.concrete_setup)
    e1 = ("generated IDs start at one and are contiguous across types",)
    e2 = ("IDs are refused exactly when one is not positive or repeats",)
    out = [
        H("generated", generated, "0 to 3 particles of gas, dark matter and stars, IDs given for none or one of the types, written once or twice", quick=dict(types=("gas", "dark_matter", "stars"), sizes=(0, 1, 3)), thorough=dict(types=("gas", "dark_matter", "stars"), sizes=(0, 1, 2, 5)), expect=e1, **kw),
        H("generated_other", generated, "the same for the other five types", quick=dict(types=("boundary", "sinks", "black_holes", "neutrinos", "sidm"), sizes=(0, 2)), expect=e1, **kw),
        H("supplied_one", supplied, "any 4 IDs of one type", quick=dict(numbers={"gas": 4}), thorough=dict(numbers={"gas": 5}), expect=e2, **kw),
        H("supplied_two", supplied, "any IDs of 2 gas and 2 dark matter particles", quick=dict(numbers={"gas": 2, "dark_matter": 2}), thorough=dict(numbers={"gas": 3, "dark_matter": 2}), expect=e2, **kw),
        H("supplied_three", supplied, "any IDs of one star, one sink and 2 neutrinos", quick=dict(numbers={"sinks": 1, "stars": 1, "neutrinos": 2}), expect=e2, **kw),
        H("supplied_after", supplied, "IDs filled in after the array was handed over", quick=dict(numbers={"gas": 2, "stars": 1}, where="after"), expect=e2, **kw),
        H("supplied_wide", supplied, "IDs above 2**60, gas signed and stars unsigned (number types only matter in the runs of path samples)", quick=dict(numbers={"gas": 2, "stars": 2}, lo=2**60, hi=2**60 + 6, unsigned=("stars",)), expect=e2, **kw),
    ]
    return out


HARNESSES = hs()
