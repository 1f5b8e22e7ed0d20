"""Install the symbolic stand-ins into modules of the code under test."""

import builtins
import math
import sys
import types

import numpy as np

from . import core, npshim

_NUMPY_SCALARS = {getattr(np, n): s for n, s in npshim._SC.items()}


def install(mod, objectify=True, minmax=True, floats=True):
    """Replace numpy/math globals of a module by symbolic-aware stand-ins."""
    g = mod.__dict__
    proxy = npshim.NpProxy(objectify)
    mathp = npshim.MathProxy()
    for k, v in list(g.items()):
        if k.startswith("__"):
            continue
        if v is np:
            g[k] = proxy
        elif v is math:
            g[k] = mathp
        elif isinstance(v, type) and v in _NUMPY_SCALARS and objectify:
            g[k] = _NUMPY_SCALARS[v]
        elif isinstance(v, types.BuiltinFunctionType) and getattr(math, getattr(v, "__name__", ""), None) is v:
            g[k] = npshim.math_fn(v.__name__)
        elif isinstance(v, np.ufunc) or (callable(v) and getattr(v, "__module__", "") == "numpy" and hasattr(np, getattr(v, "__name__", "")) and not isinstance(v, type)):
            g[k] = getattr(proxy, v.__name__)
    if minmax:
        g["min"] = _min
        g["max"] = _max
    if floats:
        g["float"] = npshim.SymFloatType
        g["int"] = npshim.SymIntType


def _min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    return core.smin(*a)


def _max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    return core.smax(*a)


def swift_modules():
    return [m for n, m in sorted(sys.modules.items()) if n.startswith("swiftsimio") and m is not None]
