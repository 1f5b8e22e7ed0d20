"""setup_cmd: the tools the checks need are there (nothing is built)."""
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import h5py, numba, numpy, sympy, unyt, z3
s = z3.Solver(); x = z3.Int("x"); s.add(x > 1, x < 3); assert s.check() == z3.sat and s.model()[x].as_long() == 2
print("ok", z3.get_version_string(), numpy.__version__, unyt.__version__, numba.__version__, h5py.__version__)
