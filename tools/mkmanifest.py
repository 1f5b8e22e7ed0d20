"""Regenerates MANIFEST.json from properties.jsonl and the harness modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
NA = {
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", pid.lower() + ".py")):
        m = importlib.import_module("harness." + pid.lower())
        note = "Within the bounds listed per harness in the evidence file every obligation is an SMT query over all inputs; counterexamples are re-run on the unpatched code (numba JIT, real h5py) before they are reported. Assumes: " + " ".join(m.ASSUMPTIONS) + " Reals stand for floats; nothing is claimed outside the bounds."
        checks.append(dict(property=pid, quick_cmd=f"./check.py {pid} --tier quick", thorough_cmd=f"./check.py {pid} --tier thorough",
                           technique="symbolic execution of the real Python functions, SMT (z3) decides every branch and obligation", level="model_checking", level_note=note))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "No check has been built for this property yet.")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: stand-ins are installed at run time in the checking process only.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
