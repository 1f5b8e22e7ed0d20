"""Regenerates BOUNDS.md: every harness of every check with the inputs it covers."""
import importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import json
out = ["# Bounds of every check", "", "Generated by tools/mkbounds.py from the harness modules. Each line is one exploration: every input described as *any* is a solver variable.  'T:' is what the thorough tier explores instead.", ""]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("harness." + p["id"].lower())
    out += [f"## {p['id']} {p['title']}", ""]
    out += [f"Assumes: {' '.join(m.ASSUMPTIONS)}", ""]
    for h in m.HARNESSES:
        out.append(f"- `{h.name}`: {h.bounds}" + (f"  T: {h.bounds_thorough}" if h.bounds_thorough else ""))
    out.append("")
open(os.path.join(HERE, "BOUNDS.md"), "w").write("\n".join(out))
