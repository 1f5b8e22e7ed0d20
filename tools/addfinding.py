"""tools/addfinding.py PROPERTY COMMIT TEXT WHAT: appends a fixed finding to known_findings.json (used by hand, never by a check)."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
p, c, t, w = sys.argv[1:5]
n = "F%02d" % (len(d) + 1)
d.append(dict(id=n, status="fixed", property=p, commit=c, harness="", label="", line=f"fixed: property={p} {c} {t}", what=w))
open(f, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in d) + "\n]\n")
