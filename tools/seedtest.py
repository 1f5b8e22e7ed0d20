"""Development aid: tools/seedtest.py ID [notests] [nocheck]: in a scratch copy of /repo, applies seeded/ID, runs the stable
tests, the demo (also without the patch) and the quick check of its property against the copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(V, "seeded", sid)
meta = json.load(open(d + "/meta.json"))
w = "/tmp/seed/" + sid
shutil.rmtree(w, ignore_errors=True)
os.makedirs("/tmp/seed", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", w], check=True)
env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
res = {}
def demo():
    dd = "/tmp/seed/demo-" + sid
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    r = subprocess.run(["bash", dd + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True, timeout=300)
    shutil.rmtree(dd)
    return r.returncode, (r.stdout + r.stderr)[-300:]
subprocess.run(["git", "checkout", "--", "."], cwd=w)
res["demo_clean"] = demo()
r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, capture_output=True, text=True)
assert r.returncode == 0, r.stderr
res["demo_patched"] = demo()
if "notests" not in sys.argv:
    e = dict(env, PYTHONHASHSEED="0", NUMBA_BOUNDSCHECK="1")
    subprocess.run(["bash", "-c", f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --tb=line -o junit_family=xunit2 --junitxml=/tmp/seed/{sid}.xml tests > /tmp/seed/{sid}.log 2>&1; python3 /opt/vp/results.py /tmp/seed/{sid}.json junit:/tmp/seed/{sid}.xml"], cwd=w, env=e)
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    res["tests_broken"] = sorted(set(b) - set(json.load(open(f"/tmp/seed/{sid}.json"))["passed"]))
if "nocheck" not in sys.argv:
    tmp = "/tmp/seed/verif-" + sid
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(["cp", "-a", V, tmp], check=True)
    e = dict(os.environ, VERIF_REPO=w)
    r = subprocess.run(["timeout", "1000", "./check.py", meta["property"], "--tier", "quick"], cwd=tmp, env=e, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    res["check"] = (r.returncode, "\n".join(v[:2]) + " ... " + r.stdout[-500:])
    shutil.rmtree(tmp)
shutil.rmtree(w)
for k, v in res.items():
    print(sid, k, v)
good = res["demo_clean"][0] == 0 and res["demo_patched"][0] != 0 and not res.get("tests_broken")
print(sid, "GOOD" if good else "BAD", "caught" if res.get("check", (9,))[0] == 1 and "VIOLATION property=" + meta["property"] in res["check"][1] else "MISSED")
