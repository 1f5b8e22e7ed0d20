#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--harness NAME]: decide one property.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken (replayed on
the real code); anything else: the check itself failed.
check.py --replay FILE: re-run a recorded counterexample on the real code.
"""

import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def env(sym):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = HERE
    e["MPLBACKEND"] = "Agg"
    e["OMP_NUM_THREADS"] = "1"
    e.pop("NUMBA_DISABLE_JIT", None)
    e["NUMBA_CACHE_DIR"] = os.path.join(tempfile.gettempdir(), "verif-numba")
    if sym:
        e["NUMBA_DISABLE_JIT"] = "1"
    else:
        e["NUMBA_BOUNDSCHECK"] = "1"
    return e


def worker(mode, prop, harness, tier, tmp, inputs=None, timeout=None):
    tag = hashlib.sha1(f"{mode}{harness}".encode()).hexdigest()[:10]
    out = os.path.join(tmp, f"{tag}.out.json")
    cmd = [PY, "-m", "symex.worker", "--prop", prop, "--harness", harness, "--tier", tier, "--mode", mode, "--out", out]
    if inputs is not None:
        ifn = os.path.join(tmp, f"{tag}.in.json")
        json.dump(inputs, open(ifn, "w"))
        cmd += ["--inputs", ifn]
    wd = os.path.join(tmp, tag)
    os.makedirs(wd, exist_ok=True)
    e = env(mode == "sym")
    e["VERIF_SCRATCH"] = wd
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, log = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, log = "timeout", (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            r = None
    else:
        r = None
    return r, rc, log[-3000:]


def decide(prop, h, tier, tmp, log):
    budget = h.budget[1] if tier == "thorough" else h.budget[0]
    r, rc, out = worker("sym", prop, h.name, tier, tmp, timeout=budget + 150)
    res = dict(harness=h.name, bounds=(h.bounds_thorough if tier == "thorough" and h.bounds_thorough else h.bounds), error=None, violations=[], mismatch=[], unsupported=[])
    if r is None:
        res["error"] = f"symbolic worker gave no result (rc={rc}): {out[-1500:]}"
        return res
    res.update(sym=r)
    todo, meta = [], []
    for c in r["cex"]:
        for m in c["inputs"]:
            todo.append(m)
            meta.append(("cex", c["label"]))
    for c in r["exc"]:
        for m in c["inputs"]:
            todo.append(m)
            meta.append(("exc", c["label"]))
    for m in r["samples"]:
        todo.append(m)
        meta.append(("sample", ""))
    if todo:
        cr, crc, cout = worker("conc", prop, h.name, tier, tmp, inputs=todo, timeout=400)
        cr = cr or []
        if len(cr) < len(todo):
            # the real code took the whole process down (or hung) on this input
            kind, label = meta[len(cr)]
            if kind in ("cex", "exc"):
                res["violations"].append(dict(label=f"{label} (real code: process ended {crc})", inputs=todo[len(cr)], observed=cout[-800:]))
            else:
                res["error"] = f"replay process ended early (rc={crc}): {cout[-1500:]}"
        confirmed = set()
        for (kind, label), m, o in zip(meta, todo, cr):
            bad = o["violated"] or o["exc"]
            if kind == "sample":
                if o["cut"]:
                    continue
                if bad:
                    res["violations"].append(dict(label=f"real run of a path sample: {(o['violated'] or [o['exc']])[0]}", inputs=m, observed=o))
                else:
                    res["validated"] = res.get("validated", 0) + 1
                continue
            if bad:
                confirmed.add((kind, label))
                res["violations"].append(dict(label=label, inputs=m, observed=o))
        for (kind, label), m, o in zip(meta, todo, cr):
            if kind != "sample" and (kind, label) not in confirmed:
                (res["unsupported"] if kind == "exc" else res["mismatch"]).append(dict(label=label, inputs=m))
                confirmed.add((kind, label))
    for e in h.expect:
        if e not in r["reached"]:
            if r["complete"] and not res["violations"] and not res["unsupported"]:
                res["error"] = f"vacuous: obligation '{e}' never reached"
    if not r["stats"]["obligations"] and not res["violations"]:
        res["error"] = res["error"] or "vacuous: no obligation reached; " + "; ".join(r["notes"][:2] + [x["tb"][-500:] for x in r["exc"][:1]])
    return res


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(known, prop, harness, v):
    for k in known:
        if k.get("status") != "open" or k["property"] != prop or k["harness"] != harness:
            continue
        if k["label"] != v["label"]:
            continue
        if all(v["inputs"].get(a) == b for a, b in k.get("inputs", {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.dont_write_bytecode = True
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if a.replay:
            v = json.load(open(a.replay))
            r, rc, out = worker("conc", v["property"], v["harness"], v["tier"], tmp, inputs=[v["inputs"]], timeout=400)
            print(json.dumps(r, indent=1) if r else out)
            bad = not r or r[0]["violated"] or r[0]["exc"]
            return 1 if bad else 0
        return run(a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, tmp, t0):
    # harness modules import the code under test lazily, so they are cheap to load here
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import importlib

    mod = importlib.import_module(f"harness.{a.prop.lower()}")
    hs = [h for h in mod.HARNESSES if h.params(a.tier) is not None and (not a.harness or h.name == a.harness)]
    hs.sort(key=lambda h: -h.budget[a.tier == "thorough"])
    known = load_known()
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    results = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {ex.submit(decide, a.prop, h, a.tier, tmp, None): h for h in hs}
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if a.v:
                s = r.get("sym", {})
                st = s.get("stats", {})
                print(f"  {r['harness']}: complete={s.get('complete')} paths={st.get('paths')} obl={st.get('obligations')} dis={st.get('discharged')} q={st.get('queries')} solver={st.get('solver_s', 0):.1f}s wall={s.get('wall', 0):.1f}s val={r.get('validated', 0)} viol={len(r['violations'])} mism={len(r['mismatch'])} unsup={len(r['unsupported'])} err={r['error']} notes={s.get('notes')}", flush=True)
                for v in r["violations"][:6]:
                    print("     VIOL", v["label"], json.dumps(v["inputs"]), str(v["observed"])[:700], flush=True)
                for v in r["mismatch"][:3]:
                    print("     MISMATCH", v["label"], v["inputs"], flush=True)
                for x in s.get("exc", [])[:3]:
                    print("     EXC", x["label"], x["inputs"][0], "\n", x["tb"][-900:], flush=True)
    results.sort(key=lambda r: r["harness"])
    status = 0
    nviol = 0
    findings = {}
    for r in results:
        seen = set()
        for v in r["violations"]:
            k = match_known(known, a.prop, r["harness"], v)
            if k is not None:
                findings[k["id"]] = k
                continue
            if v["label"] in seen:
                continue
            seen.add(v["label"])
            nviol += 1
            rp = os.path.join(evd, f"replay-{a.prop}-{r['harness']}-{nviol}.json")
            json.dump(dict(property=a.prop, harness=r["harness"], tier=a.tier, label=v["label"], inputs=v["inputs"], observed=v["observed"]), open(rp, "w"), indent=1)
            print(f"VIOLATION property={a.prop} replay={rp}")
            print(f"  harness {r['harness']}: {v['label']}; re-run: {HERE}/check.py --replay {rp}")
            status = 1
    for k in findings.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    errors = [f"{r['harness']}: {r['error']}" for r in results if r["error"]]
    mism = [f"{r['harness']}: counterexample to '{m['label']}' did not reproduce on the real code: {m['inputs']}" for r in results for m in r["mismatch"]]
    incomplete = [f"{r['harness']}: {'; '.join(r['sym']['notes'])}" for r in results if r.get("sym") and not r["sym"]["complete"]]
    unsup = [f"{r['harness']}: {u['label']} (not reproduced on the real code)" for r in results for u in r["unsupported"]]
    for e in errors:
        print(f"ERROR {e}")
    for e in mism:
        # not a violation (the real code does not show it), not a proof either
        print(f"UNDECIDED {e}")
    for e in incomplete:
        print(f"INCOMPLETE {e}")
    for e in unsup:
        print(f"NOT-ENCODED {e}")
    write_evidence(a, mod, results, evd, t0, nviol, list(findings.values()), errors, mism, incomplete, unsup)
    if status == 0 and (errors or 2 * len({r["harness"] for r in results if r["mismatch"]}) > len(results)):
        status = 2
    if status == 0 and unsup and len({r["harness"] for r in results if r["unsupported"]}) == len(results):
        status = 2
    if status == 0:
        print(f"OK property={a.prop} tier={a.tier} wall={time.time() - t0:.0f}s")
    return status


def write_evidence(a, mod, results, evd, t0, nviol, findings, errors, mism, incomplete, unsup):
    tot = {}
    fns = set()
    hs = []
    samples = []
    for r in results:
        s = r.get("sym")
        if not s:
            continue
        for k, v in s["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_query_s" else tot.get(k, 0) + v
        fns.update(s["functions"])
        hs.append(dict(harness=r["harness"], bounds=r["bounds"], complete=s["complete"], paths=s["stats"]["paths"],
                       queries=s["stats"]["queries"], obligations=s["stats"]["obligations"], discharged=s["stats"]["discharged"],
                       solver_s=round(s["stats"]["solver_s"], 2), wall_s=round(s["wall"], 2), reached=s["reached"], validated_on_real_code=r.get("validated", 0)))
        for m in s["samples"][:1]:
            samples.append(dict(harness=r["harness"], path_input=m))
    ev = dict(
        property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=tot.get("paths", 0),
            transitions=tot.get("forks", 0) + tot.get("obligations", 0),
            traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
            samples=samples[:8],
            exhaustive=not incomplete and not errors and not mism and not unsup and not tot.get("pinned", 0),
            explanation="states = feasible symbolic paths of the real functions explored; transitions = solver-decided branch splits plus obligations; every obligation is an SMT query (path condition and negated property); traces_validated = path models re-run on the unpatched code (JIT on) with the same oracle.",
            functions_encoded=sorted(fns), queries=tot.get("queries", 0), obligations=tot.get("obligations", 0),
            discharged=tot.get("discharged", 0), decided_without_solver=tot.get("trivially_true", 0), solver_s=round(tot.get("solver_s", 0), 2), max_query_s=round(tot.get("max_query_s", 0), 3),
            unknown=tot.get("unknown", 0), reals_pinned=tot.get("pinned", 0), harnesses=hs, incomplete=incomplete, not_encoded=unsup, errors=errors, mismatches=mism,
            known_findings=[k["id"] for k in findings],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ["Floating-point values are modelled as exact reals and machine integers as mathematical integers unless a harness says otherwise.", "The verdict covers the stated bounds only."],
        wall_s=round(time.time() - t0, 2), violations=nviol,
    )
    json.dump(ev, open(os.path.join(evd, f"{a.prop}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
