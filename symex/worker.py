"""One process: explores one harness symbolically, or replays assignments on the
unpatched code."""

import argparse
import importlib
import json
import os
import random
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (HERE, REPO)]
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)


def find(prop, harness):
    mod = importlib.import_module(f"harness.{prop.lower()}")
    for h in mod.HARNESSES:
        if h.name == harness:
            return mod, h
    raise SystemExit(f"no harness {harness} in {prop}")


class FunctionTracker:
    """Names of the repository functions actually executed (sys.monitoring)."""

    def __init__(self):
        self.seen = set()
        self.prefix = os.path.join(REPO, "swiftsimio") + os.sep
        m = sys.monitoring
        self.tool = 3
        m.use_tool_id(self.tool, "verif")
        m.register_callback(self.tool, m.events.PY_START, self._start)

    def _start(self, code, off):
        if code.co_filename.startswith(self.prefix) and code.co_name not in ("<module>", "<lambda>", "<genexpr>", "<listcomp>"):
            self.seen.add(f"{code.co_filename[len(self.prefix):]}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def on(self):
        sys.monitoring.set_events(self.tool, sys.monitoring.events.PY_START)

    def off(self):
        sys.monitoring.set_events(self.tool, 0)


def short_tb():
    t = traceback.format_exc().strip().splitlines()
    return "\n".join(t[-12:])


def run_sym(args):
    from symex import core
    from symex.session import Recorder, SymSession

    mod, h = find(args.prop, args.harness)
    params = h.params(args.tier)
    budget = h.budget[1] if args.tier == "thorough" else h.budget[0]
    eng = core.Engine(budget_s=budget, query_timeout_ms=h.query_timeout_ms, seed=int(os.environ.get("VERIF_SEED", "1")))
    rec = Recorder(eng)
    rng = random.Random(eng.seed)
    if h.setup:
        h.setup()
    tr = FunctionTracker()
    exc = []
    seen_exc = {}
    count = [0]

    def one(path):
        S = SymSession(path, rec, args.tier)
        try:
            h.fn(S, **params)
        except (core.Infeasible, core.PathEnd, core.Inconclusive, core.TimeoutError_):
            raise
        except Exception as e:
            # an unexpected exception on a feasible path: candidate violation,
            # or something the engine cannot represent; the replay decides
            tb = short_tb()
            key = f"{type(e).__name__}: {tb.splitlines()[-3] if len(tb.splitlines()) > 2 else ''}"
            seen_exc[key] = seen_exc.get(key, 0) + 1
            if seen_exc[key] <= 3:
                try:
                    if path.query() == core.z3.sat:
                        import z3

                        exc.append(dict(label=f"unexpected {type(e).__name__}: {str(e)[:200]}", tb=tb,
                                        inputs=rec.models(path, z3.BoolVal(True), path.last_model)))
                    else:
                        raise core.Infeasible()
                except core.Inconclusive:
                    pass
            eng.stats["exc_paths"] = eng.stats.get("exc_paths", 0) + 1
            return
        count[0] += 1
        # reservoir-ish: first path and a few random later ones validate the encoding
        if len(rec.samples) < h.samples and (count[0] in (1, 2) or rng.random() < 0.15):
            rec.sample(path)

    tr.on()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        eng.explore(one)
    tr.off()
    out = dict(
        harness=h.name, complete=eng.complete, notes=eng.notes[:10], stats=eng.stats, cex=rec.cex, exc=exc,
        exc_kinds=seen_exc, reached=rec.reached, samples=rec.samples, functions=sorted(tr.seen),
        wall=core.time.time() - eng.t0, expect=list(h.expect),
    )
    json.dump(out, open(args.out, "w"))


def run_conc(args):
    from symex.core import Infeasible
    from symex.session import ConcSession

    mod, h = find(args.prop, args.harness)
    if h.concrete_setup:
        h.concrete_setup()
    params = h.params(args.tier)
    res = []
    for inp in json.load(open(args.inputs)):
        S = ConcSession(inp, args.tier)
        r = dict(violated=[], exc=None, cut=False)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h.fn(S, **params)
        except Infeasible:
            r["cut"] = True
        except Exception as e:
            r["exc"] = f"{type(e).__name__}: {str(e)[:300]}"
            r["tb"] = short_tb()
        r["violated"] = S.violated
        r["checked"] = S.checked
        res.append(r)
        json.dump(res, open(args.out, "w"))
    json.dump(res, open(args.out, "w"))


if __name__ == "__main__":
    setup_path()
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--harness")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--mode")
    ap.add_argument("--inputs")
    ap.add_argument("--out")
    a = ap.parse_args()
    import swiftsimio

    assert os.path.realpath(swiftsimio.__file__).startswith(os.path.realpath(REPO) + os.sep), swiftsimio.__file__
    (run_sym if a.mode == "sym" else run_conc)(a)
