#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] | --replay FILE | --selftest [PROPERTY...]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_CHILD") != "1":
    os.environ["VERIF_CHILD"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])

os.environ["VERIF_CHILD"] = "0"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))


def main(argv):
    import argparse
    import json
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=min(16, os.cpu_count() or 4))
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--digests", help="lo:hi print event-log digests of these runs")
    ap.add_argument("--show", type=int, help="print the event log of one run")
    a = ap.parse_args(argv)
    import registry
    import runner
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        with open(a.replay) as f:
            obj = json.load(f)
        scn = registry.make(obj["property"])
        scn.setup()
        if obj["facet"] == "hang":
            v = runner.verdict(scn, obj["plan"], 90)
            print("replay:", v)
            return 1 if v and v[0] == "hang" else 0
        return runner.replay(scn, obj)
    if a.selftest:
        import selftest
        return selftest.main(a.prop or sorted(registry.TABLE), seed)
    prop = a.prop[0]
    t = registry.TABLE[prop]
    scn = registry.make(prop)
    scn.setup()
    if a.digests:
        lo, hi = map(int, a.digests.split(":"))
        for i, d, s in runner.digests(scn, seed, a.tier, range(lo, hi)):
            print(i, d, s)
        return 0
    if a.show is not None:
        plan = runner.plan_for(scn, seed, a.tier, a.show)
        ctx, v = runner.run_plan(scn, plan, trace=True)
        print("\n".join(ctx.log))
        print(v and (v.facet, v.sig, v.msg), dict(ctx.stats))
        return 0
    total = a.runs or t[a.tier]
    budget = a.budget or (240.0 if a.tier == "quick" else 780.0)
    return runner.check(scn, a.tier, seed, total, budget, a.workers, t["level"])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
