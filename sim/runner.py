"""Runs a property's scenario over many seeds in parallel, minimises and reports.

  one integer decides everything:  run i of property P under VERIF_SEED s is the pure
  function execute(plan(rng(s, P, i))).  Number of workers, their pace and
  PYTHONHASHSEED have no influence; `--selftest` proves that by diffing event logs.
"""
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from core import Abandon, Ctx, Violation, dumps, rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HANG_S = float(os.environ.get("VERIF_HANG_S", "60"))


class HarnessError(Exception):
    pass


def in_sut(tb):
    """True when the innermost frame outside the simulator's own code is keri source."""
    src = os.path.join(REPO, "src") + os.sep
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return bool(last) and last.startswith(src)


def sut_frames(tb):
    src = os.path.join(REPO, "src") + os.sep
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(src):
            out.append(f"{os.path.relpath(fn, src)}:{tb.tb_frame.f_code.co_name}")
        tb = tb.tb_next
    return out


def run_plan(scn, plan, trace=False):
    """Returns (ctx, violation or None); harness bugs propagate as HarnessError."""
    ctx = Ctx(scn.facets, trace)
    try:
        scn.execute(plan, ctx)
        return ctx, None
    except Violation as v:
        return ctx, v
    except Abandon as ex:
        ctx.hit("abandoned")
        ctx.ev("abandoned", str(ex))
        return ctx, None
    except Exception as ex:
        frames = sut_frames(ex.__traceback__)
        if frames and scn.opts.get("crashes", True):
            sig = f"raise:{type(ex).__name__}:{frames[-1]}"
            v = Violation("exception", sig, f"unexpected {type(ex).__name__}: {ex} from {' > '.join(frames[-4:])}")
            if trace:
                ctx.log.append("".join(traceback.format_exception(ex)))
            return ctx, v
        if isinstance(ex, (OSError, MemoryError, ImportError, RecursionError)):
            raise HarnessError("".join(traceback.format_exception(ex))) from ex
        # the oracles read the code's state as its documented formats; on the shipped tree this never fails
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        v = Violation("uninterpretable", f"uninterpretable:{type(ex).__name__}:{os.path.basename(tb.filename)}:{tb.name}",
                      f"the state the code left behind or the values it returned can not be interpreted: {type(ex).__name__}: {ex} "
                      f"in {os.path.basename(tb.filename)}:{tb.lineno} {tb.name}")
        if trace:
            ctx.log.append("".join(traceback.format_exception(ex)))
        return ctx, v


class Agg:
    def __init__(self):
        self.runs = 0
        self.evals = 0
        self.stats = Counter()
        self.simtime = 0.0
        self.states = set()
        self.digests = set()
        self.nontrivial = set()
        self.known = Counter()
        self.events = 0
        self.samples = []

    def add(self, scn, i, plan, ctx):
        self.runs += 1
        self.evals += ctx.evals
        self.stats.update(ctx.stats)
        self.simtime += ctx.simtime
        self.events += ctx.n
        if len(self.states) < 400000:
            self.states |= ctx.states
        d = ctx._h.digest()[:8]
        self.digests.add(d)
        if ctx.stats.get("nontrivial"):
            self.nontrivial.add(d)
        if len(self.samples) < 1:
            self.samples.append(dict(index=i, plan=trim(plan), digest=ctx.digest()))

    def merge(self, o):
        self.runs += o.runs
        self.evals += o.evals
        self.stats.update(o.stats)
        self.simtime += o.simtime
        self.states |= o.states
        self.digests |= o.digests
        self.nontrivial |= o.nontrivial
        self.known.update(o.known)
        self.events += o.events
        self.samples += o.samples


def trim(plan, limit=12):
    p = dict(plan)
    if isinstance(p.get("ops"), list) and len(p["ops"]) > limit:
        p["ops"] = p["ops"][:limit] + [f"... {len(plan['ops']) - limit} more"]
    s = dumps(p)
    return json.loads(s) if len(s) < 4000 else dict(truncated=s[:3000])


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") != "fixed"]


def is_known(known, v):
    for k in known:
        if k["sig"] == v.sig:
            return k
    return None


def plan_for(scn, seed, tier, i):
    return scn.plan(rng_for(seed, scn.prop, i), tier)


def _worker(scn, seed, tier, w, nw, total, deadline, wfd, known, cur, stop):
    agg = Agg()
    out = os.fdopen(wfd, "wb", buffering=0)

    def send(kind, obj):
        data = pickle.dumps((kind, obj))
        out.write(struct.pack("<Q", len(data)))
        mv = memoryview(data)
        while mv:
            n = out.write(mv)
            mv = mv[n:]

    try:
        i = w
        while i < total and i < stop.value and time.monotonic() < deadline:
            cur[w] = i + 1
            cur[nw + w] = int(time.monotonic())
            plan = plan_for(scn, seed, tier, i)
            ctx, v = run_plan(scn, plan)
            agg.add(scn, i, plan, ctx)
            if v is not None:
                k = is_known(known, v)
                if k is not None:
                    agg.known[k["id"]] += 1
                else:
                    stop.value = min(stop.value, i)
                    send("violation", (i, plan, v.facet, v.sig, v.msg))
                    break
            i += nw
        cur[w] = 0
        send("agg", agg)
    except HarnessError as ex:
        send("harness", f"run {cur[w]-1}: {ex}")
    except BaseException as ex:  # noqa
        send("harness", f"run {cur[w]-1}: " + "".join(traceback.format_exception(ex)))
    finally:
        out.close()
        os._exit(0)


class _Stop:
    def __init__(self, arr):
        self.arr = arr

    @property
    def value(self):
        return self.arr[0]

    @value.setter
    def value(self, v):
        self.arr[0] = v


def explore(scn, seed, tier, total, budget, nw, known):
    """Returns (agg, [violations], [harness errors], [hung indexes], timed_out)."""
    import mmap
    mem = mmap.mmap(-1, 8 * (2 * nw + 1))
    arr = memoryview(mem).cast("q")
    stop = _Stop(arr[2 * nw:])
    stop.value = 1 << 60
    deadline = time.monotonic() + budget
    procs = {}
    sys.stdout.flush()
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _worker(scn, seed, tier, w, nw, total, deadline, wfd, known, arr, stop)
        os.close(wfd)
        procs[r] = [pid, w, bytearray()]
    agg, viols, errs, hung = Agg(), [], [], []
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                procs[r][2].extend(data)
                continue
            pid, w, buf = procs.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            got = False
            while len(buf) >= 8:
                n = struct.unpack("<Q", buf[:8])[0]
                if len(buf) < 8 + n:
                    break
                kind, obj = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                got = True
                if kind == "agg":
                    agg.merge(obj)
                elif kind == "violation":
                    viols.append(obj)
                else:
                    errs.append(obj)
            if not got and w not in [h[0] for h in hung]:
                errs.append(f"worker {w} died at run {arr[w]-1}")
        now = time.monotonic()
        for r, (pid, w, buf) in list(procs.items()):
            if arr[w] and now - arr[nw + w] > HANG_S:
                hung.append((w, arr[w] - 1))
                arr[w] = 0
                stop.value = min(stop.value, hung[-1][1])
                os.kill(pid, signal.SIGKILL)
    done = agg.runs
    return agg, sorted(viols, key=lambda x: x[0]), errs, [h[1] for h in hung], done < total and not viols


def in_child(fn, timeout):
    """Run fn() in a forked child; returns ('ok', value) | ('timeout', None) | ('died', None)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            val = fn()
        except BaseException as ex:  # noqa
            val = ("error", "".join(traceback.format_exception(ex)))
        with os.fdopen(w, "wb") as f:
            pickle.dump(val, f)
        os._exit(0)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout", None
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf.extend(d)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return "died", None
    return "ok", pickle.loads(bytes(buf))


def verdict(scn, plan, timeout=HANG_S):
    """(facet, sig, msg) of the plan's violation, or None."""
    def go():
        ctx, v = run_plan(scn, plan)
        return None if v is None else (v.facet, v.sig, v.msg)
    st, val = in_child(go, timeout)
    if st == "timeout":
        return ("hang", "hang", f"run did not finish within {timeout:.0f}s of wall time (normal runs take milliseconds)")
    if st == "died":
        return None
    if isinstance(val, tuple) and val and val[0] == "error":
        return None
    return val


def minimise(scn, plan, want, budget=40.0):
    """ddmin over plan['ops'] plus scenario-specific shrinks, same facet and signature."""
    end = time.monotonic() + budget
    facet, sig, _ = want
    tries = [0]

    def bad(p):
        tries[0] += 1
        got = verdict(scn, p, timeout=20 if facet == "hang" else HANG_S)
        return got is not None and got[0] == facet and got[1] == sig

    if facet == "hang":
        return plan, 0
    cur = plan
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        ops = cur.get("ops")
        if isinstance(ops, list):
            n = max(1, len(ops) // 2)
            while n >= 1 and time.monotonic() < end:
                i = 0
                while i < len(cur["ops"]) and time.monotonic() < end:
                    cand = dict(cur, ops=cur["ops"][:i] + cur["ops"][i + n:])
                    if bad(cand):
                        cur = cand
                        improved = True
                    else:
                        i += n
                n //= 2
        for cand in scn.shrinks(cur):
            if time.monotonic() >= end:
                break
            if bad(cand):
                cur = cand
                improved = True
                break
    return cur, tries[0]


def write_replay(prop, seed, i, plan, v, tag=""):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-seed{seed}-run{i}{tag}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, seed=seed, run=i, facet=v[0], sig=v[1], msg=v[2], plan=plan), f, indent=1)
    return path


def fresh_replay(path, timeout=120):
    """Replay in a fresh interpreter; returns True when it fails the same way."""
    cmd = [sys.executable, os.path.join(VERIF, "check.py"), "--replay", path]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "timeout"
    return p.returncode == 1, p.stdout[-2000:] + p.stderr[-2000:]


def sweep():
    """Remove scratch directories whose owner is gone (killed workers)."""
    import glob
    import shutil
    for d in glob.glob("/dev/shm/verif-sim-*") + glob.glob("/tmp/verif-sim-*"):
        pid = d.rsplit("-", 1)[1]
        if pid.isdigit() and not os.path.exists(f"/proc/{pid}"):
            shutil.rmtree(d, ignore_errors=True)


def check(scn, tier, seed, total, budget, nw, level):
    t0 = time.monotonic()
    prop = scn.prop
    print(f"property={prop} tier={tier} VERIF_SEED={seed} runs={total} workers={nw} scenario={scn.name}", flush=True)
    known = load_known(prop)
    agg, viols, errs, hung, short = explore(scn, seed, tier, total, budget, nw, known)
    rc = 0
    nviol = 0
    if errs and not viols and not hung:
        for e in errs[:3]:
            print("HARNESS-ERROR", e)
        return 2
    if hung and not viols:
        for i in hung:
            plan = plan_for(scn, seed, tier, i)
            v = verdict(scn, plan, HANG_S)
            if v is not None:
                viols.append((i, plan) + v)
                break
        else:
            print("HARNESS-ERROR run exceeded wall limit once but not when repeated:", hung)
            return 2
    if viols:
        i, plan, facet, sig, msg = viols[0]
        print(f"violation in run {i}: facet={facet} sig={sig}\n  {msg}"[:3000], flush=True)
        v = (facet, sig, msg)
        small, tries = minimise(scn, plan, v)
        vs = verdict(scn, small) or v
        path = write_replay(prop, seed, i, small, vs)
        ok, out = fresh_replay(path)
        if not ok:
            path = write_replay(prop, seed, i, plan, v, "-full")
            ok, out = fresh_replay(path)
        if not ok:
            print("HARNESS-ERROR violation does not replay in a fresh process:", out)
            return 2
        print(f"minimised {len(plan.get('ops', []))} -> {len(small.get('ops', []))} ops in {tries} tries; {vs[2]}"[:2000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc, nviol = 1, 1
    for k in known:
        v = None
        if k.get("plan"):
            v = verdict(scn, k["plan"])
        if v is not None and v[1] == k["sig"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        else:
            print(f"note: listed finding {k['id']} no longer reproduces")
    if rc == 0 and short and agg.runs < max(1, total // 20):
        print(f"HARNESS-ERROR too few runs inside the wall budget: {agg.runs}/{total}")
        return 2
    sweep()
    wall = time.monotonic() - t0
    evidence(scn, tier, seed, level, agg, total, wall, nviol, nw)
    probes = {k: v for k, v in sorted(agg.stats.items()) if k.startswith("probe:")}
    zero = [p for p in getattr(scn, "probes", ()) if not agg.stats.get(p)]
    print(f"runs={agg.runs} events={agg.events} oracle_evals={agg.evals} distinct={len(agg.digests)} "
          f"states={len(agg.states)} simtime={agg.simtime:.0f}s wall={wall:.1f}s "
          f"known={dict(agg.known)} probes={probes}"[:3000])
    if zero:
        print("note: probes never hit:", zero)
    return rc


def evidence(scn, tier, seed, level, agg, total, wall, nviol, nw):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(agg.stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(agg.stats.items()) if k.startswith("probe:")}
    ops = {k[3:]: v for k, v in sorted(agg.stats.items()) if k.startswith("op:")}
    obj = dict(
        property=scn.prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            evaluations=agg.evals, distinct_nontrivial=len(agg.nontrivial), rule=scn.rule,
            samples=agg.samples[:2],
            simulated_runs=agg.runs, runs_planned=total,
            runs_per_hour=int(agg.runs / max(wall, 1e-6) * 3600),
            seeds=f"VERIF_SEED={seed}, run indexes 0..{total-1}",
            simulated_time_s=round(agg.simtime, 1),
            events=agg.events,
            distinct_event_logs=len(agg.digests),
            distinct_states=len(agg.states),
            fault_injections=faults, probes=probes, operations=ops, workers=nw,
            components_real=list(scn.components_real), components_stub=list(scn.components_stub),
            known_findings_hit=dict(agg.known),
        ),
        assumptions=list(scn.assumptions), wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(d, f"{scn.prop}.json"), "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)


def replay(scn, obj):
    ctx, v = run_plan(scn, obj["plan"], trace=True)
    for line in ctx.log[-200:]:
        print("  ", line)
    if v is None:
        print("replay: no violation")
        return 0
    same = v.facet == obj["facet"] and v.sig == obj["sig"]
    print(f"replay: facet={v.facet} sig={v.sig} same={same}\n  {v.msg}")
    return 1 if same else 3


def digests(scn, seed, tier, idx):
    out = []
    for i in idx:
        ctx, v = run_plan(scn, plan_for(scn, seed, tier, i))
        out.append((i, ctx.digest(), None if v is None else v.sig))
    return out
