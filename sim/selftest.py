"""Determinism self-test: the same runs in fresh interpreters, in other orders and
processes and under other PYTHONHASHSEEDs must give identical event logs."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _go(prop, lo, hi, seed, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_SEED=str(seed), VERIF_CHILD="0")
    return subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), prop, "--digests", f"{lo}:{hi}"],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)


def main(props, seed):
    import registry
    bad = 0
    for prop in props:
        n = registry.TABLE[prop].get("selftest", 200)
        q = max(1, n // 4)
        jobs = []
        for s in (seed, seed + 1):
            jobs.append((s, "a", [_go(prop, 0, n, s, 0)]))
            jobs.append((s, "b", [_go(prop, 0, n, s, 4242)]))
            jobs.append((s, "c", [_go(prop, i, min(n, i + q), s, 77 + i) for i in range(0, n, q)]))
        got = {}
        for s, k, ps in jobs:
            lines = []
            for p in ps:
                out, err = p.communicate()
                if p.returncode:
                    print("HARNESS-ERROR", prop, err[-1500:])
                    return 2
                lines += out.splitlines()
            got[s, k] = lines
        for s in (seed, seed + 1):
            base = got[s, "a"]
            for k in "bc":
                diff = [i for i, (x, y) in enumerate(zip(base, got[s, k])) if x != y]
                if diff or len(base) != len(got[s, k]) or not base:
                    bad += 1
                    print(f"NONDETERMINISM {prop} seed={s} variant={k}: {len(diff)} of {len(base)} runs differ, first {diff[:3]}")
        print(f"selftest {prop}: {n} runs x 2 seeds x 3 variants {'ok' if not bad else 'FAILED'}", flush=True)
    return 2 if bad else 0
