#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and sim/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, "sim")]
import props  # noqa
import registry  # noqa

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
na = dict(props.NOT_APPLICABLE)
checks = []
for p, tech, note in props.P:
    i = p["id"]
    if i in na:
        continue
    assert i in registry.TABLE, i
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                       thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                       technique=tech, level=registry.TABLE[i]["level"], level_note=note))
missing = set(registry.TABLE) - {p["id"] for p, _, _ in props.P}
assert not missing, missing
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks,
         hooks=dict(guard="none", enable="No hooks were added to /repo: every seam (storage opener, event loop, LMDB, crypto, "
                    "clock, hio scheduler and sockets) is replaced from outside the repository.", source_commits=[]),
         not_applicable=[dict(property=k, reason=v) for k, v in props.NOT_APPLICABLE],
         notes="One driver, check.py, runs every property: seeded plans, forked workers, minimisation, replay files. "
               "check.py --selftest proves determinism.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
