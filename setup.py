#!/usr/bin/env python3
"""setup_cmd: compiles the native crypto stand-in and smoke-tests the harness (offline)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "sim"), os.path.join(HERE, "sim", "stubs")]
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
import _simnative  # noqa  (compiles build/libsimcrypto.so)
import blake3  # noqa
assert blake3.blake3(b"").hexdigest().startswith("af1349b9"), "blake3 self-check"
print("setup ok")
