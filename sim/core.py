"""Shared vocabulary of the simulator: seeds, violations, run context, registry."""
import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """The property does not hold in this run.

    facet   which oracle noticed (a property enables a set of facets)
    sig     stable signature identifying the failing history class (known findings match on it)
    """
    def __init__(self, facet, sig, msg):
        super().__init__(msg)
        self.facet, self.sig, self.msg = facet, sig, msg


class SutError(Exception):
    """Code under test raised something the oracle does not allow (wrapped by Ctx.guard)."""


class Abandon(Exception):
    """The run can not be judged any further: the code broke something that is another property's concern."""


def rng_for(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


class Ctx:
    """One simulated run: collects counters, the event log digest and oracles' verdicts."""

    def __init__(self, facets, trace=False):
        self.facets = facets
        self.stats = Counter()      # what happened: ops, faults, probes
        self.evals = 0              # oracle evaluations
        self.simtime = 0.0
        self._h = hashlib.blake2b(digest_size=16)
        self.log = [] if trace else None
        self.n = 0
        self.states = set()         # state digests reached

    def ev(self, *what):
        """Record one event.  Never draws randomness, never reads a clock."""
        s = repr(what)
        self._h.update(s.encode("utf-8", "replace"))
        self.n += 1
        if self.log is not None:
            self.log.append(s if len(s) < 400 else s[:400] + "...")

    def hit(self, name, n=1):
        self.stats[name] += n

    def state(self, obj):
        self.states.add(hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).digest())

    def digest(self):
        return self._h.hexdigest()

    def check(self, ok, facet, sig, msg):
        self.evals += 1
        if not ok and facet in self.facets:
            raise Violation(facet, sig, msg() if callable(msg) else msg)
        return ok

    def fail(self, facet, sig, msg):
        self.check(False, facet, sig, msg)


class Scenario:
    """plan(rng) -> JSON-able plan; execute(plan, ctx) runs it and raises Violation."""
    name = "?"
    components_real = ()
    components_stub = ()
    assumptions = ()
    rule = ""

    def __init__(self, prop, facets, **opts):
        self.prop, self.facets, self.opts = prop, frozenset(facets), opts

    def setup(self):
        """Imported once per process, before forking."""

    def plan(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrinks(self, plan):
        """Candidate simplifications beyond dropping ops; yields plans."""
        return ()


def dumps(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))
