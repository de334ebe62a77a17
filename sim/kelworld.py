"""Abstract key event logs: what each controller really signed, and a small reference
validator that decides what a node may accept.  Independent of keri's validation code:
keri is used here only to serialise events and make signatures."""
import hashlib
import os
import shutil
from fractions import Fraction


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return os.path.join(base, f"verif-sim-{os.getpid()}")


def setup():
    global eventing, parsing, basing, coring, signing, indexing, serdering, structing, kering, lmdb, filing, CLOCK, core
    import boot
    boot.install()
    import logging
    logging.disable(logging.CRITICAL)
    import lmdb
    from hio.base import filing
    from keri import kering, core
    from keri.core import eventing, parsing, coring, signing, indexing, serdering, structing
    from keri.db import basing
    import simclock
    simclock.install()
    CLOCK = simclock.CLOCK


# ---------------------------------------------------------------- thresholds
def thr_ok(thr, idxs):
    """Independent threshold evaluation over distinct indices."""
    idxs = set(idxs)
    if isinstance(thr, int):
        return thr > 0 and len(idxs) >= thr
    i = 0
    for clause in thr:
        tot = Fraction(0)
        for w in clause:
            if isinstance(w, dict):
                (kw, vs), = w.items()
                sub = Fraction(0)
                for v in vs:
                    if i in idxs:
                        sub += Fraction(v)
                    i += 1
                if sub >= 1:
                    tot += Fraction(kw)
            else:
                if i in idxs:
                    tot += Fraction(w)
                i += 1
        if tot < 1:
            return False
    return True


def thr_sith(thr):
    return f"{thr:x}" if isinstance(thr, int) else [list(c) for c in thr] if len(thr) > 1 else list(thr[0])


def gen_thr(rng, n):
    """Random threshold over n keys."""
    r = rng.random()
    if n == 1 or r < 0.6:
        return rng.randint(1, n)
    if r < 0.85 or n < 3:
        return [["1/2"] * n] if n >= 2 else 1
    if r < 0.93:
        k = rng.randint(1, n - 1)
        return [["1/2"] * k if k > 1 else ["1"], ["1/2"] * (n - k) if n - k > 1 else ["1"]]
    return [[{"1/2": ["1/2"] * (n - 1)}, "1/2"]]


# ---------------------------------------------------------------- keys
_signers = {}


def signer(kid, transferable=True, curve="ed"):
    key = (kid, transferable, curve)
    if key not in _signers:
        raw = hashlib.blake2b(f"{kid}/{curve}".encode(), digest_size=32).digest()
        code = coring.MtrDex.Ed25519_Seed
        _signers[key] = signing.Signer(raw=raw, code=code, transferable=transferable)
    return _signers[key]


def kdig(kid, transferable=True):
    return coring.Diger(ser=signer(kid, transferable).verfer.qb64b).qb64


class Ev:
    """One key event as its author made it."""
    __slots__ = ("ident", "sn", "ilk", "prior", "serder", "keys", "thr", "nexts", "nthr", "wits", "toad", "cuts", "adds",
                 "seals", "delpre", "trans", "forged", "eo", "dnd", "said", "anchor", "ntrans", "sigcache", "pnexts", "fkind")

    def __init__(self, **kw):
        self.forged = None
        self.anchor = None       # Ev of the delegator that seals this one
        self.sigcache = {}
        for k, v in kw.items():
            setattr(self, k, v)
        self.said = self.serder.said

    @property
    def pre(self):
        return self.serder.pre

    @property
    def est(self):
        return self.ilk in ("icp", "rot", "dip", "drt")

    def sig(self, kid, index, ondex=None, only=False, code=None):
        """A genuine signature by key kid claiming the given index."""
        k = (kid, index, ondex, only, code)
        if k not in self.sigcache:
            s = signer(kid, self.trans).sign(self.serder.raw, index=index, only=only, ondex=ondex)
            if code is not None:
                kw = dict(ondex=index if ondex is None else ondex) if code in ("2A",) else {}
                s = indexing.Siger(raw=s.raw, code=code, index=index, verfer=s.verfer, **kw)
            self.sigcache[k] = s
        return self.sigcache[k]

    def wig(self, wid, index, code=None):
        k = ("w", wid, index, code)
        if k not in self.sigcache:
            s = signer(wid, False).sign(self.serder.raw, index=index)
            if code is not None:
                kw = dict(ondex=index) if code == "2A" else {}
                s = indexing.Siger(raw=s.raw, code=code, index=index, verfer=s.verfer, **kw)
            self.sigcache[k] = s
        return self.sigcache[k]

    def cigar(self, wid):
        k = ("c", wid)
        if k not in self.sigcache:
            self.sigcache[k] = signer(wid, False).sign(self.serder.raw)
        return self.sigcache[k]


def junk_siger(index, salt, code="A"):
    raw = hashlib.blake2b(f"junk{salt}".encode(), digest_size=64).digest()
    kw = dict(ondex=index) if code == "2A" else {}
    return indexing.Siger(raw=raw, code=code, index=index, **kw)


class KS:
    """Key state of a chain (the reference's own)."""
    __slots__ = ("ev", "sn", "said", "keys", "thr", "nexts", "nthr", "wits", "toad", "cuts", "adds", "lest", "eo", "dnd",
                 "delpre", "trans", "prevw", "prevn", "prevnthr")

    def copy(self):
        n = KS()
        for s in self.__slots__:
            setattr(n, s, getattr(self, s))
        return n


def step(ks, ev):
    """Key state after ev (assumes ev valid on ks)."""
    n = KS() if ks is None else ks.copy()
    n.ev, n.sn, n.said = ev, ev.sn, ev.said
    if ev.est:
        if ks is None:
            n.wits, n.cuts, n.adds = list(ev.wits), [], []
            n.eo, n.dnd, n.delpre = ev.eo, ev.dnd, ev.delpre
            n.prevw, n.prevn, n.prevnthr = [], None, None
        else:
            # a delegated rotation that supersedes the latest rotation builds on what that one built on
            base = ks.wits if ev.sn > ks.lest.sn else ks.prevw
            n.prevw = list(base)
            n.wits = [w for w in base if w not in ev.cuts] + list(ev.adds)
            n.cuts, n.adds = list(ev.cuts), list(ev.adds)
            if ev.sn > ks.lest.sn:
                n.prevn, n.prevnthr = ks.nexts, ks.nthr
        n.keys, n.thr, n.nexts, n.nthr, n.toad = ev.keys, ev.thr, ev.nexts, ev.nthr, ev.toad
        n.trans = ev.ntrans
        n.lest = ev
    return n


class Ident:
    """A controller: its own branch of events (list) and the shape of its keys."""

    def __init__(self, idx, shape, deleg=None):
        self.idx, self.shape, self.deleg = idx, shape, deleg
        self.nk = 0
        self.chain = []         # controller's authoritative branch
        self.all = []           # every event ever made, including forgeries and superseded ones
        self.ks = None
        self.states = []        # states[i] = KS after chain[i]
        self.duplicitous = False
        self.recovered = False

    def kids(self, n):
        out = [f"k{self.idx}.{self.nk + i}" for i in range(n)]
        self.nk += n
        return out

    @property
    def pre(self):
        return self.chain[0].pre


def wid(i):
    return f"w{i}"


def wpre(w):
    return signer(w, False).verfer.qb64


def verfers(kids, trans=True):
    return [signer(k, trans).verfer.qb64 for k in kids]


def exposed(ks_nexts, ev):
    """index in ev.keys -> position in prior nexts, for committed keys."""
    out = {}
    for i, k in enumerate(ev.keys):
        if k in ks_nexts:
            out[i] = ks_nexts.index(k)
    return out


# ---------------------------------------------------------------- what a node has been given
class Have:
    """Signatures by index (and rotation exposure) that a node has ever received for one event."""
    __slots__ = ("sigs", "ondx", "wigs")

    def __init__(self):
        self.sigs, self.ondx, self.wigs = set(), set(), set()


class RefNode:
    """Which events a node may hold, judged from what was delivered to it."""

    def __init__(self, world):
        self.w = world
        self.have = {}
        self.acc = {}        # pre -> [Ev in first-seen order]
        self.ks = {}         # pre -> KS
        self.seals = set()   # (delegator pre, delegate pre, sn, said)
        self.owned = set()   # prefixes whose witness or owner this node is

    def h(self, said):
        return self.have.setdefault(said, Have())

    def got_sig(self, ev, signer_kid, index, ondex=None):
        """Record a genuine signature by signer_kid presented at index/ondex."""
        if 0 <= index < len(ev.keys) and ev.keys[index] == signer_kid:
            self.h(ev.said).sigs.add(index)
            if ondex is not None:
                self.h(ev.said).ondx.add((index, ondex))

    def got_wig(self, ev, w):
        self.h(ev.said).wigs.add(w)

    def why_not(self, ev, lax_wits=False):
        """None when the node may accept ev now, else the rule it breaks (facet, text)."""
        h = self.h(ev.said)
        ks = self.ks.get(ev.pre)
        if ev.forged and ev.forged not in ("dup", "fork"):
            return "chain", f"event is malformed: {ev.forged}"
        if ks is None:
            if ev.ilk not in ("icp", "dip"):
                return "chain", "no inception accepted"
            wits = ev.wits
        else:
            if ev.ilk in ("icp", "dip"):
                return "chain", "second inception"
            if not ks.trans:
                return "chain", "identifier is abandoned or not transferable"
            if ev.ilk == "ixn":
                if ev.sn != ks.sn + 1 or ev.prior is not ks.ev:
                    return "chain", f"interaction at sn {ev.sn} does not follow sn {ks.sn}"
                if ks.eo:
                    return "chain", "establishment-only identifier"
                wits = ks.wits
            else:
                if (ev.ilk == "drt") != (ks.delpre is not None):
                    return "chain", "rotation type does not match delegation"
                ok = ev.sn == ks.sn + 1 and ev.prior is ks.ev
                sup = False
                if not ok and ev.sn <= ks.sn:
                    prior = self.at(ev.pre, ev.sn - 1)
                    ok = ev.sn > ks.lest.sn and ev.prior is prior
                    sup = True
                    if not ok and ev.ilk == "drt" and ev.sn == ks.lest.sn and ev.prior is prior:
                        ok = self.later_deleg(ks, ev)
                        if not ok:
                            return "chain", "delegated rotation supersedes a rotation without a later delegation"
                if not ok:
                    return "chain", f"rotation at sn {ev.sn} does not follow sn {ks.sn}"
                base, nexts, nthr = ks.wits, ks.nexts, ks.nthr
                if ev.sn <= ks.lest.sn:
                    base, nexts, nthr = ks.prevw, ks.prevn, ks.prevnthr
                if [c for c in ev.cuts if c not in base] or [a for a in ev.adds if a in base]:
                    return "chain", "witness cuts/adds do not match current witnesses"
                wits = [w for w in base if w not in ev.cuts] + list(ev.adds)
                exp = exposed(nexts, ev)
                odx = {o for i, o in h.ondx if exp.get(i) == o}
                if not thr_ok(nthr, odx):
                    return "sigs", f"prior next threshold {nthr} not met by exposed {sorted(odx)}"
        keys, thr = (ev.keys, ev.thr) if ev.est else (ks.keys, ks.thr)
        if ev.est:
            idxs = h.sigs
        else:
            idxs = {i for i in h.sigs if i < len(keys)}
        if not thr_ok(thr, idxs):
            return "sigs", f"signing threshold {thr} not met by valid signatures {sorted(idxs)}"
        toad = ev.toad if ev.est else ks.toad
        if not lax_wits:
            if len([w for w in wits if w in h.wigs]) < toad:
                return "wits", f"witness threshold {toad} not met by {sorted(w for w in wits if w in h.wigs)} of {wits}"
        delpre = ev.delpre if ev.ilk == "dip" else (ks.delpre if ks is not None and ev.ilk == "drt" else None)
        if delpre is not None and not lax_wits:
            if (delpre, ev.pre, ev.sn, ev.said) not in self.seals:
                return "deleg", f"no delegating seal by {delpre} accepted"
            dks = self.ks.get(delpre)
            if dks is not None and dks.dnd:
                return "deleg", "delegator does not allow delegation"
        return None

    def later_deleg(self, ks, ev):
        """The delegation of ev is later in the delegator's log than that of ks.lest (rules B1..B3)."""
        dpre = ks.delpre
        new = self.where(dpre, ev)
        old = self.where(dpre, ks.lest)
        if not new or not old:
            return False
        for (de, ni) in new:
            for (oe, oi) in old:
                if de.sn > oe.sn or (de is oe and ni > oi) or (de.sn == oe.sn and de is not oe and de.est and not oe.est):
                    return True
        return False

    def where(self, dpre, ev):
        out = []
        for de in self.acc.get(dpre, ()):
            for i, s in enumerate(de.seals):
                if s == (ev.pre, ev.sn, ev.said):
                    out.append((de, i))
        return out

    def auth(self, pre):
        """Authoritative branch: the event at each sn."""
        out = []
        for e in self.acc.get(pre, ()):
            out = out[:e.sn] + [e]
        return out

    def at(self, pre, sn):
        for e in reversed(self.acc.get(pre, [])):
            if e.sn == sn:
                return e
        return None

    def accept(self, ev):
        self.acc.setdefault(ev.pre, []).append(ev)
        self.ks[ev.pre] = step(self.ks.get(ev.pre), ev)
        for s in ev.seals:
            self.seals.add((ev.pre,) + tuple(s))
