"""Layer B: key event logs on several nodes.  Real Parser + Kevery + Kever + Baser from /repo on simulated LMDB and
clock; a simulated network delivers, delays, duplicates, reorders and drops; processes die inside any transaction."""
import os
import shutil

from core import Scenario, rng_for
import kelworld as kw
from kelworld import (Ev, Ident, KS, RefNode, gen_thr, junk_siger, kdig, scratch_root, signer, step, thr_sith, verfers,
                      wid, wpre, exposed)

NW = 5                      # witness pool
OKERR = None                # protocol errors a rejected message may raise

PROFILE = dict(
    K01=dict(w=dict(dup=1.0, forge=1.0, rec=1.0, atk=1.0, mal=1.0), crash=0.2, deleg=0.5, tick=0.2),
    K02=dict(w=dict(rec=0.3, mal=0.15), crash=0.15, once=0.5, quiet=True),
    K03=dict(w=dict(atk=4.0, forge=0.6), crash=0.0, tick=0.2),
    K04=dict(w=dict(atk=2.0, rct=2.5, rot=2.0), crash=0.0, wits=0.95, tick=0.2),
    K05=dict(w=dict(anc=2.5, drec=1.5, rec=0.6, forge=0.6), crash=0.0, deleg=0.9, tick=0.1),
    K06=dict(w=dict(rec=0.5), crash=1.0, tick=0.1),
    K07=dict(w=dict(tick=3.0, atk=2.0, esc=4.0), crash=0.0, tick=1.0),
    K08=dict(w=dict(rct=1.0, vrc=5.0, atk=0.2, rec=0.3), crash=0.08, once=0.6, tick=0.2),
)
FACETS = dict(
    K01=("fels", "chain", "state", "evidence"),
    K02=("converge", "internal"),
    K03=("sigs",),
    K04=("wits",),
    K05=("deleg", "super"),
    K06=("durable", "reload", "replay"),
    K07=("drain",),
    K08=("receipts", "early"),
)


class Node:
    def __init__(self, i):
        self.i, self.db, self.kvy, self.psr = i, None, None, None
        self.seen = {}          # pre -> [said]
        self.ref = RefNode(None)
        self.q = []             # in-flight messages
        self.errs = []
        self.skew = 0.0
        self.armed = None
        self.given = []         # endorsements delivered


class Kel(Scenario):
    name = "key event logs over several nodes"
    components_real = ("keri.core parsing, eventing (Kevery, Kever), serdering, coring, indexing, counting",
                       "keri.db basing, subing, koming, dbing (shipped source from /repo/src)")
    components_stub = ("lmdb (ordered map with snapshot readers and atomic durable write transactions)",
                       "pysodium (keyed hash in place of Ed25519), blake3 (blake2b), cbor2/msgpack/hjson re-implementations",
                       "hio path handling and scheduler", "wall clock")
    assumptions = (
        "signatures cannot be forged and digests do not collide (stand-in primitives keep both)",
        "an LMDB write transaction is atomic and durable once its commit returned",
        "no node in this scenario owns an identifier (validators); controllers and attackers are simulated",
    )
    rule = ("each run draws identifiers (keys, weighted or numeric thresholds, witnesses, delegation), what their controllers and "
            "an attacker publish, and how the network and process crashes treat each message; non-trivial = an event was accepted "
            "after out-of-order, partial, duplicated or interrupted delivery")
    probes = ("probe:accepted_from_escrow", "probe:recovery_accepted", "probe:delegated_accepted", "probe:crash_inside",
              "probe:duplicitous_refused", "probe:underthreshold_held", "probe:converged")

    def setup(self):
        global eventing, parsing, basing, serdering, kering, lmdb, filing, CLOCK, coring, structing, indexing, OKERR
        kw.setup()
        eventing, parsing, basing, serdering = kw.eventing, kw.parsing, kw.basing, kw.serdering
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring
        structing, indexing = kw.structing, kw.indexing
        OKERR = (kering.KeriError, ValueError)

    # ------------------------------------------------------------------ plan
    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        nid = rng.choice([1, 1, 2, 2, 3])
        nn = rng.choice([1, 2, 2, 3])
        pdel = prof.get("deleg", 0.35)
        idents = []
        if self.prop == "K05":
            nid = rng.choice([2, 2, 3, 3, 4])
        for i in range(nid):
            d = rng.randrange(i) if i and rng.random() < pdel else None
            idents.append(dict(deleg=d, eo=int(rng.random() < 0.08), dnd=int(rng.random() < 0.05), r=rng.randrange(1 << 30),
                               code=rng.choice(["E", "E", "E", "I", None]),
                               kind=rng.choice(["JSON", "JSON", "JSON", "CBOR", "MGPK", "CESR"]), pv=rng.choice([1, 2, 2]),
                               wit=int(rng.random() < prof.get("wits", 0.5))))
        once = int(rng.random() < prof.get("once", 0.0))
        w = dict(rot=1.2, ixn=1.2, anc=0.8, rec=0.2, drec=0.1, dup=0.05, forge=0.15, dlv=9.0, atk=0.4, rct=0.3, vrc=0.15, esc=1.5, tick=0.2,
                 crash=0.0, clone=0.15, mal=0.0)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.8 else 0.0
        if prof.get("quiet") and rng.random() < 0.7:
            w.update(dup=0.0, forge=0.0, atk=0.1)
        if once:
            w.update(dup=0.0, rec=0.0, drec=0.0, forge=0.0, atk=0.0, mal=0.0)
        for f in ("dup", "forge", "rec", "tick", "clone", "rct"):
            if rng.random() < 0.3 and self.prop in ("K01", "K02", "K06"):
                w[f] = 0.0
        if not any(x["deleg"] is not None for x in idents):
            w["anc"] = w["drec"] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = []
        for _ in range(rng.choice([12, 20, 35, 60]) if tier == "quick" else rng.choice([15, 30, 60, 120])):
            k = rng.choices(names, cum)[0]
            n, i, r = rng.randrange(nn), rng.randrange(nid), rng.randrange(1 << 30)
            if k in ("rot", "ixn", "anc", "rec", "drec", "dup", "forge", "mal"):
                ops.append([k, i, r])
            elif k == "dlv":
                ops.append(["dlv", n, r, rng.choices(["one", "dup", "drop", "batch"], [8, 1, 0 if once else 1, 2])[0]])
            elif k in ("atk", "rct", "vrc"):
                ops.append([k, n, i, r])
            elif k == "esc":
                ops.append(["esc", n])
            elif k == "tick":
                ops.append(["tick", rng.choice([1, 30, 90] if once else [1, 60, 400, 1300, 4000]), n,
                            rng.choice([0, 0, 0, -500, 2000]) if self.prop == "K01" else 0])
            elif k == "crash":
                ops.append(["crash", n, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 30)])
            elif k == "clone":
                ops.append(["clone", n, rng.randrange(nn), i])
        return dict(idents=idents, nodes=nn, once=once, fifo=int(rng.random() < 0.3), ops=ops, end=rng.randrange(1 << 30))

    def shrinks(self, plan):
        if plan["nodes"] > 1:
            yield dict(plan, nodes=plan["nodes"] - 1)
        if len(plan["idents"]) > 1:
            yield dict(plan, idents=plan["idents"][:-1])
        for i, d in enumerate(plan["idents"]):
            for k, v in (("wit", 0), ("deleg", None), ("eo", 0), ("kind", "JSON"), ("code", "E"), ("pv", 2)):
                if d[k] != v:
                    yield dict(plan, idents=plan["idents"][:i] + [dict(d, **{k: v})] + plan["idents"][i + 1:])

    def execute(self, plan, ctx):
        root = scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        run = _Run(self, plan, ctx, root)
        try:
            run.go()
        finally:
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class Msg:
    """What travels: an event (or receipt) of ev with some attachments."""
    __slots__ = ("ev", "form", "sigs", "wigs", "bond", "junk", "by")

    def __init__(self, ev, form="evt", sigs=(), wigs=(), bond=None, junk=(), by=None):
        self.by = by
        self.ev, self.form, self.sigs, self.wigs, self.bond, self.junk = ev, form, list(sigs), list(wigs), bond, list(junk)


class _Run:
    def __init__(self, scn, plan, ctx, root):
        self.scn, self.plan, self.ctx, self.root = scn, plan, ctx, root
        self.ids = []
        self.bysaid = {}
        self.nodes = [Node(i) for i in range(plan["nodes"])]
        self.nx = 0
        self.fresh = 0

    # ------------------------------------------------------------------ controllers
    def vk(self, ident):
        """Serialisation and version of this controller's messages."""
        sh = ident.shape
        if sh["pv"] == 1:
            return dict(kind="JSON" if sh["kind"] == "CESR" else sh["kind"], pvrsn=kering.Vrsn_1_0)
        return dict(kind=sh["kind"], pvrsn=kering.Vrsn_2_0)

    def knew(self, ident, n):
        return ident.kids(n)

    def icp(self, ident, rng):
        sh = ident.shape
        n = rng.choice([1, 1, 2, 3, 3, 4])
        trans = True
        if ident.deleg is None and rng.random() < 0.04 and not sh["wit"]:
            n, trans = 1, False
        keys = self.knew(ident, n)
        thr = gen_thr(rng, n)
        nn = rng.choice([1, 2, 3, 3, 4]) if trans else 0
        nexts = self.knew(ident, nn)
        nthr = gen_thr(rng, nn) if nn else 0
        wits = [wid(i) for i in rng.sample(range(NW), rng.choice([1, 2, 3, 4]))] if sh["wit"] and trans else []
        toad = rng.randint(1, len(wits)) if wits else 0
        cnfg = (["EO"] if sh["eo"] and trans else []) + (["DND"] if sh["dnd"] and trans else [])
        code = dict(E=coring.MtrDex.Blake3_256, I=coring.MtrDex.SHA3_256).get(sh["code"])
        if not trans:
            code = None
        dpre = ident.deleg.pre if ident.deleg is not None else None
        s = eventing.incept(keys=verfers(keys, trans), isith=thr_sith(thr), ndigs=[kdig(k) for k in nexts],
                            nsith=thr_sith(nthr) if nn else "0", toad=toad, wits=[wpre(w) for w in wits], cnfg=cnfg,
                            code=code, delpre=dpre, **self.vk(ident))
        return Ev(ident=ident, sn=0, ilk=s.ilk, prior=None, serder=s, keys=keys, thr=thr, nexts=nexts, nthr=nthr, wits=wits,
                  toad=toad, cuts=[], adds=[], seals=[], delpre=dpre, trans=trans, ntrans=bool(nexts), eo="EO" in cnfg,
                  dnd="DND" in cnfg)

    def pick_keys(self, ident, rng, nexts, nthr):
        """Keys of a rotation: enough of the committed ones, perhaps new ones, any order."""
        idx = list(range(len(nexts)))
        if rng.random() < 0.4:
            rng.shuffle(idx)
            cut = rng.randint(1, len(idx))
            while not kw.thr_ok(nthr, idx[:cut]):
                cut += 1
            idx = idx[:cut]
        keys = [nexts[i] for i in idx]
        if rng.random() < 0.25:
            keys += self.knew(ident, rng.choice([1, 2]))
            if rng.random() < 0.6:
                rng.shuffle(keys)
        return keys

    def rot(self, ident, ks, rng, prior, sn, base, nexts, nthr, seals=(), keys=None, ilk=None, wchg=None, cuts=None, adds=None,
            toad=None):
        keys = self.pick_keys(ident, rng, nexts, nthr) if keys is None else keys
        thr = gen_thr(rng, len(keys))
        nn = 0 if rng.random() < 0.03 and ident.deleg is None else rng.choice([1, 2, 3, 3])
        nx = self.knew(ident, nn)
        nth = gen_thr(rng, nn) if nn else 0
        if cuts is None:
            cuts, adds = [], []
            if wchg if wchg is not None else (ident.shape["wit"] and rng.random() < 0.4):
                cuts = rng.sample(base, rng.randint(0, len(base))) if base else []
                pool = [wid(i) for i in range(NW) if wid(i) not in base]
                adds = rng.sample(pool, min(len(pool), rng.randint(0, 2)))
        wits = [w for w in base if w not in cuts] + list(adds)
        if toad is None:
            toad = rng.randint(1, len(wits)) if wits else 0
        s = eventing.rotate(pre=ident.pre, keys=verfers(keys), dig=prior.said, sn=sn, isith=thr_sith(thr),
                            ndigs=[kdig(k) for k in nx], nsith=thr_sith(nth) if nn else "0", toad=toad,
                            wits=[wpre(w) for w in base], cuts=[wpre(c) for c in cuts], adds=[wpre(a) for a in adds],
                            data=[dict(i=p, s=f"{n:x}", d=d) for p, n, d in seals],
                            ilk=ilk or ("drt" if ident.deleg is not None else "rot"), **self.vk(ident))
        return Ev(ident=ident, sn=sn, ilk=s.ilk, prior=prior, serder=s, keys=keys, thr=thr, nexts=nx, nthr=nth, wits=wits,
                  toad=toad, cuts=cuts, adds=adds, seals=list(seals), delpre=None, trans=True, ntrans=bool(nx), eo=False, dnd=False)

    def ixn(self, ident, ks, prior, sn, seals=(), salt=0):
        data = [dict(i=p, s=f"{n:x}", d=d) for p, n, d in seals]
        if salt:
            data = [dict(d=coring.Diger(ser=f"{salt}".encode()).qb64)] + data
        s = eventing.interact(pre=ident.pre, dig=prior.said, sn=sn, data=data, **self.vk(ident))
        off = [None] if salt else []
        return Ev(ident=ident, sn=sn, ilk="ixn", prior=prior, serder=s, keys=ks.keys, thr=ks.thr, nexts=None, nthr=None,
                  wits=ks.wits, toad=ks.toad, cuts=[], adds=[], seals=list(seals), delpre=None, trans=True, ntrans=True, eo=False,
                  dnd=False)

    def publish(self, ident, ev, rng, main=True):
        """Author the event and put it on the wire to every node."""
        self.bysaid[ev.said] = ev
        ident.all.append(ev)
        if main:
            ident.chain = ident.chain[:ev.sn] + [ev]
            base = ident.states[ev.sn - 1] if ev.sn else None
            if ev.est and ev.sn and ident.ks is not None and ev.sn <= ident.ks.lest.sn:
                base = ident.ks                  # delegated rotation superseding the latest one
            ident.ks = step(base, ev)
            ident.states = ident.states[:ev.sn] + [ident.ks]
        if ident.deleg is not None and ev.ilk in ("dip", "drt"):
            ident.pend.append(ev)
        self.ctx.ev("publish", ident.idx, ev.ilk, ev.sn, ev.said, ev.forged)
        for n in self.nodes:
            self.enqueue(n, ev, rng)

    def ksof(self, ev):
        """State on which ev's attachments are indexed (its own keys and witnesses are on ev)."""
        return ev

    def sigs_of(self, ev):
        """All genuine controller signatures: (kid, index, ondex) triples."""
        out = []
        nexts = None
        if ev.ilk in ("rot", "drt"):
            nexts = ev.pnexts
        for i, k in enumerate(ev.keys):
            o = i
            if nexts is not None:
                o = nexts.index(k) if k in nexts else None
            out.append((k, i, o))
        return out

    def enqueue(self, n, ev, rng):
        once = self.plan["once"]
        sigs, wits = self.sigs_of(ev), list(ev.wits)
        style = rng.choice(["full", "full", "full", "rct", "split", "late"])
        msgs = []
        if style == "full":
            msgs.append(Msg(ev, sigs=sigs, wigs=wits))
        elif style == "rct" or style == "late":
            k = rng.randint(0, len(wits))
            rng.shuffle(wits)
            msgs.append(Msg(ev, sigs=sigs, wigs=wits[:k]))
            rest = wits[k:]
            while rest:
                j = rng.randint(1, len(rest))
                msgs.append(Msg(ev, form=rng.choice(["cigar", "wiger"]), wigs=rest[:j]))
                rest = rest[j:]
        else:
            rng.shuffle(sigs)
            rng.shuffle(wits)
            j = rng.randint(1, len(sigs))
            k = rng.randint(0, len(wits))
            msgs.append(Msg(ev, sigs=sigs[:j], wigs=wits[:k]))
            msgs.append(Msg(ev, sigs=sigs[j:] or sigs[:1], wigs=wits[k:]))
        for m in msgs:
            if m.form == "evt" and rng.random() < 0.1:
                m.junk.append(("junk", rng.randrange(len(ev.keys) + 2), rng.randrange(99)))
        n.q.extend(msgs)

    def anchor_bond(self, ev, rng):
        if ev.anchor is not None and rng.random() < 0.7:
            return (ev.anchor.sn, ev.anchor.said)
        return None

    # ------------------------------------------------------------------ wire format
    def encode(self, n, m, rng):
        """Bytes for message m, recording in the reference what the node is being given."""
        ev, ref = m.ev, n.ref
        gv = dict(gvrsn=kering.Vrsn_1_0 if ev.ident.shape["pv"] == 1 else kering.Vrsn_2_0)
        if m.form == "trct":
            s = eventing.receipt(pre=ev.pre, sn=ev.sn, said=ev.said, **self.vk(ev.ident))
            est, alt = m.by
            sigers = []
            for kid, i in m.sigs:
                sigers.append(signer(kid, est.trans).sign((alt or ev).serder.raw, index=i))
            sigers += [junk_siger(j[1], j[2]) for j in m.junk]
            grp = [(coring.Prefixer(qb64=est.pre), coring.Number(num=est.sn), coring.Diger(qb64=est.said), sigers)]
            return eventing.messagize(s, **{rng.choice(["tsgs", "rsgs"]): grp}, **gv)
        if m.form == "watch":
            s = eventing.receipt(pre=ev.pre, sn=ev.sn, said=ev.said, **self.vk(ev.ident))
            return eventing.messagize(s, cigars=[signer(x, False).sign((m.by or ev).serder.raw) for x in m.wigs], **gv)
        if m.form in ("cigar", "wiger"):
            s = eventing.receipt(pre=ev.pre, sn=ev.sn, said=ev.said, **self.vk(ev.ident))
            for w in m.wigs:
                ref.got_wig(ev, w)
            if m.form == "cigar":
                return eventing.messagize(s, cigars=[ev.cigar(w) for w in m.wigs], **gv)
            return eventing.messagize(s, wigers=[ev.wig(w, ev.wits.index(w)) for w in m.wigs], **gv)
        sigers, wigers = [], []
        for t in m.sigs:
            kid, i, o = t[:3]
            code = t[3] if len(t) > 3 else None
            if code is None:
                s = ev.sig(kid, i, ondex=o, only=o is None)
                ref.got_sig(ev, kid, i, o)
            else:
                raw = ev.sig(kid, i, ondex=o, only=o is None).raw
                k2 = dict(ondex=o if o is not None else i) if code == "2A" else {}
                s = indexing.Siger(raw=raw, code=code, index=i, **k2)
                ref.got_sig(ev, kid, i, s.ondex)
            sigers.append(s)
        for t in m.wigs:
            if isinstance(t, str):
                wigers.append(ev.wig(t, ev.wits.index(t)))
                ref.got_wig(ev, t)
            else:
                w, i, code = t
                if 0 <= i < len(ev.wits) and ev.wits[i] == w:
                    ref.got_wig(ev, w)
                wigers.append(ev.wig(w, i, code))
        for j in m.junk:
            if j[0] == "junk":
                sigers.insert(j[2] % (len(sigers) + 1), junk_siger(j[1], j[2]))
            elif j[0] == "wjunk":
                wigers.append(junk_siger(j[1], j[2]))
        kwa = {}
        if m.bond:
            kwa["bonds"] = [structing.SealSource(s=f"{m.bond[0]:x}", d=m.bond[1])]
        if not sigers and not wigers:
            sigers = [junk_siger(0, 0)]
        return eventing.messagize(ev.serder, sigers=sigers or None, wigers=wigers or None, **kwa, **gv)

    # ------------------------------------------------------------------ nodes
    def hook(self, kind, env):
        n = self.cur
        a = n.armed if n is not None else None
        if a is None or a[0] != kind or env is not n.db.env:
            return
        a[1] -= 1
        if a[1] > 0:
            return
        n.armed = None
        self.fired = kind
        raise lmdb.SimCrash(kind)

    def boot(self, n):
        self.cur = None
        n.db = basing.Baser(name=f"n{n.i}", base="", temp=False, headDirPath=os.path.join(self.root, f"n{n.i}"), reopen=True)
        n.db.reload()
        n.kvy = eventing.Kevery(db=n.db, lax=False, local=False)
        n.psr = {v: parsing.Parser(framed=False, kvy=n.kvy, local=False, version=x)
                 for v, x in ((1, kering.Vrsn_1_0), (2, kering.Vrsn_2_0))}
        n.errs = []
        self.spy(n, "processEvent")
        self.spy(n, "processReceipt")

    def spy(self, n, name):
        real = getattr(n.kvy, name)

        def wrap(*a, **k):
            try:
                return real(*a, **k)
            except Exception as ex:
                n.errs.append((name, ex))
                raise
        setattr(n.kvy, name, wrap)

    def die(self, n):
        self.cur = None
        lmdb.SIM.crash(n.db.env)
        n.db.env = None
        self.boot(n)

    def act(self, n, fn, what):
        """Run code on node n; it may die inside."""
        CLOCK.skew = n.skew
        self.cur, self.fired = n, None
        n.errs = []
        died = False
        try:
            fn()
        except lmdb.SimCrash:
            died = True
        finally:
            self.cur = None
        if died or self.fired:
            self.ctx.hit(f"fault:crash_{self.fired}")
            self.ctx.hit("probe:crash_inside")
            self.ctx.hit("nontrivial")
            self.die(n)
            died = True
        for name, ex in n.errs:
            if self.ctx.log is not None:
                self.ctx.log.append(f"  {name} -> {type(ex).__name__}: {str(ex)[:110]}")
            self.ctx.hit(f"err:{type(ex).__name__}")
            if isinstance(ex, kering.LikelyDuplicitousError):
                self.ctx.hit("probe:duplicitous_refused")
                m = self.lastev
                if m is not None and not died and what.startswith("deliver evt"):
                    held = [bytes(x).decode() if not isinstance(x, str) else x for x in n.db.ldes.get(keys=m.pre, on=m.sn)]
                    self.ctx.check(m.said in held and n.db.evts.get(keys=(m.pre, m.said)) is not None, "evidence", "evidence:lost",
                                   lambda: f"event {m.said} conflicts with the first seen one at sn {m.sn} but no record of it is kept: {held}")
            self.ctx.check(isinstance(ex, OKERR) and not isinstance(ex, (UnicodeError,)), "internal",
                           f"{name}:{type(ex).__name__}", lambda: f"{name} raised {type(ex).__name__}: {ex} on {what}")
        self.absorb(n, what, died)
        return died

    def deliver(self, n, m, rng):
        if m.bond is None and m.form == "evt":
            m.bond = self.anchor_bond(m.ev, rng)
        if m.bond is not None and not self.healing and not self.plan["once"] and rng.random() < 0.08:
            m.bond = (m.bond[0] + 1, m.bond[1])
        self.lastev = m.ev
        if m.junk or any(not isinstance(t, str) for t in m.wigs):
            self.odd.add((n.i, m.ev.said))     # escrowed signatures are stored before they are verified
        ims = self.encode(n, m, rng)
        what = f"deliver {m.form} {m.ev.ident.idx}:{m.ev.ilk}@{m.ev.sn} sigs={m.sigs} wigs={m.wigs} bond={bool(m.bond)} to node {n.i}"
        self.ctx.ev("dlv", n.i, m.ev.said, m.form, len(m.sigs), len(m.wigs))
        if self.ctx.log is not None:
            self.ctx.log.append(what)
        return self.act(n, lambda: n.psr[m.ev.ident.shape["pv"]].parse(ims=bytearray(ims)), what)

    def escrows(self, n):
        self.ctx.ev("esc", n.i)
        return self.act(n, n.kvy.processEscrows, f"processEscrows on node {n.i}")

    # ------------------------------------------------------------------ oracle
    def felsof(self, n):
        out = {}
        for keys, fn, dig in n.db.fels.getAllItemIter():
            pre = keys[0] if isinstance(keys, (tuple, list)) else keys
            out.setdefault(pre, []).append((fn, dig))
        return out

    def absorb(self, n, what, died=False, full=False):
        """Compare what the node now holds with what it may hold."""
        ctx, ref = self.ctx, n.ref
        facet = "durable" if died else "fels"
        fels = self.felsof(n)
        todo = {}
        for pre, items in fels.items():
            ctx.check([f for f, _ in items] == list(range(len(items))), "fels", "fels:ordinals",
                      lambda: f"first-seen ordinals of {pre} are {[f for f, _ in items]} after {what}")
            saids = [d for _, d in items]
            old = n.seen.get(pre, [])
            if died:
                ctx.check(saids[:len(old)] == old, "durable", "fels:lost",
                          lambda: f"first-seen log of {pre} was {old}, after crash in {what} it is {saids}")
            ctx.check(saids[:len(old)] == old, "fels", "fels:rewritten",
                      lambda: f"first-seen log of {pre} was {old}, after {what} it is {saids}")
            if len(set(saids)) != len(saids):
                ctx.fail("fels", "fels:twice", f"event first seen twice: {saids} after {what}")
                ctx.fail("durable", "fels:twice", f"event first seen twice: {saids} after {what}")
            if len(saids) > len(old):
                todo[pre] = saids[len(old):]
            n.seen[pre] = saids
        for pre in n.seen:
            if pre not in fels and n.seen[pre]:
                ctx.fail("durable" if died else "fels", "fels:lost", f"first-seen log of {pre} vanished after {what}")
        touched = set(todo)
        esc = what.startswith("processEscrows")
        while todo:
            done = False
            why = None
            for pre in list(todo):
                ev = self.bysaid.get(todo[pre][0])
                if ev is None:
                    ctx.fail("chain", "fabricated", f"node {n.i} accepted unknown event {todo[pre][0]} after {what}")
                    todo.pop(pre)
                    done = True
                    break
                w = ref.why_not(ev)
                if w is None:
                    self.accepted(n, ev, esc)
                    todo[pre].pop(0)
                    if not todo[pre]:
                        del todo[pre]
                    done = True
                else:
                    why = why or (ev, w)
            if not done:
                ev, (fc, txt) = why
                for f in {fc, "super" if "supersede" in txt else fc, "deleg" if "match delegation" in txt else fc}:
                    ctx.fail(f, f"{f}:{txt.split(' ')[0]}:{ev.ilk}{':' + ev.forged if ev.forged else ''}",
                             f"node {n.i} accepted {ev.ilk} sn={ev.sn} {ev.said} of identifier {ev.ident.idx}"
                             f"{' (' + ev.forged + ')' if ev.forged else ''} but {txt}; after {what}")
                # a different property's concern: follow the node and stop judging this identifier
                for pre in todo:
                    self.bad.add((n.i, pre))
                break
        for pre in (touched if not (died or full) else set(n.seen)):
            if (n.i, pre) not in self.bad:
                self.check_state(n, pre, what, died)

    def accepted(self, n, ev, esc):
        ctx, ref = self.ctx, n.ref
        ks = ref.ks.get(ev.pre)
        ctx.hit("accepted:" + ev.ilk)
        if esc:
            ctx.hit("probe:accepted_from_escrow")
            ctx.hit("nontrivial")
        if ks is not None and ev.sn <= ks.sn:
            ctx.hit("probe:recovery_accepted")
            ctx.hit("nontrivial")
        if ev.ilk in ("dip", "drt"):
            ctx.hit("probe:delegated_accepted")
        ctx.ev("accept", n.i, ev.said)
        ref.accept(ev)

    def check_state(self, n, pre, what, died=False):
        ctx, ks = self.ctx, n.ref.ks.get(pre)
        facet = "reload" if died else "state"
        if ks is None:
            return
        try:
            k = n.db.kevers[pre]
        except KeyError:
            ctx.fail(facet, f"{facet}:missing", f"node {n.i} has no key state for {pre} after {what}")
            return
        want = dict(sn=ks.sn, said=ks.said, keys=verfers(ks.keys, ks.lest.trans), sith=ks.lest.serder.tholder.sith,
                    nexts=[kdig(x) for x in ks.nexts], nsith=ks.lest.serder.ntholder.sith, wits=[wpre(w) for w in ks.wits],
                    toad=ks.toad, est=(ks.lest.sn, ks.lest.said), dele=ks.delpre or None, trans=ks.trans, eo=ks.eo, dnd=ks.dnd,
                    fn=len(n.seen[pre]) - 1)
        got = dict(sn=k.sner.num, said=k.serder.said, keys=[v.qb64 for v in k.verfers], sith=k.tholder.sith,
                   nexts=[d.qb64 for d in k.ndigers], nsith=k.ntholder.sith, wits=list(k.wits), toad=k.toader.num,
                   est=(k.lastEst.s, k.lastEst.d), dele=k.delpre or None, trans=k.transferable, eo=k.estOnly, dnd=k.doNotDelegate,
                   fn=k.fner.num)
        bad = [f for f in want if want[f] != got[f]]
        ctx.check(not bad, facet, f"{facet}:{','.join(bad)}",
                  lambda: f"node {n.i} key state of {pre} after {what}: " + "; ".join(f"{f}={got[f]} expected {want[f]}" for f in bad))
        rec = n.db.states.get(keys=pre)
        ok = rec is not None and (rec.s, rec.d, rec.f) == (f"{ks.sn:x}", ks.said, f"{len(n.seen[pre]) - 1:x}")
        ctx.check(ok, facet, f"{facet}:record", lambda: f"node {n.i} stored state of {pre} after {what} is {rec} expected sn {ks.sn} {ks.said}")
        auth = n.ref.auth(pre)
        for sn in range(ks.sn + 1):
            d = n.db.kels.getLast(keys=pre, on=sn)
            if not ctx.check(d == auth[sn].said, facet, f"{facet}:kel",
                             lambda: f"node {n.i} event log of {pre} at sn {sn} ends with {d}, expected {auth[sn].said}; after {what}"):
                break
        ctx.state((pre[:6], ks.sn, ks.lest.sn, len(n.seen[pre])))

    # ------------------------------------------------------------------ ops
    def ops_make(self, kind, i, r):
        rng = rng_for("op", r)
        ident = self.ids[i % len(self.ids)]
        ks = ident.ks
        if kind in ("rot", "ixn", "anc", "rec", "dup") and not ks.trans and not (kind == "dup" and ks.sn > 0):
            return
        if kind == "rot":
            ev = self.rot(ident, ks, rng, ks.ev, ks.sn + 1, ks.wits, ks.nexts, ks.nthr)
            ev.pnexts = ks.nexts
            return self.publish(ident, ev, rng)
        if kind == "ixn":
            if ks.eo:
                return
            return self.publish(ident, self.ixn(ident, ks, ks.ev, ks.sn + 1, salt=r), rng)
        if kind == "anc":
            kids = [d for d in self.ids if d.deleg is ident and d.pend]
            if not kids:
                return
            pend = [e for d in kids for e in d.pend if d.idx == kids[0].idx or rng.random() < 0.7]
            if rng.random() < 0.3:
                rng.shuffle(pend)
            if len(pend) > 1 and rng.random() < 0.4:
                pend = pend[:rng.randint(1, len(pend))]
            seals = [(e.pre, e.sn, e.said) for e in pend]
            if ks.eo or rng.random() < 0.25:
                ev = self.rot(ident, ks, rng, ks.ev, ks.sn + 1, ks.wits, ks.nexts, ks.nthr, seals=seals)
                ev.pnexts = ks.nexts
            else:
                ev = self.ixn(ident, ks, ks.ev, ks.sn + 1, seals=seals)
            for e in pend:
                e.anchor = ev
                e.ident.pend.remove(e)
            self.ctx.hit("op:anchor")
            return self.publish(ident, ev, rng)
        if kind == "rec":
            if ks.ev.ilk != "ixn" or ident.duplicitous:
                return
            sn = rng.randint(ks.lest.sn + 1, ks.sn)
            prior = ident.chain[sn - 1]
            lost = ident.chain[sn:]
            seals = []
            ev = self.rot(ident, ks, rng, prior, sn, ks.wits, ks.nexts, ks.nthr, seals=seals)
            ev.pnexts = ks.nexts
            ident.recovered = True
            for e in lost:                    # anchors on the superseded branch are void: the controller must seal again
                for d in self.ids:
                    for x in d.all:
                        if x.anchor is e:
                            x.anchor = None
                            d.pend.append(x)
            self.ctx.hit("op:recover")
            return self.publish(ident, ev, rng)
        if kind == "drec":
            if ident.deleg is None or ks.lest.ilk != "drt" or ident.duplicitous:
                return
            old = ks.lest
            if old.anchor is None:
                return
            prior = ident.chain[old.sn - 1]
            ev = self.rot(ident, ks, rng, prior, old.sn, ks.prevw, ks.prevn, ks.prevnthr)
            ev.pnexts = ks.prevn
            ident.pend = [e for e in ident.pend if e.sn < old.sn]
            ident.drec = True
            self.ctx.hit("op:drecover")
            return self.publish(ident, ev, rng)
        if kind == "dup":
            if ks.sn == 0:
                return
            sn = rng.randint(1, ks.sn)
            base = ident.states[sn - 1]
            if not base.trans:
                return
            if base.eo or rng.random() < 0.5:
                ev = self.rot(ident, base, rng, base.ev, sn, base.wits, base.nexts, base.nthr)
                ev.pnexts = base.nexts
            else:
                ev = self.ixn(ident, base, base.ev, sn, salt=r)
            ev.forged = "dup"
            ident.duplicitous = True
            self.ctx.hit("op:duplicity")
            return self.publish(ident, ev, rng, main=False)
        if kind == "forge":
            return self.forge(ident, ks, rng, r)

    def forge(self, ident, ks, rng, r):
        kinds = ["oldkeys", "badprior", "skipsn", "toadbig", "badcuts", "badtype", "stalerot", "rotsup", "ixnsup", "afterend", "eo"]
        k = rng.choice(kinds + ["badtype"] * 3 if ident.deleg else kinds)
        ev = None
        if k == "oldkeys" and ks.trans:              # current keys stolen, next keys not
            ev = self.rot(ident, ks, rng, ks.ev, ks.sn + 1, ks.wits, ks.nexts, ks.nthr,
                          keys=list(ks.keys) if rng.random() < 0.5 else self.knew(ident, max(1, len(ks.nexts))))
            ev.pnexts = ks.nexts
        elif k == "badprior" and ks.trans and ks.sn > 0:
            prior = rng.choice(ident.all)
            if prior is ks.ev:
                return
            if rng.random() < 0.5 and not ks.eo:
                ev = self.ixn(ident, ks, prior, ks.sn + 1, salt=r)
            else:
                ev = self.rot(ident, ks, rng, prior, ks.sn + 1, ks.wits, ks.nexts, ks.nthr)
                ev.pnexts = ks.nexts
        elif k == "skipsn" and ks.trans:
            ev = self.ixn(ident, ks, ks.ev, ks.sn + 2 + r % 2, salt=r)
        elif k in ("toadbig", "badcuts") and ks.trans:
            # well formed event whose witness changes do not fit the key state: built against a different witness list
            base = [wid(i) for i in rng.sample(range(NW), rng.randint(1, 3))]
            if set(base) == set(ks.wits):
                return
            cuts = base[:1] if k == "badcuts" else []
            pool = [wid(i) for i in range(NW) if wid(i) not in base]
            adds = rng.sample(pool, min(len(pool), 1)) if k == "badcuts" else []
            ev = self.rot(ident, ks, rng, ks.ev, ks.sn + 1, base, ks.nexts, ks.nthr, cuts=cuts, adds=adds,
                          toad=len(base) if k == "toadbig" else None)
            ev.pnexts = ks.nexts
        elif k == "badtype" and ks.trans:
            if not ident.deleg and not ident.pre.startswith(("E", "H", "I")):
                return
            ev = self.rot(ident, ks, rng, ks.ev, ks.sn + 1, ks.wits, ks.nexts, ks.nthr, ilk="rot" if ident.deleg else "drt")
            ev.pnexts = ks.nexts
        elif k == "stalerot" and ks.lest.sn > 0:
            sn = rng.randint(1, ks.lest.sn)
            base = ident.states[sn - 1]
            if not base.trans:
                return
            ev = self.rot(ident, base, rng, base.ev, sn, base.wits, base.nexts, base.nthr)
            ev.pnexts = base.nexts
        elif k == "rotsup" and ks.lest.sn > 0 and ident.pre.startswith(("E", "H", "I")):       # drt by a non delegated identifier superseding its own rotation
            base = ident.states[ks.lest.sn - 1]
            ev = self.rot(ident, base, rng, base.ev, ks.lest.sn, base.wits, base.nexts, base.nthr, ilk="drt")
            ev.pnexts = base.nexts
        elif k == "ixnsup" and ks.ev.ilk == "ixn":
            base = ident.states[ks.sn - 1]
            ev = self.ixn(ident, base, base.ev, ks.sn, salt=r)
        elif k == "afterend" and not ks.trans and ks.sn > 0:
            ev = self.ixn(ident, ks, ks.ev, ks.sn + 1, salt=r)
        elif k == "eo" and ks.eo and ks.trans:
            ev = self.ixn(ident, ks, ks.ev, ks.sn + 1, salt=r)
        if ev is None:
            return
        ev.forged = "fork"
        ev.fkind = k
        ident.duplicitous = True            # signed by the real keys: a controller (or thief) that misbehaves
        self.ctx.hit("op:forge_" + k)
        if k == "badtype" and ident.deleg is not None and rng.random() < 0.6:
            ident.pend.append(ev)           # its delegator seals it all the same
        self.publish(ident, ev, rng, main=False)

    MAL_ICP = ("sn", "toadbig", "toadzero", "toadnone", "dupwits", "kt", "said", "pre", "nonkeys", "nonnext", "nonwits", "nonseals")
    MAL_ROT = ("toadbig", "toadzero", "toadnone", "kt", "said", "dupcuts", "dupadds", "cutadd", "addold", "cutnone")

    def malform(self, ident, rng):
        """An event its controller really signed and witnesses would vouch for, but whose own content breaks a rule."""
        ks = ident.ks
        icp = rng.random() < 0.5 or not ks.trans
        kind = rng.choice(self.MAL_ICP if icp else self.MAL_ROT)
        if icp and kind.startswith("non"):
            non = kind != "nonkeys" or rng.random() < 0.5           # one key is the whole identifier
            ev = self.plain(ident, not non)
        elif icp:
            ev = self.icp(ident, rng)
        else:
            ev = self.rot(ident, ks, rng, ks.ev, ks.sn + 1, ks.wits, ks.nexts, ks.nthr)
            ev.pnexts = ks.nexts
        sad = dict(ev.serder.sad)
        mak, wits = True, list(ev.wits)
        wset = lambda ws: [wpre(w) for w in ws]
        spare = [wid(i) for i in range(NW) if wid(i) not in ev.wits]
        if kind == "sn":
            sad["s"] = f"{rng.randint(1, 3):x}"
        elif kind == "toadbig":
            sad["bt"] = f"{len(ev.wits) + rng.randint(1, 2):x}"
        elif kind == "toadzero":
            if not ev.wits:
                return
            sad["bt"] = "0"
        elif kind == "toadnone":
            if ev.wits:
                return
            sad["bt"] = "1"
        elif kind == "dupwits":
            if not ev.wits:
                return
            wits = wits + [rng.choice(wits)]
            sad["b"] = wset(wits)
        elif kind == "kt":
            sad["kt"] = f"{len(ev.keys) + 1:x}"
        elif kind == "said":
            mak = False
            sad["d"] = coring.Diger(ser=f"x{rng.random()}".encode(), code=coring.Matter(qb64=sad["d"]).code).qb64
            if icp and rng.random() < 0.5 and sad["i"] == ev.serder.said:
                sad["i"] = sad["d"]
        elif kind == "pre":
            if sad["i"] != ev.serder.said:
                return
            mak = False
            sad["i"] = coring.Diger(ser=f"x{rng.random()}".encode(), code=coring.Matter(qb64=sad["d"]).code).qb64
        elif kind == "nonkeys":
            k = self.knew(ident, 1)
            sad["k"] = verfers(k, ev.trans) + (list(sad["k"]) if rng.random() < 0.4 else [])
            ev.keys = k + (ev.keys if len(sad["k"]) > 1 else [])
        elif kind == "nonnext":
            sad["n"], sad["nt"] = [kdig(k) for k in self.knew(ident, 1)], "1"
        elif kind == "nonwits":
            wits = [wid(0), wid(1)][:rng.randint(1, 2)]
            sad["b"], sad["bt"] = wset(wits), f"{rng.randint(1, len(wits)):x}"
        elif kind == "nonseals":
            sad["a"] = [dict(d=coring.Diger(ser=b"seal").qb64)]
        elif kind == "dupcuts":
            if not ev.cuts:
                return
            sad["br"] = wset(list(ev.cuts) + [rng.choice(ev.cuts)])
        elif kind == "dupadds":
            if not ev.adds:
                return
            sad["ba"] = wset(list(ev.adds) + [rng.choice(ev.adds)])
        elif kind == "cutadd":
            if not ev.cuts:
                return
            sad["ba"] = wset(list(ev.adds) + [rng.choice(ev.cuts)])
        elif kind == "addold":
            if not ev.wits or len(ev.adds) == len(ev.wits):
                return
            sad["ba"] = wset(list(ev.adds) + [rng.choice([w for w in ev.wits if w not in ev.adds])])
        elif kind == "cutnone":
            spare = [w for w in spare if w not in ks.wits]
            if not spare:
                return
            sad["br"] = wset(list(ev.cuts) + [rng.choice(spare)])
        try:
            s = serdering.SerderKERI(sad=sad, makify=mak, verify=False)
        except Exception as ex:
            self.ctx.hit("op:mal_unbuilt_" + kind)
            return
        if s.said in self.bysaid:
            return
        bad = Ev(ident=ident, sn=s.sn, ilk=s.ilk, prior=ev.prior, serder=s, keys=ev.keys, thr=ev.thr, nexts=ev.nexts, nthr=ev.nthr,
                 wits=wits, toad=ev.toad, cuts=ev.cuts, adds=ev.adds, seals=[], delpre=ev.delpre, trans=ev.trans, ntrans=ev.ntrans,
                 eo=ev.eo, dnd=ev.dnd)
        bad.pnexts = None if icp else ev.pnexts
        bad.forged, bad.fkind = f"malformed {kind} in {s.ilk}", kind
        self.ctx.hit("op:mal_" + kind)
        self.bysaid[s.said] = bad
        if not icp:
            ident.duplicitous = True
        if ident.deleg is not None and (not icp or bad.ilk == "dip") and rng.random() < 0.6:
            ident.pend.append(bad)
        self.ctx.ev("malform", ident.idx, s.ilk, kind, s.said)
        for n in self.nodes:
            self.enqueue(n, bad, rng)

    def plain(self, ident, trans):
        """Inception whose single key is the identifier."""
        keys = self.knew(ident, 1)
        nexts = self.knew(ident, 1) if trans else []
        s = eventing.incept(keys=verfers(keys, trans), isith="1", ndigs=[kdig(k) for k in nexts], nsith="1" if trans else "0",
                            toad=0, wits=[], code=None, **self.vk(ident))
        return Ev(ident=ident, sn=0, ilk=s.ilk, prior=None, serder=s, keys=keys, thr=1, nexts=nexts, nthr=1 if trans else 0,
                  wits=[], toad=0, cuts=[], adds=[], seals=[], delpre=None, trans=trans, ntrans=trans, eo=False, dnd=False)

    def attack(self, n, i, r):
        """A stranger delivers an event with some genuine signatures encoded in odd ways."""
        rng = rng_for("atk", r)
        ident = self.ids[i % len(self.ids)]
        ev = rng.choice(ident.all[-3:] if rng.random() < 0.7 else ident.all)
        allsigs = self.sigs_of(ev)
        sub = rng.sample(allsigs, rng.randint(1, len(allsigs)))
        if rng.random() < 0.6:
            sub = sub[:1]
        sigs = []
        for s in sub:
            sigs.append(s)
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                sigs.append(s + (rng.choice(["A", "B", "2A", "2B"]),))
        if rng.random() < 0.25 and len(ev.keys) > 1:          # genuine signature claimed for another index
            k, j, o = rng.choice(allsigs)
            x = (j + 1) % len(ev.keys)
            sigs.append((k, x, x))
        wigs = []
        for w in rng.sample(ev.wits, rng.randint(0, len(ev.wits))):
            j = ev.wits.index(w)
            wigs.append((w, j, None))
            for _ in range(rng.choice([0, 0, 1, 2])):
                wigs.append((w, j, rng.choice(["B", "2A", "2B"])))
            if rng.random() < 0.2:
                wigs.append((w, (j + 1) % len(ev.wits), None))
            if rng.random() < 0.5:
                break
        junk = [(rng.choice(["junk", "wjunk"]), rng.randrange(6), rng.randrange(99)) for _ in range(rng.choice([0, 0, 1, 2]))]
        m = Msg(ev, sigs=sigs, wigs=wigs, junk=junk)
        if ev.anchor is not None and rng.random() < 0.5:
            m.bond = (ev.anchor.sn, ev.anchor.said)
        elif ident.deleg is not None and ident.deleg.chain and rng.random() < 0.5:
            e = rng.choice(ident.deleg.all)
            m.bond = (e.sn, e.said)
        self.ctx.hit("op:attack")
        before = n.ref.ks.get(ident.pre)
        self.deliver(n, m, rng)
        if n.ref.ks.get(ident.pre) is before:
            self.ctx.hit("probe:underthreshold_held")

    def endorse(self, n, i, r):
        """A watcher or another identifier endorses an event, perhaps wrongly."""
        rng = rng_for("vrc", r)
        ident = self.ids[i % len(self.ids)]
        ev = rng.choice(ident.all[-4:])
        alt = None
        if rng.random() < 0.2:
            alt = rng.choice(rng.choice(self.ids).all)      # signature really made over another event
            if rng.random() < 0.5:
                same = [e for e in ident.all if e.sn == ev.sn]
                alt = rng.choice(same)
            if alt is ev:
                alt = None
        self.ctx.hit("op:endorse")
        if rng.random() < 0.35:
            x = rng.choice(["x0", "x1", "x2"])
            m = Msg(ev, form="watch", wigs=[x], by=alt)
            if not self.deliver(n, m, rng) and alt is None:
                n.given.append((ev, None, x, 0))
            return
        by = rng.choice(self.ids)
        if not by.ks or by is ident and rng.random() < 0.8:
            by = rng.choice(self.ids)
        est = by.ks.lest if rng.random() < 0.7 else rng.choice([e for e in by.chain if e.est])
        sub = rng.sample(list(enumerate(est.keys)), rng.randint(1, len(est.keys)))
        junk = []
        if rng.random() < 0.15:
            junk.append(("junk", rng.randrange(4), rng.randrange(99)))
        m = Msg(ev, form="trct", sigs=[(k, j) for j, k in sub], by=(est, alt), junk=junk)
        if not self.deliver(n, m, rng) and alt is None and not junk:
            for j, k in sub:
                n.given.append((ev, est, k, j))

    def check_receipts(self, n):
        ctx, ref = self.ctx, n.ref
        if not ({"receipts", "early"} & ctx.facets):
            return
        held = set()
        for keys, siger in n.db.vrcs.getTopItemIter(keys=()):
            pre, said, rpre, on, esaid = keys
            ev, est = self.bysaid.get(said), self.bysaid.get(esaid)
            ok = (ev is not None and est is not None and ev.pre == pre and est.pre == rpre and est.est and
                  siger.index < len(est.keys) and
                  signer(est.keys[siger.index], est.trans).sign(ev.serder.raw, index=0).raw == siger.raw)
            ctx.check(ok, "receipts", "receipts:vrcs", lambda: f"node {n.i} stores under {keys} a receipt signature index "
                      f"{siger.index} that key {siger.index} of that establishment event never made over that event")
            held.add((said, esaid, siger.index))
        for keys, (verfer, cigar) in n.db.rcts.getTopItemIter(keys=()):
            ev = self.bysaid.get(keys[1])
            who = next((x for x in ["x0", "x1", "x2"] + [wid(i) for i in range(NW)] if wpre(x) == verfer.qb64), None)
            ok = ev is not None and who is not None and signer(who, False).sign(ev.serder.raw).raw == cigar.raw
            ctx.check(ok, "receipts", "receipts:rcts", lambda: f"node {n.i} stores under {keys} a receipt by {verfer.qb64} that it "
                      f"never made over that event")
            held.add((keys[1], None, who))
        for pre, items in n.seen.items():
            for said in items:
                ev = self.bysaid.get(said)
                if ev is None or (n.i, said) in self.odd or (n.i, pre) in self.bad:
                    continue
                for w in n.db.wigs.get(keys=(pre, said)):
                    ok = w.index < len(ev.wits) and ev.wig(ev.wits[w.index], w.index).raw == w.raw
                    ctx.check(ok, "receipts", "receipts:wigs", lambda: f"node {n.i} stores for {ev.ilk} sn={ev.sn} of identifier "
                              f"{ev.ident.idx} a witness signature index {w.index} that witness {w.index} of that event never made")
                    ctx.hit("receipts:wigs")
        ctx.hit("receipts:held", len(held))
        if not self.plan["once"]:
            return
        for ev, est, k, j in n.given:
            if n.ref.at(ev.pre, ev.sn) is not ev or (n.i, ev.pre) in self.bad:
                continue
            if est is not None and (n.ref.at(est.pre, est.sn) is not est or (n.i, est.pre) in self.bad):
                continue
            key = (ev.said, est.said, j) if est is not None else (ev.said, None, k)
            ctx.check(key in held, "early", f"early:{'trans' if est is not None else 'nontrans'}",
                      lambda: f"node {n.i} was given a genuine receipt by {k} of {ev.ilk} sn={ev.sn} of identifier {ev.ident.idx} and "
                      f"accepted that event, but the receipt is lost")

    def go(self):
        ctx, plan = self.ctx, self.plan
        self.cur, self.bad, self.odd, self.healing, self.lastev = None, set(), set(), False, None
        lmdb.SIM.hook = self.hook
        for n in self.nodes:
            self.boot(n)
        for i, sh in enumerate(plan["idents"]):
            d = sh["deleg"]
            parent = self.ids[d] if d is not None and d < i and self.ids[d].ks.trans else None
            ident = Ident(i, sh, deleg=parent)
            ident.pend, ident.drec = [], False
            self.ids.append(ident)
            rng = rng_for("icp", sh["r"])
            ev = self.icp(ident, rng)
            ident.chain = [ev]
            self.publish(ident, ev, rng)
        for op in plan["ops"]:
            self.one(op)
        self.final()

    def one(self, op):
        ctx, k = self.ctx, op[0]
        ctx.hit("op:" + k)
        if k == "mal":
            return self.malform(self.ids[op[1] % len(self.ids)], rng_for("op", op[2]))
        if k in ("rot", "ixn", "anc", "rec", "drec", "dup", "forge"):
            return self.ops_make(k, op[1], op[2])
        n = self.nodes[op[2 if k == "tick" else 1] % len(self.nodes)]
        if k == "dlv":
            rng = rng_for("dlv", op[2])
            for _ in range(rng.choice([2, 3]) if op[3] == "batch" else 1):
                if not n.q:
                    return
                j = 0 if self.plan["fifo"] else rng.randrange(min(len(n.q), 6))
                m = n.q[j]
                if op[3] == "drop":
                    ctx.hit("fault:drop")
                    n.q.pop(j)
                    n.lost = True
                    continue
                if op[3] == "dup":
                    ctx.hit("fault:duplicate")
                else:
                    n.q.pop(j)
                if j:
                    ctx.hit("fault:reorder")
                if self.deliver(n, m, rng):
                    n.q.insert(0, m)           # sender sees no acknowledgement and sends again
        elif k == "atk":
            self.attack(n, op[2], op[3])
        elif k == "vrc":
            self.endorse(n, op[2], op[3])
        elif k == "rct":
            rng = rng_for("rct", op[3])
            ident = self.ids[op[2] % len(self.ids)]
            ev = rng.choice(ident.all[-3:])
            if ev.wits:
                self.deliver(n, Msg(ev, form=rng.choice(["cigar", "wiger"]), wigs=rng.sample(ev.wits, rng.randint(1, len(ev.wits)))), rng)
        elif k == "esc":
            self.escrows(n)
        elif k == "tick":
            CLOCK.t += op[1]
            n.skew += op[3]
            if op[3]:
                ctx.hit("fault:clock_jump")
            ctx.ev("tick", op[1])
        elif k == "crash":
            n.armed = [op[2], op[3]]
        elif k == "clone":
            self.clone(n, self.nodes[op[2] % len(self.nodes)], self.ids[op[3] % len(self.ids)])

    def clone(self, a, b, ident):
        """Node b resynchronises an identifier from node a's database."""
        if a is b:
            return
        CLOCK.skew = a.skew
        self.cur = None
        msgs = list(a.db.clonePreIter(pre=ident.pre.encode(), fn=0, gvrsn=kering.Vrsn_1_0 if ident.shape["pv"] == 1 else kering.Vrsn_2_0))
        self.ctx.ev("clone", a.i, b.i, len(msgs))
        for s in a.seen.get(ident.pre, []):
            ev = self.bysaid.get(s)
            if ev is None:
                return
            ha, hb = a.ref.h(s), b.ref.h(s)
            hb.sigs |= ha.sigs
            hb.ondx |= ha.ondx
            hb.wigs |= ha.wigs
        for m in msgs:
            self.act(b, lambda: b.psr[ident.shape["pv"]].parse(ims=bytearray(m)), f"clone of {ident.idx} from node {a.i} to node {b.i}")

    # ------------------------------------------------------------------ end of run
    def final(self):
        ctx, plan = self.ctx, self.plan
        rng = rng_for("end", plan["end"])
        self.healing = True              # faults stop
        for n in self.nodes:
            n.armed = None
        for ident in self.ids:           # delegators answer what is pending
            for _ in range(3):
                if any(d.deleg is ident and d.pend for d in self.ids) and ident.ks.trans:
                    if ident.ks.eo and not ident.ks.nexts:
                        break
                    self.ops_make("anc", ident.idx, rng.randrange(1 << 30))
        for n in self.nodes:
            n.skew = 0.0
            for m in n.q:
                self.deliver(n, m, rng)
            n.q = []
        lossy = not plan["once"]
        for n in self.nodes:
            if lossy:
                CLOCK.t += 5000          # everything half-done times out, then the network heals and senders retry
                self.escrows(n)
            for rnd in range(2 if lossy else 1):
                if lossy:
                    for ident in self.ids:
                        for ev in ident.chain:
                            self.deliver(n, Msg(ev, sigs=self.sigs_of(ev), wigs=list(ev.wits),
                                                bond=(ev.anchor.sn, ev.anchor.said) if ev.anchor else None), rng)
                idle = 0
                for _ in range(4 + 2 * sum(len(i.chain) for i in self.ids)):     # bounded: each pass must make progress
                    before = sum(len(v) for v in n.seen.values())
                    self.escrows(n)
                    idle = idle + 1 if sum(len(v) for v in n.seen.values()) == before else 0
                    if idle == 2:
                        break
        for n in self.nodes:
            for ident in self.ids:
                if self.expected(ident):
                    ks = n.ref.ks.get(ident.pre)
                    ctx.check(ks is not None and ks.said == ident.ks.said, "converge",
                              f"converge:{'once' if plan['once'] else 'heal'}:{ident.ks.ev.ilk}",
                              lambda: f"node {n.i} holds identifier {ident.idx} at {(ks.sn, ks.said) if ks else None}, its controller "
                              f"published {ident.ks.sn} {ident.ks.said} and every message arrived")
                    ctx.hit("probe:converged")
            self.absorb(n, "final", full=True)
        for n in self.nodes:
            self.check_receipts(n)
        self.drain()
        if "replay" in ctx.facets:
            self.restart_check()

    def expected(self, ident):
        """Every correct node must end with the controller's state."""
        x = ident
        while x is not None:
            if x.duplicitous or (x is not ident and x.recovered) or x.ks.dnd and x is not ident:
                return False
            if x.pend or any(e.anchor is None for e in x.chain if e.ilk in ("dip", "drt")):
                return False
            x = x.deleg
        return True

    ESC = ("ooes", "pses", "pwes", "pdes", "uwes", "ures", "vres", "ldes")

    def escsizes(self, n):
        return {e: getattr(n.db, e).cntAll() for e in self.ESC if hasattr(n.db, e)}

    def drain(self):
        ctx = self.ctx
        if not ({"drain"} & ctx.facets):
            return
        CLOCK.t += 10000
        for n in self.nodes:
            self.escrows(n)
            self.escrows(n)
            sz = {k: v for k, v in self.escsizes(n).items() if v}
            ctx.check(not sz, "drain", f"drain:{','.join(sorted(sz))}",
                      lambda: f"node {n.i}: escrows still hold {sz} long after every timeout")

    def restart_check(self):
        """Restart every node, and replay its logs into an empty one."""
        for n in self.nodes:
            n.armed = None
            self.die(n)
            self.absorb(n, "restart", died=True)


def make(prop):
    return Kel(prop, FACETS[prop])
