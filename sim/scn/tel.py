"""Layer E: credential registries and credentials.  Real Parser + Kevery + Tevery + Verifier + Baser + Reger; issuers,
strangers and the network are simulated: any order, loss, duplication, stripped or redirected anchors, forged events and
credentials, crashes inside any write of either database."""
import contextlib
import io
import os
import shutil
from types import SimpleNamespace

from core import rng_for
import kelworld as kw
from kelworld import Ev, kdig, junk_siger, signer, thr_sith, verfers, gen_thr, wid, wpre
from scn import kel

FACETS = dict(
    T01=("auth", "chain", "backers", "first"),
    T02=("converge", "accept", "internal", "state"),
    T03=("durable", "reload", "replay"),
    T04=("cred", "status"),
    T05=("cconv", "caccept", "index", "drain", "internal"),
    T06=("tquery", "tstate", "trespond", "internal"),
)
PROFILE = dict(
    T01=dict(w=dict(atk=4.0, frg=1.0), crash=0.1),
    T02=dict(w=dict(esc=2.0), crash=0.0, once=0.5, quiet=0.6),
    T03=dict(w=dict(vrt=1.0), crash=1.0),
    T04=dict(w=dict(atk=2.0, frg=3.0, cred=2.0), crash=0.1),
    T05=dict(w=dict(cred=2.5, frg=0.4, sch=0.6, esc=2.0, rev=0.3), crash=0.6, once=0.4, quiet=0.6),
    T06=dict(w=dict(qry=4.0, vrt=0.8, frg=0.3), crash=0.3, once=0.3),
)
NSCH = 3


class Te:
    """One registry (or credential) event as its author made it."""
    __slots__ = ("reg", "ilk", "key", "sn", "prior", "serder", "said", "anchors", "baks", "toad", "ra", "cred", "genuine", "why", "cuts", "adds")

    def __init__(self, **k):
        self.anchors, self.ra, self.cred, self.why = [], None, None, ""
        self.cuts = self.adds = ()
        for a, b in k.items():
            setattr(self, a, b)
        self.said = self.serder.said


class Rg:
    """A registry: its owner, configuration and the owner's own log of it."""
    def __init__(self, i, owner, nb, vcp):
        self.i, self.owner, self.nb, self.chain, self.nk = i, owner, nb, [vcp], 0
        self.key = vcp.key


class Cr:
    """A credential."""
    __slots__ = ("i", "issuer", "reg", "creder", "said", "subj", "edges", "sch", "valid", "log", "genuine", "why")

    def __init__(self, **k):
        self.log, self.why = [], ""
        for a, b in k.items():
            setattr(self, a, b)
        self.said = self.creder.said


class TMsg:
    def __init__(self, te, seal=None, wigs=(), junk=()):
        self.te, self.seal, self.wigs, self.junk = te, seal, list(wigs), list(junk)


class CMsg:
    def __init__(self, cr):
        self.cr = cr


class SMsg:
    def __init__(self, i):
        self.i = i


class Tel(kel.Kel):
    name = "credential registries and credentials"
    components_real = ("keri.vdr eventing (Tever, Tevery, Reger, message makers), verifying (Verifier); keri.vc proving; keri.core scheming",
                       "keri.core parsing, eventing (Kevery, Kever), serdering, coring, indexing",
                       "keri.db basing, subing, koming, dbing (shipped source from /repo/src)")
    rule = ("each run draws issuers, registries with and without backers, credentials with edges between them, what strangers forge "
            "or redirect, and how the network delivers key events, registry events, credentials and schemas; non-trivial = "
            "something was accepted only after waiting in escrow, or a forgery was delivered, or a process died inside a write")
    probes = ("probe:tel_from_escrow", "probe:cred_saved", "probe:cred_from_escrow", "probe:revoked", "probe:crash_inside",
              "probe:forgery_delivered", "probe:rotated")

    def setup(self):
        kel.Kel.setup(self)
        global eventing, parsing, basing, kering, lmdb, filing, CLOCK, coring, structing, vdr, verifying, proving, scheming, signing
        global serdering, storing, decking, FakeHab
        with contextlib.redirect_stdout(io.StringIO()):
            from keri.app import habbing, storing
        from hio.help import decking
        from keri.core import serdering

        class FakeHab(habbing.BaseHab):
            """The real cue processing; a recognisable attachment instead of signatures."""
            def __init__(self):
                pass

            def endorse(self, serder, **k):
                return bytearray(serder.raw + b"-SIGNED-")
        from keri.vdr import eventing as vdr
        from keri.vdr import verifying
        from keri.vc import proving
        from keri.core import scheming, structing
        from keri.app import signing
        import simclock
        simclock.install()
        eventing, parsing, basing = kw.eventing, kw.parsing, kw.basing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring
        self.schemas = [mkschema(i) for i in range(NSCH)]

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        nid = rng.choice([1, 2, 2, 3])
        idents = [dict(deleg=None, eo=0, dnd=0, r=rng.randrange(1 << 30), code="E", kind=rng.choice(["JSON", "JSON", "CBOR", "CESR"]),
                       pv=rng.choice([1, 2]), wit=0) for _ in range(nid)]
        once = int(rng.random() < prof.get("once", 0.0))
        w = dict(rot=0.4, ixn=0.3, reg=0.9, vrt=0.4, cred=1.6, rev=0.8, anc=1.0, sch=0.3, dlv=10.0, atk=0.8, frg=0.5, esc=1.5, tick=0.2, crash=0.0,
                 restart=0.1, qry=0.0)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.8 else 0.0
        if once:
            w.update(atk=0.0, frg=0.0, crash=0.0)
        if rng.random() < prof.get("quiet", 0.0):
            w.update(frg=0.0)
        for f in ("atk", "frg", "tick", "rot", "vrt"):
            if rng.random() < 0.25:
                w[f] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = [["reg", rng.randrange(1 << 30)]] if rng.random() < 0.8 else []
        for _ in range(rng.choice([12, 20, 35, 60]) if tier == "quick" else rng.choice([15, 30, 60, 120])):
            k = rng.choices(names, cum)[0]
            i, r = rng.randrange(nid), rng.randrange(1 << 30)
            if k in ("rot", "ixn"):
                ops.append([k, i, r])
            elif k in ("reg", "vrt", "cred", "rev", "anc", "atk", "frg", "sch", "qry"):
                ops.append([k, r])
            elif k == "dlv":
                ops.append(["dlv", 0, r, rng.choices(["one", "dup", "drop", "batch"], [8, 1, 0 if once else 0.7, 2])[0]])
            elif k in ("esc", "restart"):
                ops.append([k, 0])
            elif k == "tick":
                ops.append(["tick", rng.choice([1, 30, 90] if once else [1, 60, 400, 1300, 4000]), 0, 0])
            elif k == "crash":
                ops.append(["crash", 0, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 30)])
        return dict(idents=idents, nodes=1, once=once, fifo=int(rng.random() < 0.25), ops=ops, end=rng.randrange(1 << 30),
                    baks=int(rng.random() < 0.35), late=rng.choice([0.0, 0.15, 0.5]), scheme=rng.choice([0.0, 0.3, 1.0]))

    def shrinks(self, plan):
        if len(plan["idents"]) > 1:
            yield dict(plan, idents=plan["idents"][:-1])
        for k, v in (("baks", 0), ("late", 0.0), ("scheme", 0.0), ("fifo", 1)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        for i, d in enumerate(plan["idents"]):
            for k, v in (("kind", "JSON"), ("pv", 2)):
                if d[k] != v:
                    yield dict(plan, idents=plan["idents"][:i] + [dict(d, **{k: v})] + plan["idents"][i + 1:])

    def execute(self, plan, ctx):
        root = kel.scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        run = _TRun(self, plan, ctx, root)
        try:
            with contextlib.redirect_stdout(io.StringIO()):      # the verifier prints what it refuses
                run.go()
        finally:
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


def mkschema(i):
    """Schema i wants a claim no longer than 10 + i characters."""
    sed = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": f"s{i}", "type": "object",
           "properties": {"a": {"type": "object", "required": ["claim", "dt"],
                                "properties": {"claim": {"type": "string", "maxLength": 10 + i}, "i": {"type": "string"}, "d": {"type": "string"},
                                               "dt": {"type": "string"}}, "additionalProperties": False},
                          "e": {"type": "object"}},
           "required": ["i", "s", "d", "a"]}
    _, sed = coring.Saider.saidify(sad=sed, label=coring.Saids.dollar)
    return scheming.Schemer(sed=sed)


class _TRun(kel._Run):
    # ------------------------------------------------------------------ node
    def hook(self, kind, env):
        n = self.cur
        a = n.armed if n is not None else None
        if a is None or a[0] != kind or (env is not n.db.env and env is not n.reger.env):
            return
        a[1] -= 1
        if a[1] > 0:
            return
        n.armed = None
        self.fired = kind
        raise lmdb.SimCrash(kind)

    def boot(self, n):
        kel._Run.boot(self, n)
        n.reger = vdr.Reger(name=f"n{n.i}", base="", temp=False, headDirPath=os.path.join(self.root, f"n{n.i}"), reopen=True, db=n.db)
        hby = SimpleNamespace(name=f"n{n.i}", temp=False, inited=True, db=n.db, kvy=n.kvy, version=kering.Vrsn_1_0, habs={})
        n.vry = verifying.Verifier(hby=hby, reger=n.reger)
        n.tvy = n.vry.tvy
        for p in n.psr.values():
            p.tvy, p.vry = n.tvy, n.vry
        self.spyon(n, n.tvy, "processEvent", "tel")
        self.spyon(n, n.vry, "processCredential", "acdc")
        for o in (n.tvy, n.vry):
            self.spyon(n, o, "processEscrows", "escrow")

    def spyon(self, n, o, name, tag):
        real = getattr(o, name)

        def wrap(*a, **k):
            try:
                return real(*a, **k)
            except Exception as ex:
                n.errs.append((tag, ex))
                raise
        setattr(o, name, wrap)

    def die(self, n):
        self.cur, self.died = None, True
        for o in (n.db, n.reger):
            lmdb.SIM.crash(o.env)
            o.env = None
        self.boot(n)

    # ------------------------------------------------------------------ issuers
    def seal(self, owner, key, sn, said, rng, extra=()):
        """The owner anchors (key, sn, said) in a new key event."""
        ks = owner.ks
        if not ks.trans:
            return None
        seals = [(key, sn, said)]
        if rng.random() < 0.1 and ks.nexts:
            ev = self.rot(owner, ks, rng, ks.ev, ks.sn + 1, ks.wits, ks.nexts, ks.nthr, seals=seals)
            ev.pnexts = ks.nexts
        else:
            ev = self.ixn(owner, ks, ks.ev, ks.sn + 1, seals=seals)
        self.publish(owner, ev, rng)
        return ev

    def enqueue(self, n, ev, rng):
        sigs = self.sigs_of(ev)
        n.q.append(kel.Msg(ev, sigs=sigs))

    def tpub(self, te, rng, owner=None):
        """Anchor the event in its owner's log and send it."""
        owner = owner or te.reg.owner
        self.bytel[te.said] = te
        self.tels.append(te)
        if te.cred is not None and te.genuine:
            te.cred.log.append(te)
        if rng.random() < self.plan["late"]:
            self.unanch.append((owner, te))
            self.ctx.hit("op:anchor_later")
            if rng.random() < 0.5:
                return
            if not self.plan["once"]:
                self.nodes[0].q.append(TMsg(te, None, self.allwigs(te)))     # sent before it is anchored
            return
        self.anchor(owner, te, rng)

    def anchor(self, owner, te, rng):
        n = self.nodes[0]
        at = len(n.q)
        ev = self.seal(owner, te.key, te.sn, te.said, rng)
        if ev is None:
            return
        te.anchors.append(ev)
        m = TMsg(te, (ev.sn, ev.said), self.allwigs(te))
        if rng.random() < 0.3:
            n.q.insert(at, m)
        else:
            n.q.append(m)
        if te.baks and not self.plan["once"] and rng.random() < 0.3:
            n.q.append(TMsg(te, (ev.sn, ev.said), m.wigs[:rng.randint(0, len(m.wigs))]))
        self.ctx.ev("tel", te.ilk, te.key, te.sn, te.said, te.genuine)

    def allwigs(self, te):
        return [(w, i) for i, w in enumerate(te.baks)]

    def mkvcp(self, owner, rng, genuine=True):
        nb = not self.plan["baks"] or rng.random() < 0.4
        baks = [] if nb else [wid(i) for i in rng.sample(range(5), rng.choice([0, 1, 2, 3]))]
        toad = rng.randint(1, len(baks)) if baks else 0
        self.fresh += 1
        s = vdr.incept(owner.pre, toad=toad, baks=[wpre(w) for w in baks], nonce=coring.Noncer(raw=self.raw16()).qb64,
                       cnfg=["NB"] if nb else [], version=kering.Vrsn_1_0, kind=kering.Kinds.json)
        te = Te(reg=None, ilk="vcp", key=s.pre, sn=0, prior=None, serder=s, baks=baks, toad=toad, genuine=genuine)
        rg = Rg(len(self.regs), owner, nb, te)
        te.reg = rg
        return rg

    def raw16(self):
        import hashlib
        return hashlib.blake2b(f"nonce{self.fresh}".encode(), digest_size=32).digest()

    def mkvrt(self, rg, rng, base=None):
        base = base or rg.chain[-1]
        b = list(base.baks)
        cuts = rng.sample(b, rng.randint(0, len(b)))
        pool = [wid(i) for i in range(5) if wid(i) not in b]
        adds = rng.sample(pool, min(len(pool), rng.randint(0, 2)))
        nb = [w for w in b if w not in cuts] + adds
        toad = rng.randint(1, len(nb)) if nb else 0
        s = vdr.rotate(rg.key, base.said, sn=base.sn + 1, toad=toad, baks=[wpre(w) for w in b], cuts=[wpre(w) for w in cuts],
                       adds=[wpre(w) for w in adds], version=kering.Vrsn_1_0, kind=kering.Kinds.json)
        return Te(reg=rg, ilk="vrt", key=rg.key, sn=base.sn + 1, prior=base.said, serder=s, baks=nb, toad=toad, genuine=True, cuts=cuts, adds=adds)

    def stamp(self):
        self.fresh += 1
        return f"2026-01-01T00:{self.fresh // 60 % 60:02d}:{self.fresh % 60:02d}.000000+00:00"

    def mkiss(self, rg, vci, rng=None, ra=None):
        kw_ = dict(version=kering.Vrsn_1_0, kind=kering.Kinds.json, dt=self.stamp())
        if rg.nb:
            s = vdr.issue(vci, rg.key, **kw_)
            return Te(reg=rg, ilk="iss", key=vci, sn=0, prior=None, serder=s, baks=[], toad=0, genuine=True)
        ra = ra or rg.chain[-1]
        s = vdr.backerIssue(vci, rg.key, ra.sn, ra.said, **kw_)
        te = Te(reg=rg, ilk="bis", key=vci, sn=0, prior=None, serder=s, baks=ra.baks, toad=ra.toad, genuine=True)
        te.ra = ra
        return te

    def mkrev(self, rg, vci, prior, rng=None, ra=None):
        kw_ = dict(version=kering.Vrsn_1_0, kind=kering.Kinds.json, dt=self.stamp())
        if rg.nb:
            s = vdr.revoke(vci, rg.key, prior, **kw_)
            return Te(reg=rg, ilk="rev", key=vci, sn=1, prior=prior, serder=s, baks=[], toad=0, genuine=True)
        ra = ra or rg.chain[-1]
        s = vdr.backerRevoke(vci, rg.key, ra.sn, ra.said, prior, **kw_)
        te = Te(reg=rg, ilk="brv", key=vci, sn=1, prior=prior, serder=s, baks=ra.baks, toad=ra.toad, genuine=True)
        te.ra = ra
        return te

    def mkcred(self, issuer, rg, rng, edges=(), genuine=True, bad=False):
        sch = rng.randrange(NSCH)
        subj = rng.choice(self.ids) if rng.random() < 0.6 else None
        self.fresh += 1
        ln = rng.randint(4, 9) if not bad else 14
        data = dict(claim=f"{self.fresh:x}".rjust(ln, "c"), dt=self.stamp())
        src = None
        if edges:
            src = {"d": ""}
            for j, (far, op, sc) in enumerate(edges):
                e = dict(n=far.said)
                if sc is not None:
                    e["s"] = self.scn.schemas[sc].said
                if op is not None:
                    e["o"] = op
                src[f"e{j}"] = e
            _, src = coring.Saider.saidify(sad=src)
        c = proving.credential(schema=self.scn.schemas[sch].said, issuer=issuer.pre, data=data, recipient=subj.pre if subj is not None else None,
                               status=rg.key if rg is not None else None, source=src, version=kering.Vrsn_1_0)
        cr = Cr(i=len(self.creds), issuer=issuer, reg=rg, creder=c, subj=subj, edges=list(edges), sch=sch, valid=not bad, genuine=genuine)
        self.creds.append(cr)
        self.bycred[cr.said] = cr
        return cr

    def claimlen(self, cr):
        return len(cr.creder.attrib["claim"])

    # ------------------------------------------------------------------ ops
    def make(self, k, r):
        rng = rng_for(k, r)
        n = self.nodes[0]
        alive = [a for a in self.ids if a.ks.trans]
        if k == "reg":
            if not alive:
                return
            rg = self.mkvcp(rng.choice(alive), rng)
            self.regs.append(rg)
            self.tpub(rg.chain[0], rng)
        elif k == "vrt":
            rgs = [g for g in self.regs if not g.nb and g.owner.ks.trans]
            if rgs:
                g = rng.choice(rgs)
                te = self.mkvrt(g, rng)
                g.chain.append(te)
                self.tpub(te, rng)
        elif k == "cred":
            rgs = [g for g in self.regs if g.owner.ks.trans]
            if not rgs:
                return
            g = rng.choice(rgs)
            edges = []
            pool = [c for c in self.creds if c.genuine or rng.random() < 0.2]
            while pool and rng.random() < 0.4 and len(edges) < 2:
                far = rng.choice(pool)
                op = None
                if far.subj is not None:
                    op = rng.choice([None, "I2I", "NI2I", "NI2I", ["zz", "NI2I"], "E1E"])
                elif rng.random() < 0.3:
                    op = rng.choice(["NI2I", "I2I"])
                sc = rng.choice([None, far.sch, rng.randrange(NSCH)])
                edges.append((far, op, sc))
            cr = self.mkcred(g.owner, g, rng, edges=edges)
            te = self.mkiss(g, cr.said, rng)
            te.cred = cr
            at = len(n.q)
            self.tpub(te, rng)
            m = CMsg(cr)
            n.q.insert(at if rng.random() < 0.3 else len(n.q), m)
            if rng.random() < self.plan["scheme"]:
                n.q.append(SMsg(cr.sch))
        elif k == "rev":
            cs = [c for c in self.creds if c.genuine and len(c.log) == 1 and c.reg.owner.ks.trans]
            if cs:
                c = rng.choice(cs)
                te = self.mkrev(c.reg, c.said, c.log[0].said, rng)
                te.cred = c
                self.tpub(te, rng)
                self.ctx.hit("op:revoked")
        elif k == "anc":
            if self.unanch:
                owner, te = self.unanch.pop(rng.randrange(len(self.unanch)))
                self.anchor(owner, te, rng)
        elif k == "sch":
            n.q.append(SMsg(rng.randrange(NSCH)))
        elif k == "atk":
            self.attack(n, rng)
        elif k == "frg":
            self.forge(n, rng)

    def attack(self, n, rng):
        """The network redelivers a genuine event with its attachments stripped, redirected or replaced."""
        tes = [t for t in self.tels]
        if not tes:
            return
        te = rng.choice(tes[-6:])
        r = rng.random()
        seal = None
        if r < 0.5:
            ev = rng.choice(rng.choice(self.ids).all)
            seal = (ev.sn, ev.said)
            if te.anchors and rng.random() < 0.3:
                seal = (te.anchors[0].sn + 1, te.anchors[0].said)
        elif r < 0.8 and te.anchors:
            seal = (te.anchors[0].sn, te.anchors[0].said)
        wigs = [w for w in self.allwigs(te) if rng.random() < 0.5]
        junk = []
        if te.baks:
            for w, i in list(wigs):
                if rng.random() < 0.4:
                    wigs += [(w, i)]
                if rng.random() < 0.3:
                    wigs.append((w, (i + 1) % len(te.baks)))
            if rng.random() < 0.3:
                junk.append((rng.randrange(len(te.baks)), rng.randrange(99)))
        self.ctx.hit("op:attack")
        self.ctx.hit("fault:redirected")
        m = TMsg(te, seal, wigs, junk)
        if rng.random() < 0.5:
            self.put(n, m)
        else:
            n.q.append(m)

    def forge(self, n, rng):
        """Events and credentials made by someone who is not entitled to them (or by an issuer that misbehaves)."""
        alive = [a for a in self.ids if a.ks.trans]
        kinds = ["unanchored", "foreignseal", "crossrev", "crossiss", "forgedcred", "badschema", "dupissue", "duprev", "badprior", "wrongilk", "issreg",
                 "badra", "twinvrt", "revreg", "noreg", "orphancred", "wrongsn", "revvcp"]
        k = rng.choice(kinds)
        vict = [c for c in self.creds if c.genuine and c.log]
        thief = rng.choice(alive) if alive else None
        out = []            # (te, owner that anchors, seal kind)
        cr = None
        if thief is None or not self.regs:
            return
        rg = rng.choice(self.regs)
        mine = [g for g in self.regs if g.owner is thief]
        others = [c for c in vict if c.reg.owner is not thief]
        if k == "unanchored":
            # a perfectly formed event of somebody's registry that its owner never anchored
            if vict and rng.random() < 0.6:
                c = rng.choice(vict)
                te = self.mkrev(c.reg, c.said, c.log[0].said)
            elif not rg.nb and rng.random() < 0.5:
                te = self.mkvrt(rg, rng)
            else:
                g = self.mkvcp(rng.choice(self.ids), rng, genuine=False)
                te = g.chain[0]
            ev = rng.choice(te.reg.owner.all)
            out = [(te, None, rng.choice([None, (ev.sn, ev.said)]))]
        elif k == "foreignseal":
            g = self.mkvcp(rng.choice(self.ids), rng, genuine=False)
            te = g.chain[0]
            if vict and rng.random() < 0.6:
                c = rng.choice(vict)
                te = self.mkrev(c.reg, c.said, c.log[0].said)
            if te.reg.owner is thief:
                return
            out = [(te, thief, None)]
        elif k == "crossrev" and others and mine:
            c = rng.choice(others)
            g = rng.choice(mine)
            out = [(self.mkrev(g, c.said, c.log[0].said), thief, None)]
        elif k == "crossiss" and mine:
            # a credential of the victim's registry "issued" in the thief's own registry
            tgt = [g for g in self.regs if g.owner is not thief]
            if not tgt:
                return
            g = rng.choice(tgt)
            cr = self.mkcred(g.owner, g, rng, genuine=False)
            out = [(self.mkiss(rng.choice(mine), cr.said), thief, None)]
        elif k == "forgedcred" and mine:
            who = [a for a in self.ids if a is not thief]
            if not who:
                return
            g = rng.choice(mine)
            cr = self.mkcred(rng.choice(who), g, rng, genuine=False)
            out = [(self.mkiss(g, cr.said), thief, None)]
        elif k == "badschema" and mine:
            g = rng.choice(mine)
            cr = self.mkcred(thief, g, rng, genuine=False, bad=True)
            out = [(self.mkiss(g, cr.said), thief, None)]
        elif k == "dupissue" and vict:
            c = rng.choice(vict)
            te = self.mkiss(c.reg, c.said)
            self.conflict.add(c.said)
            out = [(te, c.reg.owner, None)]
        elif k == "duprev" and [c for c in vict if len(c.log) == 2]:
            c = rng.choice([c for c in vict if len(c.log) == 2])
            te = self.mkrev(c.reg, c.said, c.log[0].said)
            self.conflict.add(c.said)
            out = [(te, c.reg.owner, None)]
        elif k == "badprior" and vict:
            c = rng.choice(vict)
            if len(c.log) > 1:
                return
            wrong = rng.choice(self.tels)
            if wrong is c.log[0]:
                return
            te = self.mkrev(c.reg, c.said, wrong.said)
            te.why = "prior"
            out = [(te, c.reg.owner, None)]
        elif k == "wrongilk":
            # backer events in a backerless registry and the reverse
            sib = [g for g in self.regs if g.nb != rg.nb]
            cr = self.mkcred(rg.owner, rg, rng, genuine=False)
            kw_ = dict(version=kering.Vrsn_1_0, kind=kering.Kinds.json, dt=self.stamp())
            if rg.nb:
                s = vdr.backerIssue(cr.said, rg.key, 0, rg.chain[0].said, **kw_)
            else:
                s = vdr.issue(cr.said, rg.key, **kw_)
            te = Te(reg=rg, ilk=s.ked["t"], key=cr.said, sn=0, prior=None, serder=s, baks=[], toad=0, genuine=False)
            te.ra = rg.chain[0]
            te.why = "ilk"
            out = [(te, rg.owner, None)]
        elif k == "issreg" and mine:
            # an issuance whose credential identifier is somebody's registry
            out = [(self.mkiss(rng.choice(mine), rg.key), thief, None)]
            if rg.owner is thief:
                return
        elif k == "revreg" and mine:
            if rg.owner is thief or rg.nb:
                return
            out = [(self.mkrev(rng.choice(mine), rg.key, rg.chain[0].said), thief, None)]
        elif k == "badra" and not rg.nb:
            # registry event seal that points elsewhere
            g2 = [g for g in self.regs if g is not rg and not g.nb]
            if not g2:
                return
            cr = self.mkcred(rg.owner, rg, rng, genuine=False)
            te = self.mkiss(rg, cr.said, ra=rng.choice(g2).chain[0])
            te.why = "ra"
            out = [(te, rg.owner, None)]
        elif k == "twinvrt" and not rg.nb and len(rg.chain) > 1:
            te = self.mkvrt(rg, rng, base=rng.choice(rg.chain[:-1]))
            self.conflict.add(rg.key)
            for c in self.creds:
                if c.reg is rg:
                    self.conflict.add(c.said)
            out = [(te, rg.owner, None)]
        elif k == "noreg":
            cr = self.mkcred(thief, None, rng, genuine=False)
        elif k == "orphancred":
            cr = self.mkcred(rg.owner, rg, rng, genuine=False)
        elif k == "wrongsn" and vict:
            # the owner seals the right digest at the wrong sequence number
            c = rng.choice(vict)
            if len(c.log) > 1:
                return
            te = self.mkrev(c.reg, c.said, c.log[0].said)
            self.reg_forged(te)
            ev = self.seal(c.reg.owner, te.key, rng.choice([0, 2]), te.said, rng)
            if ev is None:
                return
            out = [(te, None, (ev.sn, ev.said))]
        elif k == "revvcp" and mine:
            # the thief's revocation names its own registry but the victim's log as prior
            if not others:
                return
            c = rng.choice(others)
            out = [(self.mkrev(rng.choice(mine), c.said, c.log[0].said), thief, None)]
        else:
            return
        self.ctx.hit("op:forge_" + k)
        self.ctx.hit("nontrivial")
        for te, owner, seal in out:
            self.reg_forged(te)
            if owner is not None:
                ev = self.seal(owner, te.key, te.sn, te.said, rng)
                if ev is None:
                    continue
                te.anchors.append(ev)
                seal = (ev.sn, ev.said)
            m = TMsg(te, seal, self.allwigs(te))
            self.ctx.ev("forged", k, te.said)
            n.q.insert(rng.randrange(len(n.q) + 1), m)
            self.forged.append(m)
        if cr is not None:
            cr.why = k
            m = CMsg(cr)
            n.q.insert(rng.randrange(len(n.q) + 1), m)
            self.forged.append(m)

    def reg_forged(self, te):
        te.genuine = False
        if te.said not in self.bytel:
            self.bytel[te.said] = te

    # ------------------------------------------------------------------ delivery
    def put(self, n, m):
        ctx = self.ctx
        if isinstance(m, kel.Msg):
            return self.deliver(n, m, rng_for("kel", m.ev.said))
        if isinstance(m, SMsg):
            s = self.scn.schemas[m.i]

            def go():
                n.db.schema.pin(s.said, s)
            n.schemas.add(m.i)
            died = self.act(n, go, f"schema {m.i} arrives")
            if died and n.db.schema.get(s.said) is None:
                n.schemas.discard(m.i)
            return died
        gv = rng_for("gv", m.te.said if isinstance(m, TMsg) else m.cr.said).choice([kering.Vrsn_1_0, kering.Vrsn_2_0])
        v = 1 if gv == kering.Vrsn_1_0 else 2
        if isinstance(m, TMsg):
            te = m.te
            wigers = []
            good = set()
            for w, i in m.wigs:
                wigers.append(signer(w, False).sign(te.serder.raw, index=i))
                if te.baks[i] == w:
                    good.add(w)
            wigers += [junk_siger(*j) for j in m.junk]
            kwa = {}
            if m.seal is not None:
                kwa["bonds"] = [structing.SealSource(s=coring.Number(num=m.seal[0]), d=coring.Diger(qb64=m.seal[1]))]
            if wigers:
                kwa["wigers"] = wigers
            if not kwa:
                kwa["wigers"] = [junk_siger(0, 0)]
            ims = eventing.messagize(te.serder, gvrsn=gv, **kwa)
            n.twig.setdefault(te.said, set()).update(good)
            what = (f"deliver {te.ilk}@{te.sn} of {te.key[:8]} said {te.said[:8]}{'' if te.genuine else ' (forged)'} seal={m.seal and m.seal[0]} "
                    f"backers={sorted(good)} reg {te.reg.key[:8]}")
            if not te.genuine:
                ctx.hit("probe:forgery_delivered")
            must = not self.stuck(n, te) and self.ready(n, te, m, good)
            if ctx.log is not None:
                ctx.log.append(f"{what} must={must}")
            ctx.ev("tdlv", te.said, m.seal, len(wigers))
            died = self.act(n, lambda: n.psr[v].parse(ims=bytearray(ims)), what)
            if must and not died:
                ok = te.said in n.tlog.get(te.key, [])
                ctx.check(ok, "accept", f"accept:{te.ilk}", lambda: f"{te.ilk} sn={te.sn} of {te.key} is next in its log, anchored and backed "
                          f"but was not accepted; {[repr(x[1])[:120] for x in n.errs]}; {what}")
            return died
        cr = m.cr
        iss = cr.log[0] if cr.log else next((t for t in self.bytel.values() if t.key == cr.said), None)
        ims = eventing.messagize(cr.creder, bonds=[structing.SealEvent(i=coring.Prefixer(qb64=cr.said), s=coring.Number(num=0),
                                                                      d=coring.Diger(qb64=iss.said if iss is not None else cr.said))], gvrsn=gv)
        what = f"deliver credential {cr.i} {cr.said[:8]} of {cr.issuer.idx}{'' if cr.genuine else ' (' + cr.why + ')'}"
        must = cr.genuine and self.cred_ok(n, cr) is None
        if not cr.genuine:
            ctx.hit("probe:forgery_delivered")
        if ctx.log is not None:
            ctx.log.append(f"{what} must={must} why={self.cred_ok(n, cr)}")
        ctx.ev("cdlv", cr.said)
        n.given_creds.add(cr.said)
        died = self.act(n, lambda: n.psr[v].parse(ims=bytearray(ims)), what)
        if must and not died:
            ctx.check(cr.said in n.saved, "caccept", "caccept:credential",
                      lambda: f"credential {cr.said} is issued, valid and its chains hold but it was not accepted; {[repr(x[1])[:160] for x in n.errs]}; {what}")
        return died

    def stuck(self, n, te):
        return (n.i, te.reg.owner.pre) in self.bad

    def ready(self, n, te, m, good):
        if m.seal is None or self.judge(n, te, n.tlog.get(te.key, []), good) is not None:
            return False
        ev = n.ref.at(te.reg.owner.pre, m.seal[0])
        return ev is not None and ev.said == m.seal[1] and (te.key, te.sn, te.said) in [tuple(s) for s in ev.seals]

    # ------------------------------------------------------------------ reference
    def judge(self, n, te, log, good):
        """None when the event may stand next in this log, else (facet, rule)."""
        rg = te.reg
        if te.sn != len(log):
            return "chain", f"its sequence number is {te.sn} but {len(log)} is next"
        if not any((te.key, te.sn, te.said) == tuple(s) for ev in n.ref.acc.get(rg.owner.pre, ()) for s in ev.seals):
            return "auth", "no accepted key event of the registry's controller anchors it"
        if log and self.bytel[log[-1]].said != te.prior:
            return "chain", "prior digest does not match"
        rlog = n.tlog.get(rg.key, [])
        if te.ilk == "vcp":
            if log:
                return "chain", "second inception"
        elif te.ilk == "vrt":
            if rg.nb:
                return "chain", "rotation of a backerless registry"
        else:
            if not rlog or self.bytel[rlog[0]].ilk != "vcp":
                return "chain", "its registry is unknown"
            if te.why == "ilk" or (te.ilk in ("iss", "rev")) != rg.nb:
                return "chain", "event type does not fit the registry's configuration"
            if te.ilk in ("rev", "brv"):
                if not log or self.bytel[log[0]].reg is not rg:
                    return "auth", "the credential was issued in another registry"
            if te.ra is not None and te.ra.said not in rlog:
                return "backers", "the registry event it names is not in the log of that registry"
        if te.baks and len(set(te.baks) & good) < te.toad:
            return "backers", f"backer threshold {te.toad} of {te.baks} not met by {sorted(good)}"
        return None

    def cred_ok(self, n, cr):
        if cr.reg is None:
            return "no registry"
        rlog = n.tlog.get(cr.reg.key, [])
        if not rlog or self.bytel[rlog[0]].ilk != "vcp":
            return "registry unknown"
        if cr.reg.owner is not cr.issuer:
            return "the registry is controlled by someone else than the issuer"
        log = n.tlog.get(cr.said, [])
        if not log:
            return "not issued"
        if self.bytel[log[0]].reg is not cr.reg:
            return "issued in another registry"
        if cr.sch not in n.schemas:
            return "schema unknown"
        if not cr.valid:
            return "schema violated"
        for far, op, sc in cr.edges:
            if far.said not in n.saved:
                return f"edge to {far.said[:8]} unknown"
            flog = n.tlog.get(far.said, [])
            if len(flog) != 1:
                return f"edge to {far.said[:8]} revoked"
            ops = op if isinstance(op, list) else [op]
            if op is None:
                ops = ["I2I" if far.subj is not None else "NI2I"]
            if "I2I" in ops and (far.subj is None or far.subj is not cr.issuer):
                return "edge I2I not satisfied"
            if "E1E" in ops and (far.subj is None or far.subj is not cr.subj):
                return "edge E1E not satisfied"
            if sc is not None and sc != far.sch:
                if sc not in n.schemas:
                    return "edge schema unknown"
                if self.claimlen(far) > 10 + sc:
                    return "edge schema violated"
        return None

    # ------------------------------------------------------------------ oracle
    def logsof(self, n):
        out = {}
        for keys, on, dig in n.reger.tels.getAllItemIter():
            k = keys[0] if isinstance(keys, (tuple, list)) else keys
            d = dig if isinstance(dig, str) else bytes(dig).decode()
            out.setdefault(k, []).append((on, d))
        return out

    def absorb(self, n, what, died=False, full=False):
        kel._Run.absorb(self, n, what, died, full)
        ctx = self.ctx
        if not hasattr(n, "tlog"):
            return
        for name, ex in n.errs:
            if name in ("tel", "acdc", "escrow"):
                ctx.check(isinstance(ex, kel.OKERR) and not isinstance(ex, UnicodeError), "internal", f"{name}:{type(ex).__name__}",
                          lambda: f"{name} raised {type(ex).__name__}: {ex} on {what}")
        logs = self.logsof(n)
        facet = "durable" if died else "first"
        touched = set()
        for key, old in n.tlog.items():
            now = [d for _, d in logs.get(key, [])]
            ctx.check(now[:len(old)] == old, facet, f"{facet}:rewritten",
                      lambda: f"log of {key} was {[x[:8] for x in old]}, after {what} it is {[x[:8] for x in now]}")
        new = {}
        for key, items in logs.items():
            ctx.check([o for o, _ in items] == list(range(len(items))), "chain", "chain:ordinals",
                      lambda: f"log of {key} has sequence numbers {[o for o, _ in items]} after {what}")
            old = n.tlog.get(key, [])
            if len(items) > len(old):
                new[key] = [d for _, d in items][len(old):]
        while new:
            done, why = False, None
            for key in list(new):
                te = self.bytel.get(new[key][0])
                if te is None:
                    ctx.fail("auth", "auth:fabricated", f"unknown event {new[key][0]} in the log of {key} after {what}")
                    raise_abandon()
                w = self.judge(n, te, n.tlog.get(key, []), n.twig.get(te.said, set())) if te.key == key else ("chain", "it belongs to another log")
                if w is None:
                    n.tlog.setdefault(key, []).append(te.said)
                    touched.add(key)
                    touched.add(te.reg.key)
                    ctx.hit("accepted:" + te.ilk)
                    ctx.ev("tacc", te.said)
                    if what.startswith("tel escrow"):
                        ctx.hit("probe:tel_from_escrow")
                        ctx.hit("nontrivial")
                    if te.ilk in ("rev", "brv"):
                        ctx.hit("probe:revoked")
                    if te.ilk == "vrt":
                        ctx.hit("probe:rotated")
                    if not te.genuine and te.ilk in ("iss", "bis") and te.reg.owner is not self.ownerof(key):
                        self.squat.add(key)
                    new[key].pop(0)
                    if not new[key]:
                        del new[key]
                    done = True
                else:
                    why = why or (te, key, w)
            if not done:
                te, key, (fc, txt) = why
                if (n.i, te.reg.owner.pre) in self.bad:
                    raise_abandon()
                ctx.fail(fc, f"{fc}:{te.ilk}:{txt.split(' ')[0]}", f"{te.ilk} sn={te.sn} {te.said} stands in the log of {key} but {txt}; after {what}")
                raise_abandon()
        self.check_regs(n, touched if not (died or full) else set(n.tlog), what, died)
        # credentials
        now = {k[0] for k, _ in n.reger.saved.getTopItemIter()}
        lost = n.saved - now
        ctx.check(not lost, "durable" if died else "cred", "cred:lost", lambda: f"accepted credentials {lost} are gone after {what}")
        todo = now - n.saved
        while todo:
            done, why = False, None
            for said in sorted(todo):
                cr = self.bycred.get(said)
                w = self.cred_ok(n, cr) if cr is not None else "it was never made"
                if w is None:
                    n.saved.add(said)
                    todo.discard(said)
                    done = True
                    ctx.hit("probe:cred_saved")
                    ctx.ev("saved", said)
                    if what.startswith("credential escrow"):
                        ctx.hit("probe:cred_from_escrow")
                        ctx.hit("nontrivial")
                else:
                    why = why or (said, cr, w)
            if not done:
                said, cr, w = why
                ctx.fail("cred", f"cred:{w.split(' ')[0]}:{' '.join(w.split(' ')[-2:])}:{cr.why if cr is not None else ''}",
                         f"credential {said} was accepted but {w}; {cr.why if cr else ''} after {what}")
                raise_abandon()
        if now:
            self.check_index(n, now, what)
        ctx.state((tuple(sorted((k[:5], len(v)) for k, v in n.tlog.items())), len(n.saved)))

    def ownerof(self, key):
        if key in self.bycred:
            r = self.bycred[key].reg
            return r.owner if r is not None else None
        return next((g.owner for g in self.regs if g.key == key), None)

    def check_regs(self, n, keys, what, died):
        ctx = self.ctx
        facet = "reload" if died else "state"
        for key in sorted(keys):
            log = n.tlog.get(key, [])
            if not log:
                continue
            first = self.bytel[log[0]]
            if first.ilk == "vcp":
                last = self.bytel[log[-1]]
                if key not in n.reger.tevers:
                    # died between the log and the state record: nothing may follow in the log yet
                    ctx.check(died and len(log) == 1, facet, f"{facet}:missing", lambda: f"no state for registry {key} after {what}")
                    continue
                t = n.reger.tevers[key]
                want = dict(sn=last.sn, said=last.said, baks=[wpre(w) for w in last.baks], toad=last.toad, noBackers=first.reg.nb, pre=first.reg.owner.pre)
                got = dict(sn=t.sn, said=t.serder.said, baks=list(t.baks), toad=t.toad, noBackers=t.noBackers, pre=t.pre)
                bad = [f for f in want if want[f] != got[f]]
                ctx.check(not bad, facet, f"{facet}:{','.join(bad)}",
                          lambda: f"registry {key} after {what}: " + "; ".join(f"{f}={got[f]} expected {want[f]}" for f in bad))
                rec = n.reger.states.get(keys=key)
                ok = rec is not None and (rec.s, rec.d, rec.ii, list(rec.b)) == (f"{last.sn:x}", last.said, first.reg.owner.pre, want["baks"])
                ctx.check(ok, facet, f"{facet}:record", lambda: f"stored state of registry {key} after {what} is {rec}, expected sn {last.sn} {last.said}")
            else:
                rg = first.reg
                for g in self.regs:
                    if g.key not in n.reger.tevers:
                        continue
                    try:
                        st = n.reger.tevers[g.key].vcState(key)
                    except kering.MissingEntryError as ex:
                        if not died:
                            ctx.fail("status", "status:missing", f"status of {key} in registry {g.key} can not be told: {ex} after {what}")
                        continue
                    if g is not rg:
                        ctx.check(st is None, "status", "status:other-registry",
                                  lambda: f"registry {g.key} reports {key} as {st.et} although it was issued in registry {rg.key}; after {what}")
                        continue
                    last = self.bytel[log[-1]]
                    anc = next((ev for ev in n.ref.acc.get(rg.owner.pre, ()) if st is not None and f"{ev.sn}" == f"{st.a['s']}" and ev.said == st.a["d"]
                                and (last.key, last.sn, last.said) in [tuple(s) for s in ev.seals]), None)
                    ok = st is not None and (st.i, st.d, st.ri, st.et, int(st.s, 16)) == (key, last.said, rg.key, last.ilk, last.sn)
                    ctx.check(ok, "status", "status:wrong", lambda: f"registry {rg.key} reports {st} for {key}, last event is {last.ilk} {last.said}; after {what}")
                    ctx.check(anc is not None, "status", "status:anchor", lambda: f"status of {key} names as anchor {st.a} which does not seal {last.said}; after {what}")

    def check_index(self, n, saved, what):
        ctx = self.ctx
        if not ({"index"} & ctx.facets):
            return
        for said in sorted(saved):
            cr = self.bycred.get(said)
            if cr is None:
                continue
            want = [("issus", cr.issuer.pre), ("schms", self.scn.schemas[cr.sch].said)]
            if cr.subj is not None:
                want.append(("subjs", cr.subj.pre))
            for db, key in want:
                have = [s.qb64 for s in getattr(n.reger, db).get(keys=key)]
                ctx.check(said in have, "index", f"index:{db}", lambda: f"accepted credential {said} is not listed in {db} under {key}; after {what}")
            c = n.reger.creds.get(keys=said)
            ctx.check(c is not None and c.said == said and n.reger.cancs.get(keys=said) is not None, "index", "index:creds",
                      lambda: f"accepted credential {said} is not stored; after {what}")
        for db in ("issus", "schms", "subjs"):
            for keys, s in getattr(n.reger, db).getTopItemIter():
                cr = self.bycred.get(s.qb64)
                k = {"issus": cr.issuer.pre, "schms": self.scn.schemas[cr.sch].said, "subjs": cr.subj.pre if cr.subj is not None else None}[db] if cr else None
                ctx.check(keys[0] == k, "index", f"index:{db}:false", lambda: f"{db} lists {s.qb64} under {keys}; after {what}")

    # ------------------------------------------------------------------ ops
    def escrows(self, n):
        self.ctx.ev("esc", n.i)
        d = self.act(n, n.kvy.processEscrows, f"processEscrows on node {n.i}")
        d = self.act(n, n.tvy.processEscrows, "tel escrow pass") or d
        return self.act(n, n.vry.processEscrows, "credential escrow pass") or d

    def one(self, op):
        ctx, k = self.ctx, op[0]
        n = self.nodes[0]
        if k in ("rot", "ixn"):
            ctx.hit("op:" + k)
            if self.ids[op[1] % len(self.ids)].ks.trans:
                self.ops_make(k, op[1], op[2])
            return
        if k in ("reg", "vrt", "cred", "rev", "anc", "atk", "frg", "sch"):
            ctx.hit("op:" + k)
            return self.make(k, op[1])
        if k == "qry":
            return self.tquery(n, op[1])
        if k == "restart":
            ctx.hit("fault:restart")
            self.die(n)
            self.absorb(n, "restart", died=True)
            return
        if k != "dlv":
            return kel._Run.one(self, op)
        ctx.hit("op:dlv")
        rng = rng_for("dlv", op[2])
        for _ in range(rng.choice([2, 3, 5]) if op[3] == "batch" else 1):
            if not n.q:
                return
            j = 0 if self.plan["fifo"] else rng.randrange(min(len(n.q), 6))
            m = n.q[j]
            if op[3] == "drop":
                ctx.hit("fault:drop")
                n.q.pop(j)
                continue
            if op[3] == "dup":
                ctx.hit("fault:duplicate")
            else:
                n.q.pop(j)
            if j:
                ctx.hit("fault:reorder")
            if self.put(n, m):
                n.q.insert(0, m)

    def go(self):
        self.died = False
        self.regs, self.tels, self.creds, self.unanch, self.forged = [], [], [], [], []
        self.bytel, self.bycred, self.conflict, self.squat = {}, {}, set(), set()
        for n in self.nodes:
            n.tlog, n.twig, n.saved, n.schemas, n.given_creds = {}, {}, set(), set(), set()
        kel._Run.go(self)

    # ------------------------------------------------------------------ end
    def final(self):
        ctx, n = self.ctx, self.nodes[0]
        rng = rng_for("end", self.plan["end"])
        n.armed, n.skew = None, 0.0
        self.healing = True
        for owner, te in self.unanch:
            self.anchor(owner, te, rng)
        self.unanch = []
        q, n.q = n.q, []
        once = self.plan["once"]
        if not self.plan["fifo"]:
            rng.shuffle(q)
        for m in q + n.q:
            self.put(n, m)
            if rng.random() < 0.1:
                self.escrows(n)
        n.q = []
        if once:
            for i in range(NSCH):
                self.put(n, SMsg(i))
        else:
            CLOCK.t += 5000
            self.escrows(n)
            msgs = [SMsg(i) for i in range(NSCH)]
            for a in self.ids:
                for ev in a.chain:
                    self.deliver(n, kel.Msg(ev, sigs=self.sigs_of(ev)), rng)
            msgs += [TMsg(t, (t.anchors[0].sn, t.anchors[0].said), self.allwigs(t)) for t in self.tels if t.anchors]
            msgs += [CMsg(c) for c in self.creds if c.genuine]
            rng.shuffle(msgs)
            for m in msgs:
                self.put(n, m)
        self.settle(n)
        self.absorb(n, "final", full=True)
        for t in self.tels:
            if not self.expected_tel(n, t):
                continue
            ok = t.said in n.tlog.get(t.key, [])
            sq = t.key in self.squat or t.reg.key in self.squat
            ctx.check(ok, "converge", f"converge:{'squat' if sq else 'once' if once else 'heal'}{'' if sq else ':' + t.ilk}",
                      lambda: f"{t.ilk} sn={t.sn} {t.said} of {t.key} (registry {t.reg.key}) was anchored by its controller and delivered with every event it "
                      f"needs but never accepted; its log holds {[(self.bytel[x].ilk, x[:8], self.bytel[x].reg.key[:8]) for x in n.tlog.get(t.key, [])]}")
            ctx.hit("probe:converged")
        for c in self.creds:
            if c.genuine and self.cred_ok(n, c) is None and (c.said in n.given_creds or not once):
                if any(len(far.log) > 1 for far, _, _ in c.edges):
                    continue
                ctx.check(c.said in n.saved, "cconv", f"cconv:{'once' if once else 'heal'}",
                          lambda: f"credential {c.said} is issued, valid, its chains hold and it was delivered, but it was never accepted")
        if {"reload", "durable"} & ctx.facets:
            self.die(n)
            self.absorb(n, "restart", died=True)
        if {"replay", "tquery"} & ctx.facets:
            self.replay(n)
        if "drain" in ctx.facets:
            CLOCK.t += 10000
            self.escrows(n)
            self.escrows(n)
            sz = {e: getattr(n.reger, e).cntAll() for e in ("mre", "mce", "mse")}
            ctx.check(not any(sz.values()), "drain", f"drain:{','.join(k for k in sz if sz[k])}", lambda: f"credential escrows still hold {sz} long after every timeout")

    # ------------------------------------------------------------------ queries
    def ask(self, n, author, route, q, v, kind="JSON"):
        """Deliver one query and return what it made the registry processor cue (None when the process died)."""
        self.fresh += 1
        apre = author.pre if hasattr(author, "pre") else wpre(author)
        ver = kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0
        s = eventing.query(pre=apre, route=route, query=q, stamp=f"2026-01-01T00:00:{self.fresh % 60:02d}.{self.fresh:06d}+00:00",
                           pvrsn=ver, gvrsn=ver, kind=kind)
        if hasattr(author, "pre"):
            est = author.ks.lest
            sg = [kw.signer(k, est.trans).sign(s.raw, index=j) for j, k in enumerate(est.keys)]
            raw = eventing.messagize(s, lsgs=[(coring.Prefixer(qb64=apre), sg)], framed=True, gvrsn=ver)
        else:
            raw = eventing.messagize(s, cigars=[kw.signer(author, False).sign(s.raw)], framed=True, gvrsn=ver)
        n.tvy.cues.clear()
        if self.act(n, lambda: n.psr[v].parse(ims=bytearray(raw)), f"query {route} {q} on node {n.i}"):
            return apre, None
        cues = list(n.tvy.cues)
        n.tvy.cues.clear()
        return apre, cues

    def answer(self, n, ri, i):
        q = dict(ri=ri, src=wpre("rsp"))
        if i is not None:
            q["i"] = i
        _, cues = self.ask(n, "x0", "tels", q, 2)
        return [m for c in cues or () if c.get("kin") == "replay" for m in c["msgs"]]

    def tquery(self, n, r):
        ctx, rng = self.ctx, rng_for("tqry", r)
        ctx.hit("op:qry")
        author = rng.choice(self.ids + ["x0", "x1"])
        route = rng.choice(["tels", "tels", "tsn"])
        src = wpre("rsp")
        unknown = kw.kdig("nobody") if rng.random() < 0.5 else wpre("zz")
        ri = rng.choice(self.regs).key if self.regs and rng.random() < 0.88 else unknown
        mine = [k for k, v in n.tlog.items() if k != ri and v and self.bytel[v[0]].reg.key == ri]
        late = [c.said for c in self.creds if c.reg is not None and c.reg.key == ri]
        pool = [None, unknown, wpre("x1")] + [c.said for c in self.creds[:2]] + [g.owner.pre for g in self.regs[:1]]
        i = rng.choice(mine) if mine and rng.random() < 0.5 else rng.choice(late) if late and rng.random() < 0.4 else rng.choice(pool)
        q = dict(ri=ri, src=src)
        if i is not None:
            q["i"] = i
        v = rng.choice([1, 2])
        kind = rng.choice(["JSON", "JSON", "CBOR", "MGPK"] + (["CESR"] if v == 2 else []))
        dest, cues = self.ask(n, author, route, q, v, kind)
        if cues is None:
            self.absorb(n, "query", died=True)
            return
        rlog, ilog = n.tlog.get(ri, []), n.tlog.get(i, []) if i != ri else []
        here = bool(ilog) and self.bytel[ilog[0]].reg.key == ri
        what = f"{route} query {q} by {dest[:8]}"
        if route == "tels":
            exp = [rlog + ilog] if here or not ilog else [rlog, rlog + ilog]
            got = [serdering.SerderKERI(raw=bytes(m)).said for c in cues for m in c.get("msgs", ())]
            ctx.check(got in exp, "tquery", f"tels:{'none' if not got else 'short' if len(got) < len(exp[-1]) else 'differs'}",
                      lambda: f"{what} is answered with events {got}, the accepted log holds {exp}")
            ctx.check(all(c.get("kin") == "replay" and c.get("src") == src and c.get("dest") == dest for c in cues), "tquery", "tels:cue",
                      lambda: f"{what} cued {[{k: x for k, x in c.items() if k != 'msgs'} for c in cues]}")
            if got:
                ctx.hit("probe:tels_answered")
        else:
            if len(rlog) == 1 and ri not in n.reger.tevers and self.died:
                rlog = []       # died between the log and the state record (check_regs)
            st = []
            for c in cues:
                s = c.get("serder")
                ctx.check(c.get("kin") == "reply" and s is not None and c.get("src") == src and c.get("dest") == dest and
                          s.ked["r"] == c.get("route") + "/" + src, "tquery", "tsn:cue", lambda: f"{what} cued {c}, which no responder can send")
                st.append((s.ked["r"].split("/")[2], s.ked["a"]))
                serdering.SerderKERI(raw=s.raw, verify=True)
            want = (["registry"] if rlog else []) + (["credential"] if rlog and here else [])
            ctx.check([k for k, _ in st] == want, "tstate", "tsn:which", lambda: f"{what} is answered with {[k for k, _ in st]} instead of {want}")
            for k, a in st:
                log = rlog if k == "registry" else ilog
                te = self.bytel[log[-1]]
                e = dict(s=f"{len(log) - 1:x}", d=te.said, et=te.ilk)
                if k == "registry":
                    bk = next((self.bytel[x] for x in reversed(log)), te)
                    e.update(i=ri, ii=te.reg.owner.pre, bt=f"{bk.toad:x}", b=[wpre(w) for w in bk.baks], c=["NB"] if te.reg.nb else [])
                else:
                    e.update(i=i, ri=ri, dt=te.serder.ked["dt"], ra=te.serder.ked.get("ra", {}))
                    sl = a["a"]
                    sn = sl["s"] if isinstance(sl["s"], int) else int(sl["s"], 16)
                    ctx.check(any(ev.sn == sn and ev.said == sl["d"] and (te.key, te.sn, te.said) in [tuple(x) for x in ev.seals]
                                  for ev in n.ref.acc.get(te.reg.owner.pre, ())), "tstate", "tsn:anchor",
                              lambda: f"{what}: state names key event {sl} as the anchor of {te.said}, which it is not")
                bad = {f: (a.get(f), e[f]) for f in e if a.get(f) != e[f]}
                ctx.check(not bad, "tstate", f"tsn:{k}:{','.join(sorted(bad))}", lambda: f"{what}: {k} state fields (told, true): {bad}")
                ctx.hit(f"probe:tsn_{k}")
        self.absorb(n, "query")
        if cues:
            self.respond(n, cues, dest, src, rng)

    def respond(self, n, cues, dest, src, rng):
        """Both responders send what was cued to the querier and go on."""
        ctx, out = self.ctx, []
        want = [bytes(m) for c in cues for m in c.get("msgs", ())] + [bytes(c["serder"].raw) for c in cues if c.get("serder")]
        deck = decking.Deck(cues)
        hab = FakeHab()
        hab.pre = src

        def send(dest=None, topic=None, serder=None, hab=None, attachment=None, **k):
            out.append((dest, bytes(serder.raw) + bytes(attachment or b"")))
        try:
            if rng.random() < 0.5:
                rsp = storing.Respondant(hby=SimpleNamespace(kevers={dest: None}, prefixes={src}, habByPre=lambda p: hab if p == src else None),
                                         cues=deck, mbx=SimpleNamespace())
                rsp.postman = SimpleNamespace(send=send)
                g = rsp.cueDo(tymth=lambda: 0.0)
                next(g)
                for _ in range(3 * len(cues) + 2):
                    next(g)
                g.close()
                ctx.check(all(d == dest for d, _ in out), "trespond", "respond:dest", lambda: f"answers for {dest} went to {sorted({d for d, _ in out})}")
                sent = b"".join(m for _, m in out)
            else:
                sent = b"".join(bytes(m) for m in hab.processCuesIter(deck))
        except Exception as ex:
            if isinstance(ex, AssertionError) or type(ex).__module__ == "core":
                raise
            ctx.fail("trespond", f"respond:{type(ex).__name__}", f"sending the answers {[c.get('kin') for c in cues]} failed with {type(ex).__name__}: {ex}")
            return
        ctx.check(not deck, "trespond", "respond:left", lambda: f"cues {list(deck)} were not sent")
        pos = 0
        for m in want:
            at = sent.find(m, pos)
            ctx.check(at >= 0, "trespond", "respond:lost", lambda: f"answer {m[:80]} was not sent")
            pos = at + len(m)
        ctx.hit("probe:responded")

    def settle(self, n):
        idle = 0
        for _ in range(6 + 2 * (sum(len(a.chain) for a in self.ids) + len(self.tels) + len(self.creds))):
            before = sum(len(v) for v in n.seen.values()) + sum(len(v) for v in n.tlog.values()) + len(n.saved)
            self.escrows(n)
            idle = idle + 1 if sum(len(v) for v in n.seen.values()) + sum(len(v) for v in n.tlog.values()) + len(n.saved) == before else 0
            if idle == 2:
                break

    def expected_tel(self, n, t):
        if t.key in self.conflict or t.reg.key in self.conflict or not t.anchors or t.reg.owner.duplicitous:
            return False
        if (n.i, t.reg.owner.pre) in self.bad:
            return False
        ks = n.ref.ks.get(t.reg.owner.pre)
        if ks is None or ks.sn < t.anchors[0].sn:
            return False
        # the controller may have gone silent (abandoned its identifier) before it anchored the events this one needs
        need = [self.bytel[t.prior]] if t.prior in self.bytel else []
        if t.cred is not None or t.ilk in ("iss", "rev", "bis", "brv"):
            need.append(t.reg.chain[0])
        if t.ra is not None:
            need += [c for c in t.reg.chain if c.sn <= t.ra.sn]
        return all(self.expected_tel(n, u) for u in need if u is not t)

    def replay(self, n):
        """An empty node fed from this node's stores reaches the same logs, statuses and credentials."""
        ctx = self.ctx
        m = kel.Node(9)
        m.ref = n.ref
        self.boot(m)
        m.kvy.cloned = True
        CLOCK.skew = 0.0
        for pre in n.seen:
            for msg in n.db.clonePreIter(pre=pre.encode(), fn=0, gvrsn=kering.Vrsn_2_0):
                m.psr[2].parse(ims=bytearray(msg))
        m.kvy.processEscrows()
        for i in n.schemas:
            m.db.schema.pin(self.scn.schemas[i].said, self.scn.schemas[i])
        keys = sorted(n.tlog, key=lambda k: self.bytel[n.tlog[k][0]].ilk != "vcp")
        for key in keys:
            if "tquery" in ctx.facets:
                reg = self.bytel[n.tlog[key][0]].reg
                msgs = self.answer(n, reg.key, key if key != reg.key else None) or ()
            else:
                msgs = n.reger.clonePreIter(pre=key, fn=0, gvrsn=kering.Vrsn_2_0)
            for msg in msgs:
                m.psr[2].parse(ims=bytearray(msg))
        for _ in range(4):
            m.tvy.processEscrows()
        a = {k: [d for _, d in v] for k, v in self.logsof(n).items()}
        b = {k: [d for _, d in v] for k, v in self.logsof(m).items()}
        bad = {k for k in a if a[k] != b.get(k)}
        ctx.check(not bad, "tquery" if "tquery" in ctx.facets else "replay", f"replay:{','.join(sorted({self.bytel[x].ilk for k in bad for x in a[k] if x not in b.get(k, [])}))}",
                  lambda: f"replaying this node's logs into an empty one gives {[(k, b.get(k)) for k in bad]} instead of {[(k, a[k]) for k in bad]}")
        ctx.hit("probe:replayed")
        lmdb.SIM.crash(m.db.env)
        lmdb.SIM.crash(m.reger.env)


def raise_abandon():
    from core import Abandon
    raise Abandon()


def make(prop):
    return Tel(prop, FACETS[prop])
