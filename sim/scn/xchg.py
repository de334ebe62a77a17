"""Layer X: peer-to-peer exchange messages (issuance and presentation exchange steps, forwarded messages and mailboxes, sealed
payloads, challenges, unknown routes) on several nodes: partly signed and early messages, escrow, attackers, crash and restart.
Real Parser + Exchanger + handlers + Mailboxer + Baser."""
import contextlib
import io
import os
import shutil
from types import SimpleNamespace

from core import rng_for
import kelworld as kw
from kelworld import Ident, junk_siger, signer, thr_ok
from scn import kel

FACETS = dict(
    X01=("xauth", "evidence"),
    X02=("xaccept", "handled", "xdrain", "xinternal"),
    X03=("ipex",),
    X04=("mailbox", "xdurable"),
)
PROFILE = dict(
    X01=dict(w=dict(xatk=3.0), crash=0.1),
    X02=dict(w=dict(resc=3.0), crash=0.0, quiet=0.7),
    X03=dict(w=dict(xatk=0.6), crash=0.2, routes=["ipex"] * 7 + ["rec", "none"]),
    X04=dict(w=dict(), crash=1.0, routes=["fwd"] * 5 + ["rec"]),
)
XN = ("x0", "x1", "x2")
VERBS = ("apply", "offer", "agree", "grant", "admit", "spurn")
PREV = dict(offer=("apply",), agree=("offer",), grant=("agree",), admit=("grant",), spurn=("apply", "offer", "agree"))
SPURN = dict(vc=("apply", "offer", "agree", "grant"), acdc=("apply", "offer", "agree"))
TOPICS = ("credential", "credentials", "reply", "reply/x", "receipt")


class Xn:
    """One exchange message as its author made it."""
    __slots__ = ("author", "serder", "said", "sigs", "route", "verb", "prior", "end", "atts", "essr", "v", "topic", "body", "ok", "nests", "nsaids", "paths", "made")

    def __init__(self, **k):
        self.sigs, self.end, self.atts, self.essr, self.topic, self.body, self.ok, self.nests, self.nsaids, self.paths, self.made = {}, b"", [], None, None, None, True, [], [], [], None
        for a, b in k.items():
            setattr(self, a, b)
        self.said = self.serder.said


class XMsg:
    __slots__ = ("xn", "groups", "cigs")

    def __init__(self, xn, groups=(), cigs=()):
        self.xn, self.groups, self.cigs = xn, list(groups), list(cigs)


class Xchg(kel.Kel):
    name = "exchange messages over several nodes"
    components_real = ("keri.peer exchanging (Exchanger), keri.vc protocoling and keri.acdc ipexing (IpexHandler), keri.app forwarding (ForwardHandler), "
                       "challenging, storing (Mailboxer), keri.core parsing, eventing, keri.db basing, subing, dbing (shipped source)",)
    rule = ("each run draws transferable authors with rotating multi-signature keys and non-transferable ones, the exchange messages they make, "
            "a network that reorders, splits, repeats and drops them, an attacker with odd signatures and odd answers, and process crashes; "
            "non-trivial = a message was accepted from escrow, answered another or survived a crash")
    probes = ("probe:accepted", "probe:from_escrow", "probe:refused", "probe:answered", "probe:forwarded", "probe:essr", "probe:nested", "probe:crash_inside")

    def setup(self):
        kel.Kel.setup(self)
        global eventing, parsing, basing, kering, lmdb, filing, CLOCK, coring, exchanging, forwarding, storing, challenging, vc, acdc, counting, serdering
        with contextlib.redirect_stdout(io.StringIO()):
            from keri.peer import exchanging
            from keri.app import forwarding, storing, challenging
            from keri.vc import protocoling as vc
            from keri.acdc import ipexing as acdc
            from keri.core import counting, serdering
        eventing, parsing, basing = kw.eventing, kw.parsing, kw.basing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        nid, nn = rng.choice([1, 2, 2]), rng.choice([1, 1, 2])
        idents = [dict(deleg=None, eo=0, dnd=0, r=rng.randrange(1 << 30), code=rng.choice(["E", "E", None]),
                       kind=rng.choice(["JSON", "JSON", "CBOR", "MGPK"]), pv=rng.choice([1, 2]), wit=0) for _ in range(nid)]
        w = dict(rot=0.8, ixn=0.3, dlv=3.0, xn=3.5, resign=0.4, xdl=8.0, xatk=0.4, resc=2.0, tick=0.4, crash=0.0, esc=0.2, old=0.4)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.7 else 0.0
        if prof.get("quiet") and rng.random() < prof["quiet"]:
            w.update(xatk=0.0)
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = []
        for _ in range(rng.choice([12, 25, 40, 60]) if tier == "quick" else rng.choice([15, 30, 60, 120])):
            k = rng.choices(names, cum)[0]
            n, i, r = rng.randrange(nn), rng.randrange(nid), rng.randrange(1 << 30)
            if k in ("rot", "ixn"):
                ops.append([k, i, r])
            elif k in ("xn", "resign"):
                ops.append([k, r])
            elif k == "dlv":
                ops.append(["dlv", n, r, "one"])
            elif k == "xdl":
                ops.append(["xdl", n, r, rng.choices(["one", "dup", "drop"], [8, 1.5, 1])[0]])
            elif k in ("xatk", "old"):
                ops.append([k, n, r])
            elif k in ("esc", "resc"):
                ops.append([k, n])
            elif k == "tick":
                ops.append(["tick", rng.choice([1, 3, 30]), n, 0])
            elif k == "crash":
                ops.append(["crash", n, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 25)])
        shape = dict(routes=prof.get("routes", ["ipex", "ipex", "fwd", "rec", "none", "essr", "chal"]), flavour=rng.choice(["vc", "acdc"]),
                     trans=rng.choice([1.0, 0.8, 0.5]), early=int(rng.random() < 0.5))
        return dict(shape=shape, idents=idents, nodes=nn, once=0, fifo=int(rng.random() < 0.5), ops=ops, end=rng.randrange(1 << 30))

    def execute(self, plan, ctx):
        root = kel.scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        run = _XRun(self, plan, ctx, root)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run.go()
        finally:
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class Rec:
    """A recording handler: refuses what says so."""
    def __init__(self, n, resource):
        self.n, self.resource = n, resource

    def verify(self, serder, attachments=None, **kwa):
        return not serder.ked["a"].get("refuse") if isinstance(serder.ked["a"], dict) else True

    def handle(self, serder, attachments=None, **kwa):
        self.n.calls.append((serder.said, [(tuple(p.parts) if hasattr(p, "parts") else str(p), bytes(a)) for p, a in attachments or []], kwa.get("essr")))


class _XRun(kel._Run):
    # ------------------------------------------------------------------ authors
    def author(self, rng):
        return rng.choice(self.ids) if rng.random() < self.shape["trans"] else rng.choice(XN[:2])

    def apre(self, a):
        return a.pre if isinstance(a, Ident) else kw.wpre(a)

    def stamp(self):
        self.fresh += 1
        return f"2026-01-01T{self.fresh // 3600 % 24:02d}:{self.fresh // 60 % 60:02d}:{self.fresh % 60:02d}.000000+00:00"

    def mk(self, rng, route=None, odd=False):
        """A new exchange message; odd ones answer what they may not."""
        a = self.author(rng)
        sender = self.apre(a)
        k = route or rng.choice(self.shape["routes"])
        K = dict(author=a, route=k, verb=None, prior=None)
        attrs = dict(n=self.fresh, m=rng.choice(["", "hello"]))
        flav = self.shape["flavour"]
        if k == "ipex":
            ips = [x for x in self.xns if x.route == "ipex"]
            v = 2 if flav == "acdc" else 1
            verb, prior = rng.choice(["apply", "offer", "grant"]), None
            if ips and rng.random() < 0.7:
                prior = rng.choice(ips[-4:])
                nxt = [w for w in PREV if prior.verb in self.prevs[w]]
                verb = rng.choice(nxt) if nxt and not odd and rng.random() < 0.85 else rng.choice(VERBS)
            elif odd or rng.random() < 0.08:
                verb = rng.choice(VERBS)
            if odd and self.xns and rng.random() < 0.5:
                prior = rng.choice(self.xns)
            ok = (verb in ("apply", "offer", "grant")) if prior is None else (verb != "apply" and prior.route == "ipex" and prior.verb in self.prevs[verb])
            p = prior.said if prior is not None else ""
            if v == 1:
                s = exchanging.exchangeOld(route=f"/ipex/{verb}", attributes=attrs, sender=sender, prior=p, stamp=self.stamp(), version=kering.Vrsn_1_0,
                                           kind=rng.choice(["JSON", "CBOR", "MGPK"]))
                return Xn(serder=s, v=1, prior=prior, verb=verb, author=a, route=k, ok=ok)
            nests, saids = [], []
            want = dict(offer=["acdc"], grant=["acdc"] + [f for f in ("iss", "anc") if rng.random() < 0.4]).get(verb, [])
            evs = [e for i in self.ids for e in i.all]
            want = want[:len(evs)]
            for f, e in zip(want, rng.sample(evs, len(want))):
                raw = e.serder
                attrs[f] = raw.said
                nests.append(self.nest(raw))
                saids.append(raw.said)
            if rng.random() < (0.5 if odd else 0.05):
                q = rng.choice(["drop", "extra", "swap"])
                e = rng.choice([e for i in self.ids for e in i.all]).serder
                if q == "drop" and nests:
                    nests.pop()
                    ok = False
                elif q == "extra" and e.said not in saids:
                    nests.append(self.nest(e))
                    ok = False
                elif q == "swap" and nests and e.said != saids[-1]:
                    nests[-1] = self.nest(e)
                    ok = False
                saids = None
            xid = coring.Diger(ser=b"xid").qb64
            s = eventing.exchange(sender=sender, receiver=sender, xid=xid, prior=p or "", route=f"/ipex/{verb}", attributes=attrs, stamp=self.stamp(),
                                  version=kering.Vrsn_2_0, kind=rng.choice(["JSON", "CBOR", "MGPK"]))
            return Xn(serder=s, v=2, prior=prior, verb=verb, author=a, route=k, ok=ok, nests=nests, nsaids=saids)
        if k == "fwd":
            emb = rng.choice([e for i in self.ids for e in i.all])
            rcv, topic = kw.wpre(rng.choice(["r0", "r1"])), rng.choice(TOPICS)
            if rng.random() < 0.05:
                topic = f"{topic}.{rng.randrange(4):032x}"
            raw = bytearray(emb.serder.raw)
            sg = [emb.sig(kid, i, ondex=o, only=o is None) for kid, i, o in self.sigs_of(emb)]
            msg = eventing.messagize(emb.serder, sigers=sg, gvrsn=kering.Vrsn_1_0 if emb.ident.shape["pv"] == 1 else kering.Vrsn_2_0, framed=True)
            atc = bytes(msg[len(raw):])
            s, end = exchanging.specialExchange(sender=sender, route="/fwd", modifiers=dict(pre=rcv, topic=topic), attributes={}, embeds=dict(evt=msg),
                                                stamp=self.stamp(), version=kering.Vrsn_1_0)
            return Xn(serder=s, v=1, author=a, route=k, verb=None, prior=None, end=bytes(end), topic=f"{rcv}/{topic}", body=bytes(raw) + atc)
        if k == "essr":
            t = coring.Texter(raw=bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 60]))))
            s, _ = exchanging.specialExchange(sender=sender, route="/essr/req", modifiers=dict(src=sender, dest=sender), diger=coring.Diger(ser=t.raw),
                                              stamp=self.stamp(), version=kering.Vrsn_1_0)
            end = counting.Counter(counting.Codens.ESSRPayloadGroup, count=1, version=kering.Vrsn_1_0).qb64b + t.qb64b
            return Xn(serder=s, v=1, author=a, route=k, verb=None, prior=None, end=bytes(end), essr=bytes(t.raw))
        if k == "chal":
            attrs = dict(words=["a", "b", str(self.fresh)])
        if k == "rec" and rng.random() < 0.2:
            attrs["refuse"] = True
        if k == "rec" and rng.random() < 0.4:
            embs, paths = {}, []
            for label, ev in zip(("evt", "anc", "iss"), rng.sample(evs0 := [e for i in self.ids for e in i.all], min(len(evs0), rng.choice([1, 2, 3])))):
                msg = bytearray(ev.serder.raw)
                if rng.random() < 0.85:
                    sg = [ev.sig(kid, i, ondex=o, only=o is None) for kid, i, o in self.sigs_of(ev)]
                    sg = sg * rng.choice([1, 1, 1, 1, 200]) if self.shape["early"] else sg
                    msg = eventing.messagize(ev.serder, sigers=sg, gvrsn=kering.Vrsn_1_0, framed=True)
                atc = bytes(msg[len(ev.serder.raw):])
                if ev.serder.pvrsn.major == 1:
                    embs[label] = msg
                    if atc:
                        paths.append((label, atc))
            rcv = rng.choice(["", sender])
            mods = rng.choice([None, {}, dict(z="1")])
            st = self.stamp()
            s, end = exchanging.specialExchange(sender=sender, receiver=rcv, route="/rec", modifiers=mods, attributes=dict(attrs), embeds=embs, stamp=st,
                                                version=kering.Vrsn_1_0, kind=rng.choice(["JSON", "CBOR", "MGPK"]))
            want = dict(i=sender, rp=rcv, p="", dt=st, r="/rec", q=mods or {}, a=dict(attrs, i=rcv) if rcv else attrs)
            if embs:
                self.ctx.hit("probe:embedded")
            return Xn(serder=s, v=1, author=a, route=k, verb=None, prior=None, ok=not attrs.get("refuse"), end=bytes(end), paths=paths,
                      made=(want, {l: bytes(m[:]) for l, m in embs.items()}))
        r = dict(chal="/challenge/response", rec="/rec", none=rng.choice(["/nobody/home", "/nobody/grant", "/nobody/apply"]))[k]
        old = [x for x in self.xns if x.route != "ipex"] if rng.random() < 0.6 else self.xns
        prior = rng.choice(old) if old and rng.random() < 0.3 else None
        p = prior.said if prior else ""
        if rng.random() < 0.5 or k == "chal":
            s = exchanging.exchangeOld(route=r, attributes=attrs, sender=sender, prior=p, stamp=self.stamp(), version=kering.Vrsn_1_0,
                                       kind=rng.choice(["JSON", "CBOR", "MGPK"]))
            v = 1
        else:
            s = eventing.exchange(sender=sender, receiver=sender, xid=coring.Diger(ser=b"xid").qb64, prior=p, route=r, attributes=attrs,
                                  stamp=self.stamp(), version=kering.Vrsn_2_0, kind=rng.choice(["JSON", "CBOR", "MGPK"]))
            v = 2
        return Xn(serder=s, v=v, author=a, route=k, verb=None, prior=prior, ok=not attrs.get("refuse"))

    def nest(self, serder):
        t = coring.Texter(raw=serder.raw).qb64b if serder.kind != kering.Kinds.cesr else None
        C = counting.Counter
        body = C.enclose(qb64=t, code=counting.Codens.NonNativeBodyGroup, version=kering.Vrsn_2_0) if t else bytearray(serder.raw)
        e = C.enclose(qb64=b"", code=counting.Codens.ControllerIdxSigs, version=kering.Vrsn_2_0)
        return bytes(C.enclose(qb64=bytes(body) + bytes(C.enclose(qb64=e, code=counting.Codens.AttachmentGroup, version=kering.Vrsn_2_0)),
                               code=counting.Codens.BodyWithAttachmentGroup, version=kering.Vrsn_2_0))

    def send(self, xn, rng):
        """The author signs it with its current keys and sends it to every node."""
        a = xn.author
        if not isinstance(a, Ident):
            xn.sigs[None] = True
            for n in self.nodes:
                n.xq.append(XMsg(xn, cigs=[a]))
            return
        est = a.ks.lest
        xn.sigs[est.sn] = est
        ix = list(range(len(est.keys)))
        for n in self.nodes:
            rng.shuffle(ix)
            if rng.random() < 0.35 and len(ix) > 1:
                j = rng.randint(1, len(ix) - 1)
                n.xq.append(XMsg(xn, [(est, sorted(ix[:j]), ())]))
                n.xq.append(XMsg(xn, [(est, sorted(ix[j:]), ())]))
            else:
                n.xq.append(XMsg(xn, [(est, sorted(ix), ())]))

    def xsig(self, xn, est, i):
        return signer(est.keys[i], est.trans).sign(xn.serder.raw, index=i)

    # ------------------------------------------------------------------ delivery
    def xdeliver(self, n, m, what):
        xn, ctx = m.xn, self.ctx
        gv = dict(gvrsn=kering.Vrsn_1_0 if xn.v == 1 else kering.Vrsn_2_0)
        tsgs, clean = [], True
        for est, idx, junk in m.groups:
            sg = [self.xsig(xn, est, i) for i in idx]
            sn, dig, pre = est.sn, est.said, est.pre
            for j in junk:
                if j[0] == "sig":
                    sg.append(junk_siger(j[1], j[2]))
                else:
                    clean = False
                    n.poison.add(xn.said)
                    if j[0] == "sn":
                        sn = j[1]
                    elif j[0] == "dig":
                        dig = j[1]
                    elif j[0] == "pre":
                        pre = j[1]
            if (sn, dig, pre) == (est.sn, est.said, est.pre):
                n.gave.setdefault((xn.said, est.sn), set()).update(idx)
            if sg:
                tsgs.append((coring.Prefixer(qb64=pre), coring.Number(num=sn), coring.Diger(qb64=dig), sg))
        if len(tsgs) > 1:
            clean = False
            n.poison.add(xn.said)
        cigars = []
        for c in m.cigs:
            if isinstance(c, str):
                cigars.append(signer(c, False).sign(xn.serder.raw))
                if c == xn.author:
                    n.gave.setdefault((xn.said, None), set()).add(0)
                else:
                    clean = False
            else:
                cigars.append(signer(c[0], False).sign(c[1].serder.raw))
                clean = False
        kwa = {}
        if tsgs:
            kwa["tsgs"] = tsgs
        if cigars:
            kwa["cigars"] = cigars
        if xn.nests:
            ims = eventing.messagize(xn.serder, nests=[bytearray(x) for x in xn.nests], framed=False, **kwa, **gv) if kwa else None
        else:
            ims = eventing.messagize(xn.serder, **kwa, framed=True, **gv) if kwa else None
        if ims is None:
            return False
        ims = bytes(ims) + xn.end
        full = False
        if isinstance(xn.author, Ident):
            if len(m.groups) == 1:
                est, idx, _ = m.groups[0]
                full = clean and n.ref.at(est.pre, est.sn) is est and thr_ok(est.thr, set(idx))
        else:
            full = clean and bool(m.cigs)
        part = clean and not full and bool(m.groups)
        must = full and self.behaves(n, xn) and xn.said not in n.xs
        ctx.ev("xdlv", n.i, xn.said, [(e.sn, i, len(j)) for e, i, j in m.groups], len(m.cigs))
        if ctx.log is not None:
            ctx.log.append(f"{what}: {xn.route} {xn.verb} {xn.said[:8]} p={xn.prior.said[:8] if xn.prior else None} ok={xn.ok} groups="
                           f"{[(e.sn, i, j) for e, i, j in m.groups]} cigs={[c if isinstance(c, str) else c[0] for c in m.cigs]} full={full} must={must}")
        if part and xn.said not in n.xesc:
            n.xesc[xn.said] = CLOCK.t
        n.calls = []
        n.must, n.cause, n.junky = ({xn.said} if must else set()), "message", not clean
        before = set(n.xs)
        died = self.act(n, lambda: n.psr[xn.v].parse(ims=bytearray(ims)), what)
        if died:
            n.xesc.pop(xn.said, None)
            n.poison.add(xn.said)
        elif full and not must and xn.said not in before:
            if xn.said not in n.xs:
                ctx.hit("probe:refused")
                n.poison.add(xn.said)  # these signatures were not kept
        return died

    def behaves(self, n, xn):
        """May xn be accepted here now, signatures aside (safety and liveness agree on this)."""
        if not xn.ok:
            return False
        if xn.route == "ipex" and xn.prior is not None:
            if xn.prior.said not in n.xs:
                return False
            if any(y.prior is xn.prior and y is not xn and y.route == "ipex" for y in n.xs.values()):
                return False
        return True

    def signed(self, n, xn):
        if not isinstance(xn.author, Ident):
            return bool(n.gave.get((xn.said, None)))
        for (said, sn), s in n.gave.items():
            if said == xn.said and sn is not None:
                est = xn.sigs.get(sn)
                if est is not None and n.ref.at(est.pre, sn) is est and thr_ok(est.thr, s):
                    return True
        return False

    # ------------------------------------------------------------------ node
    def hook(self, kind, env):
        n = self.cur
        a = n.armed if n is not None else None
        if a is None or a[0] != kind or (env is not n.db.env and env is not n.mbx.env):
            return
        a[1] -= 1
        if a[1] > 0:
            return
        n.armed = None
        self.fired = kind
        raise lmdb.SimCrash(kind)

    def boot(self, n):
        kel._Run.boot(self, n)
        n.mbx = storing.Mailboxer(name=f"n{n.i}", temp=False, headDirPath=os.path.join(self.root, f"n{n.i}"), reopen=True)
        n.hby = SimpleNamespace(name=f"n{n.i}", db=n.db, kevers=n.db.kevers, habs={}, prefixes=n.db.prefixes)
        n.calls = []

        class Notes:
            def add(s, attrs):
                n.calls.append((attrs["d"], [], None))
                return True

        class Sigs:
            def push(s, attrs, topic, **k):
                n.calls.append((attrs["said"], [], None))
        mod = vc if self.shape["flavour"] == "vc" else acdc
        hs = [mod.IpexHandler(resource=f"/ipex/{v}", hby=n.hby, notifier=Notes()) for v in VERBS]
        hs += [forwarding.ForwardHandler(hby=n.hby, mbx=n.mbx), challenging.ChallengeHandler(db=n.db, signaler=Sigs()), Rec(n, "/rec"), Rec(n, "/essr/req")]
        n.exc = exchanging.Exchanger(hby=n.hby, handlers=hs)
        n.psr = {v: parsing.Parser(framed=True, kvy=n.kvy, exc=n.exc, local=False, version=x) for v, x in ((1, kering.Vrsn_1_0), (2, kering.Vrsn_2_0))}
        real = n.exc.processEvent

        def wrap(*a, **k):
            try:
                return real(*a, **k)
            except Exception as ex:
                n.xerrs.append(ex)
                raise
        n.exc.processEvent = wrap
        n.xerrs = []

    def die(self, n):
        self.cur = None
        for o in (n.db, n.mbx):
            lmdb.SIM.crash(o.env)
            o.env = None
        self.boot(n)

    def act(self, n, fn, what):
        n.xerrs = []
        died = kel._Run.act(self, n, fn, what)
        for ex in n.xerrs:
            if self.ctx.log is not None:
                self.ctx.log.append(f"  exchange -> {type(ex).__name__}: {str(ex)[:110]}")
            self.ctx.check(isinstance(ex, (kering.KeriError, lmdb.SimCrash)), "xinternal", f"processEvent:{type(ex).__name__}",
                           lambda: f"Exchanger.processEvent raised {type(ex).__name__}: {ex} on {what}")
        return died

    # ------------------------------------------------------------------ oracle
    def absorb(self, n, what, died=False, full=False):
        kel._Run.absorb(self, n, what, died, full)
        ctx = self.ctx
        held = {k[0]: s for k, s in n.db.exns.getTopItemIter()}
        calls = {}
        for c in n.calls:
            calls.setdefault(c[0], []).append(c)
        for said in n.xs:
            ctx.check(said in held, "xdurable", "exns:lost", lambda: f"node {n.i} accepted {said} and lost it after {what}")
        new = [s for s in held if s not in n.xs]
        for said in new:
            xn = self.bysaid_x.get(said)
            if xn is None or held[said].raw != xn.serder.raw:
                ctx.fail("xauth", "xauth:fabricated", f"node {n.i} holds message {said} nobody made after {what}")
                continue
            ctx.check(self.signed(n, xn), "xauth", f"xauth:unsigned:{xn.route}",
                      lambda: f"node {n.i} accepted {xn.route} message {said} of {self.apre(xn.author)} without that author's signatures; after {what}")
            if not xn.ok:
                ctx.fail("ipex" if xn.route == "ipex" else "xauth", f"refuse:{xn.route}:{xn.verb}",
                         f"node {n.i} accepted {xn.route} {xn.verb} message {said} that its handler must refuse; after {what}")
            n.xs[said] = xn
            ctx.hit("probe:accepted")
            ctx.ev("xacc", n.i, said)
            if what.startswith("exchange escrow"):
                ctx.hit("probe:from_escrow")
                ctx.hit("nontrivial")
            if xn.route == "ipex" and xn.prior is not None:
                ctx.hit("probe:answered")
                ctx.hit("nontrivial")
            if xn.made is not None:
                ked = xn.serder.ked
                bad = [f for f, w in xn.made[0].items() if ked.get(f) != w]
                e = dict(ked.get("e") or {})
                e.pop("d", None)
                if set(e) != set(xn.made[1]) or any(x["d"] != serdering.SerderKERI(raw=xn.made[1][l]).said for l, x in e.items()):
                    bad.append("e")
                ctx.check(not bad, "evidence", f"made:{','.join(bad)}", lambda: f"message {said} was made with other {bad} than asked: {ked}")
            if xn.essr:
                ctx.hit("probe:essr")
            if xn.nests:
                ctx.hit("probe:nested")
        for said in new:
            xn = n.xs.get(said)
            if xn is not None and xn.route == "ipex" and xn.prior is not None:
                ctx.check(xn.prior.said in n.xs, "ipex", "ipex:orphan", lambda: f"node {n.i} accepted {xn.verb} {said} whose prior it has not; after {what}")
                rest = [y for y in n.xs.values() if y.prior is xn.prior and y is not xn and y.route == "ipex"]
                ctx.check(not rest, "ipex", "ipex:second",
                          lambda: f"node {n.i} accepted {xn.verb} {said} as second answer to {xn.prior.said}, first {rest[0].verb} {rest[0].said}; after {what}")
        for said in new:
            if said in n.xs:
                self.evidence(n, n.xs[said], what)
        if not died:
            for said in n.must:
                xn = self.bysaid_x[said]
                if said not in n.xs and not self.behaves(n, xn):
                    continue
                ctx.check(said in n.xs, "xaccept", f"xaccept:{n.cause}:{xn.route}",
                          lambda: f"node {n.i} has fully signed {xn.route} {xn.verb} message {said} and all it needs, but did not accept it; after {what}")
            for said, cs in calls.items():
                xn = self.bysaid_x[said]
                ctx.check(said in held, "xauth", f"xauth:handled:{xn.route}", lambda: f"node {n.i} handled {xn.route} {said} without accepting it; after {what}")
                if xn.route == "ipex" and xn.prior is not None:
                    ctx.check(len(cs) == 1 and said in new, "handled", "handled:twice:ipex", lambda: f"node {n.i} announced {xn.verb} {said} again; after {what}")
                for c in cs:
                    if xn.paths:
                        ctx.check([(p[-1] if isinstance(p, tuple) else p.split("/")[-1], b) for p, b in c[1]] == xn.paths, "handled", "handled:paths",
                                  lambda: f"node {n.i} handed {len(c[1])} attachments to the handler of {said}, it came with {[l for l, _ in xn.paths]}")
                    if xn.essr is not None:
                        ctx.check(c[2] == xn.essr, "handled", "handled:essr", lambda: f"node {n.i} handed {c[2]} to the handler of {said}; after {what}")
            for said in new:
                xn = n.xs.get(said)
                if xn is not None and xn.route not in ("none", "fwd"):
                    ctx.check(len(calls.get(said, ())) >= 1, "handled", f"handled:never:{xn.route}",
                              lambda: f"node {n.i} accepted {xn.route} {xn.verb} {said} but its handler was not called; after {what}")
        n.must, n.calls = set(), []
        self.mailbox(n, new, held, what, died)

    def mailbox(self, n, new, held, what, died):
        ctx = self.ctx
        grown = {}
        for topic in self.topics:
            got = [(on, bytes(msg)) for on, _, msg in n.mbx.cloneTopicIter(topic)]
            old = n.mb.get(topic, [])
            ctx.check(got[:len(old)] == old, "xdurable" if died else "mailbox", "mailbox:changed",
                      lambda: f"node {n.i} topic {topic} held messages at {[o for o, _ in old]}, after {what} at {[o for o, _ in got]}")
            ons = [o for o, _ in got]
            ctx.check(all(a < b for a, b in zip(ons, ons[1:])), "mailbox", "mailbox:order", lambda: f"node {n.i} topic {topic} numbers {ons} after {what}")
            ctx.check(ons == list(range(len(ons))), "mailbox", "mailbox:gap", lambda: f"node {n.i} topic {topic} numbers {ons} after {what}")
            tail = got[len(old):]
            mine = [x for s, x in n.xs.items() if x.topic == topic]
            for on, b in tail:
                ctx.check(any(x.body == b for x in mine), "mailbox", "mailbox:foreign",
                          lambda: f"node {n.i} topic {topic} got a message nobody forwarded there: {b[:60]}; after {what}")
            grown[topic] = len(tail)
            n.mb[topic] = got
            fn = (len(got) + self.nx) % (len(got) + 2)
            start = [b for on, b in got if on >= fn]
            ctx.check([bytes(x) for x in n.mbx.getTopicMsgs(topic, fn=fn)] == start, "mailbox", "mailbox:from",
                      lambda: f"node {n.i} topic {topic} from {fn} gives another list after {what}")
        if died:
            return
        want = {}
        for said in new:
            x = n.xs.get(said)
            if x is not None and x.topic:
                want[x.topic] = want.get(x.topic, 0) + 1
                ctx.hit("probe:forwarded")
        for t, k in want.items():
            ctx.check(grown.get(t, 0) >= k, "mailbox", "mailbox:lost",
                      lambda: f"node {n.i} accepted {k} messages forwarded to {t} but stored {grown.get(t, 0)}; after {what}")

    def evidence(self, n, xn, what):
        """The node can show the message to others with the signatures that prove it."""
        ctx = self.ctx
        try:
            s, pd = exchanging.cloneMessage(n.hby, xn.said)
            ok = s is not None and s.raw == xn.serder.raw
            why = ""
            if ok and xn.route == "rec":
                ok = {k: bytes(v) for k, v in pd.items()} == dict(xn.paths)
                why = f"embedded attachments {sorted(pd)}, sent {[l for l, _ in xn.paths]}"
            if ok:
                msg = exchanging.serializeMessage(n.hby, xn.said)
                got = []
                x = SimpleNamespace(processEvent=lambda serder, **k: got.append((serder.raw, k)))
                parsing.Parser(framed=True, exc=x, local=False, version=kering.Vrsn_1_0 if xn.v == 1 else kering.Vrsn_2_0).parse(ims=bytearray(msg))
                ok = len(got) == 1 and got[0][0] == xn.serder.raw
                if ok:
                    k = got[0][1]
                    good = any(p.qb64 == self.apre(xn.author) and xn.sigs.get(nu.sn) is not None and thr_ok(
                        xn.sigs[nu.sn].thr, {g.index for g in sg if g.index < len(xn.sigs[nu.sn].keys) and g.raw == self.xsig(xn, xn.sigs[nu.sn], g.index).raw})
                        for p, nu, d, sg in k.get("tsgs") or [] if isinstance(xn.author, Ident))
                    good = good or any(c.verfer.qb64 == self.apre(xn.author) and c.raw == signer(xn.author, False).sign(xn.serder.raw).raw
                                       for c in k.get("cigars") or [] if not isinstance(xn.author, Ident))
                    ok, why = good, "signatures"
                    if ok and xn.end and not xn.essr:
                        pt = b"".join(bytes(x) for x in k.get("ptds") or [])
                        at = b"".join(a for _, a in xn.paths) if xn.paths else xn.body[-40:]
                        ok, why = at[-40:] in pt and (not xn.paths or all(a in pt for _, a in xn.paths)), "embedded attachments"
                    if ok and xn.nsaids is not None and xn.ok:
                        ns = [(y["serder"] if isinstance(y, dict) else y.serder).said for y in k.get("nests") or []]
                        ok, why = ns == xn.nsaids, f"nested {ns}"
                else:
                    why = f"reads back as {len(got)} messages"
        except Exception as ex:
            ok, why = False, f"{type(ex).__name__}: {ex}"
        ctx.check(ok, "evidence", f"evidence:{xn.route}", lambda: f"node {n.i} accepted {xn.route} {xn.verb} {xn.said} but can not show it: {why}; after {what}")

    # ------------------------------------------------------------------ ops
    def one(self, op):
        ctx, k = self.ctx, op[0]
        if k not in ("xn", "resign", "xdl", "xatk", "old", "resc"):
            return kel._Run.one(self, op)
        ctx.hit("op:" + k)
        if k == "xn":
            rng = rng_for("xn", op[1])
            self.add(self.mk(rng), rng)
            return
        if k == "resign":
            rng = rng_for("resign", op[1])
            c = [x for x in self.xns if isinstance(x.author, Ident) and x.author.ks.lest.sn not in x.sigs]
            if c:
                self.send(rng.choice(c[-4:]), rng)
            return
        n = self.nodes[op[1] % len(self.nodes)]
        if k == "xdl":
            if not n.xq:
                return
            rng = rng_for("xdl", op[2])
            j = 0 if self.plan["fifo"] else rng.randrange(min(len(n.xq), 6))
            m = n.xq[j]
            if op[3] == "drop":
                ctx.hit("fault:drop")
                n.xq.pop(j)
                return
            if op[3] == "dup":
                ctx.hit("fault:duplicate")
            else:
                n.xq.pop(j)
            if j:
                ctx.hit("fault:reorder")
            if self.xdeliver(n, m, f"exchange to node {n.i}"):
                n.xq.insert(0, m)
        elif k == "old":
            rng = rng_for("old", op[2])
            if self.xns:
                x = rng.choice(self.xns)
                ctx.hit("fault:replay")
                self.xdeliver(n, self.full(x, rng.choice(list(x.sigs))), f"replayed exchange to node {n.i}")
        elif k == "resc":
            self.resc(n)
        elif k == "xatk":
            self.xattack(n, op[2])

    def add(self, xn, rng):
        if xn.said in self.bysaid_x:
            return
        self.xns.append(xn)
        self.bysaid_x[xn.said] = xn
        if xn.topic and xn.topic not in self.topics:
            self.topics.append(xn.topic)
        self.ctx.ev("xn", xn.route, xn.verb, xn.said)
        self.send(xn, rng)

    def full(self, xn, sn):
        if sn is None:
            return XMsg(xn, cigs=[xn.author])
        est = xn.sigs[sn]
        return XMsg(xn, [(est, list(range(len(est.keys))), ())])

    def resc(self, n):
        n.must, n.cause, n.junky, n.calls = set(), "escrow", False, []
        for said, t in list(n.xesc.items()):
            xn = self.bysaid_x[said]
            if said in n.poison or CLOCK.t - t >= 10 or len([1 for s, sn in n.gave if s == said]) != 1:
                continue
            if said not in n.xs and self.signed(n, xn) and self.behaves(n, xn) and (xn.author.ks is None or self.knows(n, xn)):
                n.must.add(said)
        self.ctx.ev("resc", n.i)
        died = self.act(n, n.exc.processEscrow, f"exchange escrow on node {n.i}")
        left = {k[0] for k, _ in n.db.epse.getTopItemIter()}
        for said in list(n.xesc):
            if said not in left:
                n.xesc.pop(said)
        return died

    def knows(self, n, xn):
        return all(n.ref.at(e.pre, sn) is e for sn, e in xn.sigs.items() if n.gave.get((xn.said, sn)))

    def xattack(self, n, r):
        rng = rng_for("xatk", r)
        self.ctx.hit("op:attack")
        if rng.random() < 0.35 or not self.xns:
            return self.add(self.mk(rng, odd=True), rng)
        xn = rng.choice(self.xns[-6:])
        a = xn.author
        m = XMsg(xn)
        if not isinstance(a, Ident):
            k = rng.choice(["other", "wrong", "both"])
            if k in ("wrong", "both"):
                m.cigs.append((a, rng.choice([x for x in self.xns if x is not xn])) if len(self.xns) > 1 else "x2")
            if k in ("other", "both"):
                m.cigs.append(rng.choice([x for x in XN if x != a]))
            return self.xdeliver(n, m, f"attack to node {n.i}")
        ests = [e for e in a.chain if e.est]
        for _ in range(rng.choice([1, 1, 1, 2])):
            est = rng.choice(list(xn.sigs.values())) if rng.random() < 0.6 else rng.choice(ests)
            real = est.sn in xn.sigs
            ix = sorted(rng.sample(range(len(est.keys)), rng.randint(0, len(est.keys)))) if real else []
            if rng.random() < 0.5:
                ix = ix[:1]
            junk = []
            if not ix or rng.random() < 0.5:
                junk.append(("sig", rng.randrange(4), rng.randrange(99)))
            q = rng.random()
            if q < 0.15:
                junk.append(("sn", est.sn + rng.choice([1, 2, 9]),))
            elif q < 0.25:
                junk.append(("dig", rng.choice(ests).said))
            elif q < 0.35:
                o = rng.choice(self.ids)
                junk.append(("pre", o.pre if o is not a else kw.wpre("x2")))
            m.groups.append((est, ix, tuple(junk)))
        if rng.random() < 0.2:
            m.cigs.append(rng.choice(XN))
        self.xdeliver(n, m, f"attack to node {n.i}")

    def go(self):
        self.xns, self.bysaid_x, self.topics = [], {}, []
        self.shape = self.plan["shape"]
        self.prevs = dict(PREV, spurn=SPURN[self.shape["flavour"]])
        for n in self.nodes:
            n.xq, n.gave, n.xs, n.xesc, n.mb, n.poison, n.must, n.cause, n.calls = [], {}, {}, {}, {}, set(), set(), "", []
        kel._Run.go(self)

    # ------------------------------------------------------------------ end
    def final(self):
        ctx, plan = self.ctx, self.plan
        rng = rng_for("end", plan["end"])
        self.healing = True
        for n in self.nodes:
            n.armed = None
            for m in n.q:
                self.deliver(n, m, rng)
            n.q = []
            for ident in self.ids:
                for ev in ident.chain:
                    self.deliver(n, kel.Msg(ev, sigs=self.sigs_of(ev)), rng)
            for _ in range(3):
                self.escrows(n)
            self.resc(n)
            for m in n.xq:
                self.xdeliver(n, m, f"last exchange to node {n.i}")
            n.xq = []
            self.resc(n)
            for xn in self.xns:
                for sn in xn.sigs:
                    self.xdeliver(n, self.full(xn, sn), f"resent exchange to node {n.i}")
            for xn in self.xns:
                if xn.said in n.xs or not self.behaves(n, xn):
                    continue
                ctx.fail("xaccept", f"xaccept:heal:{xn.route}", f"node {n.i} never accepted genuine {xn.route} {xn.verb} message {xn.said}")
            for xn in self.xns:
                if xn.topic and xn.said in n.xs:
                    ctx.check(any(b == xn.body for _, b in n.mb.get(xn.topic, ())), "mailbox", "mailbox:missing",
                              lambda: f"node {n.i} has no message at {xn.topic} although {xn.said} forwarded one there and was sent again")
            if "xdrain" in ctx.facets:
                CLOCK.t += 20
                self.resc(n)
                self.resc(n)
                left = n.db.epse.cntAll()
                ctx.check(left == 0, "xdrain", "xdrain:epse", lambda: f"node {n.i}: {left} exchange messages still in escrow after the timeout")
        for n in self.nodes:
            n.armed = None
            self.die(n)
            self.absorb(n, "restart", died=True)


def make(prop):
    return Xchg(prop, FACETS[prop])
