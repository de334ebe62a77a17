"""Layer D: KRAM, the replay protection of requests: timeliness windows, message and exchange caches, partial multi-key
signatures, pruning, reconfiguration, receiver clock jumps, crashes.  Real Parser + Kevery + Kramer + Baser."""
import datetime
import os
import shutil

from core import rng_for
import kelworld as kw
from kelworld import Ev, kdig, junk_siger, signer, thr_ok, thr_sith, verfers, gen_thr
from scn import kel

FACETS = dict(
    M01=("replay",),
    M02=("auth", "timely"),
    M03=("accept", "forward", "internal"),
    M04=("drain",),
    M05=("replay", "config", "internal"),
)
PROFILE = dict(
    M01=dict(w=dict(again=6.0, prune=2.0, back=0.4), crash=0.2),
    M02=dict(w=dict(atk=3.0, rot=1.0), crash=0.5),
    M03=dict(w=dict(atk=1.0), crash=0.0),
    M04=dict(w=dict(prune=2.0, again=2.0), crash=0.6),
    M05=dict(w=dict(conf=1.2, again=6.0, prune=2.0), crash=0.0),
)
KINDS = ("qry", "qry", "exn", "xip", "exnx", "exnx", "pro", "bar", "rpy")
TABLES = ("kramMSGC", "kramTMSC", "kramPMKM", "kramPMKS", "kramPMSK", "kramTRQS", "kramTSGS", "kramSSCS", "kramSSTS", "kramFRCS",
          "kramTDCS", "kramPTDS", "kramBSQS", "kramBSSS", "kramTMQS")
EPS = 2.0       # ms


class Req:
    """One request as its author made it."""
    __slots__ = ("i", "sender", "serder", "said", "dt", "kind", "ilk", "route", "x", "anchors")

    def __init__(self, **k):
        self.anchors = []
        for a, b in k.items():
            setattr(self, a, b)
        self.said = self.serder.said


class Copy:
    """One delivery of a request: which attachments it carries."""
    __slots__ = ("req", "form", "est", "idx", "junk", "seal", "cig", "extra")

    def __init__(self, req, form=None, est=None, idx=(), junk=(), seal=None, cig=None, extra=None):
        self.req, self.form, self.est, self.idx, self.junk, self.seal, self.cig, self.extra = req, form, est, list(idx), list(junk), seal, cig, extra


class Conf:
    def __init__(self, d):
        self.d = d

    def get(self):
        return self.d


def mkcache(rng):
    """(d, sl, ll, xl, psl, pll, pxl) in ms."""
    d = rng.choice([0, 100, 1000, 1000, 5000])
    sl = rng.choice([500, 1000, 3000])
    ll = sl + rng.choice([0, 1000, 8000])
    xl = ll + rng.choice([0, 2000, 20000])
    return [d, sl, ll, xl, sl + rng.choice([0, 0, 500, 4000]), ll + rng.choice([0, 0, 500, 4000]), xl + rng.choice([0, 0, 500, 4000])]


def mkconf(rng, base=None):
    caches = {"~": mkcache(rng)}
    for k in ("qry", "qry.R.ksn", "exn", "exn.R./a/b", "xip", "rpy"):
        if rng.random() < 0.2:
            caches[k] = mkcache(rng)
    return caches


class Kram(kel.Kel):
    name = "request replay protection"
    components_real = ("keri.core kraming (Kramer), parsing, eventing (Kevery, message makers), serdering, coring, indexing",
                       "keri.db basing, subing, koming, dbing (shipped source from /repo/src)")
    rule = ("each run draws senders (single, multi and non-transferable keys) that rotate, windows, requests stamped in, at and outside "
            "the windows, how often and with which attachments each is delivered, receiver clock jumps, prune passes, window "
            "changes and process crashes; non-trivial = a request accepted before was delivered again, or was completed from parts")
    probes = ("probe:accepted", "probe:replayed", "probe:completed", "probe:stale", "probe:pruned", "probe:crash_inside")

    def setup(self):
        kel.Kel.setup(self)
        global eventing, parsing, basing, kraming, kering, lmdb, filing, CLOCK, coring, helping, BASE, exchangeOld, structing
        from keri.core import kraming
        from keri.core import structing
        from keri.help import helping
        from keri.peer.exchanging import exchangeOld
        from simclock import BASE
        import simclock
        simclock.install()
        eventing, parsing, basing = kw.eventing, kw.parsing, kw.basing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        nid = rng.choice([1, 1, 2])
        idents = [dict(deleg=None, eo=0, dnd=0, r=rng.randrange(1 << 30), code="E", kind=rng.choice(["JSON", "CESR"]), pv=2, wit=0,
                       nt=int(rng.random() < 0.12), n=rng.choice([1, 1, 2, 3, 3])) for _ in range(nid)]
        w = dict(rot=0.4, ixn=0.3, dlv=1.5, req=3.0, send=6.0, again=2.0, atk=0.6, prune=0.8, tick=2.0, back=0.15, seal=0.9, crash=0.0,
                 restart=0.2, conf=0.0)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.7 else 0.0
        if self.prop == "M05":
            w["restart"] = 0.0
            w["back"] = 0.0
        for f in ("back", "rot", "atk", "prune"):
            if rng.random() < 0.3:
                w[f] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = []
        for _ in range(rng.choice([12, 25, 40, 60]) if tier == "quick" else rng.choice([15, 30, 60, 120])):
            k = rng.choices(names, cum)[0]
            i, r = rng.randrange(nid), rng.randrange(1 << 30)
            if k in ("rot", "ixn"):
                ops.append([k, i, r])
            elif k == "dlv":
                ops.append(["kel"])
            elif k in ("req", "send", "again", "atk", "seal", "conf"):
                ops.append([k, r])
            elif k == "tick":
                ops.append(["wait", rng.choice([1, 50, 200, 700, 1500, 4000, 12000])])
            elif k == "back":
                ops.append(["jump", rng.choice([-20000, -3000, -800, 1500, 9000])])
            elif k in ("prune", "restart"):
                ops.append([k])
            elif k == "crash":
                ops.append(["crash", 0, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 16)])
        caches = mkconf(rng)
        denials = []
        if rng.random() < 0.15:
            denials.append([[2, 0], rng.choice(["qry", "pro", "exn"]), rng.choice(["", "/a/b"])])
        return dict(idents=idents, nodes=1, once=0, fifo=1, ops=ops, end=rng.randrange(1 << 30), caches=caches, denials=denials, retype=int(rng.random() < 0.1),
                    kinds=sorted({rng.choice(KINDS) for _ in range(rng.choice([1, 3, 8]))}))

    def shrinks(self, plan):
        if len(plan["idents"]) > 1:
            yield dict(plan, idents=plan["idents"][:-1])
        for k in list(plan["caches"]):
            if k != "~":
                yield dict(plan, caches={a: b for a, b in plan["caches"].items() if a != k})
        if plan["denials"]:
            yield dict(plan, denials=[])
        for i, d in enumerate(plan["idents"]):
            if d["n"] > 1:
                yield dict(plan, idents=plan["idents"][:i] + [dict(d, n=d["n"] - 1)] + plan["idents"][i + 1:])

    def execute(self, plan, ctx):
        root = kel.scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        run = _MRun(self, plan, ctx, root)
        try:
            run.go()
        finally:
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _MRun(kel._Run):
    # ------------------------------------------------------------------ senders
    def icp(self, ident, rng):
        sh = ident.shape
        n, trans = (1, False) if sh["nt"] else (sh["n"], True)
        keys = self.knew(ident, n)
        thr = gen_thr(rng, n)
        nexts = self.knew(ident, n) if trans else []
        nthr = gen_thr(rng, n) if trans else 0
        s = eventing.incept(keys=verfers(keys, trans), isith=thr_sith(thr), ndigs=[kdig(k) for k in nexts],
                            nsith=thr_sith(nthr) if trans else "0", toad=0, wits=[], cnfg=[],
                            code=coring.MtrDex.Blake3_256 if trans else None, **self.vk(ident))
        return Ev(ident=ident, sn=0, ilk=s.ilk, prior=None, serder=s, keys=keys, thr=thr, nexts=nexts, nthr=nthr, wits=[],
                  toad=0, cuts=[], adds=[], seals=[], delpre=None, trans=trans, ntrans=bool(nexts), eo=False, dnd=False)

    def enqueue(self, n, ev, rng):
        n.q.append(kel.Msg(ev, sigs=self.sigs_of(ev)))

    def mkreq(self, rng):
        plan = self.plan
        a = rng.choice(self.ids)
        kind = rng.choice(plan["kinds"] if rng.random() < 0.8 else KINDS)
        n = self.nodes[0]
        c = self.ctype(*self.ilkroute(kind))
        now = (CLOCK.t + n.skew) * 1000
        ago = rng.choice([0, 0, 0, 0, 5, c[1] - 5, c[1] + c[0] - 5, c[1] + c[0] + 50, c[2] + c[0] - 5, c[2] + c[0] + 50,
                          -c[0] + 5, -c[0] - 50, rng.randrange(0, 20000)])
        x = ""
        if kind == "exnx":
            xs = [q for q in self.reqs if q.kind == "xip" and q.sender is a]
            if not xs:
                kind = "xip"
            else:
                xq = rng.choice(xs[-3:])
                x = xq.said
                if rng.random() < 0.3:
                    ago = now - (xq.dt + rng.choice([0, c[3] - 5, c[3] + 50, -50, c[3]]))
        ilk, route = self.ilkroute(kind)
        self.fresh += 1
        dt = now - ago + self.fresh * 0.001
        stamp = helping.toIso8601(BASE + datetime.timedelta(milliseconds=dt))
        v2 = dict(version=kering.Vrsn_2_0, pvrsn=kering.Vrsn_2_0, kind="JSON")
        if kind == "qry":
            s = eventing.query(pre=a.pre, route=route, query=dict(i=a.pre, src=a.pre), stamp=stamp, **v2)
        elif kind == "exn1":
            r = exchangeOld(sender=a.pre, receiver="", route=route, attributes=dict(n=self.fresh), stamp=stamp,
                            version=kering.Vrsn_1_0, pvrsn=kering.Vrsn_1_0, kind="JSON")
            s = r[0] if isinstance(r, tuple) else r
        elif kind in ("exn", "exnx"):
            s = eventing.exchange(sender=a.pre, receiver=a.pre, xid=x, route=route, attributes=dict(n=self.fresh), stamp=stamp, **v2)
        elif kind == "xip":
            s = eventing.exchept(sender=a.pre, receiver=a.pre, route=route, stamp=stamp, **v2)
        elif kind == "pro":
            s = eventing.prod(pre=a.pre, route=route, query=dict(n=self.fresh), stamp=stamp, **v2)
        elif kind == "bar":
            s = eventing.bare(pre=a.pre, route=route, data=dict(n=self.fresh), stamp=stamp, **v2)
        else:
            s = eventing.reply(pre=a.pre, route=route, data=dict(cid=a.pre, oid=a.pre), stamp=stamp, **v2)
        q = Req(i=len(self.reqs), sender=a, serder=s, dt=dt, kind=kind, ilk=ilk, route=route, x=x if kind != "xip" else s.said)
        self.reqs.append(q)
        self.ctx.ev("req", kind, q.said)
        return q

    @staticmethod
    def ilkroute(kind):
        return {"qry": ("qry", "ksn"), "exn": ("exn", "/a/b"), "exn1": ("exn", "/a/b"), "exnx": ("exn", "/a/c"), "xip": ("xip", "/a/b"),
                "pro": ("pro", "/a/b"), "bar": ("bar", "/a/b"), "rpy": ("rpy", "/watcher/x/add")}[kind]

    def ctype(self, ilk, route, caches=None):
        c = self.conf["kram"]["caches"] if caches is None else caches
        for k in (f"{ilk}.R.{route}", ilk, "~"):
            if k in c:
                return c[k]
        return None

    def exempt(self, q):
        for (v, ilk, route) in self.plan["denials"]:
            if q.kind != "exn1" and ilk == q.ilk and q.route.startswith(route):
                return True
        return False

    # ------------------------------------------------------------------ node
    def boot(self, n):
        kel._Run.boot(self, n)
        n.kramer = kraming.Kramer(db=n.db, cf=Conf(self.conf), cues=n.kvy.cues)
        n.kvy.kramer = n.kramer
        n.got = []
        n.kerrs = []
        real = n.kramer.intake

        def intake(serder, kwa=None):
            try:
                r = real(serder, kwa)
            except kering.KeriError as ex:
                n.kerrs.append(ex)
                raise
            except lmdb.SimCrash:
                raise
            except Exception as ex:
                n.kerrs.append(ex)
                self.ctx.fail("internal", f"intake:{type(ex).__name__}", f"intake raised {type(ex).__name__}: {ex}")
                raise
            if r is not None:
                n.got.append((r.said, [s.index for s in (kwa or {}).get("sigers", [])], [s.raw for s in (kwa or {}).get("sigers", [])]))
            return r
        n.kramer.intake = intake

    def now(self, n):
        return (CLOCK.t + n.skew) * 1000

    def rsig(self, q, est, i):
        return signer(est.keys[i], est.trans).sign(q.serder.raw, index=i)

    # ------------------------------------------------------------------ delivery
    def send(self, n, c, what):
        ctx, q = self.ctx, c.req
        a = q.sender
        ks = n.ref.ks.get(a.pre)
        kwa, good, genuine = {}, set(), set()
        if c.form is not None:
            sg = []
            for i in c.idx:
                sg.append(self.rsig(q, c.est, i))
                genuine.add(i)
            for j in c.junk:
                sg.append(junk_siger(j[1], j[2]))
            if sg:
                if c.form == "tsgs":
                    kwa["tsgs"] = [(coring.Prefixer(qb64=a.pre), coring.Number(num=c.est.sn), coring.Diger(qb64=c.est.said), sg)]
                elif c.form == "lsgs":
                    kwa["lsgs"] = [(coring.Prefixer(qb64=a.pre), sg)]
                else:
                    kwa["sigers"] = sg
            if ks is not None and c.est is ks.lest:
                good = set(genuine)
        cigok = False
        if c.cig is not None:
            kwa["cigars"] = [signer(c.cig, False).sign(q.serder.raw)]
            cigok = not ks_trans(a) and c.cig == a.chain[0].keys[0] and ks is not None
        sealok = False
        if c.seal is not None:
            ev, form = c.seal
            num, dig = coring.Number(num=ev.sn), coring.Diger(qb64=ev.said)
            kwa["bonds"] = [structing.SealSource(s=num, d=dig)] if form == "sscs" else [
                structing.SealEvent(i=coring.Prefixer(qb64=a.pre), s=num, d=dig)]
            held = n.ref.at(a.pre, ev.sn)
            sealok = held is ev and ev in q.anchors
        if not kwa:
            return False
        ims = eventing.messagize(q.serder, gvrsn=kering.Vrsn_2_0, **kwa)
        key = q.said
        st = n.mem.setdefault(key, dict(open=None, acc=0, est=None, sigs=set(), shaky=False, amb=False))
        rdt0 = self.now(n)
        if ctx.log is not None:
            ctx.log.append(f"{what}: {q.kind}#{q.i} {q.said[:8]} age={rdt0 - q.dt:.1f}ms form={c.form} est={c.est.sn if c.est else None} idx={c.idx} "
                           f"junk={c.junk} seal={c.seal and (c.seal[0].sn, c.seal[1], sealok)} cig={c.cig} cur={ks and ks.lest.sn}")
        ctx.ev("send", q.said, c.form, c.idx, len(c.junk), c.seal is not None)
        n.got.clear()
        n.kerrs.clear()
        gotbox = n.got
        died = self.act(n, lambda: n.psr[2].parse(ims=bytearray(ims)), what)
        rdt1 = self.now(n)
        got = [g for g in gotbox if g[0] == q.said]
        if self.exempt(q):
            if not died:
                ctx.check(len(got) == 1, "accept", "accept:exempt", lambda: f"request {q.kind} {q.said} is exempt by configuration but was not passed on")
            return died
        multi = ks is not None and len(ks.lest.keys) > 1
        cf = self.ctype(q.ilk, q.route)
        ok = ks is not None and (sealok or cigok or thr_ok(ks.lest.thr, good))
        single = ks is not None and not multi and (bool(good) or cigok)
        any_ = sealok or cigok or bool(good)
        short = sealok or not multi

        def inwin(c2, slack):
            ml = c2[1] if short else c2[2]
            return rdt1 - c2[0] - ml - slack <= q.dt <= rdt0 + c2[0] + slack
        xok_may = xok_must = True
        if q.x and q.kind in ("exnx", "xip"):
            xq = next(r for r in self.reqs if r.said == q.x)
            xs = n.mem.get(q.x)
            if q.kind == "exnx":
                xok_may = xs is not None and xs["open"] is not None and xq.dt - EPS <= q.dt <= xq.dt + cf[3] + EPS
                xok_must = (xok_may and not xs["shaky"] and not xs["amb"] and xs["pruned"] == n.prunes and xq.dt + EPS <= q.dt <= xq.dt + cf[3] - EPS)
        timely_may = inwin(cf, EPS) and xok_may
        timely_must = inwin(cf, -EPS) and xok_must
        first = st["open"] is None
        before = set(st["sigs"])
        if died:
            st["shaky"] = True
        for g in got:
            ctx.hit("probe:accepted")
            ctx.ev("accepted", q.said)
            # authentic
            if sealok or cigok:
                auth = True
            elif ks is None:
                auth = False
            else:
                auth = thr_ok(ks.lest.thr, n.gsig.get((q.said, ks.lest.said), set()) | good)
            ctx.check(auth, "auth", f"auth:{'multi' if multi else 'single'}",
                      lambda: f"request {q.kind} {q.said} of {a.pre} was passed on without a satisfied current key threshold or a seal; {what}")
            # timely
            ctx.check(timely_may or (st["open"] is not None and multi) or self.prop5, "timely", f"timely:{q.kind}",
                      lambda: f"request {q.kind} {q.said} made {rdt0 - q.dt:.1f} ms ago (windows {cf}, {'short' if short else 'long'} lag) was "
                      f"passed on although it is not timely; {what}")
            if st["acc"]:
                if rdt1 < n.prunemax:
                    ctx.hit("probe:clock_behind_prune")
                elif not short and st["accest"] is not ks.lest and len(st["accest"].keys) == 1:
                    ctx.hit("probe:authorised_anew")     # the sender signed it again with the many keys it rotated to
                else:
                    ctx.fail("replay", f"replay:{'retyped' if self.retyped else 'grown' if self.grown(n, st) else q.kind if q.kind in ('xip', 'exnx') else 'msg'}"
                             f"{':multi' if multi and not self.retyped else ''}",
                             f"request {q.kind} {q.said} of {a.pre} was passed on {st['acc']} time(s) before and once more now, {rdt0 - q.dt:.1f} ms "
                             f"after it was made (windows {cf}); {what}")
            st["acc"] += 1
            st["accest"] = ks.lest if ks is not None else None
            if not first:
                ctx.hit("probe:completed")
                ctx.hit("nontrivial")
            # what is handed on must itself carry the authority
            if multi and not sealok and not cigok and ks is not None:
                have = {i for i, raw in zip(g[1], g[2]) if i < len(ks.lest.keys) and raw == self.rsig(q, ks.lest, i).raw}
                ctx.check(thr_ok(ks.lest.thr, have), "forward", "forward:sigs",
                          lambda: f"request {q.said} was passed on with signatures {sorted(have)} which do not satisfy {ks.lest.thr}; {what}")
        if st["acc"] and not got:
            ctx.hit("probe:replayed")
            ctx.hit("nontrivial")
        if got:
            st["accat"] = rdt1
        # must it have been passed on?
        if not died and not got and ks is not None and not self.prop5:
            must = False
            if first and ok and timely_must:
                must = True
            elif (not first and not st["shaky"] and not st["acc"] and multi and good and not sealok and st["est"] is ks.lest and
                  st["pruned"] == n.prunes and thr_ok(ks.lest.thr, before | good) and not st["amb"]):
                must = True
            if must:
                ctx.check(False, "accept", f"accept:{'first' if first else 'complete'}:{'seal' if sealok else c.form}",
                          lambda: f"request {q.kind} {q.said} of {a.pre} made {rdt0 - q.dt:.1f} ms ago (windows {cf}) is authentic, timely and new but was "
                          f"not passed on; {[repr(x)[:80] for x in n.kerrs]}; {what}")
        if not inwin(cf, EPS) and not got:
            ctx.hit("probe:stale")
        # what the node may now remember of it
        if ks is not None and good:
            n.gsig.setdefault((q.said, ks.lest.said), set()).update(good)
        if any_ and (timely_may or self.prop5) and first:
            st["open"] = rdt1
            st["est"] = ks.lest if ks is not None else None
            st["pruned"] = n.prunes
            st["conf"] = self.nconf
            st["sigs"] = set(good)
            st["amb"] = not timely_must
        elif st["open"] is not None and ks is not None and st["est"] is ks.lest and good:
            if st["pruned"] == n.prunes and not sealok:
                st["sigs"] |= good
        ctx.state((q.said[:6], st["acc"], len(st["sigs"]), n.prunes))
        return died

    def grown(self, n, st):
        """The windows grew by reconfiguration after the node first remembered the request."""
        return self.prop5 and st.get("conf", 0) < self.lastgrow

    # ------------------------------------------------------------------ ops
    def copy(self, q, rng, full=None):
        a = q.sender
        n = self.nodes[0]
        est = a.ks.lest
        if q.anchors and rng.random() < 0.5:
            seal = (rng.choice(q.anchors), rng.choice(["sscs", "ssts"]))
            if rng.random() < 0.7:
                return Copy(q, seal=seal)
        else:
            seal = None
        if not ks_trans(a) and rng.random() < 0.6:
            return Copy(q, cig=a.chain[0].keys[0], seal=seal)
        k = len(est.keys)
        idx = list(range(k))
        if k > 1 and not full and rng.random() < 0.55:
            idx = sorted(rng.sample(idx, rng.randint(1, k - 1)))
        junk = []
        if rng.random() < 0.1:
            junk.append(("sig", rng.randrange(k + 1), rng.randrange(99)))
        form = rng.choice(["lsgs", "lsgs", "tsgs", "sigers"])
        return Copy(q, form, est, idx, junk, seal)

    def attack(self, q, rng):
        """A stranger: junk signatures, old keys, seals of other things, stripped copies of what it saw."""
        a = q.sender
        ests = [e for e in a.chain if e.est]
        est = rng.choice(ests)
        k = len(est.keys)
        self.ctx.hit("op:attack")
        r = rng.random()
        form = rng.choice(["lsgs", "tsgs", "sigers"])
        if r < 0.3:
            return Copy(q, form, est, [], [("sig", i, rng.randrange(99)) for i in range(rng.randint(1, k))])
        if r < 0.55:
            return Copy(q, form, est, sorted(rng.sample(range(k), rng.randint(1, k))), [])
        ev = rng.choice(a.chain)
        if r < 0.75:
            return Copy(q, seal=(ev, rng.choice(["sscs", "ssts"])))
        if r < 0.9:
            return Copy(q, form, est, [rng.randrange(k)], [], (ev, rng.choice(["sscs", "ssts"])))
        return Copy(q, cig=rng.choice(["x0", "x1"]))

    def one(self, op):
        ctx, k = self.ctx, op[0]
        n = self.nodes[0]
        if k in ("rot", "ixn"):
            a = self.ids[op[1] % len(self.ids)]
            if not ks_trans(a):
                return
            ctx.hit("op:" + k)
            self.ops_make(k, op[1], op[2])
            return
        if k == "crash":
            return kel._Run.one(self, op)
        ctx.hit("op:" + k)
        if k == "kel":
            self.kel(n)
        elif k == "req":
            rng = rng_for("req", op[1])
            q = self.mkreq(rng)
            if rng.random() < 0.7:
                self.kel(n)
                self.deliver_copy(n, self.copy(q, rng), "request")
        elif k in ("send", "atk", "seal"):
            rng = rng_for(k, op[1])
            if not self.reqs:
                return
            q = rng.choice(self.reqs[-5:])
            if k == "seal":
                a = q.sender
                if not ks_trans(a):
                    return
                s = eventing.interact(pre=a.pre, dig=a.ks.said, sn=a.ks.sn + 1, data=[dict(d=q.said)], **self.vk(a))
                ev = Ev(ident=a, sn=a.ks.sn + 1, ilk="ixn", prior=a.ks.ev, serder=s, keys=a.ks.keys, thr=a.ks.thr, nexts=None, nthr=None,
                        wits=[], toad=0, cuts=[], adds=[], seals=[], delpre=None, trans=True, ntrans=True, eo=False, dnd=False)
                q.anchors.append(ev)
                self.publish(a, ev, rng)
                if rng.random() < 0.8:
                    self.kel(n)
                return
            self.deliver_copy(n, self.attack(q, rng) if k == "atk" else self.copy(q, rng), "attack" if k == "atk" else "request")
        elif k == "again":
            rng = rng_for("again", op[1])
            if not self.sent:
                return
            pool = self.sent[-12:]
            acc = [c for c in pool if n.mem.get(c.req.said, {}).get("acc")]
            c = rng.choice(acc if acc and rng.random() < 0.8 else pool)
            ctx.hit("fault:replay")
            if c.seal is not None and c.form is not None and rng.random() < 0.5:
                c = Copy(c.req, c.form, c.est, c.idx, c.junk)          # the attacker strips the seal
            self.send(n, c, "replayed request")
        elif k == "wait":
            CLOCK.t += op[1] / 1000
            ctx.ev("wait", op[1])
        elif k == "jump":
            n.skew += op[1] / 1000
            ctx.hit("fault:clock_jump")
            ctx.ev("jump", op[1])
        elif k == "prune":
            self.prune(n)
        elif k == "restart":
            self.die(n)
            ctx.hit("fault:restart")
        elif k == "conf":
            self.reconf(n, rng_for("conf", op[1]))

    def deliver_copy(self, n, c, what):
        self.sent.append(c)
        if self.send(n, c, what):
            self.send(n, c, what + " once more")

    def kel(self, n):
        while n.q:
            m = n.q[0]
            if not self.deliver(n, m, rng_for("kel", m.ev.said)):
                n.q.pop(0)

    def prune(self, n):
        ctx = self.ctx
        now = self.now(n)
        n.prunes += 1
        n.prunemax = max(n.prunemax, now)
        ctx.ev("prune", now)
        before = self.count(n)
        box = []

        def go():
            ms = int(helping.nowUTC().timestamp() * 1000)
            box.append(n.kramer._pruneMessages(rdt_ms=ms))
            box.append(n.kramer._pruneExchanges(rdt_ms=ms))
        died = self.act(n, go, "prune")
        after = self.count(n)
        if after < before:
            ctx.hit("probe:pruned")
        return died

    def count(self, n):
        return sum(getattr(n.db, t).cntAll() for t in TABLES)

    def reconf(self, n, rng):
        """The operator changes windows while the node runs."""
        ctx = self.ctx
        old = self.conf["kram"]["caches"]
        new = {k: list(v) for k, v in old.items()}
        r = rng.random()
        if r < 0.35:                      # shrink
            k = rng.choice(sorted(new))
            c = new[k]
            f = rng.choice([0.5, 0.8])
            new[k] = [c[0]] + [max(1, int(x * f)) for x in c[1:]]
        elif r < 0.7:                     # grow
            k = rng.choice(sorted(new))
            c = new[k]
            f = rng.choice([1.5, 3])
            new[k] = [c[0]] + [int(x * f) for x in c[1:]]
        elif not self.plan["retype"]:
            k = "~"
            if r > 0.95:
                del new[k]                # leaves a hole
        elif r < 0.85:
            k = rng.choice(["qry", "exn", "xip", "qry.R.ksn", "exn.R./a/c"])
            new[k] = mkcache(rng)
        else:
            k = rng.choice(sorted(new))
            del new[k]
        bad = rng.random() < 0.15 and bool(new)
        if bad:
            k = rng.choice(sorted(new))
            new[k] = list(new[k])
            j = rng.choice([0, 1, 4])
            new[k][j] = {0: -1, 1: new[k][2] + 1, 4: new[k][1] - 1}[j]
        cfg = {"kram": {"enabled": True, "denials": self.plan["denials"], "caches": new}}
        over = rng.choice([None, None, None, 30000])
        pins = {tuple(k): v for k, v in n.db.kramCTYP.getTopItemIter()}
        covers = all(any(self.covers(b, a) for b in new) for a in old)
        grew = any(k not in old or any(x > y for x, y in zip(v[:4], old[k][:4])) for k, v in new.items()) or set(old) - set(new)
        ctx.ev("reconf", new, over)
        if ctx.log is not None:
            ctx.log.append(f"reconfigure {old} -> {new} override {over}")
        box = []

        def go():
            try:
                n.kramer.changeConfig(Conf(cfg), over)
                box.append(None)
            except kering.KeriError as ex:
                box.append(ex)
            except lmdb.SimCrash:
                raise
            except Exception as ex:
                ctx.fail("internal", f"changeConfig:{type(ex).__name__}", f"changeConfig raised {type(ex).__name__}: {ex} going from {old} to {new}")
                box.append(ex)
        self.act(n, go, "reconfigure")
        ex = box[0] if box else None
        if bad or not covers:
            now = {tuple(k): v for k, v in n.db.kramCTYP.getTopItemIter()}
            ctx.check(ex is not None, "config", "config:accepted-bad", lambda: f"changeConfig accepted {'an invalid window' if bad else 'a coverage hole'}: "
                      f"{old} -> {new}")
            ctx.check(now == pins, "config", "config:rejected-applied", lambda: f"a rejected configuration changed windows from {pins} to {now}")
            if ex is not None:
                return
        else:
            ctx.check(ex is None, "config", "config:refused", lambda: f"changeConfig refused a valid change {old} -> {new}: {ex!r}")
            if ex is not None:
                return
        self.conf = cfg
        self.nconf += 1
        self.retyped |= set(old) != set(new)
        if grew:
            self.lastgrow = self.nconf
        ctx.hit("op:reconfigured")
        self.settled = max(self.settled, self.now(n) + (over or 0) + 200000)
        held = {k[0] if len(k) == 1 else ".".join(k) for k, _ in n.db.kramCTYP.getTopItemIter()}
        ctx.check(held == set(new), "config", "config:types", lambda: f"after reconfiguration to {sorted(new)} the node holds windows for {sorted(held)}")
        for k, rec in n.db.kramCTYP.getTopItemIter():
            ctx.check(rec.psl >= rec.sl and rec.pll >= rec.ll and rec.pxl >= rec.xl, "config", "config:prune-below-accept",
                      lambda: f"windows of {k} after reconfiguration prune before they refuse: {rec}")

    @staticmethod
    def covers(b, a):
        def pat(k):
            if k == "~":
                return None, None
            t, _, r = k.partition(".R.")
            return t, r or None
        (bt, br), (at, ar) = pat(b), pat(a)
        return (bt is None or bt == at) and (br is None or br == ar)

    def go(self):
        self.reqs, self.sent = [], []
        self.nconf = self.lastgrow = 0
        self.retyped = False
        self.settled = 0
        self.prop5 = self.scn.prop == "M05"
        self.conf = {"kram": {"enabled": True, "denials": [list(d) for d in self.plan["denials"]], "caches": self.plan["caches"]}}
        for n in self.nodes:
            n.mem, n.gsig, n.prunes, n.prunemax = {}, {}, 0, -1e18
        kel._Run.go(self)

    # ------------------------------------------------------------------ end
    def final(self):
        ctx, n = self.ctx, self.nodes[0]
        n.armed = None
        if self.prop5 and self.nconf:
            CLOCK.t += 20000
            n.kramer.reconcileConfig()
            want = self.conf["kram"]["caches"]
            for k, c in want.items():
                rec = n.db.kramCTYP.get(k)
                ctx.check(rec is not None and [rec.sl, rec.ll, rec.xl] == c[1:4] and rec.psl >= rec.sl and rec.pll >= rec.ll and
                          rec.pxl >= rec.xl, "config", "config:never-applied",
                          lambda: f"long after reconfiguration the windows of {k} are {rec}, configured {c}")
        # everything the node remembers is forgotten once it can no longer matter
        for c in list(self.sent)[-20:]:
            self.send(n, c, "late replay")
        CLOCK.t += 40000
        if n.skew < 0:
            n.skew = 0.0
        for _ in range(2):
            self.prune(n)
        for t in TABLES:
            left = getattr(n.db, t).cntAll()
            ctx.check(left == 0, "drain", f"drain:{t}", lambda: f"{left} entries of {t} remain although every window passed long ago")
        for c in list(self.sent)[-20:]:
            self.send(n, c, "very late replay")


def ks_trans(a):
    return a.chain[0].trans


def make(prop):
    return Kram(prop, FACETS[prop])
