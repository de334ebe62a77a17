"""Layer Q: queries for event logs, key state and mailboxes answered by nodes (validators and witnesses, each a real wallet with a responder)
while the events they ask about arrive late, partly witnessed or not at all.  Real Parser + Kevery + Habery/Hab + Respondant + Baser."""
import contextlib
import io
import os
import shutil
from types import SimpleNamespace

from core import rng_for
import kelworld as kw
from kelworld import Ident, RefNode, kdig, scratch_root, signer, verfers, wid, wpre
from scn import kel

FACETS = dict(
    Q01=("answer",),
    Q02=("asked", "qdurable", "qdrain"),
    Q03=("respond", "qinternal"),
)
PROFILE = dict(
    Q01=dict(w=dict(qry=4.0, rct=2.0, atk=0.6), crash=0.0, wits=0.8, own=0.8),
    Q02=dict(w=dict(qry=3.5, esc=2.5, tick=0.8), crash=0.5, wits=0.4, own=0.3),
    Q03=dict(w=dict(qry=3.5, rct=1.0), crash=0.2, wits=0.6, own=0.4),
)
XN = ("x0", "x1")
TIMEOUT = 300


class WRef(RefNode):
    """A node that is itself a witness accepts events of that identifier before the other witnesses signed them."""
    def why_not(self, ev, lax_wits=False):
        w = list(ev.wits)
        ks = self.ks.get(ev.pre)
        if not w and ks is not None:
            w = list(ks.wits)
        return RefNode.why_not(self, ev, lax_wits or bool(self.owned & set(w)))


class Qry:
    """One query as its author made it."""
    __slots__ = ("author", "serder", "said", "route", "pre", "src", "sn", "fn", "anchor", "topics", "raw", "v", "n", "kind")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)
        self.said = self.serder.said


class Query(kel.Kel):
    name = "queries over several nodes"
    components_real = ("keri.core eventing (Kevery.processQuery, processQueryNotFound), parsing, keri.app habbing (Habery, Hab.processCuesIter), "
                       "storing (Respondant), keri.db basing, subing, dbing (shipped source)",)
    rule = ("each run draws identifiers and the events they publish, nodes that validate or witness them, queries by transferable and "
            "non-transferable queriers for logs, key states and mailboxes (by sequence number, anchor or first-seen number, many before the "
            "events asked for arrive), a network that reorders, repeats and drops, and process crashes; non-trivial = a query was answered "
            "from escrow, by a witness or after a crash")
    probes = ("probe:replay", "probe:ksn", "probe:stream", "probe:from_escrow", "probe:unwitnessed_held", "probe:cloned", "probe:delegated",
              "probe:anchor", "probe:crash_inside")

    def setup(self):
        kel.Kel.setup(self)
        global eventing, parsing, basing, kering, lmdb, filing, CLOCK, coring, habbing, storing, pysodium, serdering, signing
        with contextlib.redirect_stdout(io.StringIO()):
            from keri.app import habbing, storing
            from keri.core import serdering, signing
            import pysodium
            import hashlib
        eventing, parsing, basing = kw.eventing, kw.parsing, kw.basing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring

        def quick(outlen, passwd, salt, opslimit, memlimit, alg=2):
            p = passwd.encode() if hasattr(passwd, "encode") else bytes(passwd)
            return hashlib.shake_256(b"%d|%d|%d|" % (outlen, opslimit, memlimit) + bytes(salt) + b"|" + p).digest(outlen)
        pysodium.crypto_pwhash = quick

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        nid, nn = rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2])
        idents = [dict(deleg=rng.randrange(i) if i and rng.random() < 0.5 else None, eo=0, dnd=0, r=rng.randrange(1 << 30),
                       code=rng.choice(["E", "E", "I"]), kind=rng.choice(["JSON", "JSON", "CBOR", "MGPK", "CESR"]), pv=rng.choice([1, 2]),
                       wit=int(rng.random() < prof["wits"])) for i in range(nid)]
        w = dict(rot=1.0, ixn=1.5, anc=1.6, rec=0.1, dlv=6.0, qry=3.0, qold=0.4, rct=0.8, atk=0.2, esc=1.5, tick=0.3, crash=0.0)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.7 else 0.0
        if rng.random() < 0.6:
            w.update(rec=0.0, atk=0.0)
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = []
        for _ in range(rng.choice([12, 20, 35]) if tier == "quick" else rng.choice([15, 30, 60])):
            k = rng.choices(names, cum)[0]
            n, i, r = rng.randrange(nn), rng.randrange(nid), rng.randrange(1 << 30)
            if k in ("rot", "ixn", "anc", "rec"):
                ops.append([k, i, r])
            elif k == "dlv":
                ops.append(["dlv", n, r, rng.choices(["one", "dup", "drop", "batch"], [8, 1, 1, 4])[0]])
            elif k in ("rct", "atk", "qry"):
                ops.append([k, n, i, r])
            elif k == "qold":
                ops.append([k, n, r])
            elif k == "esc":
                ops.append(["esc", n])
            elif k == "tick":
                ops.append(["tick", rng.choice([1, 30, 100, 250, 301]), n, 0])
            elif k == "crash":
                ops.append(["crash", n, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 25)])
        own = [rng.randrange(kel.NW) if rng.random() < prof["own"] else None for _ in range(nn)]
        return dict(shape=dict(resp=rng.choice(["hab", "hab", "post"]), trans=rng.choice([1.0, 0.7, 0.4]), own=own), idents=idents, nodes=nn, once=0,
                    fifo=int(rng.random() < 0.5), ops=ops, end=rng.randrange(1 << 30))

    def execute(self, plan, ctx):
        root = scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        pysodium.reseed(plan["end"])
        run = _QRun(self, plan, ctx, root)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run.go()
        finally:
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _QRun(kel._Run):
    # ------------------------------------------------------------------ nodes
    def boot(self, n):
        self.cur = None
        n.hby = habbing.Habery(name=f"n{n.i}", base="", temp=False, headDirPath=os.path.join(self.root, f"n{n.i}"), salt=signing.Salter(raw=b"0123456789abcd%02d" % n.i).qb64,
                               tier="low", clear=False)
        n.db = n.hby.db
        n.hab = n.hby.habByName("srv") or n.hby.makeHab(name="srv", transferable=bool(self.plan["end"] % 3 == 0), icount=1, ncount=1)
        own = self.shape["own"][n.i] if n.i < len(self.shape["own"]) else None
        if own is not None:
            n.db.prefixes.add(wpre(wid(own)))
            n.ref.owned.add(wid(own))
        n.kvy = eventing.Kevery(db=n.db, lax=own is not None, local=False)
        n.psr = {v: parsing.Parser(framed=True, kvy=n.kvy, local=own is not None, version=x)
                 for v, x in ((1, kering.Vrsn_1_0), (2, kering.Vrsn_2_0))}
        n.errs = []
        for f in ("processEvent", "processReceipt", "processQuery"):
            self.spy(n, f)

    def die(self, n):
        self.cur = None
        for env in [e for e in (n.hby.db.env, n.hby.ks.env)]:
            lmdb.SIM.crash(env)
        n.hby.db.env = n.hby.ks.env = None
        self.boot(n)

    def act(self, n, fn, what):
        n.cues, n.sent = [], []
        if n.dead:
            return kel._Run.act(self, n, fn, what)
        died = kel._Run.act(self, n, fn, what)
        if not died:
            n.cues = list(n.kvy.cues)
            died = self.respond(n, what)
        else:
            n.cues = None
        return died

    def respond(self, n, what):
        """The node's responder turns what was cued into messages."""
        ctx, out = self.ctx, []
        n.errs = []
        if self.shape["resp"] == "hab":
            def go():
                for m in n.hab.processCuesIter(n.kvy.cues):
                    out.append(bytes(m))
        else:
            def go():
                rsp = storing.Respondant(hby=n.hby, cues=n.kvy.cues, mbx=SimpleNamespace())
                rsp.postman = SimpleNamespace(send=lambda dest=None, topic=None, serder=None, hab=None, attachment=None, **k:
                                              out.append((dest, topic, bytes(serder.raw) + bytes(attachment or b""))))
                g = rsp.cueDo(tymth=lambda: 0.0)
                next(g)
                for _ in range(3 * len(n.kvy.cues) + 2):
                    next(g)
                g.close()
        try:
            k0 = len(n.kvy.cues)
            died = kel._Run.act(self, n, go, f"answering {k0} cues after {what}")
        except Exception as ex:
            if isinstance(ex, AssertionError) or type(ex).__module__ == "core":
                raise
            self.cur = None
            died = False
            kin = sorted({c["kin"] for c in n.cues})
            tb = ex.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            ctx.fail("respond", f"respond:{type(ex).__name__}:{tb.tb_lineno}" if False else f"respond:{type(ex).__name__}",
                     f"node {n.i}: turning cues {kin} into messages raised {type(ex).__name__}: {ex}; after {what}")
            out = None
        n.kvy.cues.clear()
        n.sent = out
        return died

    # ------------------------------------------------------------------ queries
    def mkq(self, n, i, r):
        rng = rng_for("qry", r)
        ident = self.ids[i % len(self.ids)]
        author = rng.choice(self.ids) if rng.random() < self.shape["trans"] else rng.choice(XN)
        route = rng.choices(["logs", "ksn", "mbx"], [6, 3, 1])[0]
        pre = ident.pre if rng.random() < 0.95 else wpre("zz")
        src = n.hab.pre if rng.random() < 0.85 else wpre("x1")
        q = dict(i=pre, src=src)
        sn = fn = anchor = topics = None
        if route == "logs":
            k = rng.random()
            par = [d.deleg for d in self.ids if d.deleg is not None]
            if k >= 0.35 and k < 0.7 and par and rng.random() < 0.6:
                ident = rng.choice(par)
                pre = q["i"] = ident.pre
            if k < 0.35:
                sn = max(0, ident.ks.sn + rng.choice([-1, 0, 0, 1, 2]))
                q["s"] = f"{sn:x}"
            elif k < 0.7:
                c = [s for e in ident.all for s in e.seals]
                kids = [e for d in self.ids if d.deleg is ident for e in d.all]
                if c and rng.random() < 0.7:
                    anchor = rng.choice(c)
                elif kids:
                    e = rng.choice(kids)
                    anchor = (e.pre, e.sn, e.said)
                else:
                    e = rng.choice(rng.choice(self.ids).all)
                    anchor = (e.pre, e.sn, e.said)
                q["a"] = dict(i=anchor[0], s=f"{anchor[1]:x}", d=anchor[2])
                if rng.random() < 0.2:
                    sn = rng.randrange(3)
                    q["s"] = f"{sn:x}"
            if rng.random() < 0.25:
                fn = rng.randrange(4)
                q["fn"] = f"{fn:x}"
        elif route == "mbx":
            topics = {"/receipt": rng.randrange(5), "/replay": 0}
            q["topics"] = topics
        v = rng.choice([1, 2])
        kind = rng.choice(["JSON", "CBOR", "MGPK"] + (["CESR"] if v == 2 and route != "mbx" else []))
        self.fresh += 1
        apre = author.pre if isinstance(author, Ident) else wpre(author)
        ver = kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0
        s = eventing.query(pre=apre, route=route, query=q, stamp=f"2026-01-01T00:00:{self.fresh % 60:02d}.{self.fresh:06d}+00:00",
                           pvrsn=ver, gvrsn=ver, kind=kind)
        if isinstance(author, Ident):
            est = author.ks.lest
            sg = [signer(k, est.trans).sign(s.raw, index=j) for j, k in enumerate(est.keys)]
            raw = eventing.messagize(s, lsgs=[(coring.Prefixer(qb64=apre), sg)], framed=True, gvrsn=ver)
        else:
            raw = eventing.messagize(s, cigars=[signer(author, False).sign(s.raw)], framed=True, gvrsn=ver)
        return Qry(author=apre, serder=s, route=route, pre=pre, src=src, sn=sn, fn=fn or 0, anchor=anchor, topics=topics, raw=bytes(raw), v=v, n=n.i, kind=kind)

    def full(self, n, ev):
        """Every needed witness of ev signed it, and the node has those signatures."""
        got = set()
        for w in n.db.wigs.get(keys=(ev.pre, ev.said)):
            if w.index < len(ev.wits) and ev.wig(ev.wits[w.index], w.index).raw == w.raw:
                got.add(w.index)
        return len(got) >= ev.toad

    def met(self, n, q):
        ks = n.ref.ks.get(q.pre)
        if ks is None:
            return False
        if q.route == "mbx":
            return True
        if q.route == "ksn":
            return self.full(n, ks.ev)
        if q.anchor is not None:
            return any(tuple(s) == q.anchor and self.full(n, e) for e in n.ref.acc[q.pre] for s in e.seals)
        if q.sn is not None:
            return ks.sn >= q.sn and self.full(n, ks.ev)
        return True

    def expect(self, n, q):
        """What the answer must say, as one comparable value; None when there is nothing to say."""
        if q.route == "mbx":
            return ("stream", q.pre, q.src, tuple(sorted(q.topics.items())), q.said)
        ks = n.ref.ks[q.pre]
        if q.route == "ksn":
            return ("reply", q.pre, q.src, q.author, ks.said)
        out = [e.said for e in n.ref.acc[q.pre]][q.fn:]
        if ks.delpre and ks.delpre in n.ref.ks:
            out += [e.said for e in n.ref.acc[ks.delpre]]
        return ("replay", q.pre, q.src, q.author, tuple(out)) if out else None

    def sane(self, n, pre, q=None):
        ks = n.ref.ks.get(pre)
        if q is not None and ks is not None and q.route == "ksn" and q.kind == "CESR":
            if "{" in str([ks.lest.serder.tholder.sith, ks.lest.serder.ntholder.sith if ks.nexts else ""]):
                return False        # nested weights have no native map form
        return (n.i, pre) not in self.bad and not (ks is not None and ks.delpre and (n.i, ks.delpre) in self.bad)

    def escrowed(self, n):
        return {(k[0], k[1]) for k, _ in n.db.qnfs.getTopItemIter()}

    def ask(self, n, q, what):
        ctx = self.ctx
        ctx.ev("ask", n.i, q.said, q.route)
        what = f"{what} {q.route} query {q.said[:8]} for {q.pre[:6]} s={q.sn} fn={q.fn} a={q.anchor} by {q.author[:6]} to node {n.i}"
        if ctx.log is not None:
            ctx.log.append(what)
        known = self.sane(n, q.pre, q)
        ok = known and self.met(n, q)
        want = self.expect(n, q) if ok else None
        died = self.act(n, lambda: n.psr[q.v].parse(ims=bytearray(q.raw)), what)
        if died or n.dead:
            self.resync(n)
            return died
        self.judge(n, [(q, want)] if ok and want else [], what, known)
        if not known:
            self.resync(n)
            return died
        key = (q.author, q.said)
        held = self.escrowed(n)
        if not ok:
            ctx.check(key in held, "asked", f"asked:dropped:{q.route}:{'trans' if q.author[0] not in 'B1' else 'nontrans'}",
                      lambda: f"node {n.i} can not answer yet and did not keep it for later: {what}")
            if key in held:
                if key not in n.qesc:
                    n.qesc[key] = [q, CLOCK.t]
                ctx.hit("probe:held")
                ks = n.ref.ks.get(q.pre)
                if ks is not None and ks.sn >= (q.sn or 0) and q.anchor is None:
                    ctx.hit("probe:unwitnessed_held")
        else:
            for k in list(n.qesc):
                if k not in held:
                    n.qesc.pop(k)
        return died

    def resync(self, n):
        """The node died or is no longer followed: keep watching only what it still holds."""
        held = self.escrowed(n)
        for k in list(n.qesc):
            if k not in held:
                n.qesc.pop(k)
        for k in held:
            if k not in n.qesc:
                q = self.qs.get(k[1])
                if q is not None:
                    n.qesc[k] = [q, None]

    def judge(self, n, pairs, what, known=True):
        """Compare what was cued with the answers due: pairs of (query, expected)."""
        ctx = self.ctx
        if n.cues is None:
            return
        got = []
        for c in n.cues:
            if c["kin"] == "replay":
                ss = []
                for m in c["msgs"]:
                    try:
                        ss.append(serdering.SerderKERI(raw=bytes(m)).said)
                    except Exception as ex:
                        ctx.fail("answer", "answer:garbled", f"node {n.i} cued an unreadable message {bytes(m)[:60]}: {ex}; after {what}")
                got.append(("replay", c["pre"], c["src"], c["dest"], tuple(ss)))
            elif c["kin"] == "reply" and "serder" in c:
                a = c["serder"].ked["a"]
                got.append(("reply", a["i"], c["src"], c["dest"], a["d"]))
                self.check_ksn(n, c, a, what)
            elif c["kin"] == "stream":
                got.append(("stream", c["pre"], c["src"], tuple(sorted(c["topics"].items())), c["serder"].said))
        want = [w for _, w in pairs]
        if not known:
            return
        ctx.hit("answers", len(got))
        for g in got:
            if g in want:
                want.remove(g)
                ctx.hit("probe:" + dict(replay="replay", reply="ksn", stream="stream")[g[0]])
            else:
                near = [w for w in want if w[:3] == g[:3]]
                if near and g[0] == "replay" and near[0][3] == g[3]:
                    sig = "log"
                elif near:
                    sig = "dest" if near[0][4:] == g[4:] else "content"
                else:
                    sig = "unmet"
                ctx.fail("answer", f"answer:{sig}:{g[0]}", f"node {n.i} answered {g}"
                         f"{', expected ' + str(near[0]) if near else ' though no such query is answerable now'}; after {what}")
                for w in near[:1]:
                    want.remove(w)
        for w in want:
            ctx.fail("asked", f"asked:silent:{w[0]}", f"node {n.i} has all a query needs but did not answer it: due {w}; after {what}")
        self.check_sent(n, got, what)

    def check_ksn(self, n, c, a, what):
        ctx = self.ctx
        ks = n.ref.ks.get(a["i"])
        if ks is None or not self.sane(n, a["i"]):
            return
        le = ks.lest
        want = dict(i=a["i"], s=f"{ks.sn:x}", p=ks.ev.prior.said if ks.ev.prior is not None else "", d=ks.said, f=f"{len(n.seen[a['i']]) - 1:x}",
                    et=ks.ev.ilk, kt=le.serder.tholder.sith, k=verfers(ks.keys, le.trans), nt=le.serder.ntholder.sith if ks.nexts else "0",
                    n=[kdig(x) for x in ks.nexts], bt=f"{ks.toad:x}", b=[wpre(w) for w in ks.wits],
                    c=(["EO"] if ks.eo else []) + (["DND"] if ks.dnd else []), di=ks.delpre or "")
        bad = [f for f in want if a.get(f) != want[f]]
        ee = a["ee"]
        ee = dict(zip(("s", "d", "br", "ba"), ee)) if isinstance(ee, (list, tuple)) else ee
        if (ee["s"], ee["d"]) != (f"{le.sn:x}", le.said):
            bad.append("ee")
        if list(ee["br"]) != [wpre(w) for w in le.cuts] or list(ee["ba"]) != [wpre(w) for w in le.adds or (le.wits if le.sn == 0 else [])]:
            if le.sn or list(ee["br"]):
                bad.append("ee.b")
        ctx.check(not bad, "answer", f"answer:state:{','.join(bad)}",
                  lambda: f"node {n.i} key state answer differs: " + "; ".join(f"{f}={a.get(f)} expected {want.get(f)}" for f in bad) + f"; after {what}")

    def check_sent(self, n, got, what):
        """What left the node: complete, signed by it, usable by someone who had nothing."""
        ctx = self.ctx
        if n.sent is None:
            return
        if self.shape["resp"] == "post":
            out = {}
            for dest, topic, raw in n.sent:
                if topic in ("replay", "reply"):
                    out.setdefault((topic, dest), []).append(raw)
            due = {}
            for g in got:
                if g[0] in ("replay", "reply") and g[2] == n.hab.pre and g[3] in n.db.kevers:
                    due.setdefault((g[0], g[3]), []).extend(g[4] if g[0] == "replay" else [g[4]])
            for k, saids in due.items():
                have = []
                for raw in out.get(k, ()):
                    s = serdering.SerderKERI(raw=bytes(raw))
                    have.append(s.said if k[0] == "replay" else s.ked["a"]["d"])
                ctx.check(have == saids, "respond", f"respond:post:{k[0]}", lambda: f"node {n.i} sent {k[1]} {k[0]}s {have}, due {saids}; after {what}")
            for k in out:
                ctx.check(k in due, "respond", "respond:post:stray", lambda: f"node {n.i} sent {k} that nobody asked for; after {what}")
            for k, raws in out.items():
                if k[0] == "reply":
                    for raw in raws:
                        self.check_reply(n, raw, what)
            return
        raws = [m for m in n.sent]
        for g in got:
            if g[0] == "reply":
                mine = [m for m in raws if self.reply_of(m) == g[4]]
                ctx.check(bool(mine), "respond", "respond:hab:reply", lambda: f"node {n.i} cued a key state reply but sent none; after {what}")
                for m in mine:
                    self.check_reply(n, m, what)
            elif g[0] == "replay":
                want = [b"".join(bytes(x) for x in c["msgs"]) for c in n.cues if c["kin"] == "replay" and c["pre"] == g[1] and c["dest"] == g[3]
                        and tuple(serdering.SerderKERI(raw=bytes(x)).said for x in c["msgs"]) == g[4]]
                mine = [m for m in raws if m in want]
                ctx.check(bool(mine), "respond", "respond:hab:replay", lambda: f"node {n.i} cued a replay but did not send it; after {what}")
                if self.nclone < 4:
                    for m in mine[:1]:
                        self.fresh_clone(n, g, m, what)

    def reply_of(self, m):
        try:
            s = serdering.SerderKERI(raw=bytes(m))
            return s.ked["a"]["d"] if s.ilk == "rpy" else None
        except Exception:
            return None

    def check_reply(self, n, raw, what):
        ctx, got = self.ctx, []
        rvy = SimpleNamespace(processReply=lambda **k: got.append(k))
        s = serdering.SerderKERI(raw=bytes(raw))
        parsing.Parser(framed=True, kvy=n.kvy, rvy=rvy, version=kering.Vrsn_1_0 if s.pvrsn.major == 1 else kering.Vrsn_2_0).parse(ims=bytearray(raw))
        ok = len(got) == 1 and got[0]["serder"].said == s.said
        if ok:
            k = got[0]
            ok = any(c.verfer.qb64 == n.hab.pre and c.verfer.verify(c.raw, s.raw) for c in k.get("cigars") or [])
            for p, sn, d, sg in k.get("tsgs") or []:
                ok = ok or (p.qb64 == n.hab.pre and d.qb64 == n.hab.kever.lastEst.d and sg and
                            n.hab.kever.verfers[sg[0].index].verify(sg[0].raw, s.raw))
        ctx.check(ok, "respond", "respond:unsigned", lambda: f"node {n.i} sent a key state reply that does not carry its signature; after {what}")

    def fresh_clone(self, n, g, raw, what):
        """Someone who knows nothing parses the answer and must end up where the node is."""
        ctx, pre = self.ctx, g[1]
        ks = n.ref.ks.get(pre)
        evs = n.ref.acc[pre]
        if g[4][:1] != (evs[0].said,) or any(i.recovered or i.drec or i.duplicitous for i in self.ids):
            return
        dk = n.ref.ks.get(ks.delpre) if ks.delpre else None
        if ks.delpre and (dk is None or dk.delpre):
            return
        devs = n.ref.acc[ks.delpre] if dk else []
        if not all(self.full(n, e) for e in list(evs) + list(devs)):
            return
        if any((n.i, e.said) in self.odd for e in list(evs) + list(devs)):
            return
        if ks.delpre and any((ks.delpre, e.pre, e.sn, e.said) not in n.ref.seals for e in evs if e.ilk in ("dip", "drt")):
            return
        if len({e.ident.shape["pv"] for e in list(evs) + list(devs)}) > 1:
            return
        self.nclone += 1
        db = basing.Baser(name=f"c{self.nclone}", base="", temp=False, headDirPath=os.path.join(self.root, f"c{self.nclone}"), reopen=True)
        try:
            kvy = eventing.Kevery(db=db, lax=False, local=False)
            parsing.Parser(framed=False, kvy=kvy, local=False, version=kering.Vrsn_1_0 if evs[0].ident.shape["pv"] == 1 else kering.Vrsn_2_0).parse(
                ims=bytearray(raw))
            for _ in range(2 + len(evs)):
                kvy.processEscrows()
            k = db.kevers.get(pre)
            ctx.check(k is not None and k.serder.said == ks.said, "answer", "answer:unusable",
                      lambda: f"a newcomer that parsed node {n.i}'s answer holds {pre} at {(k.sner.num, k.serder.said) if k else None}, the node at "
                      f"{ks.sn} {ks.said}; after {what}")
            ctx.hit("probe:cloned")
            if dk:
                ctx.hit("probe:delegated")
        finally:
            lmdb.SIM.crash(db.env)
            db.env = None

    # ------------------------------------------------------------------ ops
    def absorb(self, n, what, died=False, full=False):
        kel._Run.absorb(self, n, what, died, full)
        if died and n.qesc:
            held = self.escrowed(n)
            for k, (q, t) in list(n.qesc.items()):
                if k not in held:
                    self.ctx.check(not (self.sane(n, q.pre, q) and not self.met(n, q) and t is not None and CLOCK.t - t < TIMEOUT), "qdurable",
                                   "qdurable:lost", lambda: f"node {n.i} lost query {q.said} it was keeping; after {what}")
                    n.qesc.pop(k)

    def deliver(self, n, m, rng):
        died = kel._Run.deliver(self, n, m, rng)
        if not died and n.cues is not None:
            self.judge(n, [], f"delivery to node {n.i}")
        return died

    def escrows(self, n):
        """One pass over the escrows: what becomes answerable is answered now or in the next pass."""
        ctx = self.ctx
        before = {k: (q, t) for k, (q, t) in n.qesc.items()}
        pre = {k: self.met(n, q) for k, (q, t) in before.items() if self.sane(n, q.pre, q)}
        died = kel._Run.escrows(self, n)
        if died:
            self.resync(n)
            return died
        held = self.escrowed(n)
        pairs, exact = [], True
        for k, (q, t) in before.items():
            if t is None or not self.sane(n, q.pre, q) or CLOCK.t - t > TIMEOUT:
                if k in held and t is not None and CLOCK.t - t > TIMEOUT and self.sane(n, q.pre, q):
                    ctx.fail("qdrain", "qdrain:stale", f"node {n.i} still keeps query {q.said} {CLOCK.t - t} s after it came")
                if t is None or not self.sane(n, q.pre, q):
                    exact = False
                if k not in held:
                    n.qesc.pop(k, None)
                continue
            now = self.met(n, q)
            if k not in held:
                n.qesc.pop(k, None)
                if now:
                    w = self.expect(n, q)
                    if w:
                        pairs.append((q, w))
                    ctx.hit("probe:from_escrow")
                    ctx.hit("nontrivial")
                    if q.anchor:
                        ctx.hit("probe:anchor")
                else:
                    ctx.fail("asked", "asked:given_up", f"node {n.i} gave up query {q.said} for {q.pre} (s={q.sn} a={q.anchor}) {CLOCK.t - t} s after it came")
            elif pre.get(k):
                ctx.fail("asked", f"asked:stuck:{q.route}", f"node {n.i} keeps query {q.said} for {q.pre} (s={q.sn} a={q.anchor}) though it can answer it")
        self.judge(n, pairs, f"escrow pass on node {n.i}", known=exact)
        return died

    def one(self, op):
        ctx, k = self.ctx, op[0]
        if k not in ("qry", "qold"):
            return kel._Run.one(self, op)
        ctx.hit("op:" + k)
        n = self.nodes[op[1] % len(self.nodes)]
        if k == "qry":
            q = self.mkq(n, op[2], op[3])
            self.qs[q.said] = q
            if self.ask(n, q, "first"):
                self.ask(n, q, "resent")
        else:
            rng = rng_for("qold", op[2])
            c = [q for q in self.qs.values() if q.n == n.i]
            if c:
                ctx.hit("fault:duplicate")
                self.ask(n, rng.choice(c), "repeated")

    def go(self):
        self.shape = self.plan["shape"]
        self.qs, self.nclone = {}, 0
        for n in self.nodes:
            n.qesc, n.cues, n.sent, n.dead = {}, [], [], False
            n.ref = WRef(None)
        kel._Run.go(self)

    def final(self):
        ctx, plan = self.ctx, self.plan
        rng = rng_for("end", plan["end"])
        self.healing = True
        for n in self.nodes:
            n.armed = None
            for m in n.q:
                self.deliver(n, m, rng)
            n.q = []
            for _ in range(2):
                for ident in self.ids:
                    for ev in ident.chain:
                        self.deliver(n, kel.Msg(ev, sigs=self.sigs_of(ev), wigs=list(ev.wits), bond=(ev.anchor.sn, ev.anchor.said) if ev.anchor else None), rng)
                for _ in range(3):
                    self.escrows(n)
            for i, ident in enumerate(self.ids):
                for j in range(3):
                    q = self.mkq(n, i, rng.randrange(1 << 30))
                    self.qs[q.said] = q
                    self.ask(n, q, "last")
            CLOCK.t += TIMEOUT + 5
            self.escrows(n)
            left = n.db.qnfs.cntAll()
            ctx.check(left == 0, "qdrain", "qdrain:left", lambda: f"node {n.i}: {left} queries still kept after the timeout")
        for n in self.nodes:
            self.die(n)
            self.absorb(n, "restart", died=True)


def make(prop):
    return Query(prop, FACETS[prop])
