"""Layer C: reply messages (endpoint roles, endpoint locations, watched identifiers) on several nodes: best available
data acceptance, escrow of partly signed or early replies, crash and replay.  Real Parser + Revery + Kevery + Baser."""
import datetime
import os
import shutil

from core import rng_for
import kelworld as kw
from kelworld import Ident, kdig, junk_siger, signer, thr_ok, verfers
from scn import kel

FACETS = dict(
    R01=("auth", "evidence"),
    R02=("bada", "accept"),
    R03=("record", "converge", "internal"),
    R04=("drain", "orphan"),
)
PROFILE = dict(
    R01=dict(w=dict(ratk=3.0), crash=0.1),
    R02=dict(w=dict(resign=1.5, ratk=1.5), crash=0.4),
    R03=dict(w=dict(), crash=0.5, once=0.5),
    R04=dict(w=dict(tick=1.5, resc=3.0), crash=0.0, quiet=1),
)
XN = ("x0", "x1", "x2")


class Rep:
    """One reply as its author made it."""
    __slots__ = ("key", "author", "serder", "dt", "act", "sigs", "said", "tab", "v")

    def __init__(self, **k):
        self.sigs = {}
        for a, b in k.items():
            setattr(self, a, b)
        self.said = self.serder.said


class RMsg:
    __slots__ = ("rep", "groups", "cigs")

    def __init__(self, rep, groups=(), cigs=()):
        self.rep, self.groups, self.cigs = rep, list(groups), list(cigs)


class Rpy(kel.Kel):
    name = "reply messages over several nodes"
    components_real = ("keri.core routing (Router, Revery), parsing, eventing (reply handlers, key event logs), serdering, coring",
                       "keri.db basing, subing, koming, dbing (shipped source from /repo/src)")
    rule = ("each run draws transferable authors with rotating multi-signature keys and non-transferable ones, the replies they make "
            "(with skewed, repeated or equal datetimes, signed again after rotations), a network that reorders, splits, repeats and "
            "drops them, an attacker who attaches odd signature groups, and process crashes; non-trivial = a reply was accepted out of "
            "order, from escrow or across a crash")
    probes = ("probe:accepted", "probe:superseded", "probe:stale_refused", "probe:from_escrow", "probe:resigned", "probe:crash_inside")

    def setup(self):
        kel.Kel.setup(self)
        global eventing, parsing, basing, routing, kering, lmdb, filing, CLOCK, coring, helping, fetchTsgs, BASE
        from keri.core import routing
        from keri.help import helping
        from keri.db import fetchTsgs
        from simclock import BASE
        import simclock
        simclock.install()
        eventing, parsing, basing = kw.eventing, kw.parsing, kw.basing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        nid, nn = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
        idents = [dict(deleg=None, eo=0, dnd=0, r=rng.randrange(1 << 30), code=rng.choice(["E", "E", "I", None]),
                       kind=rng.choice(["JSON", "JSON", "CBOR", "MGPK", "CESR"]), pv=rng.choice([1, 2]), wit=0) for _ in range(nid)]
        once = int(rng.random() < prof.get("once", 0.25))
        w = dict(rot=1.2, ixn=0.3, dlv=3.0, rpy=3.0, resign=0.7, rdl=8.0, ratk=0.5, resc=2.0, tick=0.4, crash=0.0, esc=0.2, old=0.6)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.7 else 0.0
        if once:
            w.update(ratk=0.0, old=0.0)
        if prof.get("quiet") and rng.random() < 0.7:
            w.update(ratk=0.0)
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = []
        for _ in range(rng.choice([12, 25, 40, 60]) if tier == "quick" else rng.choice([15, 30, 60, 120])):
            k = rng.choices(names, cum)[0]
            n, i, r = rng.randrange(nn), rng.randrange(nid), rng.randrange(1 << 30)
            if k in ("rot", "ixn"):
                ops.append([k, i, r])
            elif k in ("rpy", "resign"):
                ops.append([k, r])
            elif k == "dlv":
                ops.append(["dlv", n, r, "one"])
            elif k == "rdl":
                ops.append(["rdl", n, r, rng.choices(["one", "dup", "drop"], [8, 1.5, 0 if once else 1])[0]])
            elif k in ("ratk", "old"):
                ops.append([k, n, r])
            elif k in ("esc", "resc"):
                ops.append([k, n])
            elif k == "tick":
                ops.append(["tick", rng.choice([1, 30, 90] if once else [1, 60, 400, 1300, 4000]), n, 0])
            elif k == "crash":
                ops.append(["crash", n, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 25)])
        shape = dict(tabs=rng.choice([["end", "end", "loc", "wat"], ["end"], ["loc"], ["wat"], ["end", "loc"]]), few=int(rng.random() < 0.6),
                     trans=rng.choice([1.0, 0.9, 0.6]))
        return dict(shape=shape, idents=idents, nodes=nn, once=once, fifo=int(rng.random() < 0.5), ops=ops, end=rng.randrange(1 << 30))

    def execute(self, plan, ctx):
        root = kel.scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        run = _RRun(self, plan, ctx, root)
        try:
            run.go()
        finally:
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _RRun(kel._Run):
    # ------------------------------------------------------------------ authors
    def author(self, rng):
        if rng.random() < self.shape["trans"]:
            return rng.choice(self.ids)
        return rng.choice(XN[:2])

    def apre(self, a):
        return a.pre if isinstance(a, Ident) else kw.wpre(a)

    def mkrep(self, rng):
        a = self.author(rng)
        pre = self.apre(a)
        t = rng.choice(self.shape["tabs"])
        few = self.shape["few"]
        act = rng.choice(["add", "add", "cut"])
        if t == "end":
            role, eid = rng.choice(["watcher", "mailbox"][few:]), kw.wpre(rng.choice(["e0", "e1"][few:]))
            key, route = (pre, role, eid), f"/end/role/{act}"
            data = dict(cid=pre, role=role, eid=eid)
        elif t == "loc":
            sch = rng.choice(["http", "tcp"][few:])
            act = rng.choice(["", f"{sch}://a:{rng.randrange(80, 84)}/", f"{sch}://b:{rng.randrange(80, 84)}/"])
            key, route = (pre, sch), "/loc/scheme"
            data = dict(eid=pre, scheme=sch, url=act)
        else:
            wat, oid = kw.wpre(rng.choice(["e0", "e1"][few:])), kw.wpre(rng.choice(["o0", "o1"][few:]))
            key, route = (pre, wat, oid), f"/watcher/{wat}/{act}"
            data = dict(cid=pre, oid=oid)
            if rng.random() < 0.3:
                data["oobi"] = "http://a/oobi"
        old = [r for r in self.reps if (r.tab, r.key) == (t, key)]
        if old and rng.random() < 0.15:
            dt = rng.choice(old).dt              # a tie
        else:
            self.fresh += 1
            dt = CLOCK.t + rng.choice([0, 0, 0, -2000, 300]) * (0 if self.plan["once"] else 1) + self.fresh * 0.001 - rng.choice([0, 0, 20])
        pv = rng.choice([1, 2])
        kw2 = dict(pvrsn=kering.Vrsn_1_0) if pv == 1 else dict(pvrsn=kering.Vrsn_2_0)
        if pv == 1:
            kw2["kind"] = rng.choice(["JSON", "CBOR", "MGPK"])
        else:
            kw2["kind"] = rng.choice(["JSON", "CBOR"])
        s = eventing.reply(pre=pre, route=route, data=data, stamp=helping.toIso8601(BASE + datetime.timedelta(seconds=dt)), **kw2)
        if any(r.said == s.said for r in self.reps):
            return None
        rep = Rep(key=key, author=a, serder=s, dt=dt, act=act, tab=t, v=pv)
        self.reps.append(rep)
        self.byrep[rep.said] = rep
        self.ctx.ev("reply", t, act, s.said)
        return rep

    def sign(self, rep, rng):
        """The author signs the reply with its current keys and sends it to every node."""
        a = rep.author
        if not isinstance(a, Ident):
            rep.sigs[None] = True
            for n in self.nodes:
                n.rq.append(RMsg(rep, cigs=[a]))
            return
        est = a.ks.lest
        again = est.sn in rep.sigs or rep.sigs
        rep.sigs[est.sn] = est
        if again:
            self.ctx.hit("probe:resigned")
        ix = list(range(len(est.keys)))
        for n in self.nodes:
            rng.shuffle(ix)
            if rng.random() < 0.35 and len(ix) > 1:
                j = rng.randint(1, len(ix) - 1)
                n.rq.append(RMsg(rep, [(est, sorted(ix[:j]), ())]))
                n.rq.append(RMsg(rep, [(est, sorted(ix[j:]), ())]))
            else:
                n.rq.append(RMsg(rep, [(est, sorted(ix), ())]))

    def rsig(self, rep, est, i):
        return signer(est.keys[i], True).sign(rep.serder.raw, index=i)

    # ------------------------------------------------------------------ delivery
    def rdeliver(self, n, m, what):
        rep = m.rep
        ctx = self.ctx
        gv = dict(gvrsn=kering.Vrsn_1_0 if rep.v == 1 else kering.Vrsn_2_0)
        tsgs = []
        clean = True
        for est, idx, junk in m.groups:
            sg = [self.rsig(rep, est, i) for i in idx]
            for j in junk:
                if j[0] == "sig":
                    sg.append(junk_siger(j[1], j[2]))
                    clean = False
            sn, dig, pre = est.sn, est.said, est.pre
            for j in junk:
                if j[0] == "sn":
                    sn, clean = j[1], False
                elif j[0] == "dig":
                    dig, clean = j[1], False
                elif j[0] == "pre":
                    pre, clean = j[1], False
            if (sn, dig, pre) == (est.sn, est.said, est.pre):
                n.gave.setdefault((rep.said, est.sn), set()).update(idx)
                if len({i for i in idx}) == 0:
                    clean = False
            if sg:
                tsgs.append((coring.Prefixer(qb64=pre), coring.Number(num=sn), coring.Diger(qb64=dig), sg))
        cigars = []
        for c in m.cigs:
            if isinstance(c, str):
                cigars.append(signer(c, False).sign(rep.serder.raw))
                if c == rep.author:
                    n.gave.setdefault((rep.said, None), set()).add(0)
                else:
                    clean = False
            else:
                cigars.append(signer(c[0], False).sign(c[1].serder.raw))
                clean = False
        if not tsgs and not cigars:
            return False
        kwa = {}
        if tsgs:
            kwa["tsgs"] = tsgs
        if cigars:
            kwa["cigars"] = cigars
        ims = eventing.messagize(rep.serder, **kwa, **gv)
        # what this one message must achieve on its own
        must = None
        cur = n.rec.get((rep.tab, rep.key))
        if clean:
            ranks = [sn for sn in self.ranks(n, rep, [(est.sn, set(idx)) for est, idx, _ in m.groups], bool(m.cigs))]
            if ranks:
                if cur is None or (max(ranks), rep.dt) > (cur[1], cur[0].dt) and self.maxrank(n, cur[0]) <= max(ranks):
                    must = max(ranks)
                if cur is not None and cur[0] is rep:
                    must = max(ranks) if max(ranks) >= self.maxrank(n, rep) else None
        if clean and must is None and cur is not None and cur[0] is not rep:
            hi = max([self.maxrank(n, rep)] + [sn for sn in self.ranks(n, rep, [(e.sn, set(i)) for e, i, _ in m.groups], bool(m.cigs))])
            if (hi, rep.dt) <= (cur[1], cur[0].dt):
                ctx.hit("probe:stale_refused")
        ctx.ev("rdlv", n.i, rep.said, [(e.sn, i, len(j)) for e, i, j in m.groups], len(m.cigs))
        if ctx.log is not None:
            ctx.log.append(f"{what}: {rep.tab}{rep.act} dt={rep.dt:.3f} {rep.said[:8]} groups="
                           f"{[(e.sn, i, j) for e, i, j in m.groups]} cigs={[c if isinstance(c, str) else c[0] for c in m.cigs]}")
        died = self.act(n, lambda: n.psr[rep.v].parse(ims=bytearray(ims)), what)
        if must is not None and not died:
            now = n.rec.get((rep.tab, rep.key))
            ctx.check(now is not None and now[0] is rep, "accept", "accept:refused" + ("" if cur is None else ":later"),
                      lambda: f"node {n.i} was given a fully signed later reply {rep.said} (establishment sn {must}, dt {rep.dt}) for "
                      f"{rep.tab} {rep.key}, but holds {now[0].said if now else None}; {what}")
            if now is not None and now[0] is rep:
                n.rec[(rep.tab, rep.key)] = (rep, max(now[1], must))
        return died

    def ranks(self, n, rep, groups, cig):
        """Establishment event numbers under which these groups fully sign rep, as this node can know."""
        if not isinstance(rep.author, Ident):
            return [-1] if cig else []
        out = []
        for sn, idx in groups:
            est = rep.sigs.get(sn)
            if est is None or n.ref.at(est.pre, sn) is not est:
                continue
            if thr_ok(est.thr, idx):
                out.append(sn)
        return out

    def maxrank(self, n, rep):
        """Highest rank the node could possibly give rep from everything it was ever sent."""
        if not isinstance(rep.author, Ident):
            return -1 if n.gave.get((rep.said, None)) else -2
        r = self.ranks(n, rep, [(sn, s) for (said, sn), s in n.gave.items() if said == rep.said and sn is not None], False)
        return max(r) if r else -2

    # ------------------------------------------------------------------ node
    def boot(self, n):
        kel._Run.boot(self, n)
        n.rtr = routing.Router()
        n.rvy = routing.Revery(db=n.db, rtr=n.rtr, lax=False, local=False)
        n.kvy.rvy = n.rvy
        n.kvy.registerReplyRoutes(n.rtr)
        n.psr = {v: parsing.Parser(framed=False, kvy=n.kvy, rvy=n.rvy, local=False, version=x)
                 for v, x in ((1, kering.Vrsn_1_0), (2, kering.Vrsn_2_0))}
        real = n.rvy.processReply

        def wrap(*a, **k):
            try:
                return real(*a, **k)
            except kering.KeriError:
                raise
            except lmdb.SimCrash:
                raise
            except Exception as ex:
                n.rerrs.append(ex)
                raise
        n.rvy.processReply = wrap
        n.rerrs = []

    def act(self, n, fn, what):
        n.rerrs = []
        died = kel._Run.act(self, n, fn, what)
        for ex in n.rerrs:
            self.ctx.fail("internal", f"processReply:{type(ex).__name__}", f"processReply raised {type(ex).__name__}: {ex} on {what}")
        return died

    def tabs(self, n):
        return dict(end=(n.db.eans, n.db.ends), loc=(n.db.lans, n.db.locs), wat=(n.db.wwas, n.db.obvs))

    def absorb(self, n, what, died=False, full=False):
        kel._Run.absorb(self, n, what, died, full)
        ctx = self.ctx
        for t, (ans, recs) in self.tabs(n).items():
            held = {tuple(k): d.qb64 for k, d in ans.getTopItemIter()}
            vals = {tuple(k): v for k, v in recs.getTopItemIter()}
            for key in sorted(set(held) | set(vals)):
                self.judge(n, t, key, held.get(key), vals.get(key), what, died)
            for (tt, key), (rep, _) in list(n.rec.items()):
                if tt == t and key not in held:
                    ctx.fail("bada", "bada:vanished", f"node {n.i} no longer knows any reply for {t} {key} after {what}")

    def judge(self, n, t, key, said, val, what, died):
        ctx = self.ctx
        if said is None:
            ctx.check((n.i, t, key) in n.shaky or died, "record", f"record:unbacked:{t}",
                      lambda: f"node {n.i} holds {t} record {key} {val} with no reply that authorises it after {what}")
            if died:
                n.shaky.add((n.i, t, key))
            return
        rep = self.byrep.get(said)
        if rep is None or (rep.tab, rep.key) != (t, key):
            ctx.fail("auth", f"auth:misfiled:{t}", f"node {n.i} files {said} under {t} {key} after {what}")
            return
        hi = self.maxrank(n, rep)
        ctx.check(hi >= -1, "auth", f"auth:{'trans' if isinstance(rep.author, Ident) else 'nontrans'}:{t}",
                  lambda: f"node {n.i} accepted {t} reply {said} by {key[0]} without enough valid signatures by that author; after {what}")
        lo = self.evidence(n, rep, what, t, key)
        old = n.rec.get((t, key))
        if old is None or old[0] is not rep:
            if old is not None:
                ctx.check((hi, rep.dt) > (old[1], old[0].dt), "bada", f"bada:rollback:{t}{':crash' if died else ''}",
                          lambda: f"node {n.i} replaced {t} {key} reply {old[0].said} (sn {old[1]}, dt {old[0].dt:.3f}) by "
                          f"{said} (sn {hi}, dt {rep.dt:.3f}) which is not later; after {what}")
                ctx.hit("probe:superseded")
            ctx.hit("probe:accepted")
            if what.startswith("reply escrow"):
                ctx.hit("probe:from_escrow")
                ctx.hit("nontrivial")
            ctx.ev("racc", n.i, t, said)
            n.rec[(t, key)] = (rep, lo)
            n.shaky.discard((n.i, t, key))
        elif lo > old[1]:
            n.rec[(t, key)] = (rep, lo)
        want = rep.act if t == "loc" else rep.act == "add"
        got = None if val is None else val.url if t == "loc" else val.allowed if t == "end" else val.enabled
        if got != want and died:
            n.shaky.add((n.i, t, key))
        if (n.i, t, key) not in n.shaky:
            ctx.check(got == want, "record", f"record:{t}",
                      lambda: f"node {n.i} holds {t} {key} as {got!r} but the accepted reply {said} says {want!r}; after {what}")
        elif got == want:
            n.shaky.discard((n.i, t, key))
        ctx.state((t, key, said[:6], hi))

    def evidence(self, n, rep, what, t, key):
        """The node keeps the reply and signatures that prove it; returns the rank the evidence proves."""
        ctx, said = self.ctx, rep.said
        s = n.db.rpys.get(keys=(said,))
        d = n.db.sdts.get(keys=(said,))
        ctx.check(s is not None and s.said == said and d is not None, "evidence", f"evidence:lost:{t}",
                  lambda: f"node {n.i} accepted {t} reply {said} for {key} but no longer holds the reply itself; after {what}")
        if not isinstance(rep.author, Ident):
            cs = [(v.qb64, c.raw) for v, c in n.db.scgs.get(keys=(said,))]
            ok = (key[0], signer(rep.author, False).sign(rep.serder.raw).raw) in cs
            ctx.check(ok, "evidence", f"evidence:scgs:{t}", lambda: f"node {n.i} lost the signature of accepted {t} reply {said}; after {what}")
            return -1
        rank = -2
        for pre, snr, dgr, sigers in fetchTsgs(n.db.tsgs, coring.Diger(qb64=said)):
            est = rep.sigs.get(snr.sn)
            if est is None or est.pre != pre.qb64 or est.said != dgr.qb64:
                continue
            good = {s.index for s in sigers if s.index < len(est.keys) and s.raw == self.rsig(rep, est, s.index).raw}
            r = self.ranks(n, rep, [(snr.sn, good)], False)
            if r:
                rank = r[0]
                break
        ctx.check(rank >= -1, "evidence", f"evidence:tsgs:{t}",
                  lambda: f"node {n.i} holds no complete signature group for accepted {t} reply {said} of {key}; after {what}")
        return rank

    # ------------------------------------------------------------------ ops
    def one(self, op):
        ctx, k = self.ctx, op[0]
        if k not in ("rpy", "resign", "rdl", "ratk", "old", "resc"):
            return kel._Run.one(self, op)
        ctx.hit("op:" + k)
        if k == "rpy":
            rng = rng_for("rpy", op[1])
            rep = self.mkrep(rng)
            if rep is not None:
                self.sign(rep, rng)
            return
        if k == "resign":
            rng = rng_for("resign", op[1])
            c = [r for r in self.reps if isinstance(r.author, Ident) and r.author.ks.lest.sn not in r.sigs]
            if c:
                self.sign(rng.choice(c[-4:]), rng)
            return
        n = self.nodes[op[1] % len(self.nodes)]
        if k == "rdl":
            if not n.rq:
                return
            rng = rng_for("rdl", op[2])
            j = 0 if self.plan["fifo"] else rng.randrange(min(len(n.rq), 6))
            m = n.rq[j]
            if op[3] == "drop":
                ctx.hit("fault:drop")
                n.rq.pop(j)
                return
            if op[3] == "dup":
                ctx.hit("fault:duplicate")
            else:
                n.rq.pop(j)
            if j:
                ctx.hit("fault:reorder")
                ctx.hit("nontrivial")
            if self.rdeliver(n, m, f"reply to node {n.i}"):
                n.rq.insert(0, m)
        elif k == "old":
            rng = rng_for("old", op[2])
            if self.reps:                     # replay of anything ever made, as it was signed at some time
                rep = rng.choice(self.reps)
                ctx.hit("fault:replay")
                self.rdeliver(n, self.full(rep, rng.choice(list(rep.sigs))), f"replayed reply to node {n.i}")
        elif k == "resc":
            self.resc(n)
        elif k == "ratk":
            self.rattack(n, op[2])

    def full(self, rep, sn):
        if sn is None:
            return RMsg(rep, cigs=[rep.author])
        est = rep.sigs[sn]
        return RMsg(rep, [(est, list(range(len(est.keys))), ())])

    def resc(self, n):
        self.ctx.ev("resc", n.i)
        return self.act(n, n.rvy.processEscrowReply, f"reply escrow on node {n.i}")

    def rattack(self, n, r):
        """A stranger attaches odd groups to a genuine reply, or signs with keys that are no longer current."""
        rng = rng_for("ratk", r)
        if not self.reps:
            return
        rep = rng.choice(self.reps[-6:])
        a = rep.author
        self.ctx.hit("op:attack")
        m = RMsg(rep)
        if not isinstance(a, Ident):
            k = rng.choice(["other", "wrong", "both"])
            if k in ("wrong", "both"):
                m.cigs.append((a, rng.choice([x for x in self.reps if x is not rep] or [rep])) if len(self.reps) > 1 else "x2")
            if k in ("other", "both"):
                m.cigs.append(rng.choice([x for x in XN if x != a]))
            return self.rdeliver(n, m, f"attack to node {n.i}")
        ests = [e for e in a.chain if e.est]
        for _ in range(rng.choice([1, 1, 2])):
            est = rng.choice(list(rep.sigs.values())) if rng.random() < 0.6 else rng.choice(ests)
            real = est.sn in rep.sigs
            ix = sorted(rng.sample(range(len(est.keys)), rng.randint(0, len(est.keys)))) if real else []
            if rng.random() < 0.5:
                ix = ix[:1]
            junk = []
            if not ix or rng.random() < 0.5:
                junk.append(("sig", rng.randrange(4), rng.randrange(99)))
            q = rng.random()
            if q < 0.25:
                junk.append(("sn", est.sn + rng.choice([1, 2, 9]),))
            elif q < 0.4:
                junk.append(("dig", rng.choice(ests).said))
            elif q < 0.5:
                o = rng.choice(self.ids)
                junk.append(("pre", o.pre if o is not a else kw.wpre("x2")))
            m.groups.append((est, ix, tuple(junk)))
        if rng.random() < 0.2:
            m.cigs.append(rng.choice(XN))
        self.rdeliver(n, m, f"attack to node {n.i}")

    def go(self):
        self.reps, self.byrep = [], {}
        self.shape = self.plan["shape"]
        for n in self.nodes:
            n.rq, n.gave, n.rec, n.shaky = [], {}, {}, set()
        kel._Run.go(self)

    # ------------------------------------------------------------------ end
    def final(self):
        ctx, plan = self.ctx, self.plan
        rng = rng_for("end", plan["end"])
        self.healing = True
        once = plan["once"]
        for n in self.nodes:
            n.armed = None
        for n in self.nodes:
            for m in n.q:
                self.deliver(n, m, rng)
            n.q = []
            if not once:
                for ident in self.ids:
                    for ev in ident.chain:
                        self.deliver(n, kel.Msg(ev, sigs=self.sigs_of(ev)), rng)
            for _ in range(4):
                self.escrows(n)
            for m in n.rq:
                self.rdeliver(n, m, f"last reply to node {n.i}")
            n.rq = []
            self.resc(n)
            self.resc(n)
            if not once:
                for _ in range(2):
                    every = [(r, s) for r in self.reps for s in r.sigs]
                    rng.shuffle(every)
                    for rep, s in every:
                        self.rdeliver(n, self.full(rep, s), f"resent reply to node {n.i}")
            self.converged(n)
        if ctx.facets & {"drain", "orphan"}:
            CLOCK.t += 20000
            for n in self.nodes:
                self.resc(n)
                self.resc(n)
                left = n.db.rpes.cntAll()
                ctx.check(left == 0, "drain", "drain:rpes", lambda: f"node {n.i}: {left} replies still in escrow long after the timeout")
                if not ctx.stats.get("op:attack") and not ctx.stats.get("probe:crash_inside"):
                    have = {k[0] for k, _ in n.db.rpys.getTopItemIter()}
                    cur = {rep.said for rep, _ in n.rec.values()}
                    ctx.check(have == cur, "orphan", "orphan:rpys", lambda: f"node {n.i} holds replies {sorted(have - cur)} that nothing refers to, "
                              f"and lacks {sorted(cur - have)}")
                    n.db.tsgs
                    tg = {k[0] for k, _ in n.db.tsgs.getTopItemIter()} | {k[0] for k, _ in n.db.scgs.getTopItemIter()}
                    ctx.check(tg <= cur, "orphan", "orphan:sigs", lambda: f"node {n.i} holds signatures of replies {sorted(tg - cur)} nothing refers to")
        for n in self.nodes:
            n.armed = None
            self.die(n)
            self.absorb(n, "restart", died=True)

    def converged(self, n):
        ctx = self.ctx
        best = {}
        for rep in self.reps:
            a = rep.author
            if isinstance(a, Ident):
                ks = n.ref.ks.get(a.pre)
                if ks is None or ks.said != a.ks.said:
                    continue
                r = max(sn for sn in rep.sigs)
            else:
                r = -1
            best.setdefault((rep.tab, rep.key), []).append((r, rep.dt, rep))
        for k, c in best.items():
            top = max(x[:2] for x in c)
            win = {x[2].said for x in c if x[:2] == top}
            now = n.rec.get(k)
            ctx.check(now is not None and now[0].said in win, "converge", f"converge:{'once' if self.plan['once'] else 'heal'}:{k[0]}",
                      lambda: f"node {n.i} ends with {now[0].said if now else None} for {k}, the latest reply its author made and sent is {win}")
            ctx.check((n.i,) + k not in n.shaky, "record", f"record:heal:{k[0]}",
                      lambda: f"node {n.i} record {k} still differs from its accepted reply after every reply was sent again")
            ctx.hit("probe:converged")


def make(prop):
    return Rpy(prop, FACETS[prop])
