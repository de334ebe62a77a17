"""Layer G: a group identifier shared by several members, each a real wallet on its own machine: proposals travel between them as signed exchange
messages, each member's operator approves or not, machines die and restart.  Real Habery + Hab + GroupHab + Exchanger + Multiplexor + Notifier +
Counselor + Parser + Kevery + Baser."""
import contextlib
import io
import os
import shutil
from collections import deque
from fractions import Fraction
from types import SimpleNamespace

from core import Scenario, rng_for
import kelworld as kw
from kelworld import scratch_root, signer, wid, wpre

FACETS = dict(
    G01=("quorum", "consent", "together", "ginternal"),
    G02=("complete", "finished"),
    G03=("told", "shared", "content"),
)
PROFILE = dict(
    G01=dict(w=dict(appr=4.0, forge=0.8), crash=0.4, wits=0.4),
    G02=dict(w=dict(cnsl=3.0, wit=2.0), crash=0.6, wits=0.7),
    G03=dict(w=dict(appr=2.5, dlv=9.0, forge=0.5), crash=0.5, wits=0.2),
)


def met(sith, idxs):
    idxs = set(idxs)
    if isinstance(sith, (list, tuple)):
        return sum(Fraction(sith[i]) for i in idxs if i < len(sith)) >= 1
    return len(idxs) >= int(sith)


class P:
    """One proposed group event."""
    def __init__(self, serder, by, v, gv, prior, mids):
        self.serder, self.by, self.v, self.gv, self.prior, self.mids = serder, by, v, gv, prior, mids
        self.said, self.sn, self.pre, self.ilk = serder.said, serder.sn, serder.pre, serder.ilk
        ked = serder.ked
        if self.ilk == "ixn":
            e = self.est = prior.est
            self.wits, self.toad = prior.wits, prior.toad
        else:
            e = self.est = self
            self.keys, self.digs = list(ked["k"]), list(ked["n"])
            self.kt, self.nt = serder.tholder.sith, serder.ntholder.sith
            self.kt = self.kt if isinstance(self.kt, list) else int(self.kt, 16)
            self.nt = self.nt if isinstance(self.nt, list) else int(self.nt, 16)
            if self.ilk == "icp":
                self.wits = list(ked["b"])
            else:
                self.wits = [w for w in prior.wits if w not in ked["br"]] + list(ked["ba"])
            bt = ked["bt"]
            self.toad = bt if isinstance(bt, int) else int(bt, 16)
        self.appr = {}        # member -> True, or "maybe" when it died while approving
        self.route = dict(icp="/multisig/icp", rot="/multisig/rot", ixn="/multisig/ixn")[self.ilk]

    def enough(self, idxs):
        """Would these signers make it acceptable?"""
        if not met(self.est.kt, idxs):
            return False
        if self.ilk == "rot":
            pd = self.prior.est.digs
            return met(self.prior.est.nt, [pd.index(d) for d in (coring.Diger(ser=self.keys[i].encode()).qb64 for i in idxs) if d in pd])
        return True


class Ex:
    """One exchange message as its sender made it."""
    def __init__(self, p, said, raw, by, v, good=True):
        self.p, self.said, self.raw, self.by, self.v, self.good = p, said, raw, by, v, good
        self.key = None


class Group(Scenario):
    name = "a group identifier and its members"
    components_real = ("keri.app grouping (Counselor, Multiplexor, loadHandlers, multisig*Exn), habbing (Habery, Hab, GroupHab), notifying, keeping",
                       "keri.peer exchanging; keri.core eventing, parsing; keri.db basing, subing, koming, dbing (shipped source)")
    components_stub = ("LMDB (in-memory, durable commits), Ed25519 (real algorithm), passcode stretching, the network between members, witnesses, the "
                       "HTTP client that submits events to witnesses (Receptor), the operators, hio file layer, wall clock")
    rule = ("each run draws 2-4 members, what their operators propose and approve (inceptions, rotations after the members rotated, interactions; "
            "sometimes in conflict), a network that reorders, repeats and drops, forged messages, and process crashes; non-trivial = the group "
            "accepted an event signed by several members, or a process died inside a write")
    probes = ("probe:joined", "probe:rot", "probe:ixn", "probe:replayed", "probe:completed", "probe:witnessed", "probe:crash_inside", "probe:forged")

    def setup(self):
        kw.setup()
        global eventing, parsing, kering, lmdb, filing, CLOCK, coring, habbing, grouping, notifying, signaling, exchanging, signing, serdering, routing, pysodium
        with contextlib.redirect_stdout(io.StringIO()):
            from keri.app import habbing, grouping, notifying, signaling
            from keri.peer import exchanging
            from keri.core import signing, serdering, routing
            import pysodium
            import hashlib
        eventing, parsing = kw.eventing, kw.parsing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring

        def quick(outlen, passwd, salt, opslimit, memlimit, alg=2):
            p = passwd.encode() if hasattr(passwd, "encode") else bytes(passwd)
            return hashlib.shake_256(b"%d|%d|%d|" % (outlen, opslimit, memlimit) + bytes(salt) + b"|" + p).digest(outlen)
        pysodium.crypto_pwhash = quick

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        m = rng.choice([2, 2, 3, 3, 4])
        w = dict(prop=2.0, appr=3.0, mrot=0.5, dlv=7.0, esc=1.5, cnsl=1.5, wit=1.2, restart=0.2, crash=0.0, forge=0.3, turn=0.7, settle=0.7)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.7 else 0.0
        if rng.random() < 0.6:
            w["forge"] = 0.0
        if rng.random() < 0.5:
            w["turn"], w["settle"] = 2.0, 3.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = [["prop", rng.randrange(m), rng.randrange(1 << 30)]]
        for _ in range(rng.choice([15, 30, 45]) if tier == "quick" else rng.choice([20, 40, 80])):
            k = rng.choices(names, cum)[0]
            if k == "dlv":
                ops.append([k, rng.randrange(1 << 30), rng.choices(["one", "dup", "drop"], [8, 1, 0.7])[0]])
            elif k == "crash":
                ops.append([k, rng.randrange(m), rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 25)])
            else:
                ops.append([k, rng.randrange(m), rng.randrange(1 << 30)])
        return dict(members=m, trans=1, wits=int(rng.random() < prof["wits"]), clash=int(rng.random() < 0.15), fifo=int(rng.random() < 0.5), ops=ops,
                    v=rng.choice([1, 2, 0]), end=rng.randrange(1 << 30))

    def shrinks(self, plan):
        for f, x in (("wits", 0), ("clash", 0), ("fifo", 1), ("v", 1)):
            if plan[f] != x:
                yield dict(plan, **{f: x})

    def execute(self, plan, ctx):
        root = scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        pysodium.reseed(plan["end"])
        run = _GRun(self, plan, ctx, root)
        lmdb.SIM.hook = run.hook
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run.go()
        finally:
            lmdb.SIM.hook = None
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _GRun:
    def __init__(self, scn, plan, ctx, root):
        self.scn, self.plan, self.ctx, self.root = scn, plan, ctx, root
        self.cur = None
        self.armed = {}
        self.fired = None
        self.props = {}           # said -> P
        self.exs = []             # Ex
        self.net = []             # [dest, kind, item]
        self.mkel = {}            # member pre -> list of raw messages published
        self.receipted = {}       # (pre, sn) -> said witnesses signed
        self.ms = [SimpleNamespace(i=i, hby=None, dirty=set(), done={}, handed={}, notesnt=set(), errs=[], todo=[], acc={}, odd=set()) for i in range(plan["members"])]
        self.salt = 0

    # ------------------------------------------------------------------ processes
    def hook(self, kind, env):
        m = self.cur
        if m is None or env not in m.envs:
            return
        a = self.armed.get(m.i)
        if a is None or a[0] != kind:
            return
        a[1] -= 1
        if a[1] > 0:
            return
        del self.armed[m.i]
        self.fired = kind
        raise lmdb.SimCrash(kind)

    def boot(self, m):
        d = os.path.join(self.root, f"m{m.i}")
        m.envs = []
        self.cur = None
        m.hby = habbing.Habery(name=f"m{m.i}", base="", temp=False, headDirPath=d, salt=signing.Salter(raw=b"0123456789abcd%02d" % m.i).qb64, tier="low",
                               clear=False)
        m.db = m.hby.db
        noter = notifying.Noter(name=f"m{m.i}", headDirPath=d, reopen=True, temp=False)
        m.envs = [m.hby.db.env, m.hby.ks.env, noter.env]
        m.noter = notifying.Notifier(m.hby, signaler=signaling.Signaler(), noter=noter)
        m.mux = grouping.Multiplexor(m.hby, m.noter)
        m.exc = exchanging.Exchanger(hby=m.hby, handlers=[])
        grouping.loadHandlers(m.exc, m.mux)
        rtr = routing.Router()
        m.rvy = routing.Revery(db=m.db, rtr=rtr)
        m.kvy = eventing.Kevery(db=m.db, lax=True, local=False, rvy=m.rvy)
        m.kvy.registerReplyRoutes(router=rtr)
        m.psr = {v: parsing.Parser(framed=True, kvy=m.kvy, rvy=m.rvy, exc=m.exc, version=x) for v, x in ((1, kering.Vrsn_1_0), (2, kering.Vrsn_2_0))}
        m.cns = grouping.Counselor(hby=m.hby, swain=SimpleNamespace(delegation=lambda **k: None, complete=lambda **k: False))
        m.cns.witDoer = SimpleNamespace(msgs=deque(), gets=deque(), cues=deque())
        m.cns.witq = SimpleNamespace(query=lambda **k: None)
        m.hab = m.hby.habByName("me") or m.hby.makeHab(name="me", icount=1, isith="1", ncount=1, nsith="1", version=kering.Vrsn_1_0 if self.plan["end"] % 2 else
                                                       kering.Vrsn_2_0)
        m.pre = m.hab.pre

    def die(self, m):
        self.cur = None
        for env in m.envs:
            lmdb.SIM.crash(env)
        try:
            self.boot(m)
        except Exception as ex:
            for f in self.scn.facets & {"ginternal", "finished", "shared"}:
                self.ctx.fail(f, f"open:{type(ex).__name__}", f"member {m.i} does not start any more: {type(ex).__name__}: {ex}")
            raise

    def act(self, m, fn, what, check=True):
        """Run code on a member's machine; returns (died, result, exception)."""
        self.cur, self.fired = m, None
        died, ex, res = False, None, None
        try:
            res = fn()
        except lmdb.SimCrash:
            died = True
        except Exception as e:
            ex = e
        finally:
            self.cur = None
        if died or self.fired:
            self.ctx.hit(f"fault:crash_{self.fired}")
            self.ctx.hit("probe:crash_inside")
            self.ctx.hit("nontrivial")
            died = True
            self.die(m)
        if self.ctx.log is not None:
            self.ctx.log.append(f"  {what} on {m.i} -> {'died' if died else type(ex).__name__ + ': ' + str(ex)[:140] if ex is not None else 'ok'}")
        if check:
            self.check(m, what)
        return died, res, ex

    # ------------------------------------------------------------------ operators
    def gname(self, pre):
        return "g" + pre[:8]

    def ghab(self, m, pre):
        return m.hby.habs.get(pre)

    def head(self, m, pre):
        """The last event of the group this member has, if any."""
        k = m.hby.kevers.get(pre) if pre in m.hby.habs else None
        return self.props.get(k.serder.said) if k is not None else None

    def busy(self, m, pre, sn, said=None):
        """The operator already agreed to another event at this place."""
        return any(p.pre == pre and p.sn == sn and m.i in p.appr and p.said != said for p in self.props.values())

    def propose(self, m, rng):
        n = len(self.ms)
        gids = sorted({p.pre for p in self.props.values() if p.ilk == "icp"})
        if not gids or (len(gids) < 2 and rng.random() < 0.06):
            return self.prop_icp(m, rng)
        pre = rng.choice(gids)
        h = self.head(m, pre)
        if h is None:
            return
        sn = h.sn + 1
        if not self.plan["clash"] and any(p.pre == pre and p.sn == sn for p in self.props.values()):
            return
        if self.busy(m, pre, sn) and rng.random() < 0.95:
            return
        gv = rng.choice([1, 2])
        v = self.plan["v"] or rng.choice([1, 2])
        ver = h.serder.pvrsn
        g = kering.Vrsn_2_0 if ver.major == 2 or gv == 2 else kering.Vrsn_1_0
        hab = self.ghab(m, pre)
        if rng.random() < 0.5:
            data = [dict(i=pre, s=f"{rng.randrange(9):x}", d=coring.Diger(ser=b"%d" % rng.randrange(1 << 30)).qb64)]

            def go():
                hab.interact(data=data, framed=True, version=ver, gvrsn=g)
                return sn
        else:
            ks, ds = [], []
            for q in h.mids:
                k = m.hby.kevers.get(q)
                if k is None:
                    return
                ks.append(k.verfers[0])
                ds.append(k.ndigers[0])
            idx = [i for i, k in enumerate(ks) if k.qb64 not in h.est.keys]
            exposed = [x for x in (coring.Diger(ser=k.qb64b).qb64 for k in ks) if x in h.est.digs]
            if not met(h.est.nt, [h.est.digs.index(x) for x in exposed]) and rng.random() < 0.95:
                return
            if m.hby.kevers[m.pre].verfers[0] not in ks and m.hby.kevers[m.pre].verfers[0].qb64 not in [k.qb64 for k in ks]:
                return
            isith, nsith = self.sith(rng, n), self.sith(rng, n)
            adds, cuts = [], []
            if self.plan["wits"] and rng.random() < 0.3:
                c = [wpre(wid(i)) for i in range(3) if wpre(wid(i)) not in h.wits]
                if c:
                    adds = [c[0]]
                if h.wits and rng.random() < 0.5:
                    cuts = [h.wits[0]]

            def go():
                hab.rotate(isith=isith, nsith=nsith, toad=None, cuts=cuts, adds=adds, data=[], verfers=ks, digers=ds, framed=True, version=ver, gvrsn=g)
                return sn
        before = self.escrowed(m, pre, sn)
        died, res, ex = self.act(m, go, f"propose at {sn}", check=False)
        new = [s for s in self.escrowed(m, pre, sn) if s not in self.props]
        for s in self.escrowed(m, pre, sn):
            p = self.props.get(s)
            if p is not None and m.i not in p.appr and (self.mine(m, p) or died):
                p.appr[m.i] = "maybe" if died else True     # what it proposes was proposed already
                if died:
                    m.todo.append(p)
                else:
                    self.publish(m, p)
        if not new:
            if ex is not None:
                self.ctx.hit(f"propose:{type(ex).__name__}")
            return
        for s in new:
            p = P(m.db.evts.get(keys=(pre, s)), m.i, v, gv, h, h.mids)
            self.props[s] = p
            p.appr[m.i] = "maybe" if died or ex is not None else True
            self.ctx.ev("prop", m.i, p.ilk, p.sn, p.said)
            self.check(m, "propose")
            if died:
                m.todo.append(p)
            else:
                self.publish(m, p)

    def sith(self, rng, n):
        if rng.random() < 0.25:
            return [str(Fraction(1, max(1, n - 1)))] * n if n > 1 else "1"
        return f"{rng.choice([n, max(1, n - 1), max(1, n // 2)]):x}"

    def escrowed(self, m, pre, sn):
        """Events of the group this member's machine holds at sn, in or out of its log."""
        out = []
        for (k, *_), v in list(m.db.evts.getTopItemIter(keys=(pre, ""))) if sn is not None else []:
            if v.sn == sn and v.ilk in ("icp", "rot", "ixn", "dip", "drt") and v.said not in out:
                out.append(v.said)
        return out

    def prop_icp(self, m, rng):
        n = len(self.ms)
        mids = [x.pre for x in self.ms]
        rng.shuffle(mids)
        if any(q not in m.hby.kevers for q in mids):
            return
        wits = [wpre(wid(i)) for i in range(rng.choice([1, 2, 3]))] if self.plan["wits"] else []
        ver = rng.choice([kering.Vrsn_1_0, kering.Vrsn_2_0])
        kwa = dict(isith=self.sith(rng, n), nsith=self.sith(rng, n), toad=len(wits) if rng.random() < 0.6 else None, wits=wits, version=ver,
                   kind=rng.choice(["JSON", "JSON", "CBOR", "MGPK"]), estOnly=rng.random() < 0.1, DnD=rng.random() < 0.2)
        self.salt += 1
        name = f"new{self.salt}"
        v, gv = self.plan["v"] or rng.choice([1, 2]), rng.choice([1, 2])
        old = {k[0] for k, _ in m.db.evts.getTopItemIter()}
        died, res, ex = self.act(m, lambda: m.hby.makeGroupHab(group=name, mhab=m.hab, smids=list(mids), rmids=list(mids), **kwa), "propose icp")
        pres = {k[0] for k, _ in m.db.evts.getTopItemIter()} - old
        pres -= {x.pre for x in self.ms}
        if died and not pres:
            # redo as the operator would: make it again (the interrupted one may hold the name)
            self.redo_icp(m, name, mids, kwa)
            pres = {k[0] for k, _ in m.db.evts.getTopItemIter()} - old - {x.pre for x in self.ms}
        if ex is not None and not died:
            self.ctx.fail("ginternal", f"icp:{type(ex).__name__}", f"member {m.i} can not propose a group: {type(ex).__name__}: {ex} {kwa}")
        for pre in sorted(pres):
            s = self.escrowed(m, pre, 0)
            if not s or s[0] in self.props:
                continue
            p = P(m.db.evts.get(keys=(pre, s[0])), m.i, v, gv, None, mids)
            p.kwa, p.name = kwa, name
            self.props[p.said] = p
            p.appr[m.i] = "maybe" if died else True
            self.ctx.ev("prop", m.i, "icp", p.said)
            if died:
                m.todo.append(p)
            else:
                self.publish(m, p)

    def redo_icp(self, m, name, mids, kwa):
        hab = m.hby.habByName(name)
        if hab is not None and hab.pre and self.escrowed(m, hab.pre, 0):
            return hab
        died, res, ex = self.act(m, lambda: m.hby.makeGroupHab(group=name, mhab=m.hab, smids=list(mids), rmids=list(mids), **kwa), "make group again")
        if ex is not None and not died:
            for f in ("finished", "shared", "together"):
                self.ctx.fail(f, f"remake:{type(ex).__name__}", f"member {m.i} died while making the group and can not make it again: {type(ex).__name__}: {ex}")
        return res

    def publish(self, m, p):
        """Tell the others: the member's message with what it signed, and hand the event to the coordinator."""
        hab = self.ghab(m, p.pre)
        if hab is None:
            return
        gvv = kering.Vrsn_2_0 if p.serder.pvrsn.major == 2 or p.gv == 2 else kering.Vrsn_1_0
        ver = kering.Vrsn_1_0 if p.v == 1 else kering.Vrsn_2_0
        box = []

        def go():
            evt = hab.msgOwnEvent(sn=p.sn, allowPartiallySigned=True, framed=True, gvrsn=gvv)
            if serdering.SerderKERI(raw=bytes(evt)).said != p.said:
                return "other"          # the one now in the way at that place is another
            if p.ilk == "icp":
                exn, ims = grouping.multisigInceptExn(m.hab, smids=hab.smids, rmids=hab.rmids, icp=evt, version=ver, gvrsn=gvv, kind="JSON")
            elif p.ilk == "rot":
                exn, ims = grouping.multisigRotateExn(hab, smids=hab.smids, rmids=hab.rmids, rot=bytearray(evt), version=ver, gvrsn=gvv, kind="JSON")
            else:
                exn, ims = grouping.multisigInteractExn(hab, aids=hab.smids, ixn=evt, version=ver, gvrsn=gvv, kind="JSON")
            raw = bytes(exn.raw) + bytes(ims)
            box.append((exn.said, raw))
            m.psr[p.v].parse(ims=bytearray(raw), local=True)
            if m.db.exns.get(keys=(exn.said,)) is None:
                return "lost"
            m.cns.start(ghab=hab, prefixer=coring.Prefixer(qb64=p.pre), number=coring.Number(num=p.sn, code=coring.NumDex.Huge), diger=coring.Diger(qb64=p.said))
            return "ok"
        died, res, ex = self.act(m, go, f"publish {p.ilk}@{p.sn}")
        if box:
            x = Ex(p, box[0][0], box[0][1], m.i, p.v)
            self.exs.append(x)
            for o in self.ms:
                if o is not m:
                    self.net.append([o.i, "exn", x])
        if died:
            m.todo.append(p)
            return
        if ex is not None:
            for f in ("shared", "finished", "ginternal"):
                self.ctx.fail(f, f"publish:{type(ex).__name__}", f"member {m.i} can not share the {p.ilk} at {p.sn} it approved: {type(ex).__name__}: {ex}")
        elif res == "lost":
            for f in ("shared", "ginternal"):
                self.ctx.fail(f, f"publish:refused:{p.ilk}:v{p.v}", f"member {m.i}'s own message on {p.ilk} at {p.sn} is refused by its own machine")
        elif res == "ok":
            p.appr[m.i] = True
            key = self.key(m, x)
            here = {q.qb64 for q in m.db.meids.get(keys=(key,))}
            subs = {q.qb64 for q in m.db.maids.get(keys=(key,))}
            have = self.sigs(m, p)
            for y in self.exs:
                if y.p is p and y.good and y.by != m.i and y.said in here and self.ms[y.by].pre in subs and self.key(m, y) == key:
                    self.ctx.check(self.idx(p, y.by) in have, "shared", f"shared:waiting:{p.ilk}:v{p.v}",
                                   lambda: f"machine {m.i} had the message of {y.by} on the {p.ilk} at {p.sn} when it agreed but holds only {have}")
            m.done[(p.pre, p.sn, p.said)] = False

    def approve(self, m, p, what="approve"):
        """The operator agrees to what it was shown."""
        hab = self.ghab(m, p.pre)
        pre = p.pre
        if p.ilk == "icp":
            if hab is not None and self.escrowed(m, pre, 0):
                p.appr[m.i] = True
                return self.publish(m, p)
            ks = p.serder.ked
            kwa = dict(version=p.serder.pvrsn, kind=p.serder.kind, isith=ks["kt"], nsith=ks["nt"], estOnly="EO" in ks["c"], DnD="DND" in ks["c"], toad=ks["bt"],
                       wits=list(ks["b"]))
            if kwa["kind"] == "CESR":
                return
            if any(q not in m.hby.kevers for q in p.mids):
                return
            cur = [m.hby.kevers[q].verfers[0].qb64 for q in p.mids]
            if cur != p.keys:
                return               # the operator can not reproduce it from what it knows
            name = self.gname(pre)
            p.appr[m.i] = p.appr.get(m.i, "maybe")
            died, res, ex = self.act(m, lambda: m.hby.makeGroupHab(group=name, mhab=m.hab, smids=list(p.mids), rmids=list(p.mids), **kwa), f"{what} icp")
            if died:
                return m.todo.append(p)
            if ex is not None:
                for f in ("shared", "ginternal"):
                    self.ctx.fail(f, f"join:{type(ex).__name__}", f"member {m.i} can not join the group {pre} it was invited to: {type(ex).__name__}: {ex}")
                return
            if res.pre != pre:
                self.ctx.fail("shared", "join:other", f"member {m.i} joined {res.pre} instead of {pre} {kwa}")
                return
        else:
            h = self.head(m, pre)
            if hab is None or h is None:
                return
            if h.said != p.serder.ked["p"]:
                if p.said in self.log(m, pre):
                    if not (m.i in p.appr):
                        return
                else:
                    return
            p0 = p.appr.get(m.i)
            p.appr[m.i] = p0 or "maybe"
            if p.said not in self.log(m, pre):
                if p.ilk == "rot":
                    mine = {v.qb64 for v in m.hby.kevers[m.pre].verfers}
                    if not mine & set(p.keys):
                        if p0 is None:
                            del p.appr[m.i]
                        return
                    fn = lambda: hab.rotate(serder=p.serder, smids=list(p.mids), rmids=list(p.mids), framed=True, gvrsn=p.serder.pvrsn)
                else:
                    fn = lambda: hab.interact(data=p.serder.ked["a"], framed=True, version=p.serder.pvrsn, gvrsn=p.serder.pvrsn)
                died, res, ex = self.act(m, fn, f"{what} {p.ilk}@{p.sn}")
                if died:
                    return m.todo.append(p)
                if ex is not None:
                    if p0 is None and not any(s for s in self.sigs(m, p) if p.est.keys[s] in self.mykeys(m)):
                        del p.appr[m.i]
                    self.ctx.hit(f"approve:{type(ex).__name__}")
                    for f in ("shared", "ginternal"):
                        self.ctx.fail(f, f"approve:{type(ex).__name__}", f"member {m.i} can not sign the {p.ilk} at {p.sn}: {type(ex).__name__}: {ex} {getattr(ex, '__cause__', '')}")
                    return
                if p.ilk == "ixn" and p.said not in self.escrowed(m, pre, p.sn):
                    if p0 is None:
                        del p.appr[m.i]
                    return
        p.appr[m.i] = True
        self.ctx.ev("appr", m.i, p.said)
        self.ctx.hit("probe:joined")
        self.publish(m, p)

    def mykeys(self, m):
        out = set()
        for s in self.mkeys[m.pre]:
            out |= set(s)
        return out

    # ------------------------------------------------------------------ what a machine holds
    def log(self, m, pre):
        return [x if isinstance(x, str) else bytes(x).decode() for x in m.db.kels.getAllIter(keys=pre)]

    def sigs(self, m, p):
        """Signer indices with a genuine signature on p held by m; anything else is reported."""
        out = []
        for s in m.db.sigs.get(keys=(p.pre, p.said)) or []:
            v = coring.Verfer(qb64=p.est.keys[s.index]) if s.index < len(p.est.keys) else None
            if v is not None and v.verify(s.raw, p.serder.raw):
                out.append(s.index)
            else:
                m.odd.add(p.said)
        return out

    def check(self, m, what):
        ctx = self.ctx
        for p in list(self.props.values()):
            if p.ilk == "icp" and p.pre in m.hby.kevers or p.pre in m.hby.habs:
                pass
            else:
                continue
            good = self.sigs(m, p)
            for i in good:
                o = self.ofkey(p.est.keys[i])
                if o is not None:
                    ctx.check(o.i in p.appr, "consent", f"consent:{p.ilk}",
                              lambda: f"member {o.i} never agreed to the {p.ilk} at {p.sn} {p.said} but its signature on it is on machine {m.i} after {what}")
        for pre in sorted({p.pre for p in self.props.values()}):
            lg = self.log(m, pre)
            old = m.acc.get(pre, [])
            for s in lg:
                if s in old:
                    continue
                p = self.props.get(s)
                if p is None:
                    ctx.fail("quorum", "quorum:unknown", f"machine {m.i} accepted a group event nobody proposed: {s} after {what}")
                    continue
                idx = [self.idx(p, j) for j in p.appr]
                idx = [i for i in idx if i is not None]
                ctx.check(p.enough(idx), "quorum", f"quorum:{p.ilk}",
                          lambda: f"machine {m.i} accepted the {p.ilk} at {p.sn} approved only by {sorted(p.appr)} (kt={p.est.kt}) after {what}")
                if s not in m.odd:
                    ctx.check(p.enough(self.sigs(m, p)), "quorum", f"quorum:held:{p.ilk}",
                              lambda: f"machine {m.i} accepted the {p.ilk} at {p.sn} holding only signatures {self.sigs(m, p)} (kt={p.est.kt}) after {what}")
                ctx.hit("probe:" + p.ilk)
                if len(p.appr) > 1:
                    ctx.hit("nontrivial")
            for s in old:
                ctx.check(s in lg, "quorum", "quorum:lost", lambda: f"machine {m.i} no longer has the accepted event {s} after {what}")
            m.acc[pre] = lg
        for key, was in list(m.done.items()):
            pre, sn, said = key
            try:
                got = m.cns.complete(coring.Prefixer(qb64=pre), coring.Number(num=sn, code=coring.NumDex.Huge), coring.Diger(qb64=said))
            except kering.ValidationError:
                got = False       # it completed with another one
            p = self.props[said]
            if got:
                ctx.hit("probe:completed")
                ctx.check(said in self.log(m, pre), "complete", f"complete:unaccepted:{p.ilk}",
                          lambda: f"machine {m.i} says the {p.ilk} at {sn} is complete but it is not in the log after {what}")
                w = self.wigs(m, p)
                ctx.check(len(w) == len(p.wits), "complete", f"complete:unwitnessed:{p.ilk}",
                          lambda: f"machine {m.i} says the {p.ilk} at {sn} is complete with witness receipts {sorted(w)} of {len(p.wits)} after {what}")
                if p.wits:
                    ctx.hit("probe:witnessed")
            elif was:
                ctx.fail("complete", "complete:forgot", f"machine {m.i} said the {p.ilk} at {sn} was complete and no longer does after {what}")
            m.done[key] = bool(got)
        self.check_notes(m, what)

    def wigs(self, m, p):
        out = set()
        for w in m.db.wigs.get(keys=(p.pre, p.said)) or []:
            if w.index < len(p.wits) and coring.Verfer(qb64=p.wits[w.index]).verify(w.raw, p.serder.raw):
                out.add(w.index)
        return out

    def ofkey(self, key):
        for o in self.ms:
            for ks in self.mkeys[o.pre]:
                if key in ks:
                    return o
        return None

    def idx(self, p, j):
        ks = self.mkeys[self.ms[j].pre]
        for i, k in enumerate(p.est.keys):
            if any(k in s for s in ks):
                return i
        return None

    def check_notes(self, m, what):
        """Notices tell of messages the machine really has."""
        ctx = self.ctx
        known = {x.said: x for x in self.exs}
        m.notes = {}
        for n in m.noter.getNotes(0, -1):
            d = n.attrs["d"]
            x = known.get(d)
            m.notes.setdefault(d, []).append(n)
            ctx.check(x is not None and x.good and x.by != m.i and n.attrs["r"] == x.p.route, "told", "told:wrong",
                      lambda: f"machine {m.i} tells its operator about {n.attrs}, sent by nobody, after {what}")
            ctx.check(m.db.exns.get(keys=(d,)) is not None, "told", "told:unbacked", lambda: f"machine {m.i} tells of message {d} it does not have after {what}")
            if x is not None and len(m.notes[d]) > m.handed.get(d, 0):
                ctx.fail("told", "told:twice", f"machine {m.i} told its operator {len(m.notes[d])} times about message {d} it received {m.handed.get(d, 0)} times after {what}")

    # ------------------------------------------------------------------ network
    def deliver(self, m, kind, item, what="deliver"):
        ctx = self.ctx
        if kind == "kel":
            v, raw = item
            self.act(m, lambda: m.psr[v].parse(ims=bytearray(raw)), f"{what} kel")
        elif kind == "rct":
            self.act(m, lambda: m.psr[item[0]].parse(ims=bytearray(item[1])), f"{what} receipts")
        elif kind == "exn":
            x = item
            m.handed[x.said] = m.handed.get(x.said, 0) + 1
            ctx.ev("dlv", m.i, x.said)
            had = self.sigs(m, x.p) if x.p.pre in m.hby.kevers or x.p.pre in m.hby.habs else []
            told0 = len(m.notes.get(x.said, [])) if hasattr(m, "notes") else 0
            agreed = self.agreed(m, x.p)
            died, res, ex = self.act(m, lambda: m.psr[x.v].parse(ims=bytearray(x.raw)), f"{what} {x.p.ilk}@{x.p.sn} message of {x.by} {'' if x.good else 'FORGED'}")
            if ex is not None:
                ctx.fail("ginternal", f"exn:{type(ex).__name__}", f"parsing {x.p.ilk} message of {x.by} on {m.i} raised {type(ex).__name__}: {ex}")
            if not x.good:
                ctx.check(m.db.exns.get(keys=(x.said,)) is None, "content", f"content:{x.kind}", lambda: f"machine {m.i} took a forged message ({x.kind}) as a proposal")
                ctx.hit("probe:forged")
                return
            if died:
                return
            if m.db.exns.get(keys=(x.said,)) is not None:
                self.submitted(m, x, agreed, told0, what)

    def agreed(self, m, p):
        """The member's own approval is on record."""
        if p.appr.get(m.i) is not True:
            return False
        return any(x.p is p and x.by == m.i and m.pre in {q.qb64 for q in m.db.maids.get(keys=(self.key(m, x),))} for x in self.exs)

    def submitted(self, m, x, agreed, told0, what):
        ctx, p = self.ctx, x.p
        if not agreed:
            if p.appr.get(m.i) != "maybe":
                ctx.check(len(m.notes.get(x.said, [])) > 0, "told", f"told:silent:{p.ilk}",
                          lambda: f"machine {m.i} has the message of {x.by} on the {p.ilk} at {p.sn} but never told its operator")
        got = m.mux.get(x.key or self.key(m, x))
        ctx.check(any(g["exn"]["d"] == x.said for g in got), "told", "told:unlisted", lambda: f"machine {m.i}: message {x.said} is not listed with its proposal")
        subs = {s.qb64 for s in m.db.maids.get(keys=(self.key(m, x),))}
        want = {self.ms[y.by].pre for y in self.exs if y.p is p and y.good and m.db.exns.get(keys=(y.said,)) is not None}
        ctx.check(subs <= want and self.ms[x.by].pre in subs, "told", "told:submitters", lambda: f"machine {m.i}: submitters of {p.ilk}@{p.sn} are {subs}, should be {want}")
        for g in got:
            if g["exn"]["d"] == x.said:
                if x.v == 1:
                    f = p.ilk
                    ctx.check(g["exn"]["e"].get(f, {}).get("d") == p.said, "content", "content:embed", lambda: f"machine {m.i} shows another event than {p.said}")
                else:
                    ok = g["nests"] and any(p.serder.raw in bytes(q if not isinstance(q, str) else q.encode()) for q in g["nests"])
                    if p.serder.kind != "CESR" and p.serder.pvrsn.major == 2 or p.serder.kind == "JSON":
                        pass
                    ctx.check(g["exn"]["a"].get(p.ilk) == p.said and bool(g["nests"]), "content", "content:nest", lambda: f"machine {m.i} shows another event than {p.said}")
        if agreed:
            ctx.hit("probe:replayed")
            have = self.sigs(m, p)
            i = self.idx(p, x.by)
            k = m.hby.kevers.get(p.pre)
            ctx.check(i in have, "shared", f"shared:dropped:{p.ilk}:v{x.v}",
                      lambda: f"machine {m.i} agreed to the {p.ilk} at {p.sn} and got the message of {x.by} with its signature (index {i}) but holds only {have}")

    def key(self, m, x):
        if x.key is None:
            s = serdering.SerderKERI(raw=x.raw)
            x.key = s.ked["e"]["d"] if x.v == 1 else x.p.said
        return x.key

    def forge(self, rng):
        """Someone alters a genuine message."""
        c = [x for x in self.exs if x.good]
        if not c:
            return
        x = rng.choice(c)
        ys = [y for y in c if y.by != x.by and y.v == x.v]
        kind = rng.choice(["sig", "sig", "body"])
        size = serdering.SerderKERI(raw=x.raw).size
        if kind == "sig":
            if not ys:
                # nobody else spoke yet: signed by another member
                o = rng.choice([q for q in self.ms if q.i != x.by])
                gen = self.ms[x.by].hab.sign(ser=x.raw[:size], indexed=True)[0].qb64b
                bad = o.hab.sign(ser=x.raw[:size], indexed=True)[0].qb64b
                if gen not in x.raw:
                    return
                kind, raw = "stranger", x.raw.replace(gen, bad)
            else:
                y = rng.choice(ys)
                raw = x.raw[:size] + y.raw[serdering.SerderKERI(raw=y.raw).size:]
            said = x.said
        else:
            # the sender's message said to come from another member
            o = rng.choice([q for q in self.ms if q.i != x.by])
            body = x.raw[:size].replace(self.ms[x.by].pre.encode(), o.pre.encode(), 1)
            try:
                sad = serdering.SerderKERI(raw=x.raw).sad
                sad["i"] = o.pre
                sd = serdering.SerderKERI(sad=sad, makify=True)
            except Exception:
                return
            raw, said = bytes(sd.raw) + x.raw[size:], sd.said
        e = Ex(x.p, said, raw, x.by, x.v, good=False)
        e.kind = kind
        for m in self.ms:
            if m.i != x.by and m.db.exns.get(keys=(said,)) is None:
                self.net.insert(0, [m.i, "forged", e])

    # ------------------------------------------------------------------ steps
    def one(self, op):
        ctx = self.ctx
        k = op[0]
        ctx.hit(f"op:{k}")
        if k == "dlv":
            if not self.net:
                return
            rng = rng_for("dlv", op[1])
            j = 0 if self.plan["fifo"] else rng.randrange(min(len(self.net), 12))
            to, kind, item = self.net[j]
            if op[2] != "dup":
                self.net.pop(j)
            if op[2] == "drop":
                ctx.hit("fault:drop")
                return
            if op[2] == "dup":
                ctx.hit("fault:dup")
            m = self.ms[to]
            if kind == "forged":
                if m.db.exns.get(keys=(item.said,)) is not None or (item.kind != "body" and m.handed.get(item.said)):
                    if op[2] == "dup":
                        self.net.pop(j)
                    return
                died, res, ex = self.act(m, lambda: m.psr[item.v].parse(ims=bytearray(item.raw)), "forged message")
                ctx.hit("probe:forged")
                ctx.check(m.db.exns.get(keys=(item.said,)) is None, "content", f"content:{item.kind}",
                          lambda: f"machine {to} took a forged message ({item.kind}) for a proposal of {item.by}")
                return
            return self.deliver(m, kind, item)
        m = self.ms[op[1]]
        rng = rng_for(k, op[2]) if k != "crash" else None
        if m.todo and k in ("prop", "appr"):
            p = m.todo.pop(0)
            ctx.hit("probe:retried")
            return self.approve(m, p, "retry")
        if k == "prop":
            self.propose(m, rng)
        elif k == "appr":
            c = []
            for x in self.exs:
                if x.by != m.i and x.said in getattr(m, "notes", {}) and m.i not in x.p.appr and x.p not in c:
                    if not (x.p.ilk != "icp" and self.busy(m, x.p.pre, x.p.sn) and not self.plan["clash"]):
                        c.append(x.p)
            if c:
                self.approve(m, rng.choice(c))
        elif k == "mrot":
            self.mrot(m, rng)
        elif k == "turn":
            self.turn(rng)
        elif k == "settle":
            self.settle(rng)
        elif k == "esc":
            self.esc(m)
        elif k == "cnsl":
            self.cnsl(m)
        elif k == "wit":
            self.wit(m)
        elif k == "restart":
            ctx.hit("fault:restart")
            self.die(m)
            self.check(m, "restart")
        elif k == "crash":
            self.armed[m.i] = [op[2], op[3]]
        elif k == "forge":
            self.forge(rng)

    def mrot(self, m, rng):
        """The member rotates its own keys."""
        cur = self.mkeys[m.pre][-1][0]
        heads = [self.head(m, p.pre) or p for p in self.props.values() if p.ilk == "icp"]
        if any(cur not in h.est.keys for h in heads):
            return                   # a second rotation would discard the keys the group still needs
        if not heads and rng.random() < 0.7:
            return
        v = 1 if m.hab.kever.serder.pvrsn.major == 1 else 2
        ver = kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0
        sn = m.hab.kever.sn + 1
        died, res, ex = self.act(m, lambda: m.hab.rotate(version=ver, gvrsn=ver, framed=True), "own rotation")
        if died:
            m.hby.kvy.processEscrows()
        k = m.hab.kever
        if k.sn < sn:
            return
        self.mkeys[m.pre].append([x.qb64 for x in k.verfers])
        raw = bytes(m.hab.msgOwnEvent(sn=k.sn, framed=True, gvrsn=ver))
        self.mkel[m.pre].append((v, raw))
        self.ctx.ev("mrot", m.i, k.sn)
        for o in self.ms:
            if o is not m:
                self.net.append([o.i, "kel", (v, raw)])

    def turn(self, rng):
        """The members rotate one after the other, as before a rotation of the group."""
        heads = [self.head(m, p.pre) for m in self.ms for p in self.props.values() if p.ilk == "icp"]
        if not any(h is not None for h in heads):
            return
        for m in self.ms:
            if rng.random() < 0.85:
                self.mrot(m, rng)
        for m in self.ms:
            for o in self.ms:
                if o is not m and rng.random() < 0.85:
                    for it in self.mkel[o.pre]:
                        self.deliver(m, "kel", it)

    def settle(self, rng):
        """Most of what is under way arrives and most operators answer."""
        for _ in range(40):
            if not self.net:
                break
            self.one(["dlv", rng.randrange(1 << 30), "one"])
        for m in self.ms:
            if rng.random() < 0.8:
                self.one(["appr", m.i, rng.randrange(1 << 30)])
        for m in self.ms:
            if rng.random() < 0.6:
                self.esc(m)
                self.cnsl(m)
                self.wit(m)

    def esc(self, m):
        def go():
            m.kvy.processEscrows()
            m.mux.kvy.processEscrows()
            m.exc.processEscrow()
        before = {x.said for x in self.exs if m.db.exns.get(keys=(x.said,)) is not None}
        agreed = {x.said: self.agreed(m, x.p) for x in self.exs}
        died, res, ex = self.act(m, go, "escrows")
        if ex is not None:
            self.ctx.fail("ginternal", f"esc:{type(ex).__name__}", f"escrow pass on {m.i} raised {type(ex).__name__}: {ex}")
        if not died:
            for x in self.exs:
                if x.good and x.by != m.i and x.said not in before and m.db.exns.get(keys=(x.said,)) is not None:
                    self.submitted(m, x, agreed[x.said], 0, "escrow pass")

    def cnsl(self, m):
        died, res, ex = self.act(m, m.cns.processEscrows, "coordinator")
        if ex is not None:
            for f in ("finished", "ginternal"):
                self.ctx.fail(f, f"cnsl:{type(ex).__name__}", f"coordinator pass on {m.i} raised {type(ex).__name__}: {ex}")

    def receipts(self, p):
        ver = p.serder.pvrsn
        r = eventing.receipt(pre=p.pre, sn=p.sn, said=p.said, version=ver, kind="JSON")
        ws = [signer(self.wids[w], False).sign(p.serder.raw, index=i) for i, w in enumerate(p.wits)]
        return (ver.major, bytes(eventing.messagize(r, wigers=ws, framed=True, gvrsn=ver)))

    def wit(self, m):
        """The machine's receipt submitter runs: sends what the coordinator asked for, fetches what it wants."""
        c = m.cns.witDoer
        if c.msgs:
            q = c.msgs[0]
            pre, sn = q["pre"], q["sn"]
            hab = self.ghab(m, pre)

            def go():
                serder, _, _ = hab.getOwnEvent(sn=sn)
                msg = hab.msgOwnEvent(sn=sn, framed=True, gvrsn=serder.pvrsn)
                s = serdering.SerderKERI(raw=bytes(msg))
                p = self.props.get(s.said)
                return p
            died, p, ex = self.act(m, go, f"submit {sn} to witnesses")
            if died:
                return
            if ex is not None or p is None:
                self.ctx.fail("finished", f"submit:{type(ex).__name__}", f"machine {m.i} can not submit event {sn} to the witnesses: {ex}")
                return
            self.receipted.setdefault((pre, sn), p.said)
            if p.wits and self.receipted[(pre, sn)] == p.said:
                v, raw = self.receipts(p)
                died, _, _ = self.act(m, lambda: m.psr[v].parse(ims=bytearray(raw)), "receipts")
                if died:
                    return
            c.msgs.popleft()
            c.cues.append(q)
            self.ctx.hit("submitted")
        if c.gets:
            q = c.gets.popleft()
            s = self.receipted.get((q["pre"], q["sn"]))
            p = self.props.get(s)
            if p is not None and p.wits:
                v, raw = self.receipts(p)
                self.act(m, lambda: m.psr[v].parse(ims=bytearray(raw)), "fetched receipts")
            c.gets.clear()

    def go(self):
        self.wids = {wpre(wid(i)): wid(i) for i in range(4)}
        self.mkeys = {}
        for m in self.ms:
            self.boot(m)
            self.mkeys[m.pre] = [[x.qb64 for x in m.hab.kever.verfers]]
            v = m.hab.kever.serder.pvrsn
            self.mkel[m.pre] = [(v.major, bytes(m.hab.msgOwnEvent(sn=0, framed=True, gvrsn=v)))]
        for m in self.ms:
            for o in self.ms:
                if o is not m:
                    v, raw = self.mkel[o.pre][0]
                    m.psr[v].parse(ims=bytearray(raw))
            self.check(m, "start")
        for op in self.plan["ops"]:
            self.one(op)
            self.ctx.state(tuple((m.i, tuple(sorted((p, len(l)) for p, l in m.acc.items())), len(m.done)) for m in self.ms))
        self.final()

    # ------------------------------------------------------------------ afterwards
    def final(self):
        """Faults stop; everyone finishes what it agreed to and everything is sent again."""
        ctx = self.ctx
        self.armed = {}
        for rnd in range(3):
            for m in self.ms:
                while m.todo:
                    self.approve(m, m.todo.pop(0), "finish")
            for m in self.ms:
                for o in self.ms:
                    if o is not m:
                        for v, raw in self.mkel[o.pre]:
                            self.deliver(m, "kel", (v, raw), "resend")
                if rnd == 0:
                    # a member that died between agreeing and telling tells now
                    for p in list(self.props.values()):
                        if p.appr.get(m.i) == "maybe" and p not in m.todo and self.mine(m, p):
                            self.approve(m, p, "finish")
            for m in self.ms:
                for x in list(self.exs):
                    if x.by != m.i and x.good:
                        self.deliver(m, "exn", x, "resend")
                self.esc(m)
            for _ in range(4):
                for m in self.ms:
                    self.cnsl(m)
                    for _ in range(3):
                        self.wit(m)
        self.converge()

    def mine(self, m, p):
        k = self.mykeys(m)
        return any(p.est.keys[i] in k for i in self.sigs(m, p)) if self.ghab(m, p.pre) is not None else False

    def converge(self):
        ctx = self.ctx
        for p in sorted(self.props.values(), key=lambda p: (p.pre, p.sn)):
            sure = [j for j, a in p.appr.items() if a is True]
            if not sure or not p.enough([i for i in (self.idx(p, j) for j in sure) if i is not None]):
                continue
            if any(q.pre == p.pre and q.sn == p.sn and q is not p and len(q.appr) > 0 for q in self.props.values()):
                continue      # two at one place: first come first served
            for j in sure:
                m = self.ms[j]
                if p.prior is not None and p.prior.said not in self.log(m, p.pre):
                    continue
                have = self.sigs(m, p)
                miss = [o for o in sure if self.idx(p, o) not in have]
                ctx.check(not miss, "shared", f"shared:missing:{p.ilk}:v{p.v}",
                          lambda: f"at the end machine {j} lacks the signatures of members {miss} on the {p.ilk} at {p.sn}, approved by {sure}, all messages sent again")
                ctx.check(p.said in self.log(m, p.pre), "together", f"together:{p.ilk}",
                          lambda: f"at the end machine {j} has not accepted the {p.ilk} at {p.sn} approved by {sure} (kt={p.est.kt}), all messages sent again")
                if p.said in self.log(m, p.pre) and (p.pre, p.sn, p.said) in m.done:
                    ctx.check(m.done[(p.pre, p.sn, p.said)], "finished", f"finished:{p.ilk}",
                              lambda: f"at the end machine {j} still waits for the {p.ilk} at {p.sn}: accepted, witness receipts {sorted(self.wigs(m, p))} of {len(p.wits)}")


def make(prop):
    return Group(prop, FACETS[prop])
