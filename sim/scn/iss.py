"""Layer C: an issuer's own machine.  The operator makes registries, issues and revokes credentials through the shipped Regery, Registry, Registrar,
Credentialer and Verifier over a real wallet; witnesses answer slowly and in part, publication to witnesses takes time, the wallet does other things
in between, and the machine dies inside any write.  What it issued is sent to a holder that knows nothing."""
import contextlib
import hashlib
import io
import os
import shutil
from collections import deque
from types import SimpleNamespace

from core import Scenario, rng_for
import kelworld as kw
from kelworld import scratch_root, signer, wid, wpre

FACETS = dict(
    C01=("early", "pending", "forgot", "log", "cinternal"),
    C02=("cred", "holder", "status", "cforgot"),
)
PROFILE = dict(
    C01=dict(w=dict(turn=2.5, wit=2.0, rev=1.8), crash=0.7, wits=0.7),
    C02=dict(w=dict(iss=2.5, send=1.0, rev=1.0), crash=0.5, wits=0.4),
)


class F:
    """Something the operator set out to do: a registry inception, an issuance or a revocation."""
    def __init__(self, n, kind, reg, cred=None):
        self.n, self.kind, self.reg, self.cred = n, kind, reg, cred
        self.step, self.serder, self.anc, self.done, self.maybe = 0, None, None, False, False
        self.steps = dict(reg=("make", "anchor", "register"), iss=("make", "anchor", "cred", "register"), rev=("make", "anchor", "register"))[kind]
        self.sn = 1 if kind == "rev" else 0
        self.wits = []

    @property
    def key(self):
        return self.serder.pre if self.kind == "reg" else self.cred.said


class Iss(Scenario):
    name = "an issuer's registries and credentials"
    components_real = ("keri.vdr credentialing (Regery, Registry, Registrar, Credentialer, sendCredential), eventing (Tevery, Tever, Reger), verifying; "
                       "keri.vc proving; keri.app habbing, keeping; keri.core eventing, parsing; keri.db (shipped source)")
    components_stub = ("LMDB (in-memory, durable commits), Ed25519 (keyed hash), passcode stretching, witnesses, the HTTP clients that submit to and "
                       "publish at witnesses, the operator, the transport to the holder, wall clock")
    rule = ("each run draws a wallet (witnesses, versions, key event formats), registries, credentials with edges, revocations, other key events between "
            "the steps, slow witnesses, and process crashes; non-trivial = something was completed that waited for witnesses, or a process died inside a write")
    probes = ("probe:completed", "probe:witnessed", "probe:issued", "probe:revoked", "probe:sent", "probe:crash_inside", "probe:rotated_between", "probe:edge")

    def setup(self):
        kw.setup()
        global eventing, parsing, kering, lmdb, filing, CLOCK, coring, habbing, signing, serdering, pysodium, vdr, verifying, credentialing, scheming, basing
        global routing
        with contextlib.redirect_stdout(io.StringIO()):
            from keri.app import habbing
            from keri.core import signing, serdering, scheming, routing
            from keri.vdr import eventing as vdr
            from keri.vdr import verifying, credentialing
            from keri.db import basing
            import pysodium
        eventing, parsing = kw.eventing, kw.parsing
        kering, lmdb, filing, CLOCK, coring = kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring

        def quick(outlen, passwd, salt, opslimit, memlimit, alg=2):
            p = passwd.encode() if hasattr(passwd, "encode") else bytes(passwd)
            return hashlib.shake_256(b"%d|%d|%d|" % (outlen, opslimit, memlimit) + bytes(salt) + b"|" + p).digest(outlen)
        pysodium.crypto_pwhash = quick
        from scn import tel
        tel.scheming, tel.coring = scheming, coring
        self.schema = tel.mkschema(0)

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        w = dict(reg=0.8, iss=1.5, rev=0.7, go=3.0, rot=0.4, ixn=0.5, wit=1.5, pub=1.2, turn=1.5, settle=0.5, restart=0.25, crash=0.0, send=0.3)
        w.update(prof["w"])
        w["crash"] = prof["crash"] if rng.random() < 0.7 else 0.0
        for f in ("rot", "ixn", "restart"):
            if rng.random() < 0.3:
                w[f] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = [["reg", rng.randrange(1 << 30)]]
        for _ in range(rng.choice([12, 25, 40]) if tier == "quick" else rng.choice([20, 40, 80])):
            k = rng.choices(names, cum)[0]
            if k == "crash":
                ops.append([k, rng.choice(["begin", "write", "commit", "commit", "committed"]), rng.randrange(1, 25)])
            else:
                ops.append([k, rng.randrange(1 << 30)])
        return dict(wits=rng.choice([1, 2, 3]) if rng.random() < prof["wits"] else 0, hv=rng.choice([1, 2]), eo=int(rng.random() < 0.15),
                    eager=rng.choice([0.3, 0.8, 1.0]), ops=ops, end=rng.randrange(1 << 30))

    def shrinks(self, plan):
        for f, x in (("wits", 0), ("eo", 0), ("eager", 1.0), ("hv", 1)):
            if plan[f] != x:
                yield dict(plan, **{f: x})

    def execute(self, plan, ctx):
        root = scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        pysodium.reseed(plan["end"])
        run = _CRun(self, plan, ctx, root)
        lmdb.SIM.hook = run.hook
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run.go()
        finally:
            lmdb.SIM.hook = None
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _CRun:
    def __init__(self, scn, plan, ctx, root):
        self.scn, self.plan, self.ctx, self.root = scn, plan, ctx, root
        self.flows, self.regs, self.creds = [], [], []
        self.armed, self.fired, self.live = None, None, False
        self.envs = []
        self.salt = 0
        self.sent = {}            # key -> times published
        self.evwits = {}          # said -> witnesses of that event
        self.tgone = set()

    # ------------------------------------------------------------------ the machine
    def hook(self, kind, env):
        if not self.live or env not in self.envs or self.armed is None or self.armed[0] != kind:
            return
        self.armed[1] -= 1
        if self.armed[1] > 0:
            return
        self.armed = None
        self.fired = kind
        raise lmdb.SimCrash(kind)

    def boot(self):
        d = os.path.join(self.root, "me")
        self.live = False
        self.envs = []
        ver = kering.Vrsn_1_0 if self.plan["hv"] == 1 else kering.Vrsn_2_0
        self.hby = habbing.Habery(name="me", base="", temp=False, headDirPath=d, salt=signing.Salter(raw=b"0123456789abcdef").qb64, tier="low", clear=False)
        self.db = self.hby.db
        reger = vdr.Reger(name="me", base="", temp=False, headDirPath=d, reopen=True, db=self.db)
        self.envs = [self.db.env, self.hby.ks.env, reger.env]
        self.hab = self.hby.habByName("me")
        if self.hab is None:
            wits = [wpre(wid(i)) for i in range(self.plan["wits"])]
            self.hab = self.hby.makeHab(name="me", icount=1, isith="1", ncount=1, nsith="1", wits=wits, toad=len(wits), version=ver)
            self.hby.makeHab(name="you", version=ver)
            self.evwits[self.hab.kever.serder.said] = wits
        self.you = self.hby.habByName("you").pre
        self.reger = reger
        self.rgy = credentialing.Regery(hby=self.hby, name="me", reger=reger)
        self.vry = verifying.Verifier(hby=self.hby, reger=reger)
        self.rgr = credentialing.Registrar(hby=self.hby, rgy=self.rgy, counselor=SimpleNamespace(complete=lambda *a, **k: False))
        self.rgr.receiptor = SimpleNamespace(msgs=deque(), cues=deque())
        self.crd = credentialing.Credentialer(hby=self.hby, rgy=self.rgy, registrar=self.rgr, verifier=self.vry)
        self.kvy = eventing.Kevery(db=self.db, lax=True, local=False)
        self.psr = {v.major: parsing.Parser(framed=True, kvy=self.kvy, version=v) for v in (kering.Vrsn_1_0, kering.Vrsn_2_0)}
        if self.db.schema.get(self.scn.schema.said) is None:
            self.db.schema.pin(self.scn.schema.said, self.scn.schema)
        self.hby.kvy.processEscrows()   # an interrupted own key event is finished before anything else is signed

    def die(self):
        self.live = False
        for env in self.envs:
            lmdb.SIM.crash(env)
        try:
            self.boot()
        except Exception as ex:
            self.fail(("cinternal", "forgot", "cforgot"), f"open:{type(ex).__name__}", f"the machine does not start any more: {type(ex).__name__}: {ex}")
            raise

    def fail(self, facets, sig, msg):
        for f in facets:
            if f in self.scn.facets:
                self.ctx.fail(f, sig, msg)

    def act(self, fn, what):
        self.live, self.fired = True, None
        died, ex, res = False, None, None
        try:
            res = fn()
        except lmdb.SimCrash:
            died = True
        except Exception as e:
            ex = e
        finally:
            self.live = False
        if died or self.fired:
            self.ctx.hit(f"fault:crash_{self.fired}")
            self.ctx.hit("probe:crash_inside")
            self.ctx.hit("nontrivial")
            died = True
            self.die()
        elif ex is not None:
            import traceback
            where = traceback.extract_tb(ex.__traceback__)[-1]
            self.fail(("cinternal", "pending", "cred"), f"{what.split(' ')[0]}:{type(ex).__name__}",
                      f"{what} failed: {type(ex).__name__}: {str(ex)[:200]} ({os.path.basename(where.filename)}:{where.lineno})")
        if self.ctx.log is not None:
            self.ctx.log.append(f"  {what} -> {'died' if died else type(ex).__name__ + ': ' + str(ex)[:140] if ex is not None else 'ok'}")
        self.check(what)
        return died, res, ex

    # ------------------------------------------------------------------ the operator
    def begin(self, kind, rng):
        if kind == "reg":
            self.salt += 1
            f = F(len(self.flows), "reg", None)
            f.name = f"r{self.salt}"
            f.nonce = coring.Noncer(raw=hashlib.blake2b(f"n{self.salt}".encode(), digest_size=32).digest()).qb64
            f.eo = bool(self.plan["eo"] and rng.random() < 0.5)
            f.reg = f
        elif kind == "iss":
            rs = [f for f in self.flows if f.kind == "reg" and f.serder is not None and f.key in self.reger.tevers]
            if not rs:
                return None
            f = F(len(self.flows), "iss", rng.choice(rs))
            self.salt += 1
            edge = rng.choice(self.creds) if self.creds and rng.random() < 0.35 else None
            src = None
            if edge is not None:
                if edge.revoking or edge.recp is not None:
                    edge = None
                else:
                    src = {"d": "", "e0": dict(n=edge.cred.said, s=self.scn.schema.said)}
                    _, src = coring.Saider.saidify(sad=src)
                    self.ctx.hit("probe:edge")
            f.edge, f.revoking = edge, False
            f.recp = self.you if rng.random() < 0.5 else None
            data = dict(claim=f"c{self.salt}", dt=f"2026-01-01T00:{self.salt // 60 % 60:02d}:{self.salt % 60:02d}.000000+00:00")
            died, cred, ex = self.act(lambda: self.crd.create(regname=f.reg.name, recp=f.recp, schema=self.scn.schema.said, source=src, rules=None, data=data),
                                      "create a credential")
            if cred is None:
                return None
            f.cred = cred
        else:
            cs = [f for f in self.creds if not f.revoking and f.done and not any(c.edge is f and not getattr(c, "cdone", False) for c in self.creds)]
            if not cs:
                return None
            i = rng.choice(cs)
            i.revoking = True
            self.salt += 1
            f = F(len(self.flows), "rev", i.reg, i.cred)
            f.iss = i
        f.dt = f"2026-02-01T00:{self.salt // 60 % 60:02d}:{self.salt % 60:02d}.000000+00:00"
        self.flows.append(f)
        if kind == "iss":
            self.creds.append(f)
        self.ctx.ev("begin", kind, f.n)
        return f

    def advance(self, f):
        """The operator takes the next step of f; after a crash it looks where it was and takes the step again."""
        if f.step >= len(f.steps):
            return
        s = f.steps[f.step]
        died, res, ex = getattr(self, "do_" + s)(f)
        if died:
            f.maybe = True
            return
        if ex is None:
            f.step += 1
        self.ctx.ev("step", f.n, f.kind, s, type(ex).__name__ if ex is not None else "ok")

    def do_make(self, f):
        if f.kind == "reg":
            def go():
                return self.rgy.makeRegistry(name=f.name, prefix=self.hab.pre, nonce=f.nonce, noBackers=True, estOnly=f.eo,
                                             version=kering.Vrsn_1_0, kind="JSON").vcp
        elif f.kind == "iss":
            def go():
                return self.rgy.registryByName(f.reg.name).issue(said=f.cred.said, dt=f.dt)
        else:
            def go():
                return self.rgy.regs[f.reg.key].revoke(said=f.cred.said, dt=f.dt)
        r = self.act(go, f"make {f.kind} event")
        if not r[0] and r[2] is None:
            f.serder = r[1]
        return r

    def do_anchor(self, f):
        seal = dict(i=f.serder.pre, s=f.serder.snh, d=f.serder.said)
        if f.maybe:
            self.act(lambda: self.hby.kvy.processEscrows(), "process key event escrows")
            f.anc = self.sealing(seal)
            if f.anc is not None:
                self.evwits.setdefault(f.anc.said, list(self.hab.kever.wits))
                return False, None, None

        def go():
            msg = self.hab.rotate(data=[seal], framed=True) if f.reg.eo else self.hab.interact(data=[seal], framed=True)
            return serdering.SerderKERI(raw=bytes(msg))
        r = self.act(go, f"anchor {f.kind}")
        if not r[0] and r[2] is None:
            f.anc = r[1]
        return r

    def sealing(self, seal):
        for _, _, dig in self.db.kels.getAllItemIter(keys=self.hab.pre):
            e = self.db.evts.get(keys=(self.hab.pre, dig))
            if e is not None and seal in [dict(x) for x in (e.ked.get("a") or []) if isinstance(x, dict)]:
                return e
        return None

    def do_cred(self, f):
        def go():
            try:
                self.crd.issue(f.cred, f.serder)
            except kering.MissingChainError:    # its source is not held yet, it waits
                self.ctx.hit("probe:chain_waits")
        return self.act(go, "issue credential")

    def do_register(self, f):
        if f.kind == "reg":
            return self.act(lambda: self.rgr.incept(iserder=f.serder, anc=f.anc), "register inception")
        if f.kind == "iss":
            return self.act(lambda: self.rgr.issue(f.cred, f.serder, f.anc), "register issuance")
        return self.act(lambda: self.rgr.revoke(f.cred, f.serder, f.anc), "register revocation")

    # ------------------------------------------------------------------ the surroundings
    def wit(self, rng, fully=False):
        """The submitter works on its first message: witnesses answer, perhaps not all yet."""
        q = self.rgr.receiptor
        if not q.msgs:
            return
        m = q.msgs[0]
        dig = self.db.kels.getLast(keys=m["pre"], on=m["sn"])
        if dig is None:
            return
        s = self.db.evts.get(keys=(m["pre"], dig))
        wits = self.evwits.get(dig, [])
        got = {w.index for w in self.db.wigs.get(keys=(m["pre"], dig)) or []}
        new = [i for i in range(len(wits)) if fully or rng.random() < 0.6]
        got |= set(new)
        if wits and new and self.answer(s, new):
            return
        if len(got) == len(wits):
            if wits:
                self.ctx.hit("probe:witnessed")
            q.msgs.popleft()
            q.cues.append(m)
        else:
            self.ctx.hit("fault:slow_witness")

    def answer(self, s, new):
        wits = self.evwits[s.said]
        r = eventing.receipt(pre=s.pre, sn=s.sn, said=s.said, version=s.pvrsn, kind="JSON")
        ws = [signer(self.wids[wits[i]], False).sign(s.raw, index=i) for i in new]
        raw = bytes(eventing.messagize(r, wigers=ws, framed=True, gvrsn=s.pvrsn))
        return self.act(lambda: self.psr[s.pvrsn.major].parse(ims=bytearray(raw)), "receipts arrive")[0]

    def pub(self):
        p = self.rgr.witPub
        if p.msgs:
            m = p.msgs.popleft()
            if m["pre"] in self.hby.habs:
                self.sent[m["said"]] = self.sent.get(m["said"], 0) + 1
                p.cues.append(m)

    def turn(self, rng=None):
        passes = [(self.hby.kvy.processEscrows, "key event escrows"), (self.rgy.processEscrows, "registry escrows"),
                  (self.vry.processEscrows, "verifier escrows"), (self.rgr.processEscrows, "registrar escrows"),
                  (self.crd.processEscrows, "credentialer escrows")]
        if rng is not None and rng.random() < 0.4:      # the passes are separate tasks
            passes = rng.sample(passes, rng.randint(1, 4))
        for fn, what in passes:
            if self.act(fn, what)[0]:
                return

    def one(self, op):
        k = op[0]
        self.ctx.hit("op:" + k)
        if k == "crash":
            self.armed = [op[1], op[2]]
            return
        rng = rng_for(k, op[1])
        CLOCK.t += 5
        if k in ("reg", "iss", "rev"):
            f = self.begin(k, rng)
            if f is not None and rng.random() < self.plan["eager"]:
                for _ in f.steps:
                    self.advance(f)
        elif k == "go":
            fs = [f for f in self.flows if f.step < len(f.steps)]
            if fs:
                self.advance(rng.choice(fs))
        elif k in ("rot", "ixn"):
            cuts, adds = [], []
            if k == "rot" and self.plan["wits"] and rng.random() < 0.6:
                have = list(self.hab.kever.wits)
                spare = [wpre(wid(i)) for i in range(5) if wpre(wid(i)) not in have]
                adds = rng.sample(spare, rng.randint(0, min(1, len(spare))))
                cuts = rng.sample(have, rng.randint(0, max(0, len(have) - 1)))
            if self.flows and any(f.anc is not None and not f.done for f in self.flows):
                self.ctx.hit("probe:rotated_between")
            if k == "rot":
                self.act(lambda: self.hab.rotate(cuts=cuts, adds=adds, toad=len(self.hab.kever.wits) - len(cuts) + len(adds), framed=True), "rotate")
            else:
                self.act(lambda: self.hab.interact(data=[dict(d=coring.Diger(ser=b"%d" % op[1]).qb64)], framed=True), "interact")
        elif k == "wit":
            self.wit(rng)
        elif k == "pub":
            self.pub()
        elif k == "turn":
            self.turn(rng)
        elif k == "settle":
            for _ in range(3):
                self.wit(rng, True)
                self.turn()
                self.pub()
        elif k == "restart":
            self.ctx.hit("fault:restart")
            self.die()
            self.check("restart")
        elif k == "send":
            self.send(rng)

    # ------------------------------------------------------------------ oracle
    def log(self):
        return [d for _, _, d in self.db.kels.getAllItemIter(keys=self.hab.pre)]

    def check(self, what):
        ctx = self.ctx
        for d in self.log():
            if d not in self.evwits:
                k = self.db.evts.get(keys=(self.hab.pre, d))
                e, w = k, None
                while not e.estive:
                    e = self.db.evts.get(keys=(self.hab.pre, e.prior))
                if e.said in self.evwits and e is not k:
                    w = self.evwits[e.said]
                else:                               # a rotation: witnesses before it, changed as it says
                    p = self.db.evts.get(keys=(self.hab.pre, e.prior))
                    while not p.estive:
                        p = self.db.evts.get(keys=(self.hab.pre, p.prior))
                    w = [x for x in self.evwits[p.said] if x not in e.ked["br"]] + list(e.ked["ba"])
                self.evwits[d] = list(w)
        log = set(self.log())
        for f in self.flows:
            if f.serder is None:
                continue
            key, said = f.key, f.serder.said
            at = self.reger.tels.get(keys=key, on=f.sn)
            if at is not None:
                ctx.check(at == said, "log", f"log:other:{f.kind}", lambda: f"registry log of {key} holds {at} at {f.sn}, the operator made {said}; after {what}")
                seal = dict(i=f.serder.pre, s=f.serder.snh, d=said)
                anc = self.sealing(seal)
                ctx.check(anc is not None, "log", f"log:unanchored:{f.kind}", lambda: f"{f.kind} event {said} is in the registry log but no accepted key event seals it; after {what}")
                if (key, f.sn) not in self.tgone and anc is not None:
                    couple = self.reger.ancs.get(keys=(key, said))
                    ok = couple is not None and couple[0].sn == anc.sn and couple[1].qb64 == anc.said
                    ctx.check(ok, "log", f"log:anchor:{f.kind}",
                              lambda: f"{f.kind} event {said} is sealed in key event {anc.sn} {anc.said} but recorded as anchored in "
                              f"{(couple[0].sn, couple[1].qb64) if couple else None}; after {what}")
            done = self.rgr.complete(key, sn=f.sn)
            if done:
                ctx.check(at == said, "early", f"early:log:{f.kind}", lambda: f"{f.kind} event {said} is reported complete but the registry log holds {at} at {f.sn}; after {what}")
                seal = dict(i=f.serder.pre, s=f.serder.snh, d=said)
                anc = self.sealing(seal)
                if anc is not None:
                    wits = self.evwits[anc.said]
                    have = {w.index for w in self.db.wigs.get(keys=(self.hab.pre, anc.said)) or []
                            if w.index < len(wits) and coring.Verfer(qb64=wits[w.index]).verify(w.raw, anc.raw)}
                    ctx.check(len(have) == len(wits), "early", f"early:wits:{f.kind}",
                              lambda: f"{f.kind} event {said} is reported complete but only witnesses {sorted(have)} of {len(wits)} receipted its anchor; after {what}")
                    if wits:
                        ctx.hit("nontrivial")
                ctx.hit("probe:completed")
            elif f.done:
                self.fail(("forgot", ), f"forgot:{f.kind}", f"{f.kind} event {said} was reported complete and no longer is; after {what}")
            f.done = f.done or done
            if f.kind == "iss":
                c = self.crd.complete(said=f.cred.said)
                if c:
                    ctx.check(self.reger.saved.get(keys=f.cred.said) is not None and at == said, "cred", "cred:early",
                              lambda: f"credential {f.cred.said} is reported issued but saved={self.reger.saved.get(keys=f.cred.said) is not None}, registry log at 0: {at}; after {what}")
                    got = self.reger.creds.get(keys=f.cred.said)
                    ctx.check(got is not None and got.raw == f.cred.raw, "cred", "cred:stored", lambda: f"credential {f.cred.said} is reported issued but stored as "
                              f"{got.raw if got else None}; after {what}")
                    ctx.hit("probe:issued")
                elif getattr(f, "cdone", False):
                    self.fail(("cforgot",), "cforgot", f"credential {f.cred.said} was reported issued and no longer is; after {what}")
                f.cdone = getattr(f, "cdone", False) or c
        self.ctx.state((len(self.flows), sum(f.done for f in self.flows), sum(bool(getattr(f, "cdone", 0)) for f in self.flows)))

    # ------------------------------------------------------------------ the holder
    def send(self, rng, f=None):
        cs = [c for c in self.creds if getattr(c, "cdone", False)]
        if not cs or f is None and not ({"holder", "status"} & self.scn.facets):
            return
        late = f is not None
        f = f or rng.choice(cs)
        for d in self.log():
            wits = self.evwits.get(d, [])
            if len(self.db.wigs.get(keys=(self.hab.pre, d)) or []) < len(wits):
                if not late:
                    return
                self.answer(self.db.evts.get(keys=(self.hab.pre, d)), range(len(wits)))
        box = []
        pm = SimpleNamespace(send=lambda serder, attachment, **k: box.append(bytes(serder.raw) + bytes(attachment)))
        died, _, ex = self.act(lambda: credentialing.sendCredential(self.hby, self.hab, self.reger, pm, f.cred, f.recp), "send credential")
        if died or ex is not None:
            return
        self.salt += 1
        d = os.path.join(self.root, f"h{self.salt}")
        name = f"h{self.salt}"
        db = basing.Baser(name=name, base="", temp=False, headDirPath=d, reopen=True)
        reger = vdr.Reger(name=name, base="", temp=False, headDirPath=d, reopen=True, db=db)
        db.schema.pin(self.scn.schema.said, self.scn.schema)
        kvy = eventing.Kevery(db=db, lax=False, local=False)
        hby = SimpleNamespace(name=name, temp=False, inited=True, db=db, kvy=kvy, version=kering.Vrsn_2_0, habs={})
        vry = verifying.Verifier(hby=hby, reger=reger)
        for raw in box:
            parsing.Parser(framed=True, kvy=kvy, tvy=vry.tvy, vry=vry, version=kering.Vrsn_2_0, local=False).parse(ims=bytearray(raw))
        for _ in range(3):
            kvy.processEscrows()
            vry.processEscrows()
        self.ctx.hit("probe:sent")
        todo, chain = [f], []
        while todo:
            c = todo.pop()
            chain.append(c)
            if c.edge is not None:
                todo.append(c.edge)
        revd = [c for c in chain if self.reger.tels.get(keys=c.cred.said, on=1) is not None]
        for c in chain:
            mine = self.rgy.reger.tevers[c.reg.key].vcState(c.cred.said)
            tev = reger.tevers.get(c.reg.key)
            his = tev.vcState(c.cred.said) if tev is not None else None
            self.ctx.check(his is not None and his.et == mine.et and his.s == mine.s, "status", f"status:{mine.et}",
                           lambda: f"the issuer holds credential {c.cred.said} as {mine.et}, the holder sent everything as {his.et if his else None}")
        if not revd:
            for c in chain:
                self.ctx.check(reger.saved.get(keys=c.cred.said) is not None, "holder", f"holder:{'edge' if c is not f else 'root'}",
                               lambda: f"credential {c.cred.said} was issued and sent with everything it needs but a holder that knows nothing else does not accept it")
        for env in (db.env, reger.env):
            lmdb.SIM.crash(env)

    # ------------------------------------------------------------------ the run
    def go(self):
        self.wids = {wpre(wid(i)): wid(i) for i in range(5)}
        self.boot()
        for op in self.plan["ops"]:
            self.one(op)
        self.final()

    def final(self):
        self.armed = None
        rng = rng_for("end", self.plan["end"])
        for f in self.flows:
            for _ in range(6):
                self.advance(f)
        for _ in range(4 + 2 * len(self.flows)):
            for _ in range(2):
                self.wit(rng, True)
            self.turn()
            self.pub()
        for f in self.flows:
            if f.serder is None or f.step < len(f.steps):
                self.fail(("pending",), f"unfinished:{f.kind}", f"the operator can not finish {f.kind} {f.n}: stuck before {f.steps[f.step] if f.step < len(f.steps) else '?'}")
                continue
            self.ctx.check(f.done, "pending", f"pending:{f.kind}",
                           lambda: f"{f.kind} event {f.serder.said} of {f.key} at {f.sn} never completes: in the registry log: "
                           f"{self.reger.tels.get(keys=f.key, on=f.sn)}, anchored in {f.anc.sn if f.anc else None}, "
                           f"receipts {len(self.db.wigs.get(keys=(self.hab.pre, f.anc.said)) or [])} of {len(self.evwits.get(f.anc.said, []))}")
            if f.kind == "rev":
                self.ctx.hit("probe:revoked")
                st = self.reger.tevers[f.reg.key].vcState(f.cred.said)
                self.ctx.check(st is not None and st.et == "rev", "status", "status:own", lambda: f"revoked credential {f.cred.said} has state {st.et if st else None}")
        for f in self.creds:
            if f.serder is None:
                continue
            self.ctx.check(getattr(f, "cdone", False), "cred", "cred:never", lambda: f"credential {f.cred.said} is never reported issued: saved="
                           f"{self.reger.saved.get(keys=f.cred.said) is not None}, registry event complete: {f.done}")
        for f in [c for c in self.creds if getattr(c, "cdone", False)][-2:]:
            self.send(rng, f)


def make(prop):
    return Iss(prop, FACETS[prop])
