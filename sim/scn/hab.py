"""Layer F: a controller's wallet.  Real Habery + Hab + Manager + Keeper + Baser + Configer over the simulated LMDB; the process dies
or storage fails inside any write of either database, is restarted with the right, a wrong or a new passcode, and a remote validator
(real Parser + Kevery + Baser) sees everything the wallet publishes."""
import os
import shutil

from core import Abandon, Scenario, rng_for
import kelworld as kw

FACETS = dict(
    H01=("control", "works", "remote"),
    H02=("fork", "durable", "log"),
    H03=("secret", "auth", "rekey", "works"),
    H04=("fresh", "rollback", "erase", "works"),
    H05=("names", "works", "open"),
)
PROFILE = dict(
    H01=dict(w=dict(rot=4.0), crash=1.2, io=0.5),
    H02=dict(w=dict(rot=2.0, ixn=3.0, esc=1.0), crash=1.5, io=0.5),
    H03=dict(w=dict(rekey=0.7, wrong=0.8, lock=0.2, ingest=0.6), crash=0.3, io=0.0, bran=0.9),
    H04=dict(w=dict(badrot=2.5, badmake=1.0, rot=4.0, ingest=0.6), crash=0.3, io=0.2),
    H05=dict(w=dict(make=2.5, badmake=0.5, dele=1.0, again=0.8, restart=1.0), crash=1.5, io=0.5),
)

class H:
    """One identifier of the wallet, as its controller knows it."""
    def __init__(self, name, ns, pre, kwa):
        self.name, self.ns, self.pre, self.kwa = name, ns, pre, kwa
        self.log = []          # saids in order
        self.keys = []         # current and former key sets, by establishment event
        self.ing = "secrecies" in kwa
        self.clean = True      # no interrupted operation so far
        self.ver = kwa["version"]


class Wallet(Scenario):
    name = "a controller's wallet"
    components_real = ("keri.app habbing (Habery, Hab, Signator), keeping (Manager, Keeper), configing",
                       "keri.core eventing (Kevery, Kever, message makers), parsing, signing, serdering, coring, indexing",
                       "keri.db basing, subing, koming, dbing (shipped source from /repo/src)")
    components_stub = ("LMDB (in-memory, durable commits), Ed25519/X25519/sealed boxes (real algorithms), passcode stretching (a plain "
                       "hash), hio file layer, wall clock")
    rule = ("each run draws a wallet (passcode or none, salty or random keys), a history of makes, rotations, interactions, failing "
            "calls, deletions, passcode changes and restarts, and where storage fails or the process dies; non-trivial = the process "
            "died or storage failed inside a write, or a failing call was made, or the passcode changed")
    probes = ("probe:crash_inside", "probe:rotated", "probe:bad_rotation_refused", "probe:adopted", "probe:wrong_pass_refused", "probe:made_again")

    def setup(self):
        kw.setup()
        global basing, eventing, parsing, kering, lmdb, filing, CLOCK, coring, habbing, keeping, configing, signing, pysodium
        from keri.app import habbing, keeping, configing
        from keri.core import signing
        import pysodium
        import hashlib
        import simclock
        simclock.install()
        basing, eventing, parsing, kering, lmdb, filing, CLOCK, coring = (kw.basing, kw.eventing, kw.parsing, kw.kering, kw.lmdb, kw.filing,
                                                                          kw.CLOCK, kw.coring)

        def quick(outlen, passwd, salt, opslimit, memlimit, alg=2):
            p = passwd.encode() if hasattr(passwd, "encode") else bytes(passwd)
            return hashlib.shake_256(b"%d|%d|%d|" % (outlen, opslimit, memlimit) + bytes(salt) + b"|" + p).digest(outlen)
        pysodium.crypto_pwhash = quick

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        w = dict(make=1.6, rot=2.0, ixn=1.2, sign=0.6, badrot=0.4, badmake=0.15, dele=0.15, again=0.1, restart=0.5, esc=0.3, crash=0.0, io=0.0, rekey=0.0,
                 wrong=0.0, lock=0.0, ingest=0.2, tick=0.3)
        w.update(prof["w"])
        for f in ("crash", "io"):
            w[f] = prof[f] if rng.random() < 0.8 else 0.0
        for f in ("badrot", "badmake", "dele", "again", "rekey", "ingest"):
            if rng.random() < 0.3:
                w[f] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = [["make", rng.randrange(1 << 30)]]
        for _ in range(rng.choice([6, 12, 20, 30]) if tier == "quick" else rng.choice([10, 20, 40, 80])):
            k = rng.choices(names, cum)[0]
            if k in ("crash", "io"):
                ops.append([k, rng.choice(["begin", "write", "write", "commit", "committed"]), rng.randrange(1, 26), rng.choice("ekb")])
                ops.append([rng.choices(["make", "rot", "ixn", "dele", "restart"], [2, 5, 2, 0.4, 0.4])[0], rng.randrange(1 << 30)])
            else:
                ops.append([k, rng.randrange(1 << 30)])
        return dict(bran=int(rng.random() < prof.get("bran", 0.4)), algo=rng.choice(["salty", "salty", "randy"]), seed=rng.randrange(1 << 30), ops=ops,
                    first=[rng.choice(["begin", "write", "commit", "committed"]), rng.randrange(1, 40), "b"] if self.prop in ("H05", "H01") and rng.random() < 0.15
                    else None)

    def shrinks(self, plan):
        if plan["first"]:
            yield dict(plan, first=None)
        if plan["bran"]:
            yield dict(plan, bran=0)
        if plan["algo"] != "salty":
            yield dict(plan, algo="salty")

    def execute(self, plan, ctx):
        root = kw.scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        CLOCK.reset()
        pysodium.reseed(plan["seed"])
        run = _Run(self, plan, ctx, root)
        lmdb.SIM.hook = run.hook
        try:
            run.go()
        finally:
            lmdb.SIM.hook = None
            ctx.simtime += CLOCK.t
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _Run:
    def __init__(self, scn, plan, ctx, root):
        self.scn, self.plan, self.ctx, self.root = scn, plan, ctx, root
        self.armed = None
        self.live = False
        self.hby = self.ks = self.db = None
        self.habs = {}            # (ns, name) -> H
        self.dead = {}            # names lost to a failed or deleted make: (ns, name) -> why
        self.at = {}              # (pre, sn) -> said
        self.used = {}            # public key -> (pre, establishment number)
        self.npass = 0
        self.bran = f"passcode-number-{0:04d}-xyz" if plan["bran"] else None
        self.nname = 0
        self.oldbrans = []
        self.signator = None
        self.wids = {kw.wpre(kw.wid(i)): kw.wid(i) for i in range(4)}
        self.fuzzy = None         # what was going on when the process died

    # ------------------------------------------------------------------ process
    def hook(self, kind, env):
        a = self.armed
        if a is None or not self.live or a[0] != kind:
            return
        if a[2] != "b" and env is not (self.ks.env if a[2] == "k" else self.db.env):
            return
        if env is self.rdb.env:
            return
        a[1] -= 1
        if a[1] > 0:
            return
        self.armed = None
        self.fired = kind
        if a[3] == "io" and kind != "committed":
            raise lmdb.MapFullError("mdb_put: MDB_MAP_FULL: Environment mapsize limit reached")
        raise lmdb.SimCrash(kind)

    def open(self, bran="", **kwa):
        """Start the process on what is on disk."""
        b = self.bran if bran == "" else bran
        self.db = basing.Baser(name="w", base="", temp=False, headDirPath=self.root, reopen=True)
        self.ks = keeping.Keeper(name="w", base="", temp=False, headDirPath=self.root, reopen=True)
        cf = configing.Configer(name="w", base="", temp=False, headDirPath=self.root, reopen=True, clear=False)
        self.hby = habbing.Habery(name="w", base="", temp=False, ks=self.ks, db=self.db, cf=cf, bran=b, algo=self.plan["algo"],
                                  salt=coring.Matter(raw=b"0123456789abcdef", code=coring.MtrDex.Salt_128).qb64, **kwa)

    def kill(self):
        self.live = False
        for env in list(lmdb.SIM.open.values()):
            if env is not self.rdb.env:
                lmdb.SIM.crash(env)
        self.hby = self.db = self.ks = None

    def act(self, fn, what):
        """Run one operation; returns (result, exception, died)."""
        self.fired = None
        self.live = True
        res = ex = None
        died = False
        try:
            res = fn()
        except lmdb.SimCrash:
            died = True
        except Exception as e:
            ex = e
        finally:
            self.live = False
        if self.fired:
            self.ctx.hit(f"fault:{'io' if ex is not None or not died else 'crash'}_{self.fired}")
            self.ctx.hit("probe:crash_inside")
            self.ctx.hit("nontrivial")
            died = True          # after a storage failure the operator restarts the process too
        if self.ctx.log is not None:
            self.ctx.log.append(f"{what} -> {type(ex).__name__ + ': ' + str(ex)[:150] if ex is not None else 'died' if died else 'ok'}")
        return res, ex, died

    def restart(self, what):
        self.kill()
        try:
            self.open()
            self.hby.kvy.processEscrows()      # as the deployed escrow doers do; finishes what was interrupted half way
        except Exception as ex:
            for f in ("open", "control"):
                self.ctx.fail(f, f"open:{type(ex).__name__}", f"the wallet does not open any more after {what}: {type(ex).__name__}: {ex}")
            raise Abandon()

    # ------------------------------------------------------------------ remote
    def feed(self, h, msg, sn, what):
        p = self.psr[2 if h.ver == kering.Vrsn_2_0 else 1]
        p.parse(ims=bytearray(msg))
        s = self.db.evts.get(keys=(h.pre, h.log[sn]))
        ws = self.witsof(h, sn)
        if ws:
            wigers = [kw.signer(self.wids[w], False).sign(s.raw, index=i) for i, w in enumerate(ws)]
            p.parse(ims=eventing.messagize(eventing.receipt(pre=h.pre, sn=sn, said=s.said, version=h.ver, kind=kering.Kinds.json), wigers=wigers, gvrsn=h.ver))
        self.rkvy.processEscrows()
        k = self.rdb.kevers.get(h.pre)
        ok = k is not None and self.rdb.kels.getLast(keys=h.pre, on=sn) == h.log[sn]
        self.ctx.check(ok, "remote", "remote:refused", lambda: f"event {sn} of {h.name} ({h.pre}) as published is not accepted by a validator that has "
                       f"every earlier one; it holds sn {k.sn if k is not None else None}; {what}")

    def witsof(self, h, sn):
        """The witnesses of one event, worked out from the log."""
        ws = []
        for said in h.log[:sn + 1]:
            k = self.db.evts.get(keys=(h.pre, said)).ked
            if k["t"] == "icp":
                ws = list(k["b"])
            elif k["t"] == "rot":
                ws = [w for w in ws if w not in k["br"]] + list(k["ba"])
        return ws

    # ------------------------------------------------------------------ oracles
    def logof(self, pre):
        return [d if isinstance(d, str) else bytes(d).decode() for _, _, d in self.db.kels.getAllItemIter(keys=pre)]

    def extend(self, h, said, what, adopted=False):
        sn = len(h.log)
        old = self.at.get((h.pre, sn))
        self.ctx.check(old in (None, said), "fork", "fork:two", lambda: f"{h.name} ({h.pre}) has two events at sn {sn}: {old} and {said}; {what}")
        self.at[(h.pre, sn)] = said
        h.log.append(said)
        s = self.db.evts.get(keys=(h.pre, said))
        if s is None:
            self.ctx.fail("log", "log:missing", f"event {said} at sn {sn} of {h.name} is in the log but not stored; {what}")
            raise Abandon()
        if s.ked["t"] in ("icp", "rot", "dip", "drt"):
            ks = [k for k in s.ked["k"]]
            for k in ks:
                prev = self.used.get(k)
                self.ctx.check(prev is None, "fresh", "fresh:reused", lambda: f"key {k} of {h.name} establishment {len(h.keys)} was used before in {prev}; {what}")
                self.used[k] = (h.pre, len(h.keys))
            h.keys.append(ks)
        if adopted:
            self.ctx.hit("probe:adopted")
        self.ctx.ev("log", h.pre, sn, said)

    def check_all(self, what, died=False):
        """Everything the wallet must still be."""
        ctx = self.ctx
        for (ns, name), h in self.habs.items():
            hab = self.hby.habs.get(h.pre)
            ctx.check(hab is not None and hab.name == name, "names", "names:lost", lambda: f"identifier {name} ({h.pre}) is gone from the wallet after {what}")
            ctx.check(self.hby.habByName(name, ns=ns) is hab and self.hby.habByPre(h.pre) is hab, "names", "names:unfound",
                      lambda: f"identifier {name} ({h.pre}) is not found by its name after {what}")
            ctx.check(h.pre in self.hby.prefixes, "names", "names:prefix", lambda: f"{h.pre} is not one of the wallet's prefixes after {what}")
            if hab is None:
                ctx.fail("control", "control:lost", f"identifier {name} ({h.pre}) is gone from the wallet after {what}")
                raise Abandon()
            log = self.logof(h.pre)
            ctx.check(log[:len(h.log)] == h.log, "durable" if died else "log", "log:lost",
                      lambda: f"log of {name} was {h.log}, after {what} it is {log}")
            k = hab.kever
            if k is None:
                ctx.fail("control", "control:state", f"identifier {name} ({h.pre}) has no key state after {what}")
                raise Abandon()
            if len(log) > len(h.log):
                # an interrupted operation (or an escrowed one) turned out to have happened
                ctx.check(self.fuzzy is not None and len(log) == len(h.log) + 1, "log", "log:extra",
                          lambda: f"log of {name} grew by {log[len(h.log):]} though nothing was under way; {what}")
                for d in log[len(h.log):]:
                    self.extend(h, d, what, adopted=True)
                    sn = len(h.log) - 1
                    self.feed(h, hab.msgOwnEvent(sn=sn, gvrsn=h.ver), sn, what)
            ctx.check(k.sn == len(h.log) - 1 and k.serder.said == h.log[-1], "log", "log:state",
                      lambda: f"key state of {name} is at sn {k.sn} {k.serder.said} but its log ends with {len(h.log) - 1} {h.log[-1]}; {what}")
            ctx.check([v.qb64 for v in k.verfers] == h.keys[-1], "log", "log:keys", lambda: f"current keys of {name} are not those of its last establishment; {what}")
            self.signs(h, hab, what)
        for hab in list(self.hby.habs.values()):
            if hab.pre not in {h.pre for h in self.habs.values()}:
                ctx.fail("names", "names:ghost", f"the wallet lists {hab.name} ({hab.pre}) that was never made or was deleted; after {what}")
                raise Abandon()
        if self.signator is not None:
            ctx.check(self.hby.signator.pre == self.signator, "names", "names:signator", lambda: f"signator was {self.signator}, is {self.hby.signator.pre}; {what}")
        self.signator = self.hby.signator.pre
        ctx.state((tuple(sorted((n, len(h.log), len(h.keys)) for (_, n), h in self.habs.items())), len(self.dead), self.bran))

    def signs(self, h, hab, what):
        ser = b"challenge " + h.log[-1].encode()
        try:
            sigs = hab.sign(ser)
            ok = len(sigs) == len(hab.kever.verfers) and all(s.verfer.qb64 == hab.kever.verfers[s.index].qb64 and s.verfer.verify(s.raw, ser) for s in sigs)
            why = "its signatures do not verify"
        except Exception as ex:
            ok, why = False, f"{type(ex).__name__}: {ex}"
        self.ctx.check(ok, "control", "control:sign", lambda: f"{h.name} ({h.pre}) can not sign with its current keys: {why}; {what}")
        if not ok and "rekey" in self.ctx.facets:
            self.ctx.fail("rekey", "rekey:sign", f"{h.name} ({h.pre}) can not sign with its current keys: {why}; {what}")
        if not ok:
            raise Abandon()

    def secrets(self):
        """(what, text, raw) of every secret the wallet can read."""
        out = []
        mgr = self.hby.mgr
        for keys, s in self.ks.pris.getTopItemIter(decrypter=mgr.decrypter):
            out.append(("private key of " + keys[0], s.qb64.encode(), s.raw))
        salt = mgr.salt
        if salt:
            out.append(("root salt", salt.encode(), coring.Matter(qb64=salt).raw))
        for keys, pp in self.ks.prms.getTopItemIter():
            if pp.salt:
                s = mgr.decrypter.decrypt(qb64=pp.salt).qb64 if mgr.decrypter else pp.salt
                out.append(("salt of " + keys[0], s.encode(), coring.Matter(qb64=s).raw))
        return out

    def check_secrets(self, what):
        ctx = self.ctx
        if not ({"secret", "rekey"} & ctx.facets):
            return
        try:
            sec = self.secrets()
        except Exception as ex:
            ctx.fail("rekey", f"rekey:unreadable:{type(ex).__name__}", f"the wallet can not read its own secrets after {what}: {type(ex).__name__}: {ex}")
            raise Abandon()
        ctx.evals += 1
        if self.bran is None:
            return
        blobs = b"\x00".join(bytes(v) for o in (self.ks, self.db) for _, _, v in tables(o.env))
        for name, text, raw in sec:
            ctx.check(text not in blobs and raw not in blobs, "secret", "secret:" + name.split(" of ")[0],
                      lambda: f"the {name} lies unencrypted in the databases of a wallet with passcode after {what}")

    # ------------------------------------------------------------------ ops
    def newname(self, rng):
        self.nname += 1
        base = ["alice", "bob", "x", "id", "Ω"][rng.randrange(5)]
        return (None if rng.random() < 0.7 else rng.choice(["ns", "other"]), f"{base}-{self.nname}-")

    def shape(self, rng):
        n = rng.choice([1, 1, 2, 3])
        m = rng.choice([1, 1, 2, 3])
        ver = rng.choice([kering.Vrsn_1_0, kering.Vrsn_2_0])
        kwa = dict(icount=n, isith=f"{rng.randint(1, n):x}", ncount=m, nsith=f"{rng.randint(1, m):x}", version=ver,
                   kind=rng.choice([kering.Kinds.json, kering.Kinds.json, kering.Kinds.cbor]))
        if rng.random() < 0.12:
            kwa.update(transferable=False, icount=1, isith="1")
            del kwa["ncount"], kwa["nsith"]
        elif rng.random() < 0.15:
            kwa.update(ncount=0, nsith="0")
        elif rng.random() < 0.15:
            kwa["estOnly"] = True
        if rng.random() < 0.25 and kwa.get("transferable", True):
            nw = rng.choice([1, 2, 3])
            kwa.update(wits=[kw.wpre(kw.wid(i)) for i in rng.sample(range(4), nw)], toad=rng.choice([None, rng.randint(1, nw)]))
        if rng.random() < 0.2 and kwa.get("transferable", True):
            kwa["data"] = [dict(i="E" + "A" * 43, s="0", d="E" + "B" * 43)]
        return kwa

    def make(self, key, kwa, what):
        ns, name = key
        self.fuzzy = ("make", key)
        hab, ex, died = self.act(lambda: self.hby.makeHab(name=name, ns=ns, **kwa), what)
        if died:
            self.dead[key] = "interrupted"
            self.restart(what)
            hab = self.hby.habByName(name, ns=ns)
            self.adopt(key, kwa, what)
        elif ex is not None:
            return ex
        else:
            self.born(key, hab, kwa, what)
        self.check_all(what, died)
        self.fuzzy = None
        return None

    def adopt(self, key, kwa, what):
        """After an interrupted make the identifier is either wholly there or wholly absent."""
        ns, name = key
        hab = self.hby.habByName(name, ns=ns)
        mine = [h for h in self.hby.habs.values() if h.pre not in {x.pre for x in self.habs.values()}]
        self.ctx.check((hab is None and not mine) or mine == [hab], "names", "names:half",
                       lambda: f"after the interrupted make of {name} the wallet lists {[(h.name, h.pre) for h in mine]} but finds {hab and hab.pre} by name; {what}")
        self.ctx.check(hab is not None or self.db.names.get(keys=("" if ns is None else ns, name)) is None, "names", "names:dangling",
                       lambda: f"the name {name} is still taken although the identifier was not made; {what}")
        if mine:
            self.born(key, mine[0], kwa, what)
            self.dead.pop(key, None)

    def born(self, key, hab, kwa, what):
        ns, name = key
        h = self.habs[key] = H(name, ns, hab.pre, kwa)
        self.dead.pop(key, None)
        log = self.logof(h.pre)
        self.ctx.check(len(log) == 1, "log", "log:made", lambda: f"log of the new identifier {name} is {log}; {what}")
        if not log:
            raise Abandon()
        self.extend(h, log[0], what)
        self.ctx.check(hab.pre == self.db.evts.get(keys=(h.pre, log[0])).pre, "log", "log:pre", "prefix differs")
        self.feed(h, hab.msgOwnInception(gvrsn=h.ver), 0, what)

    def pick(self, rng, rotatable=None):
        ks = sorted(self.habs, key=lambda k: self.nname_of(k))
        if rotatable is not None:
            ks = [k for k in ks if bool(self.hby.habs[self.habs[k].pre].kever.ndigers) == rotatable]
        return self.habs[rng.choice(ks)] if ks else None

    def nname_of(self, k):
        return (k[1], k[0] or "")

    def fixed(self, h):
        """Number of the keys that come after the next ones, when these are among the secrets the identifier was made from."""
        if not h.ing:
            return None
        ps = self.ks.pubs.get(keys=keeping.riKey(h.pre, len(h.keys) + 1))
        return None if ps is None else len(ps.pubs)

    def rotargs(self, h, hab, rng):
        k = hab.kever
        n = len(k.ndigers)
        kwa = dict(version=h.ver, gvrsn=h.ver, kind=h.kwa["kind"])
        if h.ing:
            # the next keys of an identifier made from given secrets are already fixed
            m = self.fixed(h)
            m = rng.choice([1, 2, 3]) if m is None else m
            kwa.update(ncount=m, nsith=f"{rng.randint(1, m):x}" if m else "0")
        elif rng.random() < 0.6:
            m = rng.choice([1, 1, 2, 3])
            kwa.update(ncount=m, nsith=f"{rng.randint(1, m):x}")
            if rng.random() < 0.07:
                kwa.update(ncount=0, nsith="0")
        else:
            kwa.update(ncount=n, nsith=k.ntholder.sith if isinstance(k.ntholder.sith, str) else None)
        if k.wits and rng.random() < 0.5:
            cuts = rng.sample(list(k.wits), rng.randint(0, len(k.wits)))
            adds = [w for w in (kw.wpre(kw.wid(i)) for i in range(4)) if w not in k.wits][:rng.randint(0, 1)]
            nw = len(k.wits) - len(cuts) + len(adds)
            kwa.update(cuts=cuts, adds=adds, toad=rng.choice([None, rng.randint(1, nw)]) if nw else 0)
        if rng.random() < 0.3:
            kwa["data"] = [dict(i="E" + "C" * 43, s="1", d="E" + "D" * 43)]
        return kwa

    def rotate(self, h, kwa, what, must=True, facet="works"):
        hab = self.hby.habs[h.pre]
        sn = len(h.log)
        self.fuzzy = ("rot", h.pre)
        keep = [list(k) for k in h.keys]
        msg, ex, died = self.act(lambda: hab.rotate(**kwa), what)
        if died:
            h.clean = False
            self.restart(what)
            self.check_all(what, died=True)
            self.fuzzy = None
            return True
        if ex is not None:
            if must:
                self.ctx.check(False, facet, f"{facet}:rotate:{type(ex).__name__}", lambda: f"{what}: {h.name} ({h.pre}) can not be rotated: {type(ex).__name__}: {ex}"
                               f"{' from ' + repr(ex.__cause__) if ex.__cause__ is not None else ''}")
                if facet != "control":
                    self.ctx.fail("control", f"control:rotate:{type(ex).__name__}", f"{what}: {h.name} ({h.pre}) can not be rotated: {type(ex).__name__}: {ex}"
                                  f"{' from ' + repr(ex.__cause__) if ex.__cause__ is not None else ''}")
                raise Abandon()
            self.fuzzy = None
            self.check_all(what)
            return False
        log = self.logof(h.pre)
        self.ctx.check(len(log) == sn + 1, "log", "log:rotated", lambda: f"log of {h.name} has {len(log)} events after rotation to sn {sn}; {what}")
        if len(log) != sn + 1:
            raise Abandon()
        self.extend(h, log[sn], what)
        self.feed(h, msg, sn, what)
        self.ctx.hit("probe:rotated")
        if h.clean:
            for old in keep[:-1]:
                for k in old:
                    self.ctx.check(self.ks.pris.get(keys=k, decrypter=self.hby.mgr.decrypter) is None, "erase", "erase:stale",
                                   lambda: f"private key of {k}, stale since an earlier rotation of {h.name}, is still in the keystore; {what}")
        self.fuzzy = None
        self.check_all(what)
        return True

    def one(self, op):
        ctx, k = self.ctx, op[0]
        rng = rng_for(k, op[1]) if len(op) == 2 else None
        ctx.hit("op:" + k)
        if k in ("crash", "io"):
            self.armed = [op[1], op[2], op[3], k]
            return
        if k == "tick":
            CLOCK.t += rng.choice([1, 60, 3600])
        elif k in ("make", "ingest"):
            key = self.newname(rng)
            kwa = self.shape(rng)
            if k == "ingest":
                if not kwa.get("transferable", True) or kwa.get("ncount") == 0:
                    return
                r = rng.randrange(1 << 30)
                kwa["secrecies"] = [[kw.signer(f"ing{r}.{i}.{j}").qb64 for j in range(kwa["icount"] if i == 0 else rng.choice([1, 2]))]
                                    for i in range(rng.choice([1, 2, 3]))]
                if len(kwa["secrecies"]) > 1:
                    m = len(kwa["secrecies"][1])
                    kwa["nsith"] = f"{rng.randint(1, m):x}"
                kwa["icount"] = len(kwa["secrecies"][0])
            if rng.random() < 0.15 and k == "make":
                kwa["algo"] = "randy"
            ex = self.make(key, kwa, f"make {key} {kwa if k == 'make' else 'from secrets'}")
            if ex is not None:
                ctx.fail("works", f"works:make:{type(ex).__name__}", f"makeHab {key} {kwa} failed: {type(ex).__name__}: {ex}")
                raise Abandon()
        elif k == "again":
            if self.dead:
                key = sorted(self.dead, key=self.nname_of)[rng.randrange(len(self.dead))]
                why = self.dead[key]
                kwa = self.shape(rng)
                ex = self.make(key, kwa, f"make {key} again after it was {why}")
                if ex is not None:
                    ctx.fail("names", f"names:again:{why}:{'incepted' if 'Already incepted' in str(ex) else 'other'}",
                             f"the name {key} can not be used again after its make was {why}: {type(ex).__name__}: {ex}")
                    raise Abandon()
                ctx.hit("probe:made_again")
        elif k == "badmake":
            ctx.hit("nontrivial")
            kwa = self.shape(rng)
            bad = rng.choice(["isith", "dupname", "toad"] if self.habs else ["isith", "toad"])
            key = self.newname(rng)
            if bad == "isith":
                kwa["isith"] = f"{kwa['icount'] + 1:x}"
            elif bad == "toad":
                kwa["toad"] = 5
            else:
                key = sorted(self.habs, key=self.nname_of)[rng.randrange(len(self.habs))]
                kwa["algo"] = "randy"
            self.fuzzy = ("badmake", key)
            hab, ex, died = self.act(lambda: self.hby.makeHab(name=key[1], ns=key[0], **kwa), f"bad make {bad} {key}")
            if died:
                self.restart("bad make")
            elif ex is None:
                ctx.hit("badmake_accepted")
                ctx.fail("works", "works:badmake", f"makeHab {key} with bad {bad} {kwa} was accepted")
                raise Abandon()
            if key not in self.habs:
                self.dead[key] = "refused"
                if died:
                    self.adopt(key, kwa, "bad make")
            self.check_all(f"refused make {bad}", died)
            self.fuzzy = None
        elif k == "rot":
            h = self.pick(rng, rotatable=True)
            if h is not None:
                self.rotate(h, self.rotargs(h, self.hby.habs[h.pre], rng), f"rotate {h.name}")
        elif k == "badrot":
            h = self.pick(rng, rotatable=None)
            if h is not None:
                hab = self.hby.habs[h.pre]
                kwa = self.rotargs(h, hab, rng) if hab.kever.ndigers else dict(version=h.ver, gvrsn=h.ver)
                bad = rng.choice(["isith", "nsith", "cuts", "toad"])
                if not hab.kever.ndigers:
                    bad = "nontrans"
                elif bad == "isith":
                    kwa["isith"] = f"{len(hab.kever.ndigers) + 1:x}"
                elif bad == "nsith":
                    kwa["ncount"] = rng.choice([1, 2, 3])
                    kwa["nsith"] = f"{kwa['ncount'] + 1:x}"
                elif bad == "cuts":
                    kwa["cuts"] = [kw.wpre(kw.wid(9))]
                elif bad == "toad":
                    kwa["toad"] = 7
                sits = self.ks.sits.get(keys=h.pre)
                before = None if sits is None else (sits.old.pubs, sits.new.pubs, sits.nxt.pubs)
                if not self.rotate(h, kwa, f"bad rotate ({bad}) {h.name}", must=False):
                    ctx.hit("probe:bad_rotation_refused")
                    ctx.hit("nontrivial")
                    sits = self.ks.sits.get(keys=h.pre)
                    now = None if sits is None else (sits.old.pubs, sits.new.pubs, sits.nxt.pubs)
                    ctx.check(now == before or not h.clean, "rollback", "rollback:sits", lambda: f"a refused rotation of {h.name} ({bad}) changed the keys the wallet considers "
                              f"current or next: {before} became {now}")
        elif k == "ixn":
            h = self.pick(rng)
            if h is None:
                return
            hab = self.hby.habs[h.pre]
            sn = len(h.log)
            data = [dict(i="E" + "F" * 43, s="2", d="E" + "G" * 43)] if rng.random() < 0.5 else None
            what = f"interact {h.name}"
            self.fuzzy = ("ixn", h.pre)
            msg, ex, died = self.act(lambda: hab.interact(data=data, version=h.ver, gvrsn=h.ver, kind=h.kwa["kind"]), what)
            if died:
                self.restart(what)
                self.check_all(what, died=True)
            elif ex is not None:
                may = hab.kever.estOnly or not hab.kever.transferable
                ctx.check(may, "works", f"works:interact:{type(ex).__name__}", lambda: f"{what} failed: {type(ex).__name__}: {ex} {ex.__cause__!r}")
                if not may:
                    raise Abandon()
                self.check_all(what)
            else:
                log = self.logof(h.pre)
                if len(log) != sn + 1:
                    ctx.fail("log", "log:interacted", f"log of {h.name} has {len(log)} events after interaction {sn}")
                    raise Abandon()
                self.extend(h, log[sn], what)
                self.feed(h, msg, sn, what)
                self.check_all(what)
            self.fuzzy = None
        elif k == "sign":
            self.check_all("sign")
        elif k == "esc":
            self.fuzzy = ("esc", None)
            _, ex, died = self.act(self.hby.kvy.processEscrows, "process escrows")
            if died:
                self.restart("escrow pass")
            self.check_all("escrow pass", died)
            self.fuzzy = None
        elif k == "dele":
            h = self.pick(rng)
            if h is None:
                return
            key = (h.ns, h.name)
            what = f"delete {key}"
            ok, ex, died = self.act(lambda: self.hby.deleteHab(h.name, ns=h.ns), what)
            if ex is not None and not died:
                ctx.fail("works", f"works:delete:{type(ex).__name__}", f"{what} failed: {type(ex).__name__}: {ex}")
                raise Abandon()
            if died:
                self.restart(what)
                hab = self.hby.habs.get(h.pre)
                if hab is None:
                    del self.habs[key]
                    self.dead[key] = "deleted"
                    ctx.check(self.hby.habByName(h.name, ns=h.ns) is None and self.db.names.get(keys=(h.ns or "", h.name)) is None, "names", "names:dangling",
                              lambda: f"the name {key} is still taken after an interrupted delete")
            else:
                ctx.check(ok is True, "names", "names:delete", lambda: f"{what} returned {ok}")
                del self.habs[key]
                self.dead[key] = "deleted"
                ctx.check(self.hby.habByName(h.name, ns=h.ns) is None, "names", "names:undeleted", lambda: f"{key} is still there after {what}")
            self.check_all(what, died)
        elif k == "restart":
            ctx.hit("fault:restart")
            self.kill()
            _, ex, died = self.act(self.open, "open")
            if died or ex is not None:
                self.restart("open")
            self.check_all("restart", died=True)
            self.check_secrets("restart")
        elif k == "wrong":
            self.wrong(rng)
        elif k == "rekey":
            self.rekey(rng)
        elif k == "lock":
            # a wallet made without passcode is opened with one
            if self.bran is None:
                ctx.hit("nontrivial")
                self.bran = f"passcode-number-{50 + rng.randrange(40):04d}-xyz"
                self.restart("first passcode")
                self.check_all("first passcode", died=True)
                self.check_secrets("first passcode")

    def snapshot(self):
        return [(n, bytes(k), bytes(v)) for n, k, v in tables(self.ks.env)]

    def wrong(self, rng):
        ctx = self.ctx
        if self.bran is None:
            return
        bad = rng.choice([None, "a-wrong-passcode-0123456"] + [b for b in self.oldbrans[-1:] if b != self.bran])
        before = self.snapshot()
        self.kill()
        try:
            self.open(bran=bad)
            ok, why = False, "it was opened"
        except kering.AuthError:
            ok, why = True, ""
        except Exception as ex:
            ok, why = False, f"{type(ex).__name__}: {ex}"
        ctx.check(ok, "auth", "auth:opened", lambda: f"opening the wallet with {'no' if bad is None else 'a wrong'} passcode: {why}")
        if not ok:
            raise Abandon()
        ctx.hit("probe:wrong_pass_refused")
        ctx.hit("nontrivial")
        self.kill()
        self.restart("wrong passcode")
        ctx.check(self.snapshot() == before, "auth", "auth:changed", "a refused passcode changed the keystore")
        self.check_all("wrong passcode", died=True)

    def setpass(self, new):
        """The shipped commands kli passcode set / remove, run on this wallet."""
        import contextlib
        import importlib
        from types import SimpleNamespace
        remove, pset = (importlib.import_module("keri.cli.commands.passcode." + m) for m in ("remove", "set"))
        hby = self.hby

        @contextlib.contextmanager
        def existing(name, base="", bran=None):
            yield hby
        args = SimpleNamespace(name="w", base="", bran=self.bran, new=new)
        mod, fn = (remove, remove.remove) if new is None else (pset, pset.set_passcode)
        keep, mod.existingHby, mod.print = mod.existingHby, existing, lambda *a: None
        try:
            g = fn(lambda: 0.0, args=args)
            next(g)
            with contextlib.suppress(StopIteration):
                g.send(0.0)
        finally:
            mod.existingHby = keep

    def rekey(self, rng):
        ctx = self.ctx
        if self.bran is None:
            return
        ctx.hit("nontrivial")
        self.npass += 1
        new = f"passcode-number-{self.npass:04d}-xyz"
        what = "passcode change"
        if rng.random() < 0.15:
            new, what = None, "passcode removal"
        _, ex, died = self.act(lambda: self.setpass(new), what)
        if died:
            old = self.bran
            for b in (new, old):
                self.kill()
                try:
                    self.open(bran=b)
                    self.bran = b
                    break
                except Exception:
                    continue
            else:
                ctx.fail("rekey", "rekey:crash", "after a crash inside a passcode change the wallet opens with neither the old nor the new passcode")
                raise Abandon()
            try:
                self.secrets()
                ok, why = True, ""
            except Exception as e:
                ok, why = False, f"{type(e).__name__}: {e}"
            ctx.check(ok, "rekey", "rekey:crash", lambda: f"after a crash inside a passcode change the wallet opens but can not read all of its secrets: {why}")
            if not ok:
                raise Abandon()
            if self.bran == new:
                self.oldbrans.append(old)
        elif ex is not None:
            ctx.fail("rekey", f"rekey:{type(ex).__name__}", f"passcode change failed: {type(ex).__name__}: {ex}")
            raise Abandon()
        else:
            self.oldbrans.append(self.bran)
            self.bran = new
        self.check_all(what, died)
        self.check_secrets(what)

    # ------------------------------------------------------------------ run
    def go(self):
        plan, ctx = self.plan, self.ctx
        self.rdb = basing.Baser(name="remote", base="", temp=False, headDirPath=os.path.join(self.root, "r"), reopen=True)
        self.rkvy = eventing.Kevery(db=self.rdb, lax=False, local=False)
        self.psr = {v: parsing.Parser(framed=False, kvy=self.rkvy, local=False, version=x) for v, x in ((1, kering.Vrsn_1_0), (2, kering.Vrsn_2_0))}
        if plan["first"]:
            self.armed = list(plan["first"]) + ["crash"]
        _, ex, died = self.act(self.open, "first open")
        if ex is not None or died:
            self.restart("first open")
        self.armed = None
        self.check_all("first open", died)
        for op in plan["ops"]:
            self.one(op)
        self.armed = None
        self.final()

    def final(self):
        ctx = self.ctx
        self.restart("end")
        self.check_all("end", died=True)
        self.check_secrets("end")
        for key in sorted(self.habs, key=self.nname_of):
            h = self.habs[key]
            for i in range(2):
                hab = self.hby.habs[h.pre]
                if not hab.kever.ndigers:
                    break
                n = len(hab.kever.ndigers)
                m = self.fixed(h)
                th = dict(ncount=n, nsith=hab.kever.ntholder.sith) if m is None else dict(ncount=m, nsith="1" if m else "0")
                self.rotate(h, dict(th, version=h.ver, gvrsn=h.ver, kind=h.kwa["kind"]), f"final rotation {i} of {h.name}",
                            facet="control")
        if {"names"} & ctx.facets or {"works"} & ctx.facets:
            ex = self.make((None, "the-last-one"), dict(icount=1, isith="1", ncount=1, nsith="1", version=kering.Vrsn_2_0, kind=kering.Kinds.json), "last make")
            if ex is not None:
                ctx.fail("works", f"works:make:{type(ex).__name__}", f"no new identifier can be made at the end: {type(ex).__name__}: {ex}")
        # the published log, replayed from the wallet into an empty validator, is the same
        for key in sorted(self.habs, key=self.nname_of):
            h = self.habs[key]
            hab = self.hby.habs[h.pre]
            v = []
            for sn in range(len(h.log)):
                s, sigs, _ = hab.getOwnEvent(sn=sn)
                v.append(s.said)
                ctx.check(len(sigs) > 0, "log", "log:sigs", lambda: f"no signatures kept for event {sn} of {h.name}")
            ctx.check(v == h.log, "log", "log:own", lambda: f"own events of {h.name} are {v}, published {h.log}")


def tables(env):
    """Every committed (table, key, value) of a simulated environment, read below the code under test."""
    return env.dump()


def coring_salter(bran):
    b = coring.MtrDex.Salt_128 + 'A' + bran[:21]
    return signing.Salter(qb64=b).signer(transferable=False, tier=None, temp=None)


def make(prop):
    return Wallet(prop, FACETS[prop])
